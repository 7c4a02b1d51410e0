----------------------------- MODULE RuleFiltering -----------------------------
(* Rule tables and an input text. A rule's source is a sequence of <<0, word>>    *)
(* and <<1, "">> (a variable, for one word or more).                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

\* the positions after which the rule's source may end, reading from anywhere
Ends(src, sent) ==
  FoldLeft(LAMBDA P, t :
     IF t[1] = 0 THEN {p + 1 : p \in {q \in P : q < Len(sent) /\ sent[q + 1] = t[2]}}
     ELSE IF P = {} THEN {} ELSE (Min(P) + 1)..Len(sent),
     0..Len(sent), src)
Matches(src, sent) == Ends(src, sent) # {}
\* rules without words always may match
Useful(src, sents) == (\A i \in 1..Len(src) : src[i][1] = 1) \/ \E k \in 1..Len(sents) : Matches(src, sents[k])

\* the weaker filter: every run of words between variables is found somewhere
Runs(src) ==
  LET z == FoldLeft(LAMBDA acc, t : IF t[1] = 0 THEN [acc EXCEPT !.cur = Append(@, t[2])]
                                    ELSE [cur |-> <<>>, all |-> IF acc.cur = <<>> THEN acc.all ELSE acc.all \cup {acc.cur}], [cur |-> <<>>, all |-> {}], src)
  IN IF z.cur = <<>> THEN z.all ELSE z.all \cup {z.cur}
Found(run, sents) == \E k \in 1..Len(sents) : \E i \in 1..(Len(sents[k]) - Len(run) + 1) : SubSeq(sents[k], i, i + Len(run) - 1) = run
NWords(src) == Cardinality({i \in 1..Len(src) : src[i][1] = 0})
RunsFound(src, sents, o) ==
  /\ NWords(src) <= o.len /\ Len(src) - NWords(src) <= o.ntlen
  /\ \A r \in Runs(src) : Len(r) <= o.maxrun /\ Found(r, sents)
================================================================================
