------------------------------ MODULE FilterModel ------------------------------
(* All small rules and sentences.                                                *)
EXTENDS RuleFiltering
CONSTANTS V, RuleLen, SentLen, Gapless      \* Gapless: (a mistaken variant) a variable may be empty
VARIABLE x
Toks == {<<0, w>> : w \in V} \cup {<<1, "">>}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Init == x \in Seqs(Toks, RuleLen) \X Seqs(V, SentLen)
Next == UNCHANGED x
\* a match is a way to give each token of the rule its words
Fits == \E b \in 0..Len(x[2]) : \E ls \in [1..Len(x[1]) -> (IF Gapless THEN 0 ELSE 1)..SentLen] :
   LET at == FoldLeft(LAMBDA acc, i : Append(acc, acc[Len(acc)] + ls[i]), <<b>>, [i \in 1..Len(x[1]) |-> i])
   IN at[Len(at)] <= Len(x[2]) /\ \A i \in 1..Len(x[1]) : x[1][i][1] = 1 \/ (ls[i] = 1 /\ x[2][at[i] + 1] = x[1][i][2])
SameMatch == Matches(x[1], x[2]) <=> Fits
\* the weaker filter keeps whatever the exact one keeps
Weaker == Matches(x[1], x[2]) => RunsFound(x[1], <<x[2]>>, [len |-> 100, ntlen |-> 100, maxrun |-> 100])
================================================================================
