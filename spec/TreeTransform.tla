----------------------------- MODULE TreeTransform -----------------------------
(* Word splitting, unary flattening and letter case on trees.  A tree is a term   *)
(* [l, leaf, s, f, k]: label (byte or code point sequence), score and features of  *)
(* the edge to its children k.  Positions follow from the word sequence.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

TLeaf(w) == [l |-> w, leaf |-> TRUE, s |-> 0, f |-> {}, k |-> <<>>]
TNode(l, s, f, k) == [l |-> l, leaf |-> FALSE, s |-> s, f |-> f, k |-> k]
RECURSIVE TWords(_)
TWords(t) == IF t.leaf THEN <<t.l>> ELSE FlattenSeq([i \in 1..Len(t.k) |-> TWords(t.k[i])])

\* ---- splitting ---------------------------------------------------------------------------------
\* the pieces of a word at separators: maximal runs of the characters in D (run), or every one alone; the separators stay
SplitAt(w, D, run) ==
  FoldLeft(LAMBDA acc, c :
             IF acc = <<>> THEN <<<<c>>>>
             ELSE LET last == acc[Len(acc)]
                      lastSep == last[Len(last)] \in D
                  IN IF (c \notin D /\ ~lastSep) \/ (c \in D /\ lastSep /\ run)
                     THEN [acc EXCEPT ![Len(acc)] = Append(@, c)] ELSE Append(acc, <<c>>),
           <<>>, w)
\* compound splitting: unigrams: set of <<word, score>>; the best pair of known words of at least minc letters around
\* a filler, in order of position and filler, strictly better than the word itself; frequent and short words stay
Known(U, w) == \E u \in U : u[1] = w
Score(U, w) == (CHOOSE u \in U : u[1] = w)[2]
Compound(w, U, minc, thr, fillers) ==
  LET own == IF Known(U, w) THEN Score(U, w) ELSE -1000000
      cands == FlattenSeq([i \in 1..(IF Len(w) >= 2 * minc THEN Len(w) - 2 * minc + 1 ELSE 0) |->
                 LET p == i + minc - 1
                     a == SubSeq(w, 1, p)
                 IN FlattenSeq([f \in 1..Len(fillers) |->
                      LET fl == fillers[f]
                          b == SubSeq(w, p + Len(fl) + 1, Len(w))
                      IN IF p + Len(fl) <= Len(w) /\ SubSeq(w, p + 1, p + Len(fl)) = fl /\ Known(U, a) /\ Known(U, b)
                         THEN <<[a |-> a, b |-> b, s |-> Score(U, a) + Score(U, b)]>> ELSE <<>>])])
      best == FoldLeft(LAMBDA acc, c : IF c.s > acc.s THEN c ELSE acc, [a |-> w, b |-> <<>>, s |-> 2 * own], cands)
  IN IF Len(w) > 2 * minc /\ (~Known(U, w) \/ Score(U, w) < thr) /\ best.b # <<>> THEN <<best.a, best.b>> ELSE <<w>>

\* a pre-terminal over a word that splits becomes a node over pre-terminals of the same label
RECURSIVE SplitT(_, _)
SplitT(t, pm) ==
  IF t.leaf THEN t
  ELSE IF Len(t.k) = 1 /\ t.k[1].leaf
  THEN LET ps == pm[t.k[1].l]
       IN IF Len(ps) = 1 THEN t ELSE TNode(t.l, t.s, t.f, [i \in 1..Len(ps) |-> TNode(t.l, 0, {}, <<TLeaf(ps[i])>>)])
  ELSE [t EXCEPT !.k = [i \in 1..Len(t.k) |-> SplitT(t.k[i], pm)]]
SplitTree(t, Pieces(_)) == SplitT(t, TLCEval([w \in Range(TWords(t)) |-> Pieces(w)]))

\* ---- flattening: a node over a single node takes over its children, and both labels ---------------
US == 95
RECURSIVE Flatten(_)
Flatten(t) ==
  IF t.leaf THEN t
  ELSE LET ks == TLCEval([i \in 1..Len(t.k) |-> Flatten(t.k[i])])
       IN IF Len(ks) = 1 /\ ~ks[1].leaf THEN TNode(t.l \o <<US>> \o ks[1].l, 0, {}, ks[1].k) ELSE TNode(t.l, 0, {}, ks)

\* ---- letter case (code points: ASCII and Latin-1 letters) -----------------------------------------
LowC(c) == IF c \in 65..90 \/ c \in (192..222 \ {215}) THEN c + 32 ELSE c
UpC(c) == IF c \in 97..122 \/ c \in (224..254 \ {247}) THEN c - 32 ELSE c
Low(w) == [i \in 1..Len(w) |-> LowC(w[i])]
IsLetter(c) == c \in 65..90 \/ c \in 97..122 \/ c \in (192..254 \ {215, 247})
\* every run of letters begins with a capital
Title(w) == [i \in 1..Len(w) |-> IF i = 1 \/ ~IsLetter(w[i - 1]) THEN UpC(w[i]) ELSE LowC(w[i])]
ENDS == {<<46>>, <<58>>, <<33>>, <<63>>}
DELAYS == {<<40>>, <<91>>, <<34>>, <<39>>, <<96>>, <<96, 96>>}
\* is word i the first of a sentence: only brackets, quotes and sentence ends between it and the beginning or a sentence end
First(ws, i) == /\ ws[i] \notin (ENDS \cup DELAYS)
                /\ \A j \in 1..(i - 1) : ws[j] \notin (ENDS \cup DELAYS) => \E k \in (j + 1)..(i - 1) : ws[k] \in ENDS
\* the true-casing model: the last form listed for a lower-cased word
TrueCase(w, model) == LET is == {i \in 1..Len(model) : Low(model[i]) = Low(w)} IN IF is = {} THEN w ELSE model[Max(is)]
CaseWords(ws, how, model) ==
  [i \in 1..Len(ws) |-> CASE how = "low" -> Low(ws[i])
                          [] how = "title" -> IF First(ws, i) THEN Title(ws[i]) ELSE ws[i]
                          [] how = "true" -> IF First(ws, i) THEN TrueCase(ws[i], model) ELSE ws[i]]
\* replace the words of a tree by ws, from position p
RECURSIVE Rewords(_, _, _)
Rewords(t, ws, p) ==
  IF t.leaf THEN [t EXCEPT !.l = ws[p]]
  ELSE [t EXCEPT !.k = [i \in 1..Len(t.k) |->
          Rewords(t.k[i], ws, FoldLeft(LAMBDA a, j : a + Len(TWords(t.k[j])), p, [j \in 1..(i - 1) |-> j]))]]
CaseTree(t, how, model) == CHOOSE x \in {Rewords(t, cw, 1) : cw \in {CaseWords(ws, how, model) : ws \in {TWords(t)}}} : TRUE
================================================================================
