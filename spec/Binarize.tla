-------------------------------- MODULE Binarize --------------------------------
(* Binarization of parse forests.                                                 *)
(* An original node is known by its key <<label, b, e>>; a node of the result     *)
(* that carries no original key stands for a sequence of two or more adjacent     *)
(* children of an original edge.                                                  *)
EXTENDS HyperGraph

\* all choices of one member from each set of a sequence of sets
SeqSets(ss) == FoldLeft(LAMBDA acc, S : {Append(a, x) : a \in acc, x \in S}, {<<>>}, ss)
BKey(g, n) == <<g.nodes[n + 1].sym, g.nodes[n + 1].b, g.nodes[n + 1].e>>
UsedNodes(g) == {g.edges[i].h : i \in 1..Len(g.edges)} \cup UNION {Range(g.edges[i].t) : i \in 1..Len(g.edges)}
PUNC == {"'.", "'$.", "',", "'$,"}
\* how a sequence of k >= 2 children is divided: <<left part, right part>>
RightSplit(s) == <<<<s[1]>>, Tail(s)>>
LeftSplit(s) == <<SubSeq(s, 1, Len(s) - 1), <<s[Len(s)]>>>>
\* the divisions each mode makes; lab(x): label of an original node.  With raised punctuation a final (first)
\* punctuation mark is split off before anything else.
Splits(mode, s, lab(_)) ==
  CASE mode = "right" -> {RightSplit(s)}
    [] mode = "left" -> {LeftSplit(s)}
    [] mode = "rightrp" -> {IF lab(s[Len(s)]) \in PUNC THEN LeftSplit(s) ELSE RightSplit(s)}
    [] mode = "leftrp" -> {IF lab(s[1]) \in PUNC THEN RightSplit(s) ELSE LeftSplit(s)}
    [] mode = "cky" -> {RightSplit(s), LeftSplit(s)}
MaxTails == 7
\* is a sequence of children divided at all
Divided(mode, k) == k > 2 /\ (mode = "cky" => k <= MaxTails)

\* ---- the same on trees: terms [l, leaf, k], labels as byte sequences ----------------------------
Bar(l) == Append(l, 39)
PUNCB == {<<46>>, <<36, 46>>, <<44>>, <<36, 44>>}
RECURSIVE BinTerm(_, _), BinKids(_, _, _)
BinKids(mode, bar, ks) ==
  IF Len(ks) <= 2 THEN ks
  ELSE LET sp == TLCEval(CHOOSE x \in {IF mode = "right" \/ (mode = "rightrp" /\ ks[Len(ks)].l \notin PUNCB) \/ (mode = "leftrp" /\ ks[1].l \in PUNCB)
                                 THEN RightSplit(ks) ELSE LeftSplit(ks)} : TRUE)
           part(p) == IF Len(p) = 1 THEN p[1] ELSE [l |-> bar, leaf |-> FALSE, k |-> BinKids(mode, bar, p)]
       IN <<part(sp[1]), part(sp[2])>>
BinTerm(mode, t) == LET ks == TLCEval([i \in 1..Len(t.k) |-> BinTerm(mode, t.k[i])])
                    IN [l |-> t.l, leaf |-> t.leaf, k |-> BinKids(mode, Bar(t.l), ks)]
================================================================================
