------------------------------- MODULE P18_cli -------------------------------
(* tree-converter: read, split, binarize, flatten, change the case, write - in this order. *)
(* record: in [fmt, cs, ofmt, opts], out [ok, cs]                                          *)
EXTENDS TreeFormats, TraceBase
TT == INSTANCE TreeTransform
BN == INSTANCE Binarize
cl(ok, name) == IF ok THEN {} ELSE {name}
RECURSIVE ToT(_), ToP(_, _), Strip(_)
ToT(t) == IF t.leaf THEN TT!TLeaf(t.l) ELSE TT!TNode(t.l, 0, {}, [i \in 1..Len(t.k) |-> ToT(t.k[i])])
Strip(t) == [l |-> t.l, leaf |-> t.leaf, k |-> [i \in 1..Len(t.k) |-> Strip(t.k[i])]]
Unstrip(t) == t
RECURSIVE FromB(_)
FromB(t) == IF t.leaf THEN TT!TLeaf(t.l) ELSE TT!TNode(t.l, 0, {}, [i \in 1..Len(t.k) |-> FromB(t.k[i])])
ToP(t, p) == IF t.leaf THEN Leaf(t.l, p)
             ELSE Node(t.l, p, p + Len(TT!TWords(t)),
                       [i \in 1..Len(t.k) |-> ToP(t.k[i], FoldLeft(LAMBDA a, j : a + Len(TT!TWords(t.k[j])), p, [j \in 1..(i - 1) |-> j]))])
Convert(o, t0) ==
  LET t1 == IF o.split THEN TT!SplitTree(t0, LAMBDA w : TT!SplitAt(w, Range(o.seps), o.run)) ELSE t0
      t2 == IF o.bin = "none" THEN t1 ELSE FromB(BN!BinTerm(o.bin, Strip(t1)))
      t3 == IF o.flatten THEN TT!Flatten(t2) ELSE t2
  IN IF o.case = "none" THEN t3 ELSE TT!CaseTree(t3, o.case, o.model)
Diag(r) ==
  LET p == TLCEval(Read(r.in.fmt, r.in.cs))
      want == TLCEval([i \in 1..Len(p.out) |-> IF p.out[i].empty THEN p.out[i].t
                                       ELSE LET t == TLCEval(Convert(r.in.opts, ToT(p.out[i].t))) IN IF r.in.ofmt = "word" THEN WordTree(TT!TWords(t)) ELSE ToP(t, 0)])
      q == TLCEval(Read(r.in.ofmt, r.out.cs))
  IN cl(r.out.ok, "failed") \cup cl(q.end = "null", "unreadable-output")
     \cup cl(Len(q.out) = Len(p.out), "number-of-trees")
     \cup (IF Len(q.out) = Len(p.out) THEN cl(\A i \in 1..Len(want) : q.out[i].t = want[i], "trees") ELSE {})
================================================================================
