-------------------------------- MODULE P28_cli --------------------------------
EXTENDS Rescoring, TraceBase

Near(a, b, t) == a - b <= t /\ b - a <= t

\* the lists of the output have to be those of the input, one after the other
Diag(r) ==
  LET x == r.in
      gs == TLCEval(Groups(x.lines))
      o == r.out
      n == Len(gs)
      MS(l) == ModelScore(l, x.hasW, x.weights)
      start(i) == SumSeq([j \in 1..(i - 1) |-> IF x.mbr /\ x.cnt > 0 /\ Len(gs[j]) > x.cnt THEN x.cnt ELSE Len(gs[j])])
      size(i) == IF x.mbr /\ x.cnt > 0 /\ Len(gs[i]) > x.cnt THEN x.cnt ELSE Len(gs[i])
      Key(l) == <<l.id, l.w, {<<l.f[i][1], l.f[i][2]>> : i \in 1..Len(l.f)}>>
      \* the entries of list i that are kept, as far as the output tells
      List(i) ==
        LET g == gs[i]
            q == SubSeq(o.nbest, start(i) + 1, start(i) + size(i))
            kept == IF size(i) = Len(g) THEN g ELSE SelectSeq(g, LAMBDA l : \E k \in 1..Len(q) : Key(q[k]) = Key(l))
            ms == TLCEval([k \in 1..Len(kept) |-> MS(kept[k]) \div 16])
            ws == [k \in 1..Len(kept) |-> kept[k].w]
            odds == TLCEval(Odds(ms, x.scale))
            hyps == {kept[k].w : k \in 1..Len(kept)}
            ex == TLCEval([h \in hyps |-> Expected(x.m, ws, odds, h)])
            Score(l) == IF x.mbr THEN ex[l.w] ELSE 62500 * MS(l)
            tol == IF x.mbr THEN IF x.m.m = "bleu" THEN 30 ELSE 6 ELSE 1
            best == Max({Score(kept[k]) : k \in 1..Len(kept)})
        IN IF x.nbout
           THEN (IF SameBag([k \in 1..Len(q) |-> Key(q[k])], [k \in 1..Len(kept) |-> Key(kept[k])]) THEN {} ELSE {"entries"})
                \* those cut off are not better than those kept
                \cup (IF size(i) < Len(g) /\ \E l \in ToSet(g) \ ToSet(kept) : \E k \in ToSet(kept) : MS(l) > MS(k) THEN {"trimmed"} ELSE {})
                \cup (IF \A k \in 1..Len(q) : \E l \in ToSet(kept) : Key(l) = Key(q[k]) /\ Near(q[k].s, Score(l), tol) THEN {} ELSE {"score"})
                \cup (IF \A k \in 1..(Len(q) - 1) : q[k].s >= q[k + 1].s THEN {} ELSE {"order"})
                \cup (IF Len(q) > 0 /\ i <= Len(o.top) /\ q[1].w = o.top[i] THEN {} ELSE {"top"})
           ELSE IF size(i) < Len(g) THEN {}
           ELSE IF i <= Len(o.top) /\ \E l \in ToSet(g) : l.w = o.top[i] /\ best - Score(l) <= tol THEN {} ELSE {"top"}
  IN (IF o.rc = 0 THEN {} ELSE {"exit"})
     \cup (IF Len(o.top) = n THEN {} ELSE {"lines"})
     \cup (IF x.nbout /\ Len(o.nbest) # start(n + 1) THEN {"count"} ELSE UNION {List(i) : i \in 1..n})
================================================================================
