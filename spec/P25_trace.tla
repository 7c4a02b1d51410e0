------------------------------- MODULE P25_trace -------------------------------
EXTENDS Envelope, TraceBase
HG == INSTANCE HyperGraph
EM == INSTANCE EvalMeasures

\* the derivations of all forests of the example: line and translation of each
Hyps(r) ==
  UNION {LET g == r.in.gs[i]
         IN {[l |-> [m |-> HG!Dot(r.in.g, f), b |-> HG!Dot(r.in.w, f)], tr |-> [n \in 1..r.in.nf |-> HG!Yield(g, d, 1, n)]]
             : <<d, f>> \in {<<d, HG!FSeq(g, d)>> : d \in HG!Derivs(g)}}
         : i \in 1..Len(r.in.gs)}

StatIs(r, tr, st) ==
  CASE r.in.eval = "zeroone" -> st = <<IF tr[1] = r.in.refs[1] THEN 1 ELSE 0, 1>>
    [] r.in.eval = "wer" -> st = <<EM!EditDistance(r.in.refs[1], tr[1]), Len(r.in.refs[1])>>

LinesDiag(r, H, sg) ==
  LET o == r.out.lines
  IN IF Len(o) # Len(sg) THEN {"lines"}
     ELSE UNION {(IF o[k].m = sg[k].m /\ o[k].b = sg[k].b /\ PosIs(o[k].x, sg[k].lo) THEN {} ELSE {"line"})
                 \cup (IF \E h \in H : h.l = [m |-> sg[k].m, b |-> sg[k].b] /\ h.tr = o[k].tr THEN {} ELSE {"line-translation"})
                 : k \in 1..Len(sg)}

\* positions of the spans that tuning works with
LeObs(obs, x) == x = PosInf \/ obs < -1000000000 \/ (obs < 1000000000 /\ x # NegInf /\ obs * x[2] <= x[1] * Scale + x[2])
GeObs(obs, x) == x = NegInf \/ obs > 1000000000 \/ (obs > -1000000000 /\ x # PosInf /\ obs * x[2] >= x[1] * Scale - x[2])
HullDiag(r, H, sg, o) ==
  LET atZero(k) == o[k][1] = 0 /\ o[k][2] = 0
      spans == SelectSeq([k \in 1..Len(o) |-> k], LAMBDA k : ~atZero(k))
      best(k) == \A h \in H : h.l.b <= k.l.b
      bound(x) == \E k \in 1..Len(sg) : PosIs(x, sg[k].lo) \/ PosIs(x, sg[k].hi)
  IN (IF \A j \in 1..Len(o) : atZero(j) => \E h \in H : best(h) /\ StatIs(r, h.tr, o[j][3]) THEN {} ELSE {"statistics-at-zero"})
     \cup (IF Cardinality({j \in 1..Len(o) : atZero(j)}) <= 1 THEN {} ELSE {"zero-spans"})
     \cup (IF \A j \in 1..Len(spans) : LET e == o[spans[j]] IN e[1] < e[2] /\ bound(e[1]) /\ bound(e[2])
           THEN {} ELSE {"span"})
     \cup (IF \A j \in 1..(Len(spans) - 1) : o[spans[j]][2] = o[spans[j + 1]][1] THEN {} ELSE {"spans-do-not-join"})
     \cup (IF \A k \in 1..Len(sg) : \E j \in 1..Len(spans) : LET e == o[spans[j]] IN
                LeObs(e[1], sg[k].lo) /\ GeObs(e[2], sg[k].hi) /\ \E h \in H : h.l = [m |-> sg[k].m, b |-> sg[k].b] /\ StatIs(r, h.tr, e[3])
           THEN {} ELSE {"span-statistics"})

Diag(r) ==
  UNION {UNION {LinesDiag(r, H, sg) \cup HullDiag(r, H, sg, r.out.hull)
                \cup {"again:" \o x : x \in HullDiag(r, H, sg, r.out.hull2)}
                : sg \in {TLCEval(Segments({h.l : h \in H}))}}
         : H \in {TLCEval(Hyps(r))}}
================================================================================
