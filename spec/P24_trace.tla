------------------------------- MODULE P24_trace -------------------------------
EXTENDS TuneRuns, TraceBase

LinesOf(r, i) == [k \in 1..Len(r.in.lists[i]) |-> [m |-> DotW(r.in.g, r.in.lists[i][k].f), b |-> DotW(r.in.w, r.in.lists[i][k].f)]]
SegsOf(ls) == Segments({ls[k] : k \in 1..Len(ls)})
Lim(x) == IF x <= -100000 THEN NegInf ELSE IF x >= 100000 THEN PosInf ELSE <<x, 2>>

HullDiag(r, ls, sg, i) ==
  LET obs == r.out.hulls[i]
  IN IF Len(obs) # Len(sg) THEN {"segments"}
     ELSE UNION {
       (IF PosIs(obs[k][1], sg[k].lo) /\ PosIs(obs[k][2], sg[k].hi) THEN {} ELSE {"segment-span"})
       \cup (IF \E j \in 1..Len(ls) : ls[j].m = sg[k].m /\ ls[j].b = sg[k].b /\ StatOf(r.in.lists[i][j]) = obs[k][3] THEN {} ELSE {"segment-statistics"})
       : k \in 1..Len(sg)}

\* the statistics of a segment: hypotheses of the same line have the same statistics in these inputs
SegStat(r, i, ls, s) == StatOf(r.in.lists[i][CHOOSE j \in 1..Len(ls) : ls[j].m = s.m /\ ls[j].b = s.b])

\* position obs (hundred thousandths) is within [lo, hi]
AtLeast(obs, x) == x = NegInf \/ obs * x[2] + x[2] >= x[1] * Scale
AtMost(obs, x) == x = PosInf \/ obs * x[2] - x[2] <= x[1] * Scale

SearchDiag(r, lss, sgs) ==
  LET st == [i \in 1..Len(sgs) |-> [k \in 1..Len(sgs[i]) |-> SegStat(r, i, lss[i], sgs[i][k])]]
      iv == TLCEval(Intervals(sgs, TLCEval(st)))
      lo == IF r.in.norange = 1 THEN NegInf ELSE Lim(r.in.lo)
      hi == IF r.in.norange = 1 THEN PosInf ELSE Lim(r.in.hi)
      ok == {j \in 1..Len(iv) : Lt(iv[j].lo, hi) /\ Lt(lo, iv[j].hi)}
      at == {j \in 1..Len(iv) : AtLeast(r.out.pos, iv[j].lo) /\ AtMost(r.out.pos, iv[j].hi)}
      zero == {j \in 1..Len(iv) : Le(iv[j].lo, <<0, 1>>) /\ Le(<<0, 1>>, iv[j].hi)}
      a == r.out.after
      b == r.out.before
      sc(x) == IF x[2] = 0 THEN 0 ELSE (x[1] * 1000000) \div x[2]
      g == r.out.gain - (sc(a) - sc(b))
  IN (IF AtLeast(r.out.pos, lo) /\ AtMost(r.out.pos, hi) THEN {} ELSE {"step-out-of-range"})
     \cup (IF \A j \in ok : ScoreLe(iv[j].st, a) THEN {} ELSE {"better-attainable"})
     \cup (IF \E j \in at : iv[j].st = a THEN {} ELSE {"not-the-score-at-the-step"})
     \cup (IF \E j \in zero : iv[j].st = b THEN {} ELSE {"not-the-score-before"})
     \cup (IF g <= 2 /\ g >= -2 THEN {} ELSE {"gain"})

\* the potential gain of a feature: the most that a hypothesis differing in the feature from the current one would bring
PotDiag(r, i) ==
  LET l == r.in.lists[i]
      w == [k \in 1..Len(l) |-> DotW(r.in.w, l[k].f)]
      cur == CHOOSE k \in 1..Len(l) : (\A j \in 1..Len(l) : w[j] <= w[k]) /\ (\A j \in 1..(k - 1) : w[j] < w[k])
      gain(j) == (l[j].v * 1000000) \div l[j].d - (l[cur].v * 1000000) \div l[cur].d
      fs == UNION {{l[k].f[n][1] : n \in 1..Len(l[k].f)} : k \in 1..Len(l)}
      cand(f) == {j \in 1..Len(l) : Val(l[j].f, f) # Val(l[cur].f, f) /\ gain(j) > 0}
      obs(f) == Val(r.out.pot[i], f)
  IN IF l = <<>> THEN {}
     ELSE {"potential" : f \in {f \in fs : LET c == cand(f)
                                              e == IF c = {} THEN 0 ELSE gain(CHOOSE j \in c : \A x \in c : gain(x) <= gain(j))
                                          IN obs(f) - e > 2 \/ e - obs(f) > 2}}

LineDiag(r) ==
  UNION {UNION {UNION {HullDiag(r, lss[i], sgs[i], i) \cup PotDiag(r, i) : i \in 1..Len(lss)} \cup SearchDiag(r, lss, sgs)
                : sgs \in {TLCEval([i \in 1..Len(lss) |-> SegsOf(lss[i])])}}
         : lss \in {TLCEval([i \in 1..Len(r.in.lists) |-> LinesOf(r, i)])}}

\* ---------------- the range of steps that keeps every weight of the direction within a range ----------------
RangeDiag(r) ==
  LET fs == {r.in.g[n][1] : n \in {n \in 1..Len(r.in.g) : r.in.g[n][2] # 0}}
      g(f) == Val(r.in.g, f)
      lim(f, x) == IF x <= -100000 THEN (IF g(f) > 0 THEN NegInf ELSE PosInf)
                   ELSE IF x >= 100000 THEN (IF g(f) > 0 THEN PosInf ELSE NegInf)
                   ELSE LET n == x - 2 * Val(r.in.w, f) IN IF g(f) > 0 THEN <<n, 2 * g(f)>> ELSE <<-n, -2 * g(f)>>
      lo == MaxOf({NegInf} \cup {IF g(f) > 0 THEN lim(f, r.in.lo) ELSE lim(f, r.in.hi) : f \in fs})
      hi == MinOf({PosInf} \cup {IF g(f) > 0 THEN lim(f, r.in.hi) ELSE lim(f, r.in.lo) : f \in fs})
  IN IF PosIs(r.out[1], lo) /\ PosIs(r.out[2], hi) THEN {} ELSE {"step-range"}

Diag(r) == CASE r.in.op = "linesearch" -> LineDiag(r)
             [] r.in.op = "gradrange" -> RangeDiag(r)
             [] r.in.op = "merttune" -> TuneDiag(r)
================================================================================
