------------------------------- MODULE P32_trace -------------------------------
EXTENDS EvalMeasures, TraceBase

SqLn(x) == LET a == AbsV(x) \div 1000
               b == AbsV(x) % 1000
           IN a * a + (2 * a * b) \div 1000 + (b * b) \div 1000000
\* score of statistics (information in millionths): <<sum of the shares in millionths, logarithm of the penalty>>
Shares(v, order) == SumSeq([n \in 1..order |-> IF v[2 * n] = 0 THEN 0 ELSE v[2 * n - 1] \div v[2 * n]])
LnPen(sys, ref, beta) == IF ref = 0 \/ sys >= ref THEN 0 ELSE IF sys = 0 THEN NoLn ELSE -((beta * SqLn(Ln(sys) - Ln(ref))) \div 10)

ScoreOk(o, v, obs) ==
  LET s == Shares(v, o.order)
      p == LnPen(v[2], v[2 * o.order + 1], o.beta)
  IN IF s = 0 \/ p = NoLn THEN obs.sc = 0
     ELSE IF s < 1000 THEN AbsV(obs.sc) < 300
     ELSE LnOk(obs.ln, Ln(s \div 10) - Ln(100000) + p, 40 + 30000000 \div s)

Rep(o, v, obs) ==
  (IF /\ \A n \in 1..o.order : obs.c[2 * n] = v[2 * n] * 1000 /\ AbsV(obs.v[2 * n - 1] - v[2 * n - 1] \div 1000) <= 3
      /\ obs.c[2 * o.order + 1] = v[2 * o.order + 1] * 1000
      /\ Len(obs.c) = 2 * o.order + 1
   THEN {} ELSE {"counts"})
  \cup (IF ScoreOk(o, v, obs) THEN {} ELSE {"score"})

Diag(r) ==
  LET o == r.in.o
      ps == r.in.pairs
      n == Len(ps)
      rs == [i \in 1..Len(r.in.inits) |-> r.in.inits[i][1]]
      sts == [i \in 1..n |-> NistStats(rs, ps[i].r[1], ps[i].s[1], o.order)]
  IN UNION {
     IF o.scope = "corpus"
     THEN UNION {Rep(o, st[i], r.out.per[i]) : i \in 1..n}
          \cup Rep(o, FoldLeft(AddStats, st[1], Tail(st)), r.out.tot)
     ELSE UNION {(IF ScoreOk(o, st[i], r.out.per[i]) THEN {} ELSE {"sentence-score"})
                 \cup (IF r.out.per[i].c[2] = 1000 THEN {} ELSE {"sentence-stats"}) : i \in 1..n}
          \cup (IF r.out.tot.c[2] = n * 1000 /\ AbsV(r.out.tot.sc * n - SumSeq([i \in 1..n |-> r.out.per[i].sc])) <= 2 * n THEN {} ELSE {"average"})
     : st \in {TLCEval(sts)}}
================================================================================
