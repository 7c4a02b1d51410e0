------------------------------- MODULE P21_trace -------------------------------
EXTENDS EvalMeasures, TraceBase

\* one sum of statistics: counts, score, and the parts of the report
RepClauses(o, v, obs) ==
  (IF \A k \in 1..Len(v) : obs.v[k] = v[k] * 1000 THEN {} ELSE {"counts"})
  \cup (IF LnOk(obs.ln, BleuLn(v, o), 6) THEN {} ELSE {"score"})
  \cup (IF o.wrap THEN {} ELSE
  (IF Len(obs.prec) = o.order /\ \A n \in 1..o.order : LET f == Red(Frac(v, n, o)) IN AbsV(obs.prec[n] * f[2] - f[1] * 100000) <= f[2]
        THEN {} ELSE {"precision"})
  \cup (IF obs.hl = v[2] /\ obs.rl = v[3] THEN {} ELSE {"lengths"})
  \cup (IF LnOk(obs.lnbp, LnBrev(v[2], v[3], o), 2) THEN {} ELSE {"brevity"})
  \cup (IF /\ (v[3] > 0 => AbsV(obs.acc[1] * v[3] - v[2] * 100000) <= v[3])
           /\ \A k \in 1..Len(v) : obs.acc[k + 1] = v[k] * 100000 + o.smooth * 25000
        THEN {} ELSE {"accessors"}))

\* a sentence-level score stands for itself: value and weight one
SentClauses(o, v, obs) ==
  (IF LnOk(obs.ln, BleuLn(v, o), 6) THEN {} ELSE {"sentence-score"})
  \cup (IF obs.v[2] = 1000 /\ AbsV(obs.v[1] * 100 - obs.sc) <= 51 THEN {} ELSE {"sentence-stats"})

Diag(r) ==
  LET o == r.in.o
      ps == r.in.pairs
      n == Len(ps)
      st == [i \in 1..n |-> BleuStats(ps[i].r[r.in.factor + 1], ps[i].s[r.in.factor + 1], o.order)]
  IN IF o.scope = "corpus"
     THEN UNION {RepClauses(o, st[i], r.out.per[i]) : i \in 1..n}
          \cup RepClauses(o, FoldLeft(AddStats, st[1], Tail(st)), r.out.tot)
     ELSE UNION {SentClauses(o, st[i], r.out.per[i]) : i \in 1..n}
          \cup (IF /\ r.out.tot.v[2] = n * 1000
                   /\ AbsV(r.out.tot.sc * n - SumSeq([i \in 1..n |-> r.out.per[i].sc])) <= 2 * n
                THEN {} ELSE {"average"})
================================================================================
