------------------------------- MODULE P22_trace -------------------------------
EXTENDS EvalMeasures, TraceBase

\* moves of one block of words to another place
Blocks(s) == UNION {UNION {{LET rest == SubSeq(s, 1, i - 1) \o SubSeq(s, j + 1, Len(s))
                            IN SubSeq(rest, 1, k) \o SubSeq(s, i, j) \o SubSeq(rest, k + 1, Len(rest))
                            : k \in 0..(Len(s) - (j - i + 1))} : j \in i..Len(s)} : i \in 1..Len(s)}
MinOf(S) == FoldSet(LAMBDA x, acc : Least(x, acc), 1000000, S)
\* the fewest edits with at most one block moved
OneMove(r, s) == MinOf({EditDistance(r, t) : t \in Blocks(s)}) + 1
\* lower bound of the edits when any number of blocks may be moved, a move being an edit
TerLow(r, s) == Least(EditDistance(r, s), IF Len(s) < 2 THEN 1000000 ELSE Least(OneMove(r, s), BagDistance(r, s) + 2))

\* the value of a measure for a pair, clauses violated
Val(o, r, s, v) ==
  CASE o.m = "wer" -> (IF v[1] = EditDistance(r, s) * 1000 /\ v[2] = Len(r) * 1000 THEN {} ELSE {"wer"})
    [] o.m = "zeroone" -> (IF v[1] = (IF r = s THEN 1000 ELSE 0) /\ v[2] = 1000 THEN {} ELSE {"zeroone"})
    [] o.m = "ter" ->
         (IF v[2] = Len(r) * 1000 /\ v[1] % 1000 = 0 THEN {} ELSE {"ter-length"})
         \cup (IF EditDistance(r, s) > 20 \/ v[1] <= EditDistance(r, s) * 1000 THEN {} ELSE {"ter-over-wer"})
         \cup (IF v[1] >= (IF Len(s) <= 9 THEN TerLow(r, s) ELSE BagDistance(r, s)) * 1000 THEN {} ELSE {"ter-too-low"})
         \cup (IF (v[1] = 0) = (r = s) THEN {} ELSE {"ter-zero"})
         \* one block of a sentence of different words out of place costs one edit
         \cup (IF Len(s) <= 9 /\ Len(s) >= 2 /\ Len(r) = Len(s) /\ r # s /\ Cardinality({r[i] : i \in 1..Len(r)}) = Len(r) /\ r \in Blocks(s)
               THEN (IF v[1] = 1000 THEN {} ELSE {"ter-move"}) ELSE {})
    [] o.m = "ribes" -> (IF v[2] = 1000 THEN {} ELSE {"ribes-count"})

\* the score of values: their ratio, taken from one if asked for (scores in 1e-5)
ScoreOk(o, v, sc) ==
  LET ratio == IF v[2] = 0 THEN 0 ELSE (v[1] * 100) \div (v[2] \div 1000)
  IN AbsV(sc - (IF o.inv THEN 100000 - ratio ELSE ratio)) <= 60

Sent(r) == r.in.factor + 1
Diag(r) ==
  LET o == r.in.o
      ps == r.in.pairs
      n == Len(ps)
  IN UNION {LET p == ps[i]
                obs == r.out.per[i]
                rf == p.r[Sent(r)]
                sy == p.s[Sent(r)]
            IN Val(o, rf, sy, obs.v)
               \cup (IF o.m = "ribes"
                     THEN (IF LnOk(obs.ln, RibesLn(rf, sy, o.alpha, o.beta), 6) THEN {} ELSE {"ribes"})
                          \cup (IF AbsV(obs.v[1] * 100 - obs.sc) <= 51 THEN {} ELSE {"score"})
                     ELSE IF ScoreOk(o, obs.v, obs.sc) THEN {} ELSE {"score"})
            : i \in 1..n}
     \cup (IF /\ AbsV(r.out.tot.v[1] - SumSeq([i \in 1..n |-> r.out.per[i].v[1]])) <= n
              /\ r.out.tot.v[2] = SumSeq([i \in 1..n |-> r.out.per[i].v[2]])
              /\ ScoreOk(o, r.out.tot.v, r.out.tot.sc)
           THEN {} ELSE {"total"})
     \* equal pairs have equal values, wherever they stand
     \cup (IF \A i, j \in 1..n : (ps[i].r[Sent(r)] = ps[j].r[Sent(r)] /\ ps[i].s[Sent(r)] = ps[j].s[Sent(r)]) => r.out.per[i] = r.out.per[j]
           THEN {} ELSE {"not-a-function"})
================================================================================
