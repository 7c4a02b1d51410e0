------------------------------- MODULE Rescoring -------------------------------
(* Rescoring of n-best lists.  A line is [id, w, s, f]: sentence, words, score    *)
(* and features (pairs <<feature, value>>).  Consecutive lines of one id are one   *)
(* list; every list is rescored, ordered and written when the next one begins.     *)
EXTENDS EvalMeasures, TLC

\* ---- declarative: the lists of a file
RECURSIVE Groups(_)
Groups(ls) ==
  IF ls = <<>> THEN <<>>
  ELSE LET n == CHOOSE k \in 1..Len(ls) : (\A i \in 1..k : ls[i].id = ls[1].id) /\ (k = Len(ls) \/ ls[k + 1].id # ls[1].id)
       IN <<SubSeq(ls, 1, n)>> \o Groups(SubSeq(ls, n + 1, Len(ls)))

\* ---- scores
\* features and weights in quarters: scores in sixteenths
WeightOf(ws, k) == LET S == {i \in 1..Len(ws) : ws[i][1] = k} IN IF S = {} THEN 0 ELSE ws[CHOOSE i \in S : TRUE][2]
Dot(f, ws) == SumSeq([i \in 1..Len(f) |-> f[i][2] * WeightOf(ws, f[i][1])])
ModelScore(l, hasW, ws) == IF hasW THEN Dot(l.f, ws) ELSE 4 * l.s

\* how often y stands in a sequence
Count(q, y) == Cardinality({i \in 1..Len(q) : q[i] = y})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Count(p, p[i]) = Count(q, p[i])

\* ---- minimum Bayes risk: the expected score against the other hypotheses (in millionths)
\* the number whose logarithm is x (both in millionths; x <= 0), by halving the interval
RECURSIVE ExpIn(_, _, _)
ExpIn(x, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2 IN IF Ln(m) - Ln(1000000) <= x THEN ExpIn(x, m, hi) ELSE ExpIn(x, lo, m)
Exp(x) == IF x < -14000000 THEN 0 ELSE ExpIn(x, 0, 1000001)
Value(m, r, s) ==
  LET share(a, b) == IF b = 0 THEN 0 ELSE (a * 1000000) \div b
      flip(v) == IF m.inv THEN 1000000 - v ELSE v
  IN CASE m.m = "wer" -> flip(share(EditDistance(r, s), Len(r)))
       [] m.m = "zeroone" -> IF r = s THEN 1000000 ELSE 0
       [] m.m = "bleu" -> LET x == BleuLn(BleuStats(r, s, m.order), m) IN IF x = NoLn THEN 0 ELSE Exp(x)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* ms: the model scores of the hypotheses ws, whole numbers; the odds double with each 1/scale points
Odds(ms, scale) == [i \in 1..Len(ms) |-> Pow2((scale * (ms[i] - Min({ms[j] : j \in 1..Len(ms)}))))]
Expected(m, ws, odds, h) ==
  LET tot == SumSeq(odds) IN SumSeq([j \in 1..Len(ws) |-> odds[j] * Value(m, ws[j], h)]) \div tot
================================================================================
