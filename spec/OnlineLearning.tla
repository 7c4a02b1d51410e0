---------------------------- MODULE OnlineLearning ----------------------------
(* Online learning of weights.  The definition: a state holding the weights, and *)
(* one transition per example, in which the update rule is applied and then the  *)
(* L1 shrinkage and the range of every weight, eagerly.  Weights are integers:    *)
(* eighths; feature values are halves; learning rates are quarters.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Big == 1000000000
SumS(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
Most(a, b) == IF a > b THEN a ELSE b
Least(a, b) == IF a < b THEN a ELSE b
In(x, g) == Least(Most(x, g[1]), g[2])
Shrink(x, l) == IF x > 0 THEN Most(x - l, 0) ELSE Least(x + l, 0)
\* a vector is a sequence of pairs; its value at a feature
At(v, k) == FoldLeft(LAMBDA acc, p : IF p[1] = k THEN acc + p[2] ELSE acc, 0, v)
Feats(v) == {v[i][1] : i \in 1..Len(v)}
\* the range of a feature: its own, or the general one
RangeOf(rs, k) ==
  IF \E i \in 1..Len(rs) : rs[i].k = k THEN LET i == CHOOSE i \in 1..Len(rs) : rs[i].k = k IN <<rs[i].lo, rs[i].hi>>
  ELSE IF \E i \in 1..Len(rs) : rs[i].k = -1 THEN LET i == CHOOSE i \in 1..Len(rs) : rs[i].k = -1 IN <<rs[i].lo, rs[i].hi>>
  ELSE <<-Big, Big>>

\* the features whose value differs between the oracle and the system output
Diffs(o, s) == {k \in Feats(o) \cup Feats(s) : At(o, k) # At(s, k)}

\* -------- perceptron: an error when the system output scores at least the oracle --------
\* p: [rate, l1, rs]; w: function from features to eighths
PercChange(p, w, u) ==
  IF u.ss >= u.os
  THEN [k \in DOMAIN w |-> IF k \in Diffs(u.o, u.s) THEN In(w[k] + (At(u.o, k) - At(u.s, k)) * p.rate, RangeOf(p.rs, k)) ELSE w[k]]
  ELSE w
\* a feature without a weight (a weight of zero) is not regularized or limited
Regular(p, w) == [k \in DOMAIN w |-> IF w[k] = 0 THEN 0 ELSE In(Shrink(w[k], p.l1), RangeOf(p.rs, k))]
PercStep(p, w, u) == Regular(p, PercChange(p, w, u))

\* -------- averaged perceptron: an error when the system output evaluates lower --------
AvgStep(p, w, u) ==
  IF u.se < u.oe
  THEN [k \in DOMAIN w |-> IF k \in Diffs(u.o, u.s) THEN In(w[k] + (At(u.o, k) - At(u.s, k)) * 4, RangeOf(p.rs, k)) ELSE w[k]]
  ELSE w

\* -------- delayed perceptron: the weights stay, the changes are collected --------
DelayStep(p, d, u) ==
  IF u.ss >= u.os THEN [k \in DOMAIN d |-> d[k] + (At(u.o, k) - At(u.s, k)) * 4] ELSE d

\* -------- Adagrad: state [w, v], w in thousandths; v the sum of squared changes (quarters) --------
ISqrt(n) == LET Go[lo \in 0..46340, hi \in 0..46341] == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Go[m, hi] ELSE Go[lo, m] IN Go[0, 46341]
AdaErr(p, u) == u.ss + (u.oe - u.se) * p.margin >= u.os
AdaStep(p, st, u) ==
  IF ~AdaErr(p, u) THEN st
  ELSE LET c == [k \in DOMAIN st.w |-> At(u.o, k) - At(u.s, k)]
           v == [k \in DOMAIN st.w |-> st.v[k] + c[k] * c[k]]
       IN [v |-> v, w |-> [k \in DOMAIN st.w |-> IF c[k] = 0 THEN st.w[k] ELSE st.w[k] + (c[k] * p.rate * 250000) \div ISqrt(v[k] * 1000000)]]

\* -------- choosing the oracle and the system output --------
\* of an n-best list with model scores m and evaluation scores e: the first best of each
FirstMax(q) == CHOOSE i \in 1..Len(q) : (\A j \in 1..Len(q) : q[i] >= q[j]) /\ (\A j \in 1..(i - 1) : q[j] < q[i])
NbestUpdate(p, scores, feats) ==
  LET o == FirstMax([i \in 1..Len(scores) |-> scores[i][2]])
      s == FirstMax([i \in 1..Len(scores) |-> scores[i][1] - scores[i][2] * p.margin])
  IN [o |-> feats[o], s |-> feats[s], os |-> scores[o][1], oe |-> scores[o][2], ss |-> scores[s][1], se |-> scores[s][2]]
===============================================================================
