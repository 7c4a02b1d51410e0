------------------------------- MODULE P26_trace -------------------------------
EXTENDS OnlineLearning, TraceBase

NK(r) == r.in.nk
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
KeyOf(i) == i - 1

\* the update an operation stands for; <<>>: none
UpdateOf(p, o) ==
  IF o.t = "upd" THEN <<o>>
  ELSE IF o.t = "nbest" THEN <<NbestUpdate(p, o.scores, o.feats)>>
  ELSE IF o.t = "adj" /\ Len(o.list) > 0
  THEN LET es == [i \in 1..Len(o.list) |-> IF \E j \in 1..Len(o.refs) : o.refs[j] = o.list[i].w THEN 1 ELSE 0]
           b == FirstMax(es)
           x == o.list[b]
           y == o.list[1]
       IN <<[o |-> x.f, os |-> x.m, oe |-> es[b], s |-> y.f, ss |-> y.m, se |-> es[1]]>>
  ELSE <<>>

Zero(n) == [k \in 0..(n - 1) |-> 0]
InitW(r) == [k \in 0..(NK(r) - 1) |-> IF \E i \in 1..Len(r.in.init) : r.in.init[i][1] = k THEN At(r.in.init, k) ELSE 0]
\* features that have an initial weight, or were touched: the others are reported as nothing
St0(r) == [w |-> InitW(r), sum |-> Zero(NK(r)), t |-> 0, d |-> Zero(NK(r)), a |-> [w |-> [k \in 0..(NK(r) - 1) |-> InitW(r)[k] * 125], v |-> Zero(NK(r))], ne |-> 0]
Step(kind, p, st, u) ==
  CASE kind = "perceptron" -> [st EXCEPT !.w = PercStep(p, st.w, u), !.t = @ + 1]
    [] kind = "average" -> LET w == TLCEval(AvgStep(p, st.w, u)) IN [st EXCEPT !.w = w, !.sum = [k \in DOMAIN w |-> st.sum[k] + w[k]], !.t = @ + 1]
    [] kind = "delayed" -> [st EXCEPT !.d = DelayStep(p, st.d, u), !.t = @ + 1]
    [] kind = "adagrad" -> [st EXCEPT !.a = AdaStep(p, st.a, u), !.t = @ + 1, !.ne = @ + 1]
States(r) ==
  FoldLeft(LAMBDA acc, o : LET u == UpdateOf(r.in, o) st == acc[Len(acc)]
                           IN TLCEval(Append(acc, IF u = <<>> THEN st ELSE Step(r.in.kind, r.in, st, u[1]))),
           <<St0(r)>>, r.in.ops)

\* scale 6720 for exact weights (840 per eighth); 1000 for Adagrad
Val(r, st, k, obs) == IF r.in.kind = "adagrad" THEN Near(obs, st.a.w[k], 2 + st.ne) ELSE obs = st.w[k] * 840
Dot(r, st, f, obs) ==
  IF r.in.kind = "adagrad"
  THEN Near(2 * obs, SumS([i \in 1..Len(f) |-> f[i][2] * st.a.w[f[i][1]]]), (2 + st.ne) * 12)
  ELSE obs = 420 * SumS([i \in 1..Len(f) |-> f[i][2] * st.w[f[i][1]]])
Fin(r, st, k, obs) ==
  CASE r.in.kind = "average" -> IF st.t = 0 THEN obs = st.w[k] * 840 ELSE Near(obs * st.t, st.sum[k] * 840, st.t)
    [] r.in.kind = "delayed" -> obs = st.d[k] * 840
    [] OTHER -> Val(r, st, k, obs)

OpDiag(r, st, o, obs) ==
  CASE o.t \in {"get", "cget"} -> IF Val(r, st, o.k, obs[1]) THEN {} ELSE {"read"}
    [] o.t \in {"dot", "score"} -> IF Dot(r, st, o.f, obs[1]) THEN {} ELSE {"score"}
    [] o.t = "final" -> {"final" : k \in {k \in 0..(NK(r) - 1) : ~Fin(r, st, k, obs[k + 1])}}
    [] OTHER -> {}

Learn(r) == UNION {UNION {OpDiag(r, ss[i], r.in.ops[i], r.out[i]) : i \in 1..Len(r.in.ops)} : ss \in {TLCEval(States(r))}}

\* whole tuning of one list: a hundred rounds from weights of zero
Tune(r) ==
  LET fs == [i \in 1..Len(r.in.list) |-> r.in.list[i].f]
      p == [rate |-> r.in.rate, l1 |-> 0, rs |-> <<>>, margin |-> r.in.margin]
      score(w, f) == SumS([i \in 1..Len(f) |-> f[i][2] * w[f[i][1]]])
      kind == IF r.in.kind = "avgperceptron" THEN "average" ELSE "perceptron"
      end == FoldLeft(LAMBDA st, n : TLCEval(Step(kind, p, st, TLCEval(NbestUpdate(p, TLCEval([i \in 1..Len(fs) |-> <<score(st.w, fs[i]), r.in.list[i].e * 16>>]), fs)))),
                      [w |-> Zero(NK(r)), sum |-> Zero(NK(r)), t |-> 0], [n \in 1..100 |-> n])
      best == FirstMax([i \in 1..Len(fs) |-> score(end.w, fs[i])])
  IN (IF \A k \in 0..(NK(r) - 1) : IF kind = "average" THEN Near(r.out.w[k + 1] * 100, end.sum[k] * 840, 100) ELSE r.out.w[k + 1] = end.w[k] * 840 THEN {} ELSE {"tuned-weights"})
     \cup (IF r.out.ret = r.in.list[best].e * 1000 THEN {} ELSE {"tuned-score"})

Diag(r) == IF r.in.op = "learn" THEN Learn(r) ELSE Tune(r)
================================================================================
