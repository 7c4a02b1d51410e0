------------------------------- MODULE P23_trace -------------------------------
(* Histories of operations over registers of evaluation statistics. A register   *)
(* is the sequence of its values, scaled; <<>> is a register not yet used.       *)
EXTENDS EvalMeasures, TraceBase

SubLen(m) == IF m.m = "bleu" /\ m.scope = "corpus" THEN 3 * m.order ELSE 2
SubOff(ms, i) == SumSeq([k \in 1..(i - 1) |-> SubLen(ms[k])])
SubVec(ms, v, i) == SubSeq(v, SubOff(ms, i) + 1, SubOff(ms, i) + SubLen(ms[i]))
\* the statistics of a pair that are whole numbers
Exact(m) == m.m \in {"wer", "zeroone"} \/ (m.m = "bleu" /\ m.scope = "corpus")
SentVec(m, r, s) ==
  CASE m.m = "wer" -> <<EditDistance(r, s), Len(r)>>
    [] m.m = "zeroone" -> <<IF r = s THEN 1 ELSE 0, 1>>
    [] m.m = "bleu" -> BleuStats(r, s, m.order)

\* what an operation writes, from the registers before it
NewVal(o, rg) ==
  CASE o[1] = "clone" -> rg[o[3]]
    [] o[1] = "rw" -> rg[o[3]]
    [] o[1] = "plus" -> [k \in 1..Len(rg[o[3]]) |-> rg[o[3]][k] + rg[o[4]][k]]
    [] o[1] = "pluseq" -> [k \in 1..Len(rg[o[2]]) |-> rg[o[2]][k] + rg[o[3]][k]]
    [] o[1] = "times" -> [k \in 1..Len(rg[o[3]]) |-> (rg[o[3]][k] * o[4]) \div 2]
    [] o[1] = "timeseq" -> [k \in 1..Len(rg[o[2]]) |-> (rg[o[2]][k] * o[3]) \div 2]
    [] o[1] = "plustimes" -> [k \in 1..Len(rg[o[2]]) |-> rg[o[2]][k] + (rg[o[3]][k] * o[4]) \div 2]
Mult(o) == CASE o[1] = "times" -> AbsV(o[4]) [] o[1] = "timeseq" -> AbsV(o[3]) [] o[1] = "plustimes" -> AbsV(o[4]) [] OTHER -> 1
Near(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : AbsV(a[k] - b[k]) <= tol

\* a / b in 1e-5 (b < 200000000)
Digit(qr, b) == <<qr[1] * 10 + (qr[2] * 10) \div b, (qr[2] * 10) % b>>
Ratio5(a, b) == FoldLeft(LAMBDA qr, i : Digit(qr, b), <<a \div b, a % b>>, <<1, 2, 3, 4, 5>>)[1]
\* score of one part, from scaled values, in 1e-5
SubScoreOk(m, v, scale, sc) ==
  IF m.m = "bleu" /\ m.scope = "corpus" THEN TRUE   \* the score itself is the subject of P21
  ELSE (v[2] >= scale /\ v[2] < 200000000 /\ v[1] >= 0 /\ v[1] \div v[2] < 1000) =>
            LET want == Ratio5(v[1], v[2])
            IN AbsV((IF m.inv THEN 100000 - want ELSE want) - sc) <= 3
Combine(c, sub, sc) ==
  CASE c.k = "one" -> Len(sub) = 0
    [] c.k = "interp" ->
         LET z == SumSeq(c.w) IN AbsV(sc * z - SumSeq([i \in 1..Len(sub) |-> c.w[i] * sub[i]])) <= 2 * z
    [] c.k = "mean" -> AbsV(2 * sc - sub[1] - sub[2]) <= 4
    [] c.k = "diff" -> AbsV(sc - sub[1] + sub[2]) <= 2
    [] c.k = "prod" -> AbsV(sub[1]) > 400000 \/ AbsV(sub[2]) > 400000 \/ AbsV(sc - ((sub[1] \div 10) * (sub[2] \div 10)) \div 1000) <= 60 + (AbsV(sub[1]) + AbsV(sub[2])) \div 5000
    [] c.k = "ratio" -> sub[1] < 0 \/ sub[2] < -50000 \/ sub[2] > 1000000 \/ AbsV(sc - Ratio5(sub[1], sub[2] + 100000)) <= 5 + sub[1] \div 50000
    [] c.k = "swap" -> AbsV(sc - 3 * sub[2] + 2 * sub[1]) <= 6

Step(r, st, i) ==
  LET o == r.in.ops[i]
      obs == r.out[i]
      rg == st[1]
      ms == r.in.ms
      scale == r.in.scale
      exact == \A k \in 1..Len(ms) : Exact(ms[k])
      ix == [k \in 1..Len(o) |-> IF k > 1 THEN o[k] + 1 ELSE o[k]]     \* register numbers from one
      oo == CASE o[1] \in {"times", "plustimes"} -> <<o[1], o[2] + 1, o[3] + 1, o[4]>>
              [] o[1] = "timeseq" -> <<o[1], o[2] + 1, o[3]>>
              [] OTHER -> ix
  IN CASE o[1] \in {"eq"} ->
            LET a == rg[oo[2]]
                b == rg[oo[3]]
            IN <<rg, st[2] \cup (IF exact THEN IF obs = (IF a = b THEN 1 ELSE 0) THEN {} ELSE {"equality"}
                               ELSE IF Near(a, b, 10) \/ obs = 0 THEN {} ELSE {"equality"})>>
       [] o[1] = "iszero" ->
            <<rg, st[2] \cup (IF obs = (IF \A k \in 1..Len(rg[oo[2]]) : rg[oo[2]][k] = 0 THEN 1 ELSE 0)
                            \/ (~exact /\ Near(rg[oo[2]], [k \in 1..Len(rg[oo[2]]) |-> 0], 1)) THEN {} ELSE {"zero"})>>
       [] o[1] = "score" ->
            <<rg, st[2] \cup (IF Combine(r.in.comb, obs.sub, obs.sc) THEN {} ELSE {"combination"})
                      \cup (IF Len(obs.sub) = 0 THEN IF SubScoreOk(ms[1], rg[oo[2]], scale, obs.sc) THEN {} ELSE {"score"}
                            ELSE IF \A k \in 1..Len(ms) : SubScoreOk(ms[k], SubVec(ms, rg[oo[2]], k), scale, obs.sub[k]) THEN {} ELSE {"score"})>>
       [] o[1] = "sent" ->
            LET p == r.in.pairs[oo[3]]
                v == obs[oo[2]]
            IN <<obs, st[2]
                 \cup (IF \A k \in 1..Len(ms) : Exact(ms[k]) =>
                           SubVec(ms, v, k) = [x \in 1..SubLen(ms[k]) |-> SentVec(ms[k], p.r, p.s)[x] * scale] THEN {} ELSE {"sentence"})
                 \cup (IF Len(v) = SubOff(ms, Len(ms) + 1) THEN {} ELSE {"width"})
                 \cup (IF \A x \in 1..Len(rg) : x = oo[2] \/ obs[x] = rg[x] THEN {} ELSE {"others"})>>
       [] OTHER ->
            <<obs, st[2]
                 \cup (IF Near(obs[oo[2]], NewVal(oo, rg), IF exact THEN 0 ELSE Mult(oo) + 2) THEN {} ELSE {"value:" \o o[1]})
                 \cup (IF \A x \in 1..Len(rg) : x = oo[2] \/ obs[x] = rg[x] THEN {} ELSE {"others"})>>

Diag(r) == FoldLeft(LAMBDA st, i : Step(r, st, i), <<[x \in 1..r.in.nr |-> <<>>], {}>>, [i \in 1..Len(r.in.ops) |-> i])[2]
           \cup (IF Len(r.out) = Len(r.in.ops) THEN {} ELSE {"length"})
================================================================================
