-------------------------------- MODULE TuneRuns --------------------------------
(* What a tuning run over candidate lists has to end with: weights whose corpus   *)
(* score is the one reported, no worse than the start, not improved by moving any *)
(* single weight.  r.in: lists (candidates with features f and statistics v / d), *)
(* w (the start, halves), rs (limits, halves), greedy, sl and tol (rounding, in    *)
(* the units of m and score); r.out: score, w, m (model scores of the candidates). *)
EXTENDS Envelope

DotW(w, f) == FoldLeft(LAMBDA acc, x : acc + FoldLeft(LAMBDA a2, y : IF y[1] = x[1] THEN a2 + y[2] * x[2] ELSE a2, 0, w), 0, f)
Val(f, k) == FoldLeft(LAMBDA a, y : IF y[1] = k THEN a + y[2] ELSE a, 0, f)
StatOf(h) == <<h.v, h.d>>

\* ---------------- tuning ----------------
\* model scores m (hundred thousandths, rounded); hypotheses that may be the best one
Best(m, sl) == {k \in 1..Len(m) : \A j \in 1..Len(m) : m[j] - m[k] <= sl}
RECURSIVE Sums(_, _, _)
Sums(r, ms, i) == IF i = 0 THEN {<<0, 0>>}
                  ELSE LET rest == TLCEval(Sums(r, ms, i - 1)) IN IF ms[i] = <<>> THEN rest ELSE {AddP(x, StatOf(r.in.lists[i][k])) : x \in rest, k \in Best(ms[i], r.in.sl)}
ScoreIs(obs, s, t) == LET d == obs * s[2] - s[1] * 1000000 IN IF s[2] = 0 THEN obs = 0 ELSE d <= t * s[2] /\ -d <= t * s[2]

\* the sums of statistics attainable by moving feature f, in intervals of steps wide enough not to depend on rounding
Moves(r, f, lo0, hi0) ==
  LET lo == IF lo0 < -20000000 THEN -20000000 ELSE lo0
      hi == IF hi0 > 20000000 THEN 20000000 ELSE hi0
      n == Len(r.in.lists)
      ls == TLCEval([i \in 1..n |-> [k \in 1..Len(r.in.lists[i]) |-> [m |-> Val(r.in.lists[i][k].f, f), b |-> r.out.m[i][k]]]])
      sg == TLCEval([i \in 1..n |-> Segments({ls[i][k] : k \in 1..Len(ls[i])})])
      \* hypotheses on the same line within rounding: any of them
      st == TLCEval([i \in 1..n |-> [k \in 1..Len(sg[i]) |-> LET c == {j \in 1..Len(ls[i]) : ls[i][j].m = sg[i][k].m /\ sg[i][k].b - ls[i][j].b <= r.in.sl}
                                                  IN IF \E a, b \in c : StatOf(r.in.lists[i][a]) # StatOf(r.in.lists[i][b]) THEN <<-1000, 1>>
                                                     ELSE StatOf(r.in.lists[i][CHOOSE j \in c : TRUE])]])
      iv == TLCEval(Intervals(sg, st))
      wide(j) == IF iv[j].lo = NegInf THEN TRUE ELSE Lt(<<iv[j].lo[1] + 40 * iv[j].lo[2], iv[j].lo[2]>>, iv[j].hi)
      inside(j) == /\ Lt(<<lo + 40, 1>>, iv[j].hi) /\ Lt(iv[j].lo, <<hi - 40, 1>>)
  IN {iv[j].st : j \in {j \in 1..Len(iv) : wide(j) /\ inside(j)}}

TuneDiag(r) ==
  LET fs == UNION {UNION {{r.in.lists[i][k].f[n][1] : n \in 1..Len(r.in.lists[i][k].f)} : k \in 1..Len(r.in.lists[i])} : i \in 1..Len(r.in.lists)}
      start == TLCEval(Sums(r, [i \in 1..Len(r.in.lists) |-> [k \in 1..Len(r.in.lists[i]) |-> 3 * DotW(r.in.w, r.in.lists[i][k].f)]], Len(r.in.lists)))
      tied == TLCEval(Sums(r, r.out.m, Len(r.in.lists)))
      ends == TLCEval({s \in tied : ScoreIs(r.out.score, s, r.in.tol)})
      \* where hypotheses tie at the weights found, the score of any of them counts as reached
      e == CHOOSE s \in tied : \A x \in tied : ScoreLe(x, s)
      norm == FoldLeft(LAMBDA a, x : a + (IF x[2] < 0 THEN -x[2] ELSE x[2]), 0, r.out.w)
      rg(f) == IF \E x \in Range(r.in.rs) : x.k = f THEN CHOOSE x \in Range(r.in.rs) : x.k = f
               ELSE IF \E x \in Range(r.in.rs) : x.k = -1 THEN CHOOSE x \in Range(r.in.rs) : x.k = -1 ELSE [k |-> -1, lo |-> -100000, hi |-> 100000]
      sc5(x) == IF x <= -100000 THEN -90000000 ELSE IF x >= 100000 THEN 90000000 ELSE x * 50000
      wof(f) == Val(r.out.w, f)
      \* steps allowed for feature f, hundred thousandths
      slo(f) == IF r.in.greedy = 1 THEN sc5(rg(f).lo) - wof(f) ELSE -90000000
      shi(f) == IF r.in.greedy = 1 THEN sc5(rg(f).hi) - wof(f) ELSE 90000000
  IN IF ends = {} THEN {"score-not-of-the-weights"}
     ELSE (IF \E s \in start : ScoreLe(s, e) THEN {} ELSE {"worse-than-before"})
          \cup (IF r.in.greedy = 1 \/ norm = 0 \/ (norm >= 99990 /\ norm <= 100010) THEN {} ELSE {"normalization"})
          \cup (IF r.in.greedy = 1 => \A f \in fs : wof(f) + r.in.sl >= sc5(rg(f).lo) /\ wof(f) - r.in.sl <= sc5(rg(f).hi) THEN {} ELSE {"weight-out-of-range"})
          \cup (IF \A f \in fs : \A s \in Moves(r, f, slo(f), shi(f)) : ScoreLe(s, e) THEN {} ELSE {"not-a-local-optimum"})
=================================================================================
