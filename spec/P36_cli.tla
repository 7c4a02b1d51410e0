-------------------------------- MODULE P36_cli --------------------------------
(* r.in: c (TuneLoop), o: [n, thr, fmt, fac, trace, gen, moses, eval, dopt, topt], ref, src (lines), w: weights W[1..max + 1], each a     *)
(* sequence of <<name, value>> ordered by name (in 1/10000), nb: for every iteration the candidates [id, w, f, fv, l] (f: features in order, fv: name and value, l: the line),     *)
(* tabs: the tables of the model, each a sequence of [ws, l] (source words, line), rest: the other lines of the configuration.       *)
(* r.out: runs: [rc, log, fin], again, last.                                                                                         *)
EXTENDS TuneLoop, TraceBase
Abs(x) == IF x < 0 THEN -x ELSE x
Value(w, k) == LET S == {i \in 1..Len(w) : w[i][1] = k} IN IF S = {} THEN 0 ELSE w[CHOOSE i \in S : TRUE][2]
Moved(a, b) == LET K == {a[i][1] : i \in 1..Len(a)} \cup {b[i][1] : i \in 1..Len(b)} IN FoldSet(LAMBDA k, s : s + Abs(Value(a, k) - Value(b, k)), 0, K)
Still(x) == {i \in 1..x.c.max : Moved(x.w[i], x.w[i + 1]) < 10}
\* candidates that were not seen before, in this iteration or an earlier one of the same tuning: same sentence, words and features

Key(y) == <<y.id, y.w, y.f>>
Fresh(seen, q) ==
  FoldLeft(LAMBDA acc, y : IF Key(y) \in acc.s THEN acc ELSE [s |-> acc.s \cup {Key(y)}, q |-> Append(acc.q, y.l)], [s |-> seen, q |-> <<>>], q).q
Seen(x, i) == UNION {{Key(x.nb[j][k]) : k \in 1..Len(x.nb[j])} : j \in 1..(i - 1)}
Uniq(x, i) == Fresh(Seen(x, i), x.nb[i])
\* the Moses solver gets every candidate with a value for each feature
Dense(x, i) ==
  [k \in 1..Len(x.nb[i]) |->
     LET y == x.nb[i][k]
         val(n) == LET S == {j \in 1..Len(y.fv) : y.fv[j][1] = n} IN IF S = {} THEN "0" ELSE y.fv[CHOOSE j \in S : TRUE][2]
     IN ToString(y.id) \o " ||| " \o y.w \o " ||| "
        \o FoldLeft(LAMBDA a, j : a \o (IF j = 1 THEN "" ELSE " ") \o x.w[i][j][1] \o "=" \o val(x.w[i][j][1]), "", [j \in 1..Len(x.w[i]) |-> j])]
Cands(x, i) == IF x.o.moses THEN Dense(x, i) ELSE Uniq(x, i)
Norm(w) == FoldLeft(LAMBDA a, y : a + Abs(y[2]), 0, w)
Start(x, i, w) == Len(w) = Len(x.w[i]) /\ \A k \in 1..Len(w) : w[k][1] = x.w[i][k][1] /\ Abs(w[k][2] * Norm(x.w[i]) - x.w[i][k][2] * 10000) <= Norm(x.w[i])
Stats(q) == [k \in 1..Len(q) |-> "s " \o q[k]]
\* the tables decoding sees
Words(x) == UNION {ToSet(x.srcw[i]) : i \in 1..Len(x.srcw)}
Table(x, t) == IF x.c.filter THEN SelectSeq(t, LAMBDA y : ToSet(y.ws) \subseteq Words(x)) ELSE t
Lines(t) == [k \in 1..Len(t) |-> t[k].l]
Model(x) == [k \in 1..Len(x.tabs) |-> Lines(Table(x, x.tabs[k]))]
Differs(f, a, b) == IF a = b THEN {} ELSE {f}
BadDec(x, i, l) ==
  Differs("dec-weights", l.w, x.w[i]) \cup Differs("dec-table", l.tm, Model(x)) \cup Differs("dec-config", l.rest, x.rest) \cup Differs("dec-input", l.src, x.src)
  \cup Differs("dec-options", <<l.n, l.thr, l.fmt, l.fac, l.trace, l.extra, l.cand>>, <<x.o.n, x.o.thr, x.o.fmt, x.o.fac, x.o.trace, x.o.dopt, IF x.c.nb THEN "nbest" ELSE "forest">>)
BadSta(x, i, l) ==
  Differs("stats-candidates", l.nb, Cands(x, i)) \cup Differs("stats-reference", l.ref, x.ref) \cup Differs("stats-options", <<l.by, l.fac>>, <<IF x.o.gen THEN "gen" ELSE IF x.o.moses THEN "moses" ELSE "batch", IF x.o.moses THEN "" ELSE x.o.fac>>)
  \cup (IF x.o.gen \/ x.o.moses THEN {} ELSE Differs("stats-measure", l.eval, x.o.eval))
BadTun(x, i, l) ==
  IF x.o.moses
  THEN Differs("tune-candidates", l.nbs, [j \in 1..i |-> [k \in 1..Len(Dense(x, j)) |-> "f " \o Dense(x, j)[k]]]) \cup Differs("tune-statistics", l.stats, [j \in 1..i |-> Stats(Dense(x, j))])
       \cup (IF Start(x, i, l.w) THEN {} ELSE {"tune-weights"}) \cup (IF l.d = Len(x.w[i]) /\ l.whole THEN {} ELSE {"tune-options"})
  ELSE
  Differs("tune-candidates", l.nbs, [j \in 1..i |-> IF x.c.nb THEN Uniq(x, j) ELSE <<"F" \o ToString(j)>>])
  \cup Differs("tune-statistics", l.stats, IF x.c.nb THEN [j \in 1..i |-> Stats(Uniq(x, j))] ELSE <<>>)
  \cup Differs("tune-weights", l.w, x.w[i]) \cup Differs("tune-options", <<l.eval, l.extra, l.ref>>, <<x.o.eval, x.o.topt, x.ref>>)
Bad(x, i, l) == CASE l.p = "dec" -> BadDec(x, i, l) [] l.p = "sta" -> BadSta(x, i, l) [] l.p = "tun" -> BadTun(x, i, l) [] OTHER -> {"unknown"}
Visible == {"dec", "sta", "tun"}
Diag(r) ==
  LET x == r.in
      o == x.c
      still == Still(x)
      nr == Len(r.out.runs)
      NS == Len(x.stops)
      Run(k) == r.out.runs[k]
      \* the stop of run k is met when it begins with s
      Met(k, s) == /\ k <= NS
                   /\ LET st == x.stops[k]
                      IN IF st.p = "filter" THEN s = 0 /\ o.filter
                         ELSE LET b == IF s = 0 THEN 1 ELSE s
                                  e == LastOf(o, still, b)
                              IN IF st.p = "fin" THEN st.it = e ELSE b <= st.it /\ st.it <= e /\ st.p \in ToSet(Stages(o))
      \* <<iteration, program>> called by run k
      Calls(k, s) ==
        LET b == IF s = 0 THEN 1 ELSE s
            e == LastOf(o, still, b)
            met == Met(k, s)
            lim == IF ~met THEN <<e, 99>> ELSE LET st == x.stops[k] IN IF st.p = "filter" THEN <<0, 0>> ELSE IF st.p = "fin" THEN <<e, 99>> ELSE <<st.it, Pos(Stages(o), st.p)>>
            all == FlattenSeq([i \in 1..(e - b + 1) |-> [j \in 1..Len(Stages(o)) |-> <<b + i - 1, Stages(o)[j]>>]])
        IN SelectSeq(all, LAMBDA y : y[2] \in Visible /\ (y[1] < lim[1] \/ (y[1] = lim[1] /\ Pos(Stages(o), y[2]) <= lim[2])))
      AfterStop(k, s) ==
        LET st == x.stops[k]
            b == IF s = 0 THEN 1 ELSE s
            least(i) == IF i > o.max THEN o.max ELSE i
        IN IF st.p = "filter" THEN (IF st.k = "after" THEN {0, 1} ELSE {0})
           ELSE IF st.p = "fin" THEN {least(st.it + 1)}
           ELSE IF st.p = "upd" /\ st.k = "after" THEN {st.it, least(st.it + 1)} ELSE {st.it}
      First(k) == IF Run(k).log = <<>> THEN 0 ELSE Run(k).log[1].it
      \* where run k began: what it shows, when that is possible
      From[k \in 1..nr] ==
        IF k = 1 THEN 0
        ELSE LET C == AfterStop(k - 1, From[k - 1]) IN IF First(k) \in C THEN First(k) ELSE Min(C)
      Result(e, f) ==
        Differs("result-weights", f.w, x.w[e + 1]) \cup Differs("result-table", f.tm, [j \in 1..Len(x.tabs) |-> Lines(x.tabs[j])]) \cup Differs("result-config", f.rest, x.rest)
      \* run j was stopped when it had put together the result
      Made(j) == Met(j, From[j]) /\ x.stops[j].p = "fin" /\ x.stops[j].k = "after"
      MaxMade(k) == Max({j \in 1..k : Made(j)})
      Wrong(k) ==
        LET s == From[k]
            met == Met(k, s)
            cs == Calls(k, s)
            lg == Run(k).log
        IN (IF [j \in 1..Len(lg) |-> <<lg[j].it, lg[j].p>>] = cs THEN UNION {Bad(x, cs[j][1], lg[j]) : j \in 1..Len(cs)} ELSE {"calls"})
           \cup (IF met THEN (IF Run(k).rc = 0 THEN {"failure-hidden"} ELSE {}) \cup (IF Run(k).fin.there THEN IF \E j \in 1..k : Made(j) THEN UNION {Result(LastOf(o, still, IF From[j] = 0 THEN 1 ELSE From[j]), Run(k).fin) : j \in {MaxMade(k)}} ELSE {"result-of-failed-run"} ELSE {})
                 ELSE LET e == LastOf(o, still, IF s = 0 THEN 1 ELSE s)
                          f == Run(k).fin
                      IN IF Run(k).rc # 0 THEN {"not-finished"}
                         ELSE IF ~f.there THEN {"no-result"}
                         ELSE Result(e, f) \cup Differs("last-output", f.out, "out " \o ToString(e)) \cup Differs("last-weights", f.lw, x.w[e]))
  IN IF x.lost THEN (IF \A k \in 1..nr : Run(k).rc # 0 /\ Run(k).log = <<>> /\ ~Run(k).fin.there THEN {} ELSE {"went-on-without-model"})
     ELSE UNION {Wrong(k) : k \in 1..nr}
     \cup (IF nr > 0 /\ ~Met(nr, From[nr]) /\ \A k \in 1..(nr - 1) : Met(k, From[k]) THEN {} ELSE {"runs"})
     \cup (IF r.out.again THEN {} ELSE {"overwritten"})
================================================================================
