--------------------------------- MODULE P37_cli ---------------------------------
(* The tuning program.  A record holds the references, the candidate files, the    *)
(* options, and what was printed: by tuning with the references (out.a), by tuning  *)
(* with the statistics files written before (out.b), by tuning with one file for    *)
(* all candidates (out.c), the statistics files themselves, and the single runs.    *)
EXTENDS TuneRuns, EvalMeasures, TraceBase

\* ---- the statistics of a candidate, as a row of a statistics file
OneStat(k, x, r, s) ==
  CASE k = "wer" -> <<EditDistance(r, s), Len(r)>>
    [] k = "zeroone" -> <<IF r = s THEN 1 ELSE 0, 1>>
    [] k = "bleu" -> BleuStats(r, s, x.order)
    [] k = "interp" -> <<EditDistance(r, s), Len(r), IF r = s THEN 1 ELSE 0, 1>>
StatsDiag(x, o) ==
  IF Len(o.stats) # Len(x.files) THEN {"statistics-files"}
  ELSE UNION {
    IF Len(o.stats[n]) # Len(x.files[n]) THEN {"statistics-lines"}
    ELSE {"statistics" : k \in {k \in 1..Len(x.files[n]) : o.stats[n][k] # OneStat(x.kind, x, x.refs[x.files[n][k].id + 1], x.files[n][k].w)}}
    : n \in 1..Len(x.files)}

\* ---- the candidates of every sentence, with the value of their statistics
Value(x, r, s) == CASE x.kind = "wer" -> [v |-> EditDistance(r, s), d |-> Len(r)]
                    [] x.kind = "werrev" -> [v |-> Len(r) - EditDistance(r, s), d |-> Len(r)]
                    [] x.kind = "zeroone" -> [v |-> IF r = s THEN 1 ELSE 0, d |-> 1]
All(x) == FlattenSeq(x.files)
ListsOf(x) == [i \in 1..Len(x.refs) |->
                LET q == SelectSeq(All(x), LAMBDA h : h.id = i - 1)
                IN [k \in 1..Len(q) |-> LET y == Value(x, x.refs[i], q[k].w) IN [f |-> q[k].f, v |-> y.v, d |-> y.d]]]

\* ---- the runs: one from the given weights, one from none, and as many as asked for from random ones; the best is printed
RunsDiag(x, o) ==
  LET n == Len(o.runs)
  IN IF n # x.restarts + 2 THEN {"number-of-runs"}
     ELSE (IF \E k \in 1..n : o.best = o.runs[k].t /\ \A j \in 1..n : o.runs[j].s <= o.runs[k].s + 1 THEN {} ELSE {"not-the-best-run"})
          \cup (IF o.w = o.bw THEN {} ELSE {"weights-printed"})

TuneRec(x, o, ls) == [in |-> [lists |-> ls, w |-> x.w, rs |-> x.rs, greedy |-> x.greedy, sl |-> 6, tol |-> 8],
                      out |-> [score |-> o.score, w |-> o.w, m |-> o.m]]

Diag(r) ==
  LET x == r.in  o == r.out
  IN IF x.op = "err" THEN (IF o.rc # 0 /\ o.said /\ o.a = "" THEN {} ELSE {"accepted:" \o x.err})
     ELSE IF o.rc # 0 THEN {"exit"}
     ELSE (IF x.forest = 0 /\ x.kind \in {"wer", "zeroone", "bleu", "interp"} THEN StatsDiag(x, o) ELSE {})
          \cup (IF x.kind = "werrev" /\ x.forest = 0 THEN StatsDiag([x EXCEPT !.kind = "wer"], o) ELSE {})
          \cup (IF o.b = o.a THEN {} ELSE {"statistics-route"})
          \cup (IF o.c = o.a THEN {} ELSE {"one-file"})
          \cup (IF o.d = o.a THEN {} ELSE {"threads"})
          \cup (IF x.threads <= 1 THEN RunsDiag(x, o) ELSE {})
          \* (a random run or direction may step to weights that are zero but for rounding; brought to unit size, these mean nothing)
          \cup (IF x.kind \in {"wer", "werrev", "zeroone"} /\ ~((x.restarts > 0 \/ x.dirs # "") /\ Len(o.w) <= 1) THEN TuneDiag(TuneRec(x, o, TLCEval(ListsOf(x)))) ELSE {})
================================================================================
