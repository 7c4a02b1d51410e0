-------------------------------- MODULE P23_cli --------------------------------
(* mt-evaluator: a line for every file, every measure a column, every sentence   *)
(* counted once.                                                                 *)
EXTENDS EvalMeasures, TraceBase

Vec(m, r, s) ==
  CASE m.m = "wer" -> <<EditDistance(r, s), Len(r)>>
    [] m.m = "zeroone" -> <<IF r = s THEN 1 ELSE 0, 1>>
    [] m.m = "bleu" -> BleuStats(r, s, m.order)
\* a printed score (1e-6 and its logarithm) against a sum of statistics
ScOk(m, v, x) ==
  IF m.m = "bleu" THEN LnOk(x.ln, BleuLn(v, m), 20)
  ELSE LET want == IF v[2] = 0 THEN 0 ELSE (v[1] * 1000000) \div v[2]
       IN AbsV(x.v - (IF m.inv THEN 1000000 - want ELSE want)) <= 10
\* <<columns>> of the sum of some sentences
Row(ms, refs, sys, ix, xs) ==
  Len(xs) = Len(ms) /\ \A k \in 1..Len(ms) :
     LET vs == [i \in 1..Len(ix) |-> Vec(ms[k], refs[ix[i]], sys[ix[i]])]
     IN xs[k].id = ms[k].id /\ ScOk(ms[k], FoldLeft(AddStats, vs[1], Tail(vs)), xs[k])

Diag(r) ==
  LET ms == r.in.ms
      refs == r.in.refs
      files == r.in.files
      nf == Len(files)
      n == Len(refs)
      long == {f \in 1..nf : Len(files[f]) > n}
      \* a file that is too long ends the run
      upto == IF long = {} THEN nf ELSE Min(long) - 1
  IN (IF (r.out.rc # 0) = (long # {}) THEN {} ELSE {"exit"})
     \cup (IF Len(r.out.rows) = upto THEN {} ELSE {"rows"})
     \cup UNION {LET row == r.out.rows[f]
                 IN (IF row.name = (IF nf > 1 THEN r.in.names[f] ELSE "") THEN {} ELSE {"name"})
                    \cup (IF Len(files[f]) < n THEN IF row.failed THEN {} ELSE {"short-file"}
                          ELSE IF ~row.failed /\ Row(ms, refs, files[f], [i \in 1..n |-> i], row.xs) THEN {} ELSE {"corpus-score"})
                 : f \in 1..(IF Len(r.out.rows) < upto THEN Len(r.out.rows) ELSE upto)}
     \* one line for every sentence and measure, in order
     \cup (IF ~r.in.sent THEN IF r.out.sents = <<>> THEN {} ELSE {"sent-lines"}
           ELSE IF long # {} THEN {}
           ELSE LET want == FlattenSeq([f \in 1..nf |-> FlattenSeq([i \in 1..Len(files[f]) |-> [k \in 1..Len(ms) |-> <<f, i, k>>]])])
                IN IF /\ Len(want) = Len(r.out.sents)
                      /\ \A x \in 1..Len(want) :
                           LET w == want[x]
                               s == r.out.sents[x]
                           IN /\ s.name = (IF nf > 1 THEN r.in.names[w[1]] ELSE "") /\ s.i = w[2] - 1
                              /\ s.x.id = ms[w[3]].id /\ ScOk(ms[w[3]], Vec(ms[w[3]], refs[w[2]], files[w[1]][w[2]]), s.x)
                   THEN {} ELSE {"sent-lines"})
     \* significance: shares of wins, ties and losses for every two complete files
     \cup (IF ~r.in.boot \/ long # {} THEN {}
           ELSE LET ok == SelectSeq([f \in 1..nf |-> f], LAMBDA f : Len(files[f]) = n)
                    want == FlattenSeq([a \in 1..Len(ok) |-> FlattenSeq([b \in 1..(Len(ok) - a) |-> [k \in 1..Len(ms) |-> <<ok[a], ok[a + b], k>>]])])
                IN IF Len(want) # Len(r.out.boots) THEN {"bootstrap-lines"}
                   ELSE UNION {LET w == want[x]
                                   b == r.out.boots[x]
                                   m == ms[w[3]]
                                   A == files[w[1]]
                                   B == files[w[2]]
                                   \* sentence by sentence at least as good (as small a number, for error rates)
                                   Geq(S, T) == \A i \in 1..n : Vec(m, refs[i], S[i])[1] >= Vec(m, refs[i], T[i])[1]
                                   big == m.m # "bleu" /\ ~m.inv
                               IN (IF b.a = r.in.names[w[1]] /\ b.b = r.in.names[w[2]] /\ b.eval = m.eval
                                      /\ AbsV(b.wtl[1] + b.wtl[2] + b.wtl[3] - 1000) <= 2 THEN {} ELSE {"bootstrap-shares"})
                                  \cup (IF A = B /\ b.wtl[2] # 1000 THEN {"bootstrap-tie"} ELSE {})
                                  \cup (IF m.m # "bleu" /\ Geq(A, B) /\ b.wtl[IF m.inv THEN 1 ELSE 3] # 0 THEN {"bootstrap-order"} ELSE {})
                                  \cup (IF m.m # "bleu" /\ Geq(B, A) /\ b.wtl[IF m.inv THEN 3 ELSE 1] # 0 THEN {"bootstrap-order"} ELSE {})
                               : x \in 1..Len(want)})
================================================================================
