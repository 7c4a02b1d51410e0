------------------------------- MODULE P02_trace -------------------------------
EXTENDS TraceBase
OC == INSTANCE OutputCollector WITH Threads <- {}, N <- 0, Variant <- "", next <- 0, saved <- 0, stream <- 0, lock <- 0, pc <- 0,
                                    me <- 0, todo <- 0, called <- 0, done <- 0, seen <- 0
\* ---- the collector alone; threads: lists of <<sentence, number of pieces out, err>>; a piece of sentence i is the number i,
\*      an unfinished piece at the end of a stream is -1
Writes(c) == UNION {{c.threads[t][k] : k \in DOMAIN c.threads[t]} : t \in DOMAIN c.threads}
CutLast(s) == IF s # <<>> /\ s[Len(s)] = -1 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
RECURSIVE Walk(_, _, _, _, _, _)
Walk(c, rows, ev, i, called, done) ==
  IF i > Len(ev) THEN {}
  ELSE LET e == ev[i]
           c2 == TLCEval(IF e[1] = "call" THEN called \cup {e[2]} ELSE called)
           d2 == TLCEval(IF e[1] \in {"ret", "retq"} THEN done \cup {e[2]} ELSE done)
           Rep(s, n) == [k \in 1..n |-> s]
           Row(id) == rows[id]
           TOut(id) == Rep(id, Row(id)[2])
           TErr(id) == Rep(id, Row(id)[3])
           firm == CASE e[1] = "ret" /\ c.buffer = 0 -> d2 [] e[1] = "final" -> d2 [] OTHER -> {}
           wrong == IF e[1] \in {"call", "retq"} THEN {}
                  ELSE (IF OC!Legal(TOut, CutLast(e[3]), c2, d2) THEN {} ELSE {"out:" \o e[1]})
                       \cup (IF OC!Legal(TErr, CutLast(e[4]), c2, d2) THEN {} ELSE {"err:" \o e[1]})
                       \cup (IF e[5] >= Len(OC!Texts(TOut, 0, OC!UpTo(firm, 0))) /\ e[6] >= Len(OC!Texts(TErr, 0, OC!UpTo(firm, 0))) THEN {} ELSE {"flush:" \o e[1]})
                       \cup (IF e[1] = "final" /\ d2 # DOMAIN rows THEN {"lost call"} ELSE {})
       IN IF wrong # {} THEN wrong ELSE Walk(c, rows, ev, i + 1, c2, d2)
Diag(r) == IF r.out.end # "done" THEN {"ended:" \o r.out.end} 
           ELSE LET W == TLCEval(Writes(r.in)) IN Walk(r.in, TLCEval([id \in {w[1] : w \in W} |-> CHOOSE w \in W : w[1] = id]), r.out.ev, 1, {}, {})

\* ---- the decoder: every stream of a run, cut into lines <<sentence, class>>, the class of a line being equal in the
\*      run on one thread exactly when the line is
\* alone: the sentences with lines in this stream when each is decoded by itself (<<-1>>: not known)
StreamOK(n, exact, run, one, alone) ==
  LET Blk(s, i) == SelectSeq(s, LAMBDA x : x[1] = i)
      TRun(i) == Blk(one, i)
  IN (IF \A k \in DOMAIN run : run[k][1] \in 0..(n - 1) THEN {} ELSE {"stray line"})
     \cup (IF OC!Legal(TRun, run, 0..(n - 1), 0..(n - 1)) THEN {} ELSE {"order or content"})
     \cup (IF exact = 1 => \A i \in 0..(n - 1) : Len(Blk(run, i)) = 1 THEN {} ELSE {"one line per sentence"})
     \cup (IF alone = <<-1>> \/ {run[k][1] : k \in DOMAIN run} = {alone[k] : k \in DOMAIN alone} THEN {} ELSE {"sentences with output"})
DiagCLI(r) ==
  (IF r.out.rc = r.out.rc1 /\ r.out.rc = 0 THEN {} ELSE {"exit status"})
  \cup UNION {LET s == r.out.streams[k] IN {s.name \o ":" \o x : x \in StreamOK(r.in.n, s.exact, s.run, s.one, s.alone)} : k \in DOMAIN r.out.streams}
================================================================================
