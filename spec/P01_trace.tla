------------------------------- MODULE P01_trace -------------------------------
EXTENDS TraceBase
TP == INSTANCE ThreadPool WITH W <- 0, Limit <- 0, Keep <- FALSE, Tasks <- {}, s <- 0, todo <- 0, pc <- 0
\* every state the specification may be in after the first i events
RECURSIVE Fold(_, _, _, _)
Fold(S, ev, i, c) ==
  IF i > Len(ev) THEN [S |-> S, at |-> "end"]
  ELSE LET T == UNION {TP!Event(s, ev[i], c.keep = 1) : s \in TP!Close(S, c.w, c.limit)}
       IN IF T = {} THEN [S |-> T, at |-> ev[i][1]] ELSE Fold(T, ev, i + 1, c)
\* at the end of the scenario every user thread has returned and (if it asked for that) all is done
Final(s, c) == /\ s.pend = {} /\ s.wt = {}
               /\ (s.stop = "over" /\ s.fin) => s.dn = s.acc /\ (c.keep = 1 \/ s.del = s.acc)
Diag(r) ==
  IF r.out.end # "done" THEN {"ended:" \o r.out.end}
  ELSE LET f == Fold({TP!Fresh}, r.out.ev, 1, r.in)
       IN IF f.S = {} THEN {"event:" \o f.at}
          ELSE IF \E s \in f.S : Final(s, r.in) THEN {} ELSE {"final"}
================================================================================
