------------------------------- MODULE P20_trace -------------------------------
EXTENDS TraceBase
SD == INSTANCE SymbolDict WITH Threads <- {}, Words <- {}, Ops <- 0, Variant <- "", map <- 0, vocab <- 0, frozen <- 0, upg <- 0, wr <- 0,
                               pc <- 0, w <- 0, idv <- 0, left <- 0, abs <- 0, ok <- 0
RECURSIVE Fold(_, _, _)
Fold(S, ev, i) == IF i > Len(ev) THEN {}
                  ELSE LET T == UNION {SD!Obs(s, ev[i]) : s \in S} IN IF T = {} THEN {"event:" \o ev[i][1]} ELSE Fold(T, ev, i + 1)
\* a run of several threads
Diag(r) == IF r.out.end # "done" THEN {"ended:" \o r.out.end} ELSE Fold({SD!Init0}, r.out.ev, 1)
\* one thread: a list of operations with their results
Events(op, o) ==
  CASE op[1] = "wid" -> <<<<"wid", op[2], o>>>>
    [] op[1] = "sym" -> IF o[1] < 0 THEN <<>> ELSE <<<<"sym", o[1], o[2]>>>>
    [] op[1] = "freeze" -> <<<<"freeze", 0, 0>>>>
    [] op[1] = "sent" -> IF Len(o) # Len(op[2]) THEN <<<<"length">>>> ELSE [k \in 1..Len(o) |-> <<"wid", op[2][k], o[k]>>]
    [] op[1] = "save" -> <<>>
RECURSIVE Cat(_, _, _)
Cat(ops, out, i) == IF i > Len(ops) THEN <<>> ELSE Events(ops[i], out[i]) \o Cat(ops, out, i + 1)
\* a symbol set written and read back is the same set
Saved(op, o) ==
  LET n == Len(op[2]) IN
  /\ Len(o) = n + 1
  /\ \A k \in 1..n : o[k][1] = o[k][2] /\ o[k][3] = -1
  /\ \A j, k \in 1..n : (o[j][1] = o[k][1]) = (op[2][j] = op[2][k])
  /\ o[n + 1][1] = Cardinality({op[2][k] : k \in 1..n}) /\ o[n + 1][2] = o[n + 1][1]
DiagSeq(r) == Fold({SD!Init0}, Cat(r.in.ops, r.out, 1), 1)
              \cup (IF \A k \in 1..Len(r.in.ops) : r.in.ops[k][1] = "save" => Saved(r.in.ops[k], r.out[k]) THEN {} ELSE {"save"})
================================================================================
