------------------------------- MODULE P19_trace -------------------------------
EXTENDS SparseVec, TraceBase
RECURSIVE Run(_, _, _, _)
\* replays the recorded history: the first operation whose observation the specification does not allow
Run(st, ops, out, i) ==
  IF i > Len(ops) THEN {}
  ELSE LET s2 == Step(st, ops[i])
       IN IF Observes(st, ops[i], s2, out[i]) THEN Run(s2, ops, out, i + 1) ELSE {"op:" \o ops[i][1]}
Start(c) == [v |-> [i \in 1..c.nv |-> Zero], m |-> [i \in 1..c.nm |-> Zero]]
Diag(r) == IF Len(r.out) # Len(r.in.ops) THEN {"length"} ELSE Run(Start(r.in), r.in.ops, r.out, 1)
================================================================================
