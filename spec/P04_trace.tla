------------------------------- MODULE P04_trace -------------------------------
EXTENDS NBest, TraceBase
\* record: [in |-> [g, n, nf, w], out |-> [nb, es]]; the graph's edge scores are set from weights w
Diag(r) ==
  LET g == [r.in.g EXCEPT !.edges = [i \in 1..Len(r.in.g.edges) |->
               [r.in.g.edges[i] EXCEPT !.s = Dot(r.in.w, r.in.g.edges[i].f)]]]
  IN ScoreClauses(g, r.in.w, r.out.es) \cup EvalClauses(g, r.in.nf, r.out.nb)
================================================================================
