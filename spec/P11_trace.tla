------------------------------- MODULE P11_trace -------------------------------
EXTENDS LmCompose, TraceBase
\* record: in [g, models, w, search, pop, full], out [g, nb]
NotFinite(g) == \E i \in 1..Len(g.edges) : g.edges[i].s >= 2000000000 \/ \E j \in 1..Len(g.edges[i].f) : g.edges[i].f[j][2] >= 2000000000
Diag(r) ==
  IF NotFinite(r.out.g) THEN {"not-finite"} ELSE
  LET c == UNION {ComposeClauses(r.in.g, lms, r.out.g, r.in.full = 1, 1) : lms \in {TabledAll(r.in.models)}}
      top == IF Len(r.out.nb) = 0 THEN {"empty-nbest"}
             ELSE IF Near(r.out.nb[1].s, Max({DScore(r.out.g, d) : d \in Derivs(r.out.g)}), 1) THEN {} ELSE {"nbest-top"}
  IN IF c # {} THEN c ELSE top
================================================================================
