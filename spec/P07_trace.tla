------------------------------- MODULE P07_trace -------------------------------
EXTENDS TreeRules, TraceBase
\* record: in [g, rules, all_unk, src, trg, nf], out: the translation forest
Diag(r) == RuleClauses([r.in.g EXCEPT !.edges = [i \in 1..Len(r.in.g.edges) |->
                          [r.in.g.edges[i] EXCEPT !.f = [k \in 1..Len(r.in.g.edges[i].f) |->
                              <<r.in.g.edges[i].f[k][1], r.in.g.edges[i].f[k][2] * (1000 \div r.in.g.den)>>]]]],
                       r.in.rules, [all_unk |-> r.in.all_unk, src |-> r.in.src, trg |-> r.in.trg, nf |-> r.in.nf], r.out)
================================================================================
