------------------------------- MODULE P03_trace -------------------------------
EXTENDS NBest, TraceBase
\* record: [in |-> [g, n, uniq, nf], out |-> [nb]]
Diag(r) == IF r.in.uniq = 1 THEN UniqClauses(r.in.g, r.in.n, r.in.nf, r.out.nb)
           ELSE NBestClauses(r.in.g, r.in.n, r.out.nb)
================================================================================
