------------------------------- MODULE P05_trace -------------------------------
EXTENDS InsideOutside, TraceBase
Diag(r) == IF r.in.dom = 1 THEN DomClauses(r.in.g, r.in.leaf = 1, r.out.post)
           ELSE PostClauses(r.in.g, r.in.leaf = 1, r.out.post)
================================================================================
