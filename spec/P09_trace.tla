------------------------------- MODULE P09_trace -------------------------------
EXTENDS CfgParse, TraceBase
\* record: in [rules (each with the span limit lim of its table), words, root, unk, del, src, nf, cyclic], out [g]
Rep(s, nf) == IF s = "'" THEN <<>> ELSE [i \in 1..(nf + 1) |-> s]
\* grammars with a cycle of unary rules are rejected
DiagCycle(r) == IF r.rejected = 1 THEN {} ELSE {"accepted-unary-cycle"}
Diag(r) == 
  ParseClauses(r.in.rules, r.in.words, Rep("'" \o r.in.root, r.in.nf),
                        [unk |-> Rep("'" \o r.in.unk, r.in.nf), del |-> r.in.del, src |-> r.in.src], r.out.g)
================================================================================
