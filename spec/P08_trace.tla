------------------------------- MODULE P08_trace -------------------------------
(* A rule table is a bag of rules, whatever its order, storage or route.  Both     *)
(* storages are validated against the same forest; grammars are listed back.       *)
EXTENDS TreeRules, TraceBase
Scaled(r) == [r.in.g EXCEPT !.edges = [i \in 1..Len(r.in.g.edges) |->
                          [r.in.g.edges[i] EXCEPT !.f = [k \in 1..Len(r.in.g.edges[i].f) |->
                              <<r.in.g.edges[i].f[k][1], r.in.g.edges[i].f[k][2] * (1000 \div r.in.g.den)>>]]]]
Diag(r) == RuleClauses(Scaled(r), r.in.rules, [all_unk |-> r.in.all_unk, src |-> r.in.src, trg |-> r.in.trg, nf |-> r.in.nf], r.out)
\* synchronous grammars: the rules listed are the rules of the file
Rec(x) == [src |-> x.src, trg |-> x.trg, f |-> FDen(x.f)]
DiagList(r) ==
  LET out == [i \in 1..Len(r.out.rules[1]) |-> Rec(r.out.rules[1][i])]
      exp == [i \in 1..Len(r.in.rules) |-> Rec(r.in.rules[i])]
      all == Range(out) \cup Range(exp)
  IN IF \A x \in all : Cardinality({i \in 1..Len(out) : out[i] = x}) = Cardinality({i \in 1..Len(exp) : exp[i] = x})
     THEN {} ELSE {"rules-differ"}
\* two storages on the same table and input
Key(g) == [i \in 1..Len(g.edges) |-> [g.edges[i] EXCEPT !.id = 0]]
DiagBoth(r) == IF Len(r.a.nodes) = Len(r.b.nodes)
                  /\ \A x \in Range(Key(r.a)) \cup Range(Key(r.b)) :
                        Cardinality({i \in 1..Len(r.a.edges) : Key(r.a)[i] = x}) = Cardinality({i \in 1..Len(r.b.edges) : Key(r.b)[i] = x})
               THEN {} ELSE {"storages-differ"}
================================================================================
