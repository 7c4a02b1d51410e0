------------------------------- MODULE P06_trace -------------------------------
EXTENDS NBest, TraceBase
\* record: in [g, n], out [g: pruned graph, nb0: n-best of the original, nb: n-best of the pruned one].
\* Edges carry their original identifier in src = "e<i>", nodes theirs in sym = 100 + i.
Orig(g, e) == CHOOSE i \in EdgeIds(g) : E(g, i).src = e.src
TrimClauses(g, n, t, nb0, nb) ==
  LET used == UNION {Range(nb0[i].edges) : i \in 1..Len(nb0)}
      usedN == {0} \cup UNION {{E(g, e).h} \cup Range(E(g, e).t) : e \in used}
      keptE == [i \in 1..Len(t.edges) |-> Orig(g, t.edges[i])]
      keptN == [i \in 1..Len(t.nodes) |-> t.nodes[i].sym - 100]
      map(d) == [i \in 1..Len(d) |-> keptE[d[i] + 1]]
      m == Len(nb)
  IN NBestClauses(g, n, nb0)
     \cup (IF WellFormed(t) THEN {} ELSE {"ill-formed"})
     \cup (IF Range(keptE) = used /\ Len(keptE) = Cardinality(used) THEN {} ELSE {"edges"})
     \cup (IF Range(keptN) = usedN /\ Len(keptN) = Cardinality(usedN) THEN {} ELSE {"nodes"})
     \cup (IF keptN[1] = 0 THEN {} ELSE {"root"})
     \cup (IF \A i \in 1..Len(t.edges) :
                LET a == t.edges[i]
                    b == E(g, keptE[i])
                IN /\ a.s = b.s /\ TrgEq(a.trg, b.trg) /\ FDen(a.f) = FDen(b.f)
                   /\ keptN[a.h + 1] = b.h
                   /\ [k \in 1..Len(a.t) |-> keptN[a.t[k] + 1]] = b.t
           THEN {} ELSE {"edge-attributes"})
     \cup (IF \A i \in 1..Len(t.nodes) :
                LET a == t.nodes[i]
                    b == g.nodes[keptN[i] + 1]
                IN a.b = b.b /\ a.e = b.e
           THEN {} ELSE {"node-attributes"})
     \cup (IF t.words = g.words THEN {} ELSE {"words"})
     \cup (IF {map(nb[i].edges) : i \in 1..m} \subseteq Derivs(g) THEN {} ELSE {"foreign-derivation"})
     \cup (IF [i \in 1..m |-> nb[i].s] = [i \in 1..Len(nb0) |-> nb0[i].s] THEN {} ELSE {"nbest-differs"})
Diag(r) == TrimClauses(r.in.g, r.in.n, r.out.g, r.out.nb0, r.out.nb)
================================================================================
