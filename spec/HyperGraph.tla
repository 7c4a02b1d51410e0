------------------------------ MODULE HyperGraph ------------------------------
(* Forests (acyclic hypergraphs) and their derivations.                         *)
(* A graph g is a record [nodes, edges, ...]; node and edge identifiers are     *)
(* 0-based positions; node 0 is the root; an edge e has head e.h, tails e.t (a  *)
(* sequence of nodes), score e.s.  A derivation is the sequence of its edges in *)
(* pre-order, which determines the tree.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

NodeIds(g) == 0..(Len(g.nodes) - 1)
EdgeIds(g) == 0..(Len(g.edges) - 1)
E(g, i) == g.edges[i + 1]
EdgesOf(g, n) == {e \in EdgeIds(g) : E(g, e).h = n}

SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

\* All ways to concatenate one member of each set of a sequence of sets of sequences
RECURSIVE Products(_)
Products(ss) == IF ss = <<>> THEN {<<>>}
                ELSE LET rest == Products(Tail(ss))
                     IN {a \o b : a \in Head(ss), b \in rest}

\* Depth of a node, used to order the table construction
RECURSIVE Topo(_, _, _)
\* order: nodes already complete; adds every node whose edges only have complete tails
Topo(g, done, order) ==
  LET ready == {n \in NodeIds(g) \ done :
                  \A e \in EdgesOf(g, n) : Range(E(g, e).t) \subseteq done}
  IN IF ready = {} THEN order
     ELSE Topo(g, done \cup ready, order \o SetToSeq(ready))

\* Bottom-up order of the nodes
BottomUp(g) == Topo(g, {}, <<>>)
Acyclic(g) == Len(BottomUp(g)) = Len(g.nodes)

\* node -> set of derivations.  In a translation forest a node without edges has none; in a
\* parse forest (leaf) it is a word and has the empty derivation.
DerivTableOf(g, leaf) ==
  FoldLeft(LAMBDA tab, n :
             tab @@ (n :> IF leaf /\ EdgesOf(g, n) = {} THEN {<<>>} ELSE
                          UNION {{<<e>> \o p : p \in Products([k \in 1..Len(E(g, e).t) |-> tab[E(g, e).t[k]]])}
                                  : e \in EdgesOf(g, n)}),
           <<>>, BottomUp(g))
\* node -> number of derivations, up to a cap
CountTable(g, cap) ==
  LET cut(x) == IF x > cap THEN cap ELSE x
      prod(q) == FoldLeft(LAMBDA a, x : cut(a * x), 1, q)
  IN FoldLeft(LAMBDA tab, n : tab @@ (n :> FoldSet(LAMBDA e, a : cut(a + prod([k \in 1..Len(E(g, e).t) |-> tab[E(g, e).t[k]]])), 0, EdgesOf(g, n))),
              <<>>, BottomUp(g))
DerivTable(g) == DerivTableOf(g, FALSE)
Derivs(g) == DerivTable(g)[0]
ForestDerivs(g) == DerivTableOf(g, TRUE)[0]

DScore(g, d) == SumSeq([i \in 1..Len(d) |-> E(g, d[i]).s])

\* --- the structure of a derivation -------------------------------------------
\* Position just after the sub-derivation that starts at position i of d
RECURSIVE After(_, _, _)
RECURSIVE AfterK(_, _, _, _)
AfterK(g, d, i, k) == IF k = 0 THEN i ELSE LET j == TLCEval(After(g, d, i)) IN AfterK(g, d, j, k - 1)
After(g, d, i) == LET j == TLCEval(i + 1) IN AfterK(g, d, j, Len(E(g, d[i]).t))

\* Is d a derivation of node n starting at position i (and where does it end; 0: it is not)?
RECURSIVE WfFrom(_, _, _, _)
RECURSIVE WfKids(_, _, _, _, _)
WfKids(g, d, ts, k, i) == IF i = 0 \/ k > Len(ts) THEN i
                          ELSE LET j == TLCEval(WfFrom(g, d, ts[k], i)) IN WfKids(g, d, ts, k + 1, j)
WfFrom(g, d, n, i) ==
  IF i > Len(d) \/ d[i] \notin EdgeIds(g) THEN 0
  ELSE IF E(g, d[i]).h # n THEN 0
  ELSE WfKids(g, d, E(g, d[i]).t, 1, i + 1)
IsDeriv(g, d, n) == WfFrom(g, d, n, 1) = Len(d) + 1

\* The translation of factor f of the sub-derivation at position i: non-negative numbers of the
\* rule's target side are words, -k stands for the translation of the k-th tail.
RECURSIVE Yield(_, _, _, _)
Yield(g, d, i, f) ==
  LET e == E(g, d[i])
      w == IF f <= Len(e.trg) THEN e.trg[f] ELSE <<>>
      start(k) == AfterK(g, d, i + 1, k - 1)
  IN FlattenSeq([j \in 1..Len(w) |-> IF w[j] >= 0 THEN <<w[j]>> ELSE Yield(g, d, start(-w[j]), f)])

\* equality of target sides up to trailing empty factors
TrgF(trg, f) == IF f <= Len(trg) THEN trg[f] ELSE <<>>
TrgEq(a, b) == \A f \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) : TrgF(a, f) = TrgF(b, f)

\* --- features -----------------------------------------------------------------
\* a feature list is a sequence of <<feature, value>>; its denotation is a function with zeros left out
FSum(fl, k) == SumSeq([i \in 1..Len(fl) |-> IF fl[i][1] = k THEN fl[i][2] ELSE 0])
FKeys(fl) == {fl[i][1] : i \in 1..Len(fl)}
FDen(fl0) == LET fl == TLCEval(fl0) IN {<<k, FSum(fl, k)>> : k \in {k2 \in FKeys(fl) : FSum(fl, k2) # 0}}
Dot(w, fl) == SumSeq([i \in 1..Len(fl) |-> fl[i][2] * FSum(w, fl[i][1])])
FSeq(g, d) == FlattenSeq([i \in 1..Len(d) |-> E(g, d[i]).f])
DFeats(g, d) == FDen(FlattenSeq([i \in 1..Len(d) |-> E(g, d[i]).f]))

\* descending sequence of the elements of a bag of scores given as a set of tagged scores
Desc(S) == SortSeq(SetToSeq(S), LAMBDA a, b : a[1] > b[1])
\* --- well-formedness: identifiers are positions, and edges and nodes point at each other -------
WellFormed(g) ==
  /\ \A i \in 1..Len(g.nodes) : g.nodes[i].id = i - 1
  /\ \A i \in 1..Len(g.edges) : /\ g.edges[i].id = i - 1
                                /\ g.edges[i].h \in NodeIds(g)
                                /\ Range(g.edges[i].t) \subseteq NodeIds(g)
  /\ \A i \in 1..Len(g.nodes) :
        /\ Range(g.nodes[i].ed) = EdgesOf(g, i - 1)
        /\ Len(g.nodes[i].ed) = Cardinality(EdgesOf(g, i - 1))
================================================================================
