------------------------------- MODULE GhkmModel -------------------------------
(* For every tree over N words and every alignment with M target words: the       *)
(* minimal rules put together again give the tree and the target sentence.         *)
EXTENDS Ghkm

CONSTANTS N, M, Drop      \* Drop: (a mistaken variant) the frontier ignores the closure of the targets

\* all trees over [b, e): [b, e, kids]; a single word may have a node above its own
RECURSIVE Trees(_, _, _)
Splits(b, e) == {q \in UNION {[1..k -> b..e] : k \in {3, 4}} : q[1] = b /\ q[Len(q)] = e /\ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]}
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN {<<>>} ELSE {<<x>> \o y : x \in q[1], y \in Prod(Tail(q))}
Leaf(b) == [b |-> b, e |-> b + 1, kids |-> <<>>]
Trees(b, e, up) ==
  (IF e = b + 1 THEN {[b |-> b, e |-> e, kids |-> <<Leaf(b)>>]}
   ELSE UNION {{[b |-> b, e |-> e, kids |-> ks] : ks \in Prod([i \in 1..(Len(q) - 1) |-> Trees(q[i], q[i + 1], FALSE)])} : q \in Splits(b, e)})
  \cup (IF up THEN {[b |-> b, e |-> e, kids |-> <<t>>] : t \in Trees(b, e, FALSE)} ELSE {})
\* as a graph, numbered from the top left
RECURSIVE Flat(_, _)
Flat(t, i) ==     \* [nodes, edges] with ids from i on
  LET me == [nodes |-> <<[b |-> t.b, e |-> t.e]>>, edges |-> <<>>, kids |-> <<>>]
      q == FoldLeft(LAMBDA acc, k : LET f == Flat(k, i + Len(acc.nodes)) IN [nodes |-> acc.nodes \o f.nodes, edges |-> acc.edges \o f.edges, kids |-> Append(acc.kids, i + Len(acc.nodes))], me, t.kids)
  IN [nodes |-> q.nodes, edges |-> (IF t.kids = <<>> THEN <<>> ELSE <<[h |-> i, t |-> q.kids, s |-> 0]>>) \o q.edges]

VARIABLES g, al, p

Init == /\ \E t \in Trees(0, N, TRUE) : g = Flat(t, 0)
        /\ \E A \in SUBSET ((0..(N - 1)) \X (0..(M - 1))) : al = SetToSeq(A)
        /\ p = Prep(g, al)
Next == UNCHANGED <<g, al, p>>

P == IF Drop THEN [p EXCEPT !.fr = {v \in NodeIds(g) : p.out[v] # {} /\ p.ts[v] # {}}] ELSE p
Mins == Minimal(g, P)
\* the root is on the frontier as soon as anything is aligned
Root == al # <<>> <=> 0 \in P.fr
\* exactly one rule for each frontier node of a tree, and every edge above a frontier node in exactly one of them
One == /\ \A v \in P.fr : Cardinality(Mins[v]) = 1
       /\ 0 \in P.fr => \A k \in 0..(Len(g.edges) - 1) : Cardinality({v \in P.fr : \E m \in Mins[v] : k \in m.s}) = 1
\* the target sentence, put together from the rules
RECURSIVE Yield(_, _)
Yield(ms, v) ==
  LET m == CHOOSE m \in ms[v] : TRUE
      c == Closed(P.ts[v])
      q == Target(Min(c), Max(c), [i \in 1..Len(m.t) |-> <<Min(P.ts[m.t[i]]), Max(P.ts[m.t[i]])>>])
  IN FlattenSeq([k \in 1..Len(q) |-> IF q[k][1] = 0 THEN <<q[k][2]>> ELSE Yield(ms, m.t[q[k][1]])])
GivesTarget == 0 \in P.fr => LET c == Closed(P.ts[0]) IN Yield(Mins, 0) = [k \in 1..Cardinality(c) |-> Min(c) + k - 1]
\* the source words, put together from the rules: from the left
RECURSIVE SrcYield(_, _)
SrcYield(ms, v) == LET m == CHOOSE m \in ms[v] : TRUE IN
  ToSet(SrcWords(g, P.out, m.s)) \cup UNION {SrcYield(ms, m.t[i]) : i \in 1..Len(m.t)}
GivesSource == 0 \in P.fr => SrcYield(Mins, 0) = 0..(N - 1)
\* words aligned to each other are in the same rule
Together == 0 \in P.fr => \A k \in 1..Len(al) : \E v \in P.fr : \A m \in Mins[v] :
   /\ al[k][1] \in ToSet(SrcWords(g, P.out, m.s))
   /\ al[k][2] \in Closed(P.ts[v]) \ UNION {Closed(P.ts[m.t[i]]) : i \in 1..Len(m.t)}
\* composition of all rules: the whole tree is one of them
Len1 == [v \in P.fr |-> g.nodes[v + 1].e - g.nodes[v + 1].b]
Whole == 0 \in P.fr => \E c \in Comp(Mins, Len1, Cardinality(P.fr), 0, 0) : c.s = 0..(Len(g.edges) - 1) /\ c.o = 0
\* every connected set of rules, in exactly one way (as a set of rules with a common top)
RECURSIVE Connected(_, _)
Connected(ms, v) ==       \* sets of frontier nodes whose rules hang together from v on
  LET m == CHOOSE m \in ms[v] : TRUE
  IN FoldLeft(LAMBDA acc, u : acc \cup {y[1] \cup y[2] : y \in acc \X Connected(ms, u)}, {{v}}, m.t)
ComposedOne == \A v \in P.fr : \A k \in 1..3 :
   LET C == Comp(Mins, Len1, k, 0, v)
       rule(u) == CHOOSE m \in Mins[u] : TRUE
   IN /\ {c.s : c \in C} = {UNION {rule(u).s : u \in S} : S \in {T \in Connected(Mins, v) : Cardinality(T) <= k}}
      /\ Cardinality(C) = Cardinality({c.s : c \in C})
================================================================================
