------------------------------- MODULE P18_trace -------------------------------
(* record: in [g, how, ...], out [g].  Labels and words are sequences of code points. *)
EXTENDS TreeTransform, TraceBase
cl(ok, name) == IF ok THEN {} ELSE {name}
EdgesAt(g, n) == {i \in 1..Len(g.edges) : g.edges[i].h = n}
Prod(ss) == FoldLeft(LAMBDA acc, S : {Append(a, x) : a \in acc, x \in S}, {<<>>}, ss)
\* all trees of a forest as pairs <<term, spans are those of the words>>
RECURSIVE Terms(_, _)
Terms(g, n) ==
  LET nd == g.nodes[n + 1]
      es == EdgesAt(g, n)
  IN IF es = {} THEN {[t |-> TLeaf(nd.sym), b |-> nd.b, e |-> nd.e, ok |-> nd.e = nd.b + 1 /\ nd.b + 1 \in 1..Len(g.words) /\ g.words[nd.b + 1] = nd.sym]}
     ELSE UNION {LET x == g.edges[i]
                 IN {[t |-> TNode(nd.sym, x.s, {<<x.f[j][1], x.f[j][2]>> : j \in 1..Len(x.f)}, [k \in 1..Len(p) |-> p[k].t]), b |-> nd.b, e |-> nd.e,
                      ok |-> /\ \A k \in 1..Len(p) : p[k].ok
                             /\ p # <<>> /\ p[1].b = nd.b /\ p[Len(p)].e = nd.e
                             /\ \A k \in 1..(Len(p) - 1) : p[k].e = p[k + 1].b] :
                      p \in Prod([k \in 1..Len(x.t) |-> Terms(g, x.t[k])])} : i \in es}
\* scores are not compared after flattening (its purpose is to join edges)
RECURSIVE NoScore(_)
NoScore(t) == [t EXCEPT !.s = 0, !.f = {}, !.k = [i \in 1..Len(t.k) |-> NoScore(t.k[i])]]
Pieces(r, w) == IF r.in.how = "split" THEN SplitAt(w, Range(r.in.seps), r.in.run)
                ELSE Compound(w, {r.in.unigrams[i] : i \in 1..Len(r.in.unigrams)}, r.in.minchar, r.in.thr, r.in.fillers)
Apply(r, t) == CASE r.in.how \in {"split", "compound"} -> SplitTree(t, LAMBDA w : Pieces(r, w))
                 [] r.in.how = "flatten" -> Flatten(t)
                 [] OTHER -> CaseTree(t, r.in.how, r.in.model)
Diag(r) ==
  LET old == {x.t : x \in Terms(r.in.g, 0)}
      new == Terms(r.out.g, 0)
      want == {Apply(r, t) : t \in old}
      got == {x.t : x \in new}
      wordsOf == CHOOSE ws \in {TWords(t) : t \in want} : TRUE
  IN cl(IF r.in.how = "flatten" THEN {NoScore(t) : t \in got} = want ELSE got = want, "trees")
     \cup cl(r.out.g.words = wordsOf, "words")
     \cup cl(\A x \in new : x.ok /\ x.b = 0 /\ x.e = Len(r.out.g.words), "positions")
     \cup cl(\A i \in 1..Len(r.out.g.edges) : r.out.g.edges[i].id = i - 1, "edge-ids")
     \cup cl(\A i \in 1..Len(r.out.g.nodes) : r.out.g.nodes[i].id = i - 1, "node-ids")
================================================================================
