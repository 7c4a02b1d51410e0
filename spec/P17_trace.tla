------------------------------- MODULE P17_trace -------------------------------
(* record: in [g, mode], out [g].  Every original node has a key of its own.       *)
EXTENDS Binarize, TraceBase
cl(ok, name) == IF ok THEN {} ELSE {name}
FeatSet(f) == {<<f[i][1], f[i][2]>> : i \in 1..Len(f)}
BinClauses(g, b, mode) ==
  LET keyOf == [n \in NodeIds(g) |-> BKey(g, n)]
      okeys == {keyOf[n] : n \in NodeIds(g)}
      \* result node -> original node, or -1 for an intermediate one
      back == TLCEval([m \in NodeIds(b) |-> LET k == BKey(b, m) IN IF k \in okeys THEN CHOOSE n \in NodeIds(g) : keyOf[n] = k ELSE -1])
      imgs(n) == {m \in NodeIds(b) : back[m] = n}
      \* what each result node stands for: the set of sequences of original nodes
      stands == FoldLeft(LAMBDA tab, m :
                  TLCEval(tab @@ (m :> IF back[m] # -1 THEN {<<back[m]>>}
                               ELSE UNION {{FlattenSeq(p) : p \in SeqSets([k \in 1..Len(E(b, e).t) |-> tab[E(b, e).t[k]]])} : e \in EdgesOf(b, m)})),
                <<>>, BottomUp(b))
      one(m) == CHOOSE s \in stands[m] : TRUE
      lab(x) == g.nodes[x + 1].sym
      kidSeqs == {E(g, e).t : e \in EdgeIds(g)}
  IN IF ~WellFormed(b) THEN {"ill-formed"}
     ELSE IF ~Acyclic(b) THEN {"cyclic"}
     ELSE IF \E m \in NodeIds(b) : Cardinality(stands[m]) # 1 THEN {"intermediate-node-stands-for-several"}
     ELSE
     cl(b.words = g.words, "words")
     \cup cl(\A n \in UsedNodes(g) : Cardinality(imgs(n)) = 1, "original-nodes")
     \cup cl(back[0] = 0, "root-first")
     \cup cl(\A e \in EdgeIds(b) : Len(E(b, e).t) <= 2 \/ ~Divided(mode, Len(E(b, e).t)), "arity")
     \* intermediate nodes: adjacent children of some edge, spanned and labelled accordingly
     \cup cl(\A m \in NodeIds(b) : back[m] = -1 =>
               LET s == one(m)
                   owners == {e \in EdgeIds(g) : Divided(mode, Len(E(g, e).t)) /\ \E i \in 0..(Len(E(g, e).t) - Len(s)) : SubSeq(E(g, e).t, i + 1, i + Len(s)) = s}
               IN /\ Len(s) >= 2
                  /\ b.nodes[m + 1].b = g.nodes[s[1] + 1].b /\ b.nodes[m + 1].e = g.nodes[s[Len(s)] + 1].e
                  /\ \E e \in owners : b.nodes[m + 1].sym = lab(E(g, e).h) \o "'", "intermediate-nodes")
     \* and divided exactly as the mode says, at no cost
     \cup cl(\A m \in NodeIds(b) : back[m] = -1 =>
               LET s == one(m)
                   es == EdgesOf(b, m)
                   got == {[k \in 1..Len(E(b, e).t) |-> one(E(b, e).t[k])] : e \in es}
                   want == IF Len(s) = 2 THEN {<<<<s[1]>>, <<s[2]>>>>} ELSE Splits(mode, s, lab)
               IN got = want /\ Cardinality(es) = Cardinality(want) /\ \A e \in es : E(b, e).s = 0 /\ E(b, e).f = <<>>, "division-of-intermediate")
     \* every original edge: divided exactly as the mode says, with its score and features on top
     \cup cl(\A n \in UsedNodes(g) : Cardinality(imgs(n)) = 1 =>
               LET m == CHOOSE x \in imgs(n) : TRUE
                   top(e) == [p |-> [k \in 1..Len(E(b, e).t) |-> one(E(b, e).t[k])], s |-> E(b, e).s, f |-> FeatSet(E(b, e).f)]
                   want(e) == LET t == E(g, e).t
                              IN {[p |-> x, s |-> E(g, e).s, f |-> FeatSet(E(g, e).f)] :
                                    x \in IF Divided(mode, Len(t)) THEN Splits(mode, t, lab) ELSE {[k \in 1..Len(t) |-> <<t[k]>>]}}
               IN /\ {top(e) : e \in EdgesOf(b, m)} = UNION {want(e) : e \in EdgesOf(g, n)}
                  /\ Cardinality(EdgesOf(b, m)) = SumSeq([i \in 1..Len(g.edges) |-> IF g.edges[i].h = n THEN Cardinality(want(i - 1)) ELSE 0]), "edges")
Scale(g) == [g EXCEPT !.edges = [i \in 1..Len(g.edges) |-> [g.edges[i] EXCEPT !.s = @ * (1000 \div g.den),
                                                                           !.f = [j \in 1..Len(@) |-> <<@[j][1], @[j][2] * (1000 \div g.den)>>]]]]
Diag(r) == BinClauses(Scale(r.in.g), r.out.g, r.in.mode)
================================================================================
