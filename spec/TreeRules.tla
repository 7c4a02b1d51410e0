------------------------------- MODULE TreeRules -------------------------------
(* Tree-to-string rule application.  An input parse forest g has nodes [sym, b,   *)
(* e], edges [h, t, f]; a node without edges is a word.  A rule is a source       *)
(* pattern (a tree of labelled nodes, words and variables), target sides trg,     *)
(* features f.  The translation forest has a node per non-terminal and an edge    *)
(* per way a rule matches at it, plus pass-through edges.                         *)
EXTENDS HyperGraph

EdgeMap(g) == [n \in NodeIds(g) |-> EdgesOf(g, n)]
Sym(g, n) == g.nodes[n + 1].sym

\* ---- the ways pattern p matches at node n: nodes bound to the variables, in order, and edges of g used
RECURSIVE Match(_, _, _, _)
RECURSIVE MatchSeq(_, _, _, _)
Match(g, eo, p, n) ==
  CASE p.k = "x" -> IF eo[n] # {} /\ Sym(g, n) = p.l THEN {[nt |-> <<n>>, us |-> <<>>]} ELSE {}
    [] p.k = "w" -> IF eo[n] = {} /\ Sym(g, n) = p.l THEN {[nt |-> <<>>, us |-> <<>>]} ELSE {}
    [] OTHER -> IF Sym(g, n) # p.l THEN {}
                ELSE UNION {{[nt |-> w.nt, us |-> <<e>> \o w.us] : w \in MatchSeq(g, eo, p.c, E(g, e).t)}
                            : e \in {e2 \in eo[n] : Len(E(g, e2).t) = Len(p.c)}}
MatchSeq(g, eo, ps, ns) ==
  IF ps = <<>> THEN {[nt |-> <<>>, us |-> <<>>]}
  ELSE {[nt |-> a.nt \o b.nt, us |-> a.us \o b.us] : a \in Match(g, eo, Head(ps), Head(ns)), b \in MatchSeq(g, eo, Tail(ps), Tail(ns))}

UsedF(g, us) == FlattenSeq([i \in 1..Len(us) |-> E(g, us[i]).f])
Var(i) == "x" \o ToString(i)
Ident(k) == [w |-> [i \in 1..k |-> Var(i - 1)], l |-> "-", y |-> <<>>]
Factors(nf, d) == [i \in 1..nf |-> d]
\* strings
Bare(s) == SubSeq(s, 2, Len(s))
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Join(Tail(ss))

NonTerms(g) == SelectSeq([i \in 1..Len(g.nodes) |-> i - 1], LAMBDA n : EdgesOf(g, n) # {})
Index(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

\* ---- the forest, matching the source side only: tagged edges (a bag: the tag distinguishes ways)
\* o: [all_unk, src, nf]
SrcEdges(g, rules, o) ==
  LET eo == EdgeMap(g)
      nts == NonTerms(g)
      N(n) == Index(nts, n) - 1
      rec(h, t, trg, f, src) == [h |-> N(h), t |-> [i \in 1..Len(t) |-> N(t[i])], trg |-> trg, f |-> FDen(f), src |-> IF o.src = 1 THEN src ELSE ""]
      ruleEdges == UNION {UNION {{<<<<"rule", n, r, w.us>>, rec(n, w.nt, rules[r].trg, rules[r].f \o UsedF(g, w.us), rules[r].src)>>
                                  : w \in Match(g, eo, rules[r].p, n)} : r \in 1..Len(rules)} : n \in Range(nts)}
      matched == {x[1][2] : x \in ruleEdges}
      pass(n, e) ==
        LET kids == SelectSeq(E(g, e).t, LAMBDA m : eo[m] # {})
            word == g.words[g.nodes[n + 1].b + 1]
        IN rec(n, kids, Factors(o.nf, IF kids = <<>> THEN [w |-> <<word>>, l |-> "-", y |-> <<>>] ELSE Ident(Len(kids))),
               <<<<"unk", 1000>>>> \o E(g, e).f,
               Bare(Sym(g, n)) \o " (" \o (IF kids = <<>> THEN " \"" \o Bare(word) \o "\""
                                              ELSE Join([i \in 1..Len(kids) |-> " " \o Var(i - 1) \o ":" \o Bare(Sym(g, kids[i]))])) \o " )")
      passing == {n \in Range(nts) : o.all_unk = 1 \/ n \notin matched}
  IN ruleEdges \cup UNION {{<<<<"pass", n, e, <<>>>>, pass(n, e)>> : e \in eo[n]} : n \in passing}

\* ---- matching with target-side labels: a node per (input node, target label vector) and a general node per input node
Labels(trg) == [j \in 1..Len(trg) |-> trg[j].l]
Slot(trg, i) == [j \in 1..Len(trg) |-> IF i <= Len(trg[j].y) THEN trg[j].y[i] ELSE "-"]
G(n) == <<"G", n, <<>>>>
L(n, ls) == <<"L", n, ls>>
TrgLabels(g, rules) ==
  LET eo == EdgeMap(g)
  IN [n \in Range(NonTerms(g)) |-> {Labels(rules[r].trg) : r \in {r2 \in 1..Len(rules) : Match(g, eo, rules[r2].p, n) # {}}}]
TrgEdges(g, rules, o) ==
  LET eo == EdgeMap(g)
      nts == Range(NonTerms(g))
      lab == TrgLabels(g, rules)
      rec(h, t, trg, f, src) == [h |-> h, t |-> t, trg |-> trg, f |-> FDen(f), src |-> IF o.src = 1 /\ h[1] = "L" THEN src ELSE ""]
      fits(trg, nt, i) == Slot(trg, i) \in lab[nt[i]]
      kid(trg, nt, i) == IF fits(trg, nt, i) THEN L(nt[i], Slot(trg, i)) ELSE G(nt[i])
      misses(trg, nt) == Cardinality({i \in 1..Len(nt) : ~ fits(trg, nt, i)})
      ruleEdges == UNION {UNION {{LET trg == rules[r].trg
                                   IN <<<<"rule", n, r, w.us>>,
                                        rec(L(n, Labels(trg)), [i \in 1..Len(w.nt) |-> kid(trg, w.nt, i)], trg,
                                            rules[r].f \o UsedF(g, w.us) \o <<<<"unmatch_trg", 1000 * misses(trg, w.nt)>>>>, rules[r].src)>>
                                   : w \in Match(g, eo, rules[r].p, n)} : r \in 1..Len(rules)} : n \in nts}
      link(n) == {<<<<"link", n, ls, <<>>>>, rec(G(n), <<L(n, ls)>>, Factors(o.nf, Ident(1)), <<>>, "")>> : ls \in lab[n]}
      pass(n, e) ==
        LET kids == SelectSeq(E(g, e).t, LAMBDA m : eo[m] # {})
        IN rec(G(n), [i \in 1..Len(kids) |-> G(kids[i])],
               Factors(o.nf, IF kids = <<>> THEN [w |-> <<g.words[g.nodes[n + 1].b + 1]>>, l |-> "-", y |-> <<>>] ELSE Ident(Len(kids))),
               <<<<"unk", 1000>>>> \o E(g, e).f, "")
  IN ruleEdges \cup UNION {link(n) : n \in nts}
     \cup UNION {{<<<<"pass", n, e, <<>>>>, pass(n, e)>> : e \in eo[n]} : n \in {n2 \in nts : o.all_unk = 1 \/ lab[n2] = {}}}

\* ---- what the implementation built
OutEdge(e, key(_), keepsrc) == [h |-> key(e.h), t |-> [i \in 1..Len(e.t) |-> key(e.t[i])], trg |-> e.trg, f |-> FDen(e.f), src |-> IF keepsrc THEN e.src ELSE ""]
\* bag comparison of tagged edges with a sequence of edges
SameBag(exp, out) ==
  LET recs == {x[2] : x \in exp} \cup Range(out)
  IN Len(out) = Cardinality(exp)
     /\ \A r \in recs : Cardinality({x \in exp : x[2] = r}) = Cardinality({i \in 1..Len(out) : out[i] = r})
Missing(exp, out) == {x[1][1] : x \in {y \in exp : y[2] \notin Range(out)}}
Extra(exp, out) == {i \in 1..Len(out) : out[i] \notin {x[2] : x \in exp}}
BagClauses(exp, out) ==
  IF SameBag(exp, out) THEN {}
  ELSE LET c == {"missing-" \o m : m \in Missing(exp, out)} \cup (IF Extra(exp, out) # {} THEN {"extra-edge"} ELSE {})
       IN IF c = {} THEN {"edge-count"} ELSE c
SrcClauses(g, rules, o, t) ==
  LET nts == NonTerms(g)
      k(i) == i
  IN IF Len(t.nodes) # Len(nts) THEN {"nodes"}
     ELSE (IF \A i \in 1..Len(nts) : LET a == t.nodes[i] b == g.nodes[nts[i] + 1] IN a.sym = b.sym /\ a.b = b.b /\ a.e = b.e THEN {} ELSE {"node-attributes"})
          \cup (IF WellFormed(t) THEN {} ELSE {"ill-formed"})
          \cup (IF t.words = g.words THEN {} ELSE {"words"})
          \cup BagClauses(SrcEdges(g, rules, o), [i \in 1..Len(t.edges) |-> OutEdge(t.edges[i], k, TRUE)])
TrgClauses(g, rules, o, t) ==
  LET nts == NonTerms(g)
      ng == Len(nts)
      own(i) == {e \in 1..Len(t.edges) : t.edges[e].h = i}
      up(i) == {e \in 1..Len(t.edges) : t.edges[e].t = <<i>> /\ t.edges[e].h < ng}
      good(i) == i < ng \/ (own(i) # {} /\ Cardinality(up(i)) = 1)
      key(i) == IF i < ng THEN G(nts[i + 1])
                ELSE L(nts[t.edges[CHOOSE e \in up(i) : TRUE].h + 1], Labels(t.edges[CHOOSE e \in own(i) : TRUE].trg))
      lab == TrgLabels(g, rules)
  IN IF Len(t.nodes) < ng \/ ~ WellFormed(t) THEN {"ill-formed"}
     ELSE IF \E i \in 0..(Len(t.nodes) - 1) : ~ good(i) THEN {"labelled-nodes"}
     ELSE LET keys == [i \in 0..(Len(t.nodes) - 1) |-> key(i)]
              kf(i) == keys[i]
          IN (IF t.words = g.words THEN {} ELSE {"words"})
             \cup (IF Cardinality({keys[i] : i \in DOMAIN keys}) = Len(t.nodes)
                      /\ {keys[i] : i \in DOMAIN keys} = {G(n) : n \in Range(nts)} \cup UNION {{L(n, ls) : ls \in lab[n]} : n \in Range(nts)} THEN {} ELSE {"nodes"})
             \cup (IF \A i \in 0..(Len(t.nodes) - 1) :
                        LET a == t.nodes[i + 1] b == g.nodes[keys[i][2] + 1]
                        IN a.b = b.b /\ a.e = b.e /\ (i >= ng => a.sym = b.sym) THEN {} ELSE {"node-attributes"})
             \cup BagClauses(TrgEdges(g, rules, o), [i \in 1..Len(t.edges) |-> LET e == t.edges[i] IN OutEdge(e, kf, e.h >= ng)])
RuleClauses(g, rules, o, t) == IF o.trg = 1 THEN TrgClauses(g, rules, o, t) ELSE SrcClauses(g, rules, o, t)
================================================================================
