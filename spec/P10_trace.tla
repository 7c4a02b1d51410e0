------------------------------- MODULE P10_trace -------------------------------
(* Decoding with a synchronous grammar and an integrated language model: the      *)
(* derivations of the returned forest are those of the grammar (CfgParse), with   *)
(* the scores and features that the rules and the language model (LmCompose) give.*)
(* record: in [rules, words, root, w, models, full], out [g, nb]; rule i carries  *)
(* the feature "r<i>"                                                             *)
EXTENDS CfgParse, LmCompose, TraceBase

GrammarForest(rules, words, root, w, nf) ==
  LET exp == TLCEval(SetToSeq(ParseForest(rules, words, root, [unk |-> <<>>, del |-> 0, src |-> 0])))
      items == {exp[i][2].h : i \in 1..Len(exp)}
      rt == Item(0, Len(words), root)
      order == TLCEval(<<rt>> \o SetToSeq(items \ {rt}))
      pos == TLCEval([x \in Range(order) |-> (CHOOSE i \in 1..Len(order) : order[i] = x) - 1])
  IN [nodes |-> order, den |-> 1000, words |-> words,
      edges |-> TLCEval([i \in 1..Len(exp) |->
        LET e == exp[i][2] r == exp[i][1][2]
        IN [h |-> pos[e.h], t |-> TLCEval([k \in 1..Len(e.t) |-> pos[e.t[k]]]), s |-> TLCEval(Dot(w, rules[r].f) \div 1000), trg |-> e.trg, f |-> rules[r].f,
            rid |-> <<r, e.h[1], e.h[2]>>]])]
\* the rule of an edge of the recorded forest (0: an edge over the whole sentence added for the sentence boundaries)
RuleOf(e, n) == LET rs == {i \in 1..n : \E j \in 1..Len(e.f) : e.f[j] = <<"r" \o ToString(i), 1000>>}
                IN IF rs = {} THEN 0 ELSE CHOOSE i \in rs : TRUE
\* the derivations expected and found: records of their names (rules with their spans), scores and features
Judge(in, out, expd, outd) ==
  LET names == {x.name : x \in expd}
      best == Max({x.score : x \in expd})
      found == Max({x.score : x \in outd})
      viol(x) == IF x.name \notin names THEN {"not-a-derivation"}
                 ELSE UNION {(IF Near(x.score, y.score, 2) THEN {} ELSE {"score"}) \cup (IF FNear(x.feats, y.feats, 2) THEN {} ELSE {"features"})
                             : y \in {z \in expd : z.name = x.name}}
  IN UNION {viol(x) : x \in outd}
     \cup (IF Cardinality({x.name : x \in outd}) = Cardinality(outd) THEN {} ELSE {"repeated-derivations"})
     \cup (IF outd = {} \/ (out.nb # <<>> /\ Near(out.nb[1].s, found, 2)) THEN {} ELSE {"nbest-top"})
     \cup (IF in.full = 0 THEN {}
           ELSE (IF outd # {} /\ Near(found, best, 2) THEN {} ELSE {"best-derivation"})
                \cup (IF {x.name : x \in outd} = names THEN {} ELSE {"derivation-set"}))
\* (values used many times are bound by set comprehensions, which evaluates them once)
Judge1(in, out, g, lms, ru) ==
  LET o == out.g
  IN UNION {Judge(in, out, expd, outd)
            : expd \in {{[name |-> [i \in 1..Len(dT[1]) |-> E(g, dT[1][i]).rid],
                          score |-> FullScore(g, lms, dT[1], dT[2]), feats |-> FullFeats(g, lms, dT[1], dT[2])]
                         : dT \in {<<d, LmTerms(g, lms, d)>> : d \in Derivs(g)}}},
              outd \in {{[d |-> d, name |-> LET q == TLCEval(SelectSeq(d, LAMBDA e : ru[e] # 0))
                                           IN [i \in 1..Len(q) |-> <<ru[q[i]], o.nodes[E(o, q[i]).h + 1].b, o.nodes[E(o, q[i]).h + 1].e>>],
                          score |-> DScore(o, d), feats |-> DFeats(o, d)] : d \in Derivs(o)}}}
Judge0(in, out, g, lms) ==
  LET o == out.g
      n == Len(in.rules)
      none == Len(g.edges) = 0
      attr(e, ru) == LET x == E(o, e) h == o.nodes[x.h + 1]
                     IN IF ru[e] = 0 THEN x.h = 0 /\ Len(x.t) = 1 /\ (x.trg = <<>> \/ x.trg[1].w = <<"x0">>)
                        ELSE /\ x.trg = in.rules[ru[e]].trg
                             /\ Len(x.t) = NVars(in.rules[ru[e]])
                             /\ h.sym = in.rules[ru[e]].src.l
  IN IF Len(o.nodes) = 0
     THEN (IF none \/ in.full = 0 THEN {} ELSE {"no-parse"}) \cup (IF out.nb = <<>> THEN {} ELSE {"nbest"})
     ELSE IF none THEN {"parse-of-nothing"}
     ELSE IF ~ WellFormed(o) \/ ~ Acyclic(o) \/ o.words # in.words THEN {"ill-formed"}
     ELSE IF CountTable(o, 20000)[0] > CountTable(g, 20000)[0] THEN {"repeated-derivations"}
     ELSE UNION {IF \E e \in EdgeIds(o) : ~ attr(e, ru) THEN {"edge-attributes"} ELSE Judge1(in, out, g, lms, ru)
                 : ru \in {TLCEval([e \in EdgeIds(o) |-> RuleOf(E(o, e), n)])}}
Diag(r) == UNION {Judge0(r.in, r.out, g, lms) : g \in {TLCEval(GrammarForest(r.in.rules, r.in.words, r.in.root, r.in.w, r.in.nf))},
                                               lms \in {TabledAll(r.in.models)}}
================================================================================
