------------------------------- MODULE P34_ghkm -------------------------------
(* What forest-extractor prints for a file of sentences.                          *)
EXTENDS Extraction

Count(q, y) == Cardinality({i \in 1..Len(q) : q[i] = y})

\* ---- binarization of trees: a rule with more than two children is divided from the right or the left
BinEdge(acc, e, mode) ==
  LET k == Len(e.t)
      n0 == Len(acc.nodes)
      bar == acc.names[e.h + 1] \o "'"
      B(v) == acc.nodes[v + 1].b
      E(v) == acc.nodes[v + 1].e
      new == [j \in 1..(k - 2) |-> IF mode = "right" THEN [b |-> B(e.t[j + 1]), e |-> E(e.t[k])] ELSE [b |-> B(e.t[1]), e |-> E(e.t[k - j])]]
      head(j) == IF j = 0 THEN e.h ELSE n0 + j - 1
      tails(j) == IF mode = "right" THEN (IF j = k - 2 THEN <<e.t[k - 1], e.t[k]>> ELSE <<e.t[j + 1], n0 + j>>)
                  ELSE (IF j = k - 2 THEN <<e.t[1], e.t[2]>> ELSE <<n0 + j, e.t[k - j]>>)
  IN IF k <= 2 THEN [acc EXCEPT !.edges = Append(@, [h |-> e.h, t |-> e.t, s |-> e.s])]
     ELSE [nodes |-> acc.nodes \o new, names |-> acc.names \o [j \in 1..(k - 2) |-> bar],
           edges |-> acc.edges \o [j \in 1..(k - 1) |-> [h |-> head(j - 1), t |-> tails(j - 1), s |-> IF j = 1 THEN e.s ELSE 0]]]
Binarized(g, names, mode) ==
  LET z == [nodes |-> [i \in 1..Len(g.nodes) |-> [b |-> g.nodes[i].b, e |-> g.nodes[i].e]], names |-> names, edges |-> <<>>]
  IN IF mode = "none" THEN [z EXCEPT !.edges = [i \in 1..Len(g.edges) |-> [h |-> g.edges[i].h, t |-> g.edges[i].t, s |-> g.edges[i].s]]]
     ELSE FoldLeft(LAMBDA acc, e : TLCEval(BinEdge(acc, e, mode)), z, g.edges)

\* ---- probabilities: a rule's weight is 2 to its score; normalized, it is its share of the weight of all derivations
Pow2(k) == FoldLeft(LAMBDA a, i : 2 * a, 1, [i \in 1..k |-> i])
Prod(q) == FoldLeft(LAMBDA a, b : a * b, 1, q)
SumOver(S, w(_)) == FoldSet(LAMBDA e, a : a + w(e), 0, S)
\* (both as the least solutions of their equations, found from zero)
RECURSIVE Insides(_, _, _)
Insides(g, by, cur) ==
  LET new == TLCEval([h \in DOMAIN by |-> SumOver(by[h], LAMBDA e : Pow2(ScoreOf(g, e.fr)) * Prod([i \in 1..Len(e.t) |-> cur[e.t[i]]]))])
  IN IF new = cur THEN new ELSE Insides(g, by, new)
RECURSIVE Outsides(_, _, _, _, _)
\* uses: the rules a node is in, with what the others of the rule weigh
Outsides(g, uses, roots, ins, cur) ==
  LET new == TLCEval([h \in DOMAIN uses |-> (IF h \in roots THEN 1 ELSE 0) + SumOver(uses[h], LAMBDA z : cur[z.h] * z.w)])
  IN IF new = cur THEN new ELSE Outsides(g, uses, roots, ins, new)

\* ---- the lines of one sentence: [text, p], p in 1/10000; too: more than can be computed here
Lines(y, o) ==
  LET b == TLCEval(Binarized(y.g, y.names, o.binarize))
      \* labels: those of the target tree's nodes, the highest of every span
      tn == y.tnodes
      first == SelectSeq([i \in 1..Len(tn) |-> i], LAMBDA i : ~\E j \in 1..(i - 1) : tn[j][1] = tn[i][1] /\ tn[j][2] = tn[i][2])
      x == [g |-> [nodes |-> b.nodes, edges |-> b.edges], names |-> b.names, align |-> y.align, trg |-> y.words, words |-> y.words, labs |-> [i \in 1..Len(first) |-> tn[first[i]]],
            order |-> o.compose, lex |-> IF o.lex < 0 THEN o.term ELSE o.lex, attach |-> o.attach, att |-> o.att, nt |-> o.nt]
      g == x.g
      p == TLCEval(Prep(g, x.align))
      rules == TLCEval(RuleSetOf(x, p))
      want == TLCEval(Placed(x, p, rules))
      heads == {e.h : e \in want}
      by == TLCEval([h \in heads |-> {e \in want : e.h = h}])
      ins == IF o.norm THEN TLCEval(Insides(g, by, [h \in heads |-> 0])) ELSE [h \in heads |-> 1]
      roots == {h \in heads : h[1] = 0}
      total == SumOver(roots, LAMBDA h : ins[h])
      uses == [h \in heads |-> {[h |-> z[1].h, e |-> z[1], i |-> z[2], w |-> Pow2(ScoreOf(g, z[1].fr)) * Prod([j \in 1..Len(z[1].t) |-> IF j = z[2] THEN 1 ELSE ins[z[1].t[j]]])] :
                               z \in {y2 \in want \X (1..9) : y2[2] <= Len(y2[1].t) /\ y2[1].t[y2[2]] = h}}]
      outs == IF o.norm THEN TLCEval(Outsides(g, TLCEval(uses), roots, ins, [h \in heads |-> 0])) ELSE ins
      score(e) == ScoreOf(g, e.fr)
      weight(e) == Pow2(score(e))
      part(e) == outs[e.h] * weight(e) * Prod([i \in 1..Len(e.t) |-> ins[e.t[i]]])
      prob(e) == IF o.norm THEN (part(e) * 10000) \div total ELSE IF score(e) < 0 THEN 10000 \div Pow2(-score(e)) ELSE weight(e) * 10000
      spans(e) == [i \in 1..Len(e.t) |-> <<e.t[i][2], e.t[i][3]>>]
      ntrg(e) == Len(SelectSeq(Target(e.h[2], e.h[3], spans(e)), LAMBDA z : z[1] = 0))
      nsrc(e) == FoldLeft(LAMBDA a, t : a - (g.nodes[t[1] + 1].e - g.nodes[t[1] + 1].b), g.nodes[e.h[1] + 1].e - g.nodes[e.h[1] + 1].b, e.t)
      passes(e) == Len(e.t) <= x.nt /\ nsrc(e) <= o.term /\ ntrg(e) <= o.term /\ prob(e) * 10 > o.thresh * 100
      text(e) ==
        LET S == ToSet(e.fr)
            tails == [i \in 1..Len(e.t) |-> e.t[i][1]]
        IN Surface(g, p.out, x.names, S, tails, e.h[1], e.h[1]) \o " ||| " \o TargetText(x.words, e.h[2], e.h[3], spans(e), x.labs) \o " ||| "
           \o AlignText(x.align, SrcWords(g, p.out, S), e.h[2], e.h[3], spans(e))
      k == TLCEval(SetToSeq({e \in want : passes(e)}))
  IN IF ~y.parsed \/ p.fr = {} THEN [too |-> FALSE, lines |-> <<>>]
     ELSE IF Mixed(x, rules) \/ (o.norm /\ total > 100000) THEN [too |-> TRUE, lines |-> <<>>]
     ELSE [too |-> FALSE, lines |-> [i \in 1..Len(k) |-> [text |-> text(k[i]), p |-> prob(k[i])]]]

Ordered(q) == SortSeq(q, LAMBDA a, b : a < b)
SameLines(a, b) ==
  /\ Len(a) = Len(b)
  /\ LET ta == TLCEval([i \in 1..Len(a) |-> a[i].text])
         tb == TLCEval([i \in 1..Len(b) |-> b[i].text])
         ps(q, t) == Ordered([i \in 1..Len(SelectSeq(q, LAMBDA z : z.text = t)) |-> SelectSeq(q, LAMBDA z : z.text = t)[i].p])
     IN \A t \in ToSet(ta) : /\ Count(ta, t) = Count(tb, t)
                             /\ LET u == TLCEval(ps(a, t))
                                    v == TLCEval(ps(b, t))
                                IN \A i \in 1..Len(u) : Near(u[i], v[i], 2)

DiagFile(r) ==
  LET x == r.in
      o == r.out
      n == Len(x.sents)
      want == TLCEval([k \in 1..n |-> TLCEval(Lines(x.sents[k], x.o))])
      L(k) == Len(want[k].lines)
      off == TLCEval([k \in 1..n |-> FoldLeft(LAMBDA a, j : a + L(j), 0, [j \in 1..(k - 1) |-> j])])
      all == off[n] + L(n)
  IN IF x.bad THEN (IF o.rc # 0 THEN {} ELSE {"sizes-not-reported"})
     ELSE IF \E k \in 1..n : want[k].too THEN {}
     ELSE IF o.rc # 0 THEN {"failed"}
     ELSE IF x.o.count THEN (IF o.counts = [k \in 1..n |-> L(k)] THEN {} ELSE {"counts"})
     ELSE IF Len(o.lines) # all THEN {"number-of-rules"}
     ELSE IF \A k \in 1..n : SameLines(want[k].lines, SubSeq(o.lines, off[k] + 1, off[k] + L(k))) THEN {} ELSE {"rules"}
================================================================================
