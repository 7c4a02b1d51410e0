----------------------------- MODULE RuleEstimation -----------------------------
(* Estimating lexical translation and rule probabilities from what was extracted. *)
(* Counts are integers in 1/100000, probabilities in millionths.                  *)
EXTENDS FixedLn, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Near(a, b, t) == a - b <= t /\ b - a <= t
Add(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)

\* ---- words: a corpus is a sequence of [f, e, al]; every link counts once, a word without link is linked to NULL;
\* NULL is seen once more in every sentence, and what a word stands for is shared among the words it is linked to (not NULL)
CPairs(s) ==
  LET links == [k \in 1..Len(s.al) |-> <<s.f[s.al[k][1] + 1], s.e[s.al[k][2] + 1]>>]
      nf == SelectSeq([j \in 1..Len(s.f) |-> j], LAMBDA j : ~\E k \in 1..Len(s.al) : s.al[k][1] = j - 1)
      ne == SelectSeq([i \in 1..Len(s.e) |-> i], LAMBDA i : ~\E k \in 1..Len(s.al) : s.al[k][2] = i - 1)
  IN links \o [x \in 1..Len(nf) |-> <<s.f[nf[x]], "NULL">>] \o [x \in 1..Len(ne) |-> <<"NULL", s.e[ne[x]]>>]
\* P(x | y) as the set of <<x, y, p>>; side 1: x is the first of a pair
Lexicon(corpus, side) ==
  LET ps == TLCEval(FlattenSeq([k \in 1..Len(corpus) |-> CPairs(corpus[k])]))
      y(p) == p[3 - side]
      x(p) == p[side]
      seen == ToSet(ps)
      num(p) == Cardinality({k \in 1..Len(ps) : ps[k] = p})
      den(w) == Cardinality({k \in 1..Len(ps) : y(ps[k]) = w /\ (w = "NULL" \/ x(ps[k]) # "NULL")}) + (IF w = "NULL" THEN Len(corpus) ELSE 0)
  IN {<<x(p), y(p), (num(p) * 1000000) \div den(y(p))>> : p \in {q \in seen : x(q) # "NULL"}}

\* ---- rules: an extraction is a sequence of rows [s, t, c, al, sw, tw]: the sides, the count, the links, the words
RuleOf(r) == <<r.s, r.t>>
CountOf(rows, q) == Add([k \in 1..Len(rows) |-> IF RuleOf(rows[k]) = q THEN rows[k].c ELSE 0])
\* o: [cooc, smin]: smallest counts of a rule, and of a source
KeptRules(rows, o) ==
  LET cnt == TLCEval([q \in {RuleOf(rows[k]) : k \in 1..Len(rows)} |-> CountOf(rows, q)])
      enough == {q \in DOMAIN cnt : cnt[q] >= o.cooc}
      sum(i, w) == FoldSet(LAMBDA q, a : a + cnt[q], 0, {q \in enough : q[i] = w})
  IN {[s |-> q[1], t |-> q[2], c |-> cnt[q], ss |-> sum(1, q[1]), st |-> sum(2, q[2])] : q \in {z \in enough : sum(1, z[1]) >= o.smin}}
\* the alignments a rule was seen with most
BestLinks(rows, q) ==
  LET mine == {k \in 1..Len(rows) : RuleOf(rows[k]) = q}
      w(al) == FoldSet(LAMBDA k, a : a + rows[k].c, 0, {k \in mine : rows[k].al = al})
      als == {rows[k].al : k \in mine}
  IN {al \in als : \A b \in als : w(b) <= w(al)}
LogRatio(a, b) == Ln(a) - Ln(b)
MINLOG == -20000000
\* the probability of the words x given the words y; lex: function of <<x, y>> in millionths
Lex(lex, a, b) == IF <<a, b>> \in DOMAIN lex THEN lex[<<a, b>>] ELSE 0
LogOr(p, n) == IF p = 0 THEN MINLOG ELSE Ln(p) - Ln(1000000) - Ln(n)
LexAll(lex, x, y) == Add([i \in 1..Len(x) |-> LogOr(Add([j \in 1..Len(y) |-> Lex(lex, x[i], y[j])]) + Lex(lex, x[i], "NULL"), Len(y) + 1)])
\* only linked words: links <<position of y, position of x>>
LexLinked(lex, x, y, links) ==
  Add([i \in 1..Len(x) |->
        LET l == SelectSeq(links, LAMBDA z : z[2] = i - 1)
        IN IF l = <<>> THEN LogOr(Lex(lex, x[i], "NULL"), 1) ELSE LogOr(Add([k \in 1..Len(l) |-> Lex(lex, x[i], y[l[k][1] + 1])]), Len(l))])
Turned(links) == [k \in 1..Len(links) |-> <<links[k][2], links[k][1]>>]
================================================================================
