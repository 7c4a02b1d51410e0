-------------------------------- MODULE P33_cli --------------------------------
EXTENDS RuleEstimation, Symmetrize, TraceBase

\* ---- o.lex: <<x, y, p>> of both directions
LexAs(got, want) ==
  /\ Len(got) = Cardinality(want)
  /\ \A w \in want : \E k \in 1..Len(got) : got[k][1] = w[1] /\ got[k][2] = w[2] /\ Near(got[k][3], w[3], 2)
LexClauses(corpus, fe, ef) == (IF LexAs(fe, Lexicon(corpus, 1)) THEN {} ELSE {"source-given-target"}) \cup (IF LexAs(ef, Lexicon(corpus, 2)) THEN {} ELSE {"target-given-source"})
DiagLex(r) == IF r.in.bad THEN (IF r.out.rc # 0 THEN {} ELSE {"not-reported"})
              ELSE IF r.out.rc # 0 THEN {"failed"} ELSE LexClauses(r.in.corpus, r.out.fe, r.out.ef)

LexFun(q) == [p \in {<<q[k][1], q[k][2]>> : k \in 1..Len(q)} |-> q[CHOOSE k \in 1..Len(q) : q[k][1] = p[1] /\ q[k][2] = p[2]][3]]
ValueOf(feats, n) == LET I == {i \in 1..Len(feats) : feats[i][1] = n} IN IF Cardinality(I) = 1 THEN feats[CHOOSE i \in I : TRUE][2] ELSE 2000000000
\* tolerance: the probabilities are known to a millionth
LexNear(lex, x, y, links, aligned, v) ==
  Near(v, IF aligned /\ links # <<>> THEN LexLinked(lex, x, y, links) ELSE LexAll(lex, x, y), 400 * (Len(x) + 1))
RowOf(rows, q) == rows[CHOOSE k \in 1..Len(rows) : RuleOf(rows[k]) = q]

\* ---- one direction: o.rows [s, t, feats, c, ss, al]
DiagScore(r) ==
  LET x == r.in
      o == r.out
      rows == x.rows
      lex == TLCEval(LexFun(x.lex))
      want == TLCEval(KeptRules(rows, x.o))
      rule(z) == <<z.s, z.t>>
      pre == x.o.prefix \o x.o.cond
      names(w) == {pre \o "p"} \cup (IF x.o.lex THEN {pre \o "l"} ELSE {})
                  \cup (IF x.o.joint THEN {x.o.prefix \o "p"} \cup (IF RowOf(rows, <<w.s, w.t>>).tw # <<>> THEN {x.o.prefix \o "w"} ELSE {}) ELSE {})
                  \cup (IF x.o.sl THEN {x.o.prefix \o "sl_" \o RowOf(rows, <<w.s, w.t>>).slab} ELSE {})
                  \cup (IF x.o.tl THEN {x.o.prefix \o "tl_" \o RowOf(rows, <<w.s, w.t>>).tlab} ELSE {})
                  \cup (IF x.o.stl THEN {x.o.prefix \o "stl_" \o RowOf(rows, <<w.s, w.t>>).slab \o "_" \o RowOf(rows, <<w.s, w.t>>).tlab} ELSE {})
      ok(w, z) ==
        LET q == RowOf(rows, <<w.s, w.t>>)
        IN /\ z.c = w.c /\ Near(z.ss, w.ss, 1)
           /\ {z.feats[i][1] : i \in 1..Len(z.feats)} = names(w) /\ Len(z.feats) = Cardinality(names(w))
           /\ z.al \in BestLinks(rows, <<w.s, w.t>>)
           /\ Near(ValueOf(z.feats, pre \o "p"), LogRatio(w.c, w.ss), 40)
           /\ x.o.lex => LexNear(lex, q.tw, q.sw, z.al, x.o.aligned, ValueOf(z.feats, pre \o "l"))
           /\ x.o.joint => ValueOf(z.feats, x.o.prefix \o "p") = 1000000 /\ (q.tw # <<>> => ValueOf(z.feats, x.o.prefix \o "w") = 1000000 * Len(q.tw))
           /\ \A i \in 1..Len(z.feats) : z.feats[i][1] \notin {pre \o "p", pre \o "l", x.o.prefix \o "p", x.o.prefix \o "w"} => z.feats[i][2] = 1000000
      whole == \A k \in 1..Len(rows) : rows[k].c % 100000 = 0
      fof == [i \in 0..20 |-> Cardinality({w \in want : w.c \div 100000 = i})]
  IN IF o.rc # 0 THEN {"failed"}
     ELSE (IF Len(o.rows) = Cardinality(want) /\ {rule(o.rows[k]) : k \in 1..Len(o.rows)} = {rule(w) : w \in want} THEN
              (IF \A w \in want : \A k \in 1..Len(o.rows) : rule(o.rows[k]) = rule(w) => ok(w, o.rows[k]) THEN {} ELSE {"scores"})
           ELSE {"rules"})
          \cup (IF x.o.fof /\ whole /\ ~\A i \in 0..20 : fof[i] = (IF i + 1 <= Len(o.fof) THEN o.fof[i + 1] ELSE 0) THEN {"frequencies"} ELSE {})

\* ---- discounting: fof: how many rules were seen 0, 1, 2, ... times
DiscountAt(fof, i) == \* of i, in 1/100000
  LET y == (fof[2] * 100000) \div (fof[2] + 2 * fof[3])
      d == 100000 * i - ((i + 1) * y * fof[i + 2]) \div fof[i + 1]
  IN IF d < 0 THEN 0 ELSE d
Discount(fof, c) ==
  LET down == c \div 100000
      part == (c % 100000) \div 100 \* thousandths
      at(i) == IF i = 0 THEN 0 ELSE DiscountAt(fof, i)
  IN IF down >= 3 THEN DiscountAt(fof, 3) ELSE (at(down) * (1000 - part) + at(down + 1) * part) \div 1000
DiagKn(r) ==
  LET x == r.in
      o == r.out
      ok(a, z) ==
        LET c == a.c - Discount(x.fof, a.c)
            v(n) == ValueOf(z.feats, n)
        IN z.c = a.c /\ z.ss = a.ss /\ z.st = a.st
           /\ IF c < 20 THEN v("lfreq") = -99000000 \/ v("lfreq") < -7000000
              ELSE LET tol == 200 + 20000000 \div c
                   IN /\ Near(v("lfreq"), LogRatio(c, 100000), tol)
                      /\ Near(v("egfp"), LogRatio(c, a.ss), tol)
                      /\ Near(v("fgep"), LogRatio(c, a.st), tol)
  IN IF o.rc # 0 THEN {"failed"}
     ELSE IF Len(o.rows) = Len(x.rows) /\ \A k \in 1..Len(x.rows) : o.rows[k].s = x.rows[k].s /\ o.rows[k].t = x.rows[k].t /\ ok(x.rows[k], o.rows[k]) THEN {} ELSE {"discounts"}

\* ---- the whole training: corpus, extraction, tables, configuration
\* what the aligner is given: numbered words with their counts, and three lines for every sentence
VcbAs(v, corpus, side) ==
  LET ws == TLCEval(FlattenSeq([k \in 1..Len(corpus) |-> IF side = 1 THEN corpus[k].f ELSE corpus[k].e]))
      rest == {k \in 1..Len(v) : v[k][1] # 1}
  IN /\ {v[k][2] : k \in rest} = ToSet(ws) /\ Cardinality(rest) = Cardinality(ToSet(ws)) /\ Len(v) = Cardinality(rest) + 1
     /\ Cardinality({v[k][1] : k \in 1..Len(v)}) = Len(v)
     /\ \A k \in rest : v[k][3] = Cardinality({i \in 1..Len(ws) : ws[i] = v[k][2]})
Ids(v, ws) == [i \in 1..Len(ws) |-> v[CHOOSE k \in 1..Len(v) : v[k][2] = ws[i]][1]]
SntAs(g, corpus) ==
  LET n == Len(corpus)
  IN Len(g.st) = 3 * n /\ Len(g.ts) = 3 * n
     /\ \A k \in 1..n : LET f == Ids(g.s, corpus[k].f)
                             e == Ids(g.t, corpus[k].e)
                         IN SubSeq(g.st, 3 * k - 2, 3 * k) = <<<<1>>, f, e>> /\ SubSeq(g.ts, 3 * k - 2, 3 * k) = <<<<1>>, e, f>>
Grown == [diag |-> TRUE, final |-> TRUE, and |-> TRUE]
Links(s, sym) == ByTarget(Symmetrized(s.fe, s.ef, [sym |-> sym] @@ Grown))
Aligned(s, sym) == LET l == Links(s, sym) IN [f |-> s.f, e |-> s.e, al |-> [i \in 1..Len(l) |-> <<l[i][1] - 1, l[i][2] - 1>>]]
DiagTrain(r) ==
  LET x == r.in
      o == r.out
      corpus == IF x.o.giza THEN TLCEval([k \in 1..Len(x.corpus) |-> Aligned(x.corpus[k], x.o.sym)]) ELSE x.corpus
      rows == o.extract
      fe == TLCEval(LexFun(o.fe))
      ef == TLCEval(LexFun(o.ef))
      all == TLCEval(KeptRules(rows, [cooc |-> x.o.cooc * 100, smin |-> 0] \* here counts in 1/10000000
                              ))
      rule(z) == <<z.s, z.t>>
      got == {rule(o.rows[k]) : k \in 1..Len(o.rows)}
      CountBag(q, y) == Cardinality({k \in 1..Len(q) : q[k] = y})
      \* the most frequent rules of every source (without its label)
      group(w) == {v \in all : RowOf(rows, rule(v)).base = RowOf(rows, rule(w)).base}
      kept(w) == rule(w) \in got
      ok(w, z) ==
        LET q == RowOf(rows, rule(w))
            names == {"egfp", "egfl", "p", "fgep", "fgel"} \cup (IF q.tw # <<>> THEN {"w"} ELSE {})
        IN /\ Near(z.c, w.c, 20) /\ Near(z.ss, w.ss, 20) /\ Near(z.st, w.st, 20)
           /\ {z.feats[i][1] : i \in 1..Len(z.feats)} = names /\ Len(z.feats) = Cardinality(names)
           /\ z.al \in BestLinks(rows, rule(w))
           /\ Near(ValueOf(z.feats, "egfp"), LogRatio(w.c, w.ss), 60) /\ Near(ValueOf(z.feats, "fgep"), LogRatio(w.c, w.st), 60)
           /\ ValueOf(z.feats, "p") = 1000000 /\ (q.tw # <<>> => ValueOf(z.feats, "w") = 1000000 * Len(q.tw))
           /\ LexNear(ef, q.tw, q.sw, z.al, x.o.aligned, ValueOf(z.feats, "egfl"))
           /\ \E l \in BestLinks(rows, rule(w)) : LexNear(fe, q.sw, q.tw, Turned(l), x.o.aligned, ValueOf(z.feats, "fgel"))
  IN IF o.rc # 0 THEN {"failed"}
     ELSE LexClauses(corpus, o.fe, o.ef)
          \cup (IF x.o.giza => VcbAs(o.giza.s, corpus, 1) /\ VcbAs(o.giza.t, corpus, 2) THEN (IF x.o.giza => SntAs(o.giza, corpus) THEN {} ELSE {"numbered"}) ELSE {"vocabulary"})
          \cup (IF x.o.giza => o.align = [k \in 1..Len(corpus) |-> corpus[k].al] THEN {} ELSE {"alignment"})
          \cup (IF \A k \in 1..Len(o.lines) : CountBag(o.lines, o.lines[k]) = CountBag(o.direct, o.lines[k]) /\ Len(o.lines) = Len(o.direct) THEN {} ELSE {"extraction-options"})
          \cup (IF got \subseteq {rule(w) : w \in all} /\ Cardinality(got) = Len(o.rows) THEN {} ELSE {"rules"})
          \cup (IF \A w \in all : LET g == group(w) IN
                     /\ Cardinality({v \in g : kept(v)}) = (IF Cardinality(g) < x.o.nbest THEN Cardinality(g) ELSE x.o.nbest)
                     /\ ~kept(w) => \A v \in g : kept(v) => v.c >= w.c - 20 THEN {} ELSE {"best-rules"})
          \cup (IF \A w \in all : \A k \in 1..Len(o.rows) : rule(o.rows[k]) = rule(w) => ok(w, o.rows[k]) THEN {} ELSE {"scores"})
          \cup (IF o.ini = x.ini THEN {} ELSE {"configuration"})
          \cup (IF o.decoded = x.n THEN {} ELSE {"decoding"})
================================================================================
