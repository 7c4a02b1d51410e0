------------------------------- MODULE CfgParse -------------------------------
(* Parsing with a synchronous context-free grammar.  A rule has a source side    *)
(* src = [w, l, y] (w: words "'word" and variables "x0", x1, ... in order; l:    *)
(* the label; y: the variables' labels), target sides trg (a sequence of the     *)
(* same, one per factor) and features f.  An item is a span with a vector of     *)
(* labels (source, then every target factor).                                    *)
EXTENDS HyperGraph

HeadLabels(r) == <<r.src.l>> \o [j \in 1..Len(r.trg) |-> r.trg[j].l]
VarLabels(r, i) == <<r.src.y[i]>> \o [j \in 1..Len(r.trg) |-> r.trg[j].y[i]]
IsVar(t) == SubSeq(t, 1, 1) = "x"
NVars(r) == Cardinality({i \in 1..Len(r.src.w) : IsVar(r.src.w[i])})
NumBefore(r, k) == Cardinality({i \in 1..k : IsVar(r.src.w[i])})
\* a compiled rule: tokens are words or label vectors
Compile(r) == [toks |-> [k \in 1..Len(r.src.w) |-> IF IsVar(r.src.w[k]) THEN <<"v", VarLabels(r, NumBefore(r, k))>> ELSE <<"w", r.src.w[k]>>],
               head |-> HeadLabels(r), lim |-> r.lim]
Item(b, e, ls) == <<b, e, ls>>
SpanSet(n) == {s \in (0..n) \X (0..n) : s[1] < s[2]}

\* the ways tokens k.. of a compiled rule cover words[p+1..e]; tab: the labels found over each span
RECURSIVE Ways(_, _, _, _, _, _)
Ways(c, k, p, e, words, tab) ==
  IF k > Len(c.toks) THEN IF p = e THEN {<<>>} ELSE {}
  ELSE IF p >= e \/ e - p < Len(c.toks) - k + 1 THEN {}
  ELSE LET t == c.toks[k]
       IN IF t[1] = "w" THEN IF words[p + 1] = t[2] THEN Ways(c, k + 1, p + 1, e, words, tab) ELSE {}
          ELSE UNION {{<<Item(p, q, t[2])>> \o rest : rest \in Ways(c, k + 1, q, e, words, tab)}
                      : q \in {q2 \in (p + 1)..(IF k = Len(c.toks) THEN e ELSE e - 1) : q2 - p <= c.lim /\ t[2] \in tab[<<p, q2>>] /\ (k < Len(c.toks) \/ q2 = e)}}

\* close the labels of one span under the rules (only unary rules can feed on the span itself)
RECURSIVE Close(_, _, _, _)
Close(cs, s, words, tab) ==
  LET new == {c.head : c \in {c2 \in cs : c2.head \notin tab[s] /\ Ways(c2, 1, s[1], s[2], words, tab) # {}}}
  IN IF new \subseteq tab[s] THEN tab ELSE Close(cs, s, words, [tab EXCEPT ![s] = @ \cup new])
RECURSIVE ByLength(_, _, _, _, _)
ByLength(cs, words, n, len, tab) ==
  IF len > n THEN tab
  ELSE ByLength(cs, words, n, len + 1,
                FoldLeft(LAMBDA t, b : Close(cs, <<b, b + len>>, words, t), tab, [i \in 1..(n - len + 1) |-> i - 1]))
Chart(rules, words, unk) ==
  LET n == Len(words)
      cs == {Compile(rules[r]) : r \in 1..Len(rules)}
      start == [s \in SpanSet(n) |-> IF s[2] = s[1] + 1 /\ unk # <<>> THEN {unk} ELSE {}]
  IN ByLength(cs, words, n, 1, start)

\* ---- all edges of the chart: tagged records (a bag).  o: [unk (label vector), del, src, nf]
Plain(w) == SubSeq(w, 2, Len(w))
RECURSIVE JoinSp(_)
JoinSp(ss) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o " " \o JoinSp(Tail(ss))
PrintSrc(s) == JoinSp([k \in 1..Len(s.w) |-> IF IsVar(s.w[k]) THEN s.w[k] \o ":" \o Plain(s.y[Cardinality({i \in 1..k : IsVar(s.w[i])})])
                                              ELSE "\"" \o Plain(s.w[k]) \o "\""]) \o (IF s.l = "-" THEN "" ELSE " @ " \o Plain(s.l))
RuleEdges(rules, words, tab, o) ==
  UNION {LET c == Compile(rules[r])
         IN UNION {{<<<<"rule", r, s, w>>, [h |-> Item(s[1], s[2], c.head), t |-> w, trg |-> rules[r].trg, f |-> FDen(rules[r].f),
                                            src |-> IF o.src = 1 THEN PrintSrc(rules[r].src) ELSE ""]>>
                    : w \in Ways(c, 1, s[1], s[2], words, tab)} : s \in SpanSet(Len(words))}
         : r \in 1..Len(rules)}
UnkEdges(words, es, o) ==
  IF o.unk = <<>> THEN {}
  ELSE {<<<<"unk", i, <<i, i + 1>>, <<>>>>,
          [h |-> Item(i, i + 1, o.unk), t |-> <<>>,
           trg |-> [j \in 1..(Len(o.unk) - 1) |-> [w |-> <<IF o.del = 1 THEN "'" ELSE words[i + 1]>>, l |-> o.unk[j + 1], y |-> <<>>]],
           f |-> FDen(<<<<"unk", 1000>>>>),
           src |-> IF o.src = 1 THEN PrintSrc([w |-> <<words[i + 1]>>, l |-> o.unk[1], y |-> <<>>]) ELSE ""]>>
        : i \in {j \in 0..(Len(words) - 1) : \A e \in es : e[2].h # Item(j, j + 1, o.unk)}}
RECURSIVE Reach(_, _)
Reach(es, S) == LET T == S \cup UNION {Range(e[2].t) : e \in {e2 \in es : e2[2].h \in S}} IN IF T = S THEN S ELSE Reach(es, T)
\* the forest: the edges below the root item (none: no parse)
ParseForest(rules, words, root, o) ==
  LET tab == Chart(rules, words, o.unk)
      rt == Item(0, Len(words), root)
  IN IF Len(words) = 0 \/ root \notin tab[<<0, Len(words)>>] THEN {}
     ELSE LET re == RuleEdges(rules, words, tab, o)
              es == re \cup UnkEdges(words, re, o)
              ok == Reach(es, {rt})
          IN {e \in es : e[2].h \in ok}

\* ---- comparison with a recorded forest t
ParseClauses(rules, words, root, o, t) ==
  LET exp == ParseForest(rules, words, root, o)
      own(i) == {e \in 1..Len(t.edges) : t.edges[e].h = i}
      vec(i, e) == <<t.nodes[i + 1].sym>> \o [j \in 1..Len(t.edges[e].trg) |-> t.edges[e].trg[j].l]
  IN IF exp = {} THEN IF Len(t.nodes) = 0 /\ Len(t.edges) = 0 THEN {} ELSE {"parse-of-nothing"}
     ELSE IF Len(t.nodes) = 0 THEN {"no-parse"}
     ELSE IF ~ WellFormed(t) \/ t.words # words THEN {"ill-formed"}
     ELSE IF \E i \in 0..(Len(t.nodes) - 1) : own(i) = {} \/ Cardinality({vec(i, e) : e \in own(i)}) # 1 THEN {"node-labels"}
     ELSE LET key == [i \in 0..(Len(t.nodes) - 1) |-> Item(t.nodes[i + 1].b, t.nodes[i + 1].e, vec(i, CHOOSE e \in own(i) : TRUE))]
              out == [i \in 1..Len(t.edges) |-> LET e == t.edges[i]
                        IN [h |-> key[e.h], t |-> [k \in 1..Len(e.t) |-> key[e.t[k]]], trg |-> e.trg, f |-> FDen(e.f), src |-> e.src]]
              recs == {x[2] : x \in exp} \cup Range(out)
          IN (IF key[0] = Item(0, Len(words), root) THEN {} ELSE {"root"})
             \cup (IF Cardinality(Range(key)) = Len(t.nodes) THEN {} ELSE {"duplicate-nodes"})
             \cup (IF {x[1][1] : x \in {y \in exp : y[2] \notin Range(out)}} = {} THEN {} ELSE {"missing-edge"})
             \cup (IF {i \in 1..Len(out) : out[i] \notin {x[2] : x \in exp}} = {} THEN {} ELSE {"extra-edge"})
             \cup (IF \A r \in recs : Cardinality({x \in exp : x[2] = r}) = Cardinality({i \in 1..Len(out) : out[i] = r}) THEN {} ELSE {"edge-count"})
================================================================================
