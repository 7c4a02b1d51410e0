------------------------------- MODULE P16_trace -------------------------------
(* Records of the real readers and writers.                                        *)
EXTENDS TreeFormats, TraceBase

WellFormedG(g) ==
  /\ \A i \in 1..Len(g.nodes) : g.nodes[i].id = i - 1
  /\ \A i \in 1..Len(g.edges) : /\ g.edges[i].id = i - 1
                                /\ g.edges[i].h \in 0..(Len(g.nodes) - 1)
                                /\ Range(g.edges[i].t) \subseteq 0..(Len(g.nodes) - 1)
  /\ \A i \in 1..Len(g.nodes) : /\ Range(g.nodes[i].ed) = {g.edges[x].id : x \in GEdgesOf(g, i - 1)}
                                /\ Len(g.nodes[i].ed) = Cardinality(GEdgesOf(g, i - 1))
cl(ok, name) == IF ok THEN {} ELSE {name}

\* a recorded graph is the tree p = [t, words, empty] of the specification
GraphIs(g, p) ==
  IF p.empty THEN cl(g.nodes = <<>> /\ g.edges = <<>> /\ g.words = <<>>, "empty-tree")
  ELSE cl(WellFormedG(g), "ill-formed") \cup cl(g.words = p.words, "words")
       \cup (IF g.nodes # <<>> /\ IsTree(g) THEN cl(TermOf(g, 0) = p.t, "tree") ELSE {"not-a-tree"})
ReadClauses(p, o) ==
  cl(o.end = p.end, "end-of-input") \cup cl(Len(o.gs) = Len(p.out), "number-of-trees")
  \cup UNION {GraphIs(o.gs[i], p.out[i]) : i \in 1..(IF Len(o.gs) < Len(p.out) THEN Len(o.gs) ELSE Len(p.out))}

TreeOfIn(g) == [t |-> TermOf(g, 0), words |-> g.words, empty |-> FALSE]
EmptyTree == [t |-> Leaf(<<>>, 0), words |-> <<>>, empty |-> TRUE]
WriteClauses(r) ==
  LET fmt == r.in.fmt
      want == IF r.in.g.nodes = <<>> THEN EmptyTree
              ELSE IF fmt = "word" THEN [t |-> WordTree(r.in.g.words), words |-> r.in.g.words, empty |-> FALSE] ELSE TreeOfIn(r.in.g)
      p == Read(fmt, r.out.cs)
  IN cl(p.end = "null" /\ Len(p.out) = 1, "written-text-is-one-tree")
     \cup (IF Len(p.out) = 1 THEN cl(p.out[1].t = want.t /\ p.out[1].words = want.words /\ p.out[1].empty = want.empty, "written-tree") ELSE {})
     \cup (IF Len(r.out.back.gs) = 1 THEN GraphIs(r.out.back.gs[1], want) ELSE {"not-read-back"})

\* Moses XML: <tree label="L"> children </tree>, parsed by an XML parser into the same terms without positions
RECURSIVE Bare(_)
Bare(t) == [l |-> t.l, leaf |-> t.leaf, k |-> [i \in 1..Len(t.k) |-> Bare(t.k[i])]]
XmlClauses(r) == cl(r.out.wf, "not-xml") \cup (IF r.out.wf THEN cl(r.out.x = Bare(TermOf(r.in.g, 0)), "xml-tree") ELSE {})

\* ---- JSON: the text is a rendering of the graph ------------------------------------------------
FSet(f) == {<<f[i][1], f[i][2]>> : i \in 1..Len(f)}
TrgWords(trg) == [i \in 1..Len(trg) |-> trg[i].w]
SameGraph(a, b) ==
  cl(Len(a.nodes) = Len(b.nodes) /\ \A i \in 1..Len(a.nodes) : a.nodes[i].sym = b.nodes[i].sym, "labels")
  \cup cl(Len(a.nodes) = Len(b.nodes) /\ \A i \in 1..Len(a.nodes) : a.nodes[i].b = b.nodes[i].b /\ a.nodes[i].e = b.nodes[i].e, "spans")
  \cup cl(Len(a.edges) = Len(b.edges) /\ \A i \in 1..Len(a.edges) : a.edges[i].h = b.edges[i].h /\ a.edges[i].t = b.edges[i].t, "edges")
  \cup cl(Len(a.edges) = Len(b.edges) /\ \A i \in 1..Len(a.edges) : a.edges[i].s = b.edges[i].s, "scores")
  \cup cl(Len(a.edges) = Len(b.edges) /\ \A i \in 1..Len(a.edges) : FSet(a.edges[i].f) = FSet(b.edges[i].f), "features")
  \cup cl(Len(a.edges) = Len(b.edges) /\ \A i \in 1..Len(a.edges) : TrgWords(a.edges[i].trg) = TrgWords(b.edges[i].trg), "target-words")
  \cup cl(a.words = b.words, "words")
\* scale of the input: numbers times 1000 / den
Scaled(g) == [g EXCEPT !.edges = [i \in 1..Len(g.edges) |-> [g.edges[i] EXCEPT !.s = @ * (1000 \div g.den),
                                                                           !.f = [j \in 1..Len(@) |-> <<@[j][1], @[j][2] * (1000 \div g.den)>>]]]]
JsonWriteClauses(r) ==
  IF ~r.out.wf THEN {"not-json"}
  ELSE SameGraph(r.out.j, Scaled(r.in.g)) \cup cl(\A i \in 1..Len(r.out.j.nodes) : r.out.j.nodes[i].id = i - 1, "node-ids")
       \cup (IF Len(r.out.back.gs) = 1 THEN SameGraph(r.out.back.gs[1], Scaled(r.in.g)) \cup cl(WellFormedG(r.out.back.gs[1]), "ill-formed") ELSE {"not-read-back"})
JsonReadClauses(r) ==
  cl(Len(r.out.gs) = Len(r.in.gs) /\ r.out.end = "null", "number-of-trees")
  \cup UNION {SameGraph(r.out.gs[i], Scaled(r.in.gs[i])) \cup cl(WellFormedG(r.out.gs[i]), "ill-formed")
                : i \in 1..(IF Len(r.in.gs) < Len(r.out.gs) THEN Len(r.in.gs) ELSE Len(r.out.gs))}

\* ---- Egret: lines  label[b,e] => ... ||| score ---------------------------------------------------
\* a line is [h |-> <<label, b, e>>, t |-> sequence of <<label, b, e>> (a word: position of its head), s, w]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Key(g, n) == <<g.nodes[n + 1].sym, g.nodes[n + 1].b, g.nodes[n + 1].e>>
LineOf(g, x) == [h |-> Key(g, x.h), t |-> [k \in 1..Len(x.t) |-> Key(g, x.t[k])]]
Near(a, b) == a - b \in -2..2
EgretIs(g, ls0, words, norm) ==
  LET ls == Rev(ls0)
      keys == {ls[i].h : i \in 1..Len(ls)} \cup UNION {Range(ls[i].t) : i \in 1..Len(ls)}
      tot(h) == FoldSet(LAMBDA i, a : a + ls[i].w, 0, {i \in 1..Len(ls) : ls[i].h = h})
  IN cl(g.words = words, "words")
     \cup (IF ls0 = <<>> THEN cl(g.nodes = <<>>, "failed-parse")
           ELSE IF g.nodes = <<>> THEN {"nodes"}
           ELSE cl(WellFormedG(g), "ill-formed")
                \cup cl(Key(g, 0) = ls[1].h, "root")
                \cup cl({Key(g, n) : n \in 0..(Len(g.nodes) - 1)} = keys /\ Len(g.nodes) = Cardinality(keys), "nodes")
                \cup (IF Len(g.edges) # Len(ls) THEN {"edges"}
                      ELSE cl(\A i \in 1..Len(ls) : LineOf(g, g.edges[i]) = [h |-> ls[i].h, t |-> ls[i].t], "edges")
                           \cup cl(\A i \in 1..Len(ls) :
                                     LET want == IF norm THEN (1000000 * ls[i].w) \div tot(ls[i].h) ELSE ls[i].s
                                     IN Near(g.edges[i].s, want) /\ ((want = IF norm THEN 1000000 ELSE 0) \/ (Len(g.edges[i].f) = 1 /\ g.edges[i].f[1][1] = "parse" /\ Near(g.edges[i].f[1][2], want))), "scores")))
EgretReadClauses(r) ==
  cl(r.out.end = "null" /\ Len(r.out.gs) = Len(r.in.forests), "number-of-trees")
  \cup UNION {EgretIs(r.out.gs[i], r.in.forests[i].lines, r.in.forests[i].words, r.in.norm = 1)
                : i \in 1..(IF Len(r.in.forests) < Len(r.out.gs) THEN Len(r.in.forests) ELSE Len(r.out.gs))}
EgretWriteClauses(r) ==
  LET g == Scaled(r.in.g)
      ls == Rev([i \in 1..Len(g.edges) |-> [h |-> Key(g, g.edges[i].h), t |-> [k \in 1..Len(g.edges[i].t) |-> Key(g, g.edges[i].t[k])], s |-> g.edges[i].s]])
  IN IF ~r.out.wf THEN {"not-egret"}
     ELSE cl(r.out.lines = ls, "written-lines") \cup cl(r.out.words = g.words, "written-words")
          \cup (IF Len(r.out.back.gs) # 1 THEN {"not-read-back"} ELSE EgretIs(r.out.back.gs[1], ls, g.words, FALSE))

Diag(r) == CASE r.in.kind = "read" -> ReadClauses(Read(r.in.fmt, r.in.cs), r.out)
             [] r.in.kind = "write" -> WriteClauses(r)
             [] r.in.kind = "xml" -> XmlClauses(r)
             [] r.in.kind = "jsonwrite" -> JsonWriteClauses(r)
             [] r.in.kind = "jsonread" -> JsonReadClauses(r)
             [] r.in.kind = "egretread" -> EgretReadClauses(r)
             [] r.in.kind = "egretwrite" -> EgretWriteClauses(r)
================================================================================
