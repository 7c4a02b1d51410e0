---------------------------------- MODULE Ghkm ----------------------------------
(* Rule extraction from a parse forest, a target sentence and a word alignment.   *)
(* A forest is [nodes, edges]: nodes [b, e] with a source span [b, e), edges      *)
(* [h, t, s] from a head to its tails (ids from 0).  Every derivation of a node    *)
(* covers the node's span.  An alignment is a sequence of pairs <<source, target>>.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

OutOf(g, v) == {k \in 0..(Len(g.edges) - 1) : g.edges[k + 1].h = v}
Closed(S) == Min(S)..Max(S)
NodeIds(g) == 0..(Len(g.nodes) - 1)

RECURSIVE ReachFrom(_, _)
ReachFrom(g, S) ==
  LET T == S \cup UNION {ToSet(g.edges[k].t) : k \in {j \in 1..Len(g.edges) : g.edges[j].h \in S}}
  IN IF T = S THEN S ELSE ReachFrom(g, T)

\* what the alignment makes of the forest: out: edges, ts: aligned targets, fr: the frontier.
\* A node is on the frontier if no word outside is aligned into the closure of its targets.
Prep(g, al) ==
  LET inside(v, i) == g.nodes[v + 1].b <= i /\ i < g.nodes[v + 1].e
      out == TLCEval([v \in NodeIds(g) |-> OutOf(g, v)])
      ts == TLCEval([v \in NodeIds(g) |-> {al[k][2] : k \in {j \in 1..Len(al) : inside(v, al[j][1])}}])
      rest == TLCEval([v \in NodeIds(g) |-> {al[k][2] : k \in {j \in 1..Len(al) : ~inside(v, al[j][1])}}])
      reach == ReachFrom(g, {0})
  IN [out |-> out, ts |-> ts,
      fr |-> {v \in reach : out[v] # {} /\ ts[v] # {} /\ Closed(ts[v]) \cap rest[v] = {}}]

\* ---- minimal rules: all ways down from a frontier node to the next frontier nodes
Nothing == [s |-> {}, fr |-> <<>>, t |-> <<>>]
Both(A, B) == {[s |-> a.s \cup b.s, fr |-> a.fr \o b.fr, t |-> a.t \o b.t] : a \in A, b \in B}
RECURSIVE Down(_, _, _, _)
Down(g, p, u, v) ==
  IF p.out[u] = {} THEN {Nothing}
  ELSE IF u \in p.fr /\ u # v THEN {[Nothing EXCEPT !.t = <<u>>]}
  ELSE UNION {FoldLeft(LAMBDA acc, w : TLCEval(Both(acc, Down(g, p, w, v))), {[s |-> {k}, fr |-> <<k>>, t |-> <<>>]}, g.edges[k + 1].t) : k \in p.out[u]}
Minimal(g, p) == [v \in p.fr |-> Down(g, p, v, v)]

\* ---- composed rules: a rule's variables filled with rules, at most order minimal rules altogether;
\* the last variable of a rule over at most lex words also if that makes it larger.
\* mins: node -> minimal rules; a composed rule: [n, s (its edges), o (open variables)]
RECURSIVE Comp(_, _, _, _, _)
Comp(mins, len, order, lex, v) ==
  LET \* (the tails have to be composed once for all rules)
      tails == UNION {ToSet(m.t) : m \in mins[v]}
      below == TLCEval([u \in tails |-> Comp(mins, len, order, lex, u)])
      fill(X, u) == X \cup {[n |-> y[1].n + y[2].n, s |-> y[1].s \cup y[2].s, o |-> y[1].o - 1 + y[2].o] :
                            y \in {z \in X \X below[u] : z[1].n + z[2].n <= order \/ (len[v] <= lex /\ z[1].o = 1 /\ z[2].o = 0)}}
  IN UNION {FoldLeft(LAMBDA acc, u : TLCEval(fill(acc, u)), {[n |-> 1, s |-> m.s, o |-> Len(m.t)]}, m.t) : m \in mins[v]}

\* the edges and the variables of a rule, from the left, given its edges S of g (from v on)
RECURSIVE Pre(_, _, _, _)
Pre(g, out, S, u) ==
  LET ks == out[u] \cap S
  IN IF ks = {} THEN IF out[u] = {} THEN Nothing ELSE [Nothing EXCEPT !.t = <<u>>]
     ELSE LET k == CHOOSE k \in ks : TRUE
          IN FoldLeft(LAMBDA acc, w : LET q == Pre(g, out, S, w) IN [s |-> S, fr |-> acc.fr \o q.fr, t |-> acc.t \o q.t],
                      [s |-> S, fr |-> <<k>>, t |-> <<>>], g.edges[k + 1].t)

\* ---- attaching unaligned target words
Unaligned(al, n) == (0..(n - 1)) \ {al[k][2] : k \in 1..Len(al)}
\* the spans [lo, hi] to which a node can be widened over at most att unaligned words on either side
Widened(c, nulls, att) ==
  {<<lo, hi>> \in ((Min(c) - att)..Min(c)) \X (Max(c)..(Max(c) + att)) : (lo..(Min(c) - 1)) \cup ((Max(c) + 1)..hi) \subseteq nulls}
Added(c, w) == (w[1]..(Min(c) - 1)) \cup ((Max(c) + 1)..w[2])
\* all choices of spans for the tails: no word attached twice, nothing outside of the head
RECURSIVE Spread(_, _, _, _)
Spread(ts, cs, ws, head) ==     \* ts: tails; cs: their closures; ws: their possible spans
  IF ts = <<>> THEN {[t |-> <<>>, used |-> {}]}
  ELSE LET rest == TLCEval(Spread(Tail(ts), Tail(cs), Tail(ws), head))
       IN {[t |-> <<<<ts[1], y[1][1], y[1][2]>>>> \o y[2].t, used |-> y[2].used \cup Added(cs[1], y[1])] :
           y \in {z \in ws[1] \X rest : /\ Added(cs[1], z[1]) \subseteq head[1]..head[2]
                                        /\ Added(cs[1], z[1]) \cap z[2].used = {}}}

\* ---- printed rules
Cat(q) == FoldLeft(LAMBDA a, b : a \o b, "", q)
Join(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat([i \in 1..(Len(q) - 1) |-> " " \o q[i + 1]])
Word(w) == "\"" \o w \o "\""
IndexIn(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
\* names: the symbols and words of the nodes; tails: the variables
RECURSIVE Surface(_, _, _, _, _, _, _)
Surface(g, out, names, S, tails, v, u) ==
  LET ks == out[u] \cap S
  IN IF out[u] = {} THEN Word(names[u + 1])
     ELSE IF ks = {} \/ (u # v /\ u \in ToSet(tails)) THEN "x" \o ToString(IndexIn(tails, u) - 1) \o ":" \o names[u + 1]
     ELSE names[u + 1] \o " (" \o Cat([i \in 1..Len(g.edges[(CHOOSE k \in ks : TRUE) + 1].t) |->
             " " \o Surface(g, out, names, S, tails, v, g.edges[(CHOOSE k \in ks : TRUE) + 1].t[i])]) \o " )"
\* the target positions of a rule over [lo, hi]: <<0, position>> a word, <<i, 0>> variable i
Target(lo, hi, spans) ==
  LET at(j) == LET c == {i \in 1..Len(spans) : spans[i][1] <= j /\ j <= spans[i][2]} IN IF c = {} THEN <<0, j>> ELSE <<Min(c), 0>>
      all == TLCEval([k \in 1..(hi - lo + 1) |-> at(lo + k - 1)])
  IN FoldLeft(LAMBDA acc, k : IF all[k][1] # 0 /\ k > 1 /\ all[k - 1] = all[k] THEN acc ELSE Append(acc, all[k]), <<>>, [k \in 1..Len(all) |-> k])
LabelAt(labs, lo, hi) == LET I == {i \in 1..Len(labs) : labs[i][1] = lo /\ labs[i][2] = hi + 1} IN IF I = {} THEN "" ELSE labs[CHOOSE i \in I : TRUE][3]
TargetText(words, lo, hi, spans, labs) ==
  LET q == Target(lo, hi, spans)
      lab(i) == LabelAt(labs, spans[i][1], spans[i][2])
      head == LabelAt(labs, lo, hi)
  IN Join([k \in 1..Len(q) |-> IF q[k][1] = 0 THEN Word(words[q[k][2] + 1])
                               ELSE "x" \o ToString(q[k][1] - 1) \o (IF lab(q[k][1]) = "" THEN "" ELSE ":" \o lab(q[k][1]))])
     \o (IF head = "" THEN "" ELSE " @ " \o head)
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* the alignment of a rule's words, numbered within the rule
AlignText(al, src, lo, hi, spans) ==
  LET q == SelectSeq(Target(lo, hi, spans), LAMBDA y : y[1] = 0)
      ps == FlattenSeq([i \in 1..Len(src) |-> [j \in 1..Len(q) |-> <<i, j>>]])
  IN Join([x \in 1..Len(SelectSeq(ps, LAMBDA p : \E k \in 1..Len(al) : al[k][1] = src[p[1]] /\ al[k][2] = q[p[2]][2])) |->
            LET y == SelectSeq(ps, LAMBDA p : \E k \in 1..Len(al) : al[k][1] = src[p[1]] /\ al[k][2] = q[p[2]][2])[x]
            IN ToString(y[1] - 1) \o "-" \o ToString(y[2] - 1)])
\* the words a set of edges reaches directly
SrcWords(g, out, S) == Sorted({g.nodes[u + 1].b : u \in {w \in UNION {ToSet(g.edges[k + 1].t) : k \in S} : out[w] = {}}})
================================================================================
