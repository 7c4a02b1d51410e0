------------------------------- MODULE Extraction -------------------------------
(* What is recorded of an extraction, against the specification of rules.         *)
EXTENDS Ghkm, TraceBase

\* a rule graph as recorded: identify its nodes by <<source node, lowest and highest target>>
Has(r, f) == f \in DOMAIN r

\* ---- the expected rules of a case: [h, s, fr, t]
RuleSetOf(x, p) ==
  LET g == x.g
      mins == TLCEval(Minimal(g, p))
      len == TLCEval([v \in p.fr |-> g.nodes[v + 1].e - g.nodes[v + 1].b])
      minimal == UNION {{[h |-> v, fr |-> m.fr, t |-> m.t] : m \in mins[v]} : v \in p.fr}
      made(v) == {LET q == Pre(g, p.out, c.s, v) IN [h |-> v, fr |-> q.fr, t |-> q.t] : c \in Comp(mins, len, x.order, x.lex, v)}
  IN IF x.order <= 1 /\ x.lex = 0 THEN minimal
     ELSE IF 0 \notin p.fr THEN minimal
     ELSE minimal \cup UNION {made(v) : v \in p.fr}

\* nodes with their targets, after attachment
Clo(p, v) == p.ts[v]
AttOf(x, rules, v) ==
  LET ns == {Len(e.t) : e \in {q \in rules : v \in ToSet(q.t)}}
  IN IF v = 0 \/ ns = {} \/ \A n \in ns : n <= x.nt THEN x.att ELSE 0
Mixed(x, rules) == \E v \in UNION {ToSet(q.t) : q \in rules} :
   LET ns == {Len(e.t) : e \in {q \in rules : v \in ToSet(q.t)}} IN (\E n \in ns : n <= x.nt) /\ (\E n \in ns : n > x.nt)

\* all rules, heads and tails with their target spans: [h |-> <<v, lo, hi>>, fr, t |-> <<<<c, lo, hi>>, ...>>]
Placed(x, p, rules) ==
  LET n == Len(x.trg)
      nulls == Unaligned(x.align, n)
      \* (attached at the top, the root takes all that is left of the sentence)
      Span(v) == IF x.attach = "top" /\ v = 0 THEN <<v, 0, n - 1>> ELSE <<v, Min(p.ts[v]), Max(p.ts[v])>>
  IN IF x.attach # "exh" THEN {[h |-> Span(e.h), fr |-> e.fr, t |-> [i \in 1..Len(e.t) |-> Span(e.t[i])]] : e \in rules}
     ELSE LET W == TLCEval([v \in p.fr |-> Widened(p.ts[v], nulls, AttOf(x, rules, v))])
          IN UNION {UNION {{[h |-> <<e.h, w[1], w[2]>>, fr |-> e.fr, t |-> y.t] :
                            y \in Spread(e.t, [i \in 1..Len(e.t) |-> p.ts[e.t[i]]], [i \in 1..Len(e.t) |-> W[e.t[i]]], w)} : w \in W[e.h]} : e \in rules}

\* ---- what was recorded
Node(o, i) == o.nodes[i + 1]
\* the source node a recorded node stands for: by its span and symbol, and what its rules are made of
SrcOf(x, o, n) ==
  LET es == {k \in 1..Len(o.edges) : o.edges[k].h = n}
  IN x.g.edges[o.edges[CHOOSE k \in es : TRUE].fr[1] + 1].h
IdOf(x, o, n) == <<SrcOf(x, o, n), Min(ToSet(Node(o, n).ts)), Max(ToSet(Node(o, n).ts))>>
Seen(x, o, ids) == {k \in 1..Len(o.edges) : Node(o, o.edges[k].h).pseudo = 0}

ScoreOf(g, fr) == FoldLeft(LAMBDA a, k : a + g.edges[k + 1].s, 0, fr)
Near(a, b, t) == a - b <= t /\ b - a <= t

Diag(r) ==
  LET x == r.in
      o == r.out
      g == x.g
      p == TLCEval(Prep(g, x.align))
      rules == TLCEval(RuleSetOf(x, p))
      want == TLCEval(Placed(x, p, rules))
      bare == {n \in 0..(Len(o.nodes) - 1) : ~\E k \in 1..Len(o.edges) : o.edges[k].h = n}
      none == {n \in 0..(Len(o.nodes) - 1) : o.nodes[n + 1].pseudo = 0 /\ o.nodes[n + 1].ts = <<>>}
      real == {k \in 1..Len(o.edges) : Node(o, o.edges[k].h).pseudo = 0}
      broken == bare # {} \/ none # {} \/ \E k \in real : o.edges[k].fr = <<>>
      ids == TLCEval([n \in {m \in 0..(Len(o.nodes) - 1) : o.nodes[m + 1].pseudo = 0} |-> IdOf(x, o, n)])
      seen == TLCEval([k \in real |-> [h |-> ids[o.edges[k].h], fr |-> o.edges[k].fr, t |-> [i \in 1..Len(o.edges[k].t) |-> ids[o.edges[k].t[i]]]]])
      pseudos == {n \in 0..(Len(o.nodes) - 1) : o.nodes[n + 1].pseudo = 1}
      text(k) ==
        LET e == seen[k]
            S == ToSet(e.fr)
            spans == [i \in 1..Len(e.t) |-> <<e.t[i][2], e.t[i][3]>>]
            tails == [i \in 1..Len(e.t) |-> e.t[i][1]]
            f == o.rules[k]
        IN IF Len(f) # 4 THEN {"printed"}
           ELSE (IF f[1] = Surface(g, p.out, x.names, S, tails, e.h[1], e.h[1]) THEN {} ELSE {"source-side"})
                \cup (IF f[2] = TargetText(x.words, e.h[2], e.h[3], spans, x.labs) THEN {} ELSE {"target-side"})
                \cup (IF f[3] = AlignText(x.align, SrcWords(g, p.out, S), e.h[2], e.h[3], spans) THEN {} ELSE {"rule-alignment"})
                \cup (IF f[4] = 1 THEN {} ELSE {"printed-probability"})
  IN IF Mixed(x, rules) THEN {}
     ELSE IF p.fr = {} THEN IF Len(o.edges) = 0 THEN {} ELSE {"rules"}
     ELSE IF broken THEN {"graph"}
     ELSE (IF {seen[k] : k \in real} \subseteq want THEN {} ELSE {"unlicensed-rule"})
          \cup (IF want \subseteq {seen[k] : k \in real} THEN {} ELSE {"missing-rule"})
          \cup (IF Cardinality(real) = Cardinality({seen[k] : k \in real}) THEN {} ELSE {"repeated-rule"})
          \cup (IF \A k \in real : Near(o.edges[k].s, 250 * ScoreOf(g, o.edges[k].fr), 1) THEN {} ELSE {"score"})
          \cup (IF x.attach = "exh" THEN
                  \* a node above all placements of the root
                  IF /\ Cardinality(pseudos) = 1
                     /\ {ids[o.edges[k].t[1]] : k \in (1..Len(o.edges)) \ real} = {e.h : e \in {w \in want : w.h[1] = 0}}
                     /\ \A k \in (1..Len(o.edges)) \ real : Len(o.edges[k].t) = 1 /\ o.edges[k].h = 0 /\ 0 \in pseudos
                  THEN {} ELSE {"root"}
                ELSE IF pseudos = {} /\ ids[0][1] = 0 THEN {} ELSE {"root"})
          \cup (IF x.attach = "top" /\ x.tree /\ ~\A n \in DOMAIN ids :
                     \E e \in rules : e.h = ids[n][1] /\ ToSet(o.nodes[n + 1].ts) =
                        p.ts[e.h] \cup ((IF e.h = 0 THEN 0..(Len(x.trg) - 1) ELSE Closed(p.ts[e.h])) \ UNION {Closed(p.ts[e.t[i]]) : i \in 1..Len(e.t)})
                        /\ \E k \in 1..Len(o.edges) : o.edges[k].fr = e.fr /\ o.nodes[n + 1].ed[1] = o.edges[k].id
                THEN {"attached-words"} ELSE {})
          \* every listed edge of a node is its own
          \cup (IF \A n \in 0..(Len(o.nodes) - 1) : ToSet(o.nodes[n + 1].ed) = {o.edges[k].id : k \in {j \in 1..Len(o.edges) : o.edges[j].h = n}} THEN {} ELSE {"node-edges"})
          \cup UNION {text(k) : k \in real}

\* ---- composition of given rules with target sides
DiagCompose(r) ==
  LET x == r.in
      o == r.out
      g == x.g
      out == TLCEval([v \in NodeIds(g) |-> OutOf(g, v)])
      mins == [v \in NodeIds(g) |-> {[s |-> {k}, fr |-> <<k>>, t |-> g.edges[k + 1].t] : k \in out[v]}]
      len == [v \in NodeIds(g) |-> g.nodes[v + 1].e - g.nodes[v + 1].b]
      reach == ReachFrom(g, {0})
      \* the rules fill a rule's variables in the place these stand
      made == UNION {{[h |-> v, s |-> c.s] : c \in Comp(mins, len, x.order, x.lex, v)} : v \in reach}
      want == TLCEval((IF x.order <= 1 /\ x.lex = 0 THEN {} ELSE made) \cup {[h |-> g.edges[k].h, s |-> {k - 1}] : k \in 1..Len(g.edges)})
      seen == [k \in 1..Len(o.edges) |-> [h |-> o.edges[k].h, s |-> ToSet(o.edges[k].fr)]]
      \* edges and open variables from the left; here every tail is a variable until it is filled
      RECURSIVE Walk(_, _)
      Walk(S, u) == LET ks == out[u] \cap S IN
         IF ks = {} THEN [Nothing EXCEPT !.t = <<u>>]
         ELSE LET k == CHOOSE k \in ks : TRUE
              IN FoldLeft(LAMBDA acc, w : LET q == Walk(S, w) IN [s |-> S, fr |-> acc.fr \o q.fr, t |-> acc.t \o q.t], [s |-> S, fr |-> <<k>>, t |-> <<>>], g.edges[k + 1].t)
      RECURSIVE Trg(_, _, _)
      \* factor f of the target side from u on: words and <<node>> for variables
      Trg(S, u, f) == LET ks == out[u] \cap S IN
         IF ks = {} THEN <<<<"x", u>>>>
         ELSE LET k == CHOOSE k \in ks : TRUE
                  w == x.trgs[k + 1][f]
              IN FlattenSeq([i \in 1..Len(w) |-> IF w[i] >= 0 THEN <<<<"w", w[i]>>>> ELSE Trg(S, g.edges[k + 1].t[-w[i]], f)])
      okEdge(k) ==
        LET e == o.edges[k]
            S == ToSet(e.fr)
            q == Walk(S, e.h)
        IN /\ e.fr = q.fr /\ e.t = q.t
           /\ Near(e.s, 250 * ScoreOf(g, e.fr), 1)
           /\ Len(e.trgs) = x.factors
           /\ \A f \in 1..x.factors :
                e.trgs[f] = [i \in 1..Len(Trg(S, e.h, f)) |-> LET y == Trg(S, e.h, f)[i] IN IF y[1] = "w" THEN y[2] ELSE -IndexIn(q.t, y[2])]
  IN (IF {seen[k] : k \in 1..Len(seen)} \subseteq want THEN {} ELSE {"unlicensed-rule"})
     \cup (IF want \subseteq {seen[k] : k \in 1..Len(seen)} THEN {} ELSE {"missing-rule"})
     \cup (IF Cardinality({seen[k] : k \in 1..Len(seen)}) = Len(seen) THEN {} ELSE {"repeated-rule"})
     \cup (IF \A k \in 1..Len(seen) : Len(o.edges[k].fr) = Cardinality(ToSet(o.edges[k].fr)) /\ okEdge(k) THEN {} ELSE {"rule"})
     \cup (IF \A n \in 0..(Len(o.nodes) - 1) : ToSet(o.nodes[n + 1].ed) = {o.edges[k].id : k \in {j \in 1..Len(o.edges) : o.edges[j].h = n}} THEN {} ELSE {"node-edges"})
================================================================================
