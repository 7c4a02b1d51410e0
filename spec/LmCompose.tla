------------------------------- MODULE LmCompose -------------------------------
(* Composition of a translation forest with language models.  The edges of the    *)
(* input are identified by their source strings.  lms: sequence of [lm, fac, w,   *)
(* wu, feat, ufeat]: model, target factor, weights (x 1000) and feature names.    *)
EXTENDS HyperGraph, NGram

IsWord(t) == SubSeq(t, 1, 1) = "'"
VarNo(t) == CHOOSE k \in 0..99 : t = "x" \o ToString(k)
RECURSIVE YieldW(_, _, _, _)
YieldW(g, d, i, f) ==
  LET e == E(g, d[i])
      w == IF f <= Len(e.trg) THEN e.trg[f].w ELSE <<>>
  IN FlattenSeq([j \in 1..Len(w) |-> IF IsWord(w[j]) THEN <<w[j]>> ELSE LET p == TLCEval(AfterK(g, d, i + 1, VarNo(w[j]))) IN YieldW(g, d, p, f)])

TabledAll(lms) == TLCEval([k \in 1..Len(lms) |-> [lms[k] EXCEPT !.lm = Tabled(lms[k].lm)]])
\* the score (x 1000) and features of a derivation of the input under the models
Q(g) == 1000 \div g.den
LmTerms(g, lms, d) ==
  [k \in 1..Len(lms) |-> LET y == TLCEval(YieldW(g, d, 1, lms[k].fac + 1))
                         IN [lm |-> SentProb(lms[k].lm, y), unk |-> NUnk(lms[k].lm, y)]]
FullScore(g, lms, d, T) ==
  Q(g) * DScore(g, d) + SumSeq([k \in 1..Len(lms) |-> (T[k].lm * lms[k].w) \div 4 + T[k].unk * lms[k].wu])
FullFeats(g, lms, d, T) ==
  FDen(FlattenSeq([i \in 1..Len(d) |-> [j \in 1..Len(E(g, d[i]).f) |-> <<E(g, d[i]).f[j][1], E(g, d[i]).f[j][2] * Q(g)>>]])
       \o FlattenSeq([k \in 1..Len(lms) |-> <<<<lms[k].feat, 250 * T[k].lm>>, <<lms[k].ufeat, 1000 * T[k].unk>>>>]))

Near(a, b, tol) == a - b <= tol /\ b - a <= tol
FNear(A0, B0, tol) == LET A == TLCEval(A0)
                        B == TLCEval(B0)
                        ks == {x[1] : x \in A} \cup {x[1] : x \in B}
                        v(S, k) == IF \E x \in S : x[1] = k THEN (CHOOSE x \in S : x[1] = k)[2] ELSE 0
                    IN \A k \in ks : Near(v(A, k), v(B, k), tol)
ComposeClauses(g, lms, o, full, tol) ==
  LET srcs == [i \in 1..Len(g.edges) |-> g.edges[i].src]
      orig(e) == (CHOOSE i \in 1..Len(srcs) : srcs[i] = E(o, e).src) - 1
      own(e) == E(o, e).src # ""
      mapd(d) == [i \in 1..Len(SelectSeq(d, own)) |-> orig(SelectSeq(d, own)[i])]
  IN IF ~ WellFormed(o) \/ ~ Acyclic(o) THEN {"ill-formed"}
     ELSE IF \E e \in EdgeIds(o) : own(e) /\ E(o, e).src \notin Range(srcs) THEN {"foreign-edge"}
     ELSE IF \E e \in EdgeIds(o) : own(e) /\ (LET x == E(o, e) y == E(g, orig(e))
                                              IN x.trg # y.trg \/ Len(x.t) # Len(y.t)
                                                 \/ o.nodes[x.h + 1].sym # g.nodes[y.h + 1].sym
                                                 \/ o.nodes[x.h + 1].b # g.nodes[y.h + 1].b \/ o.nodes[x.h + 1].e # g.nodes[y.h + 1].e) THEN {"edge-attributes"}
     ELSE IF Max(Range(CountTable(o, 20000))) > Max(Range(CountTable(g, 20000))) THEN {"repeated-derivations"}
     ELSE LET in == Derivs(g)
              out == Derivs(o)
              best == Max({FullScore(g, lms, d, LmTerms(g, lms, d)) : d \in in})
              viol(d) == LET m == mapd(d)
                        IN IF ~ IsDeriv(g, m, 0) THEN {"not-a-derivation"}
                           ELSE LET T == LmTerms(g, lms, m)
                                IN (IF Near(DScore(o, d), FullScore(g, lms, m, T), tol) THEN {} ELSE {"score"})
                                   \cup (IF FNear(DFeats(o, d), FullFeats(g, lms, m, T), tol) THEN {} ELSE {"features"})
          IN (IF o.words = g.words THEN {} ELSE {"words"})
             \cup UNION {viol(d) : d \in out}
             \cup (IF out = {} THEN {"no-derivation"} ELSE {})
             \cup (IF ~ full \/ out = {} THEN {}
                   ELSE (IF Near(Max({DScore(o, d) : d \in out}), best, tol) THEN {} ELSE {"best-derivation"})
                        \cup (IF {mapd(d) : d \in out} = in /\ Cardinality(out) = Cardinality(in) THEN {} ELSE {"derivation-set"}))
================================================================================
