--------------------------------- MODULE NBest ---------------------------------
(* The n-best contract (P03), derivation evaluation (P04), pruning (P06).         *)
EXTENDS HyperGraph

MinI(a, b) == IF a < b THEN a ELSE b
NonIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]

\* scores of the k best derivations, best first
TopScores(g, ds, k) ==
  LET srt == Desc({<<DScore(g, d), d>> : d \in ds})
  IN [i \in 1..MinI(k, Len(srt)) |-> srt[i][1]]

\* What a plain n-best list must satisfy. nb: sequence of [edges, s]
NBestClauses(g, n, nb) ==
  LET ds == Derivs(g)
      m == Len(nb)
      got == {nb[i].edges : i \in 1..m}
  IN (IF m = MinI(n, Cardinality(ds)) THEN {} ELSE {"count"})
     \cup (IF got \subseteq ds THEN {} ELSE {"not-a-derivation"})
     \cup (IF Cardinality(got) = m THEN {} ELSE {"repeated"})
     \cup (IF \A i \in 1..m : nb[i].s = DScore(g, nb[i].edges) THEN {} ELSE {"wrong-score"})
     \cup (IF NonIncreasing([i \in 1..m |-> nb[i].s]) THEN {} ELSE {"unsorted"})
     \cup (IF [i \in 1..m |-> nb[i].s] = TopScores(g, ds, m) THEN {} ELSE {"not-the-best"})

\* The strings (all factors) of a derivation
Strings(g, nf, d) == [f \in 1..nf |-> Yield(g, d, 1, f)]

UniqClauses(g, n, nf, nb) ==
  LET ds == Derivs(g)
      pairs == {<<Strings(g, nf, d), DScore(g, d)>> : d \in ds}
      strs == {p[1] : p \in pairs}
      best(s) == Max({p[2] : p \in {q \in pairs : q[1] = s}})
      tops == Desc({<<best(s), s>> : s \in strs})
      m == Len(nb)
      gs == [i \in 1..m |-> Strings(g, nf, nb[i].edges)]
  IN IF ~ (\A i \in 1..m : nb[i].edges \in ds) THEN {"not-a-derivation"}
     ELSE (IF m = MinI(n, Cardinality(strs)) THEN {} ELSE {"uniq-count"})
       \cup (IF Cardinality(Range(gs)) = m THEN {} ELSE {"uniq-repeated"})
       \cup (IF \A i \in 1..m : nb[i].s = best(gs[i]) THEN {} ELSE {"uniq-not-best-of-string"})
       \cup (IF [i \in 1..m |-> nb[i].s] = [i \in 1..MinI(m, Len(tops)) |-> tops[i][1]] THEN {} ELSE {"uniq-not-the-best"})

\* P04: score, features and translation of listed derivations are those of their edges
EvalClauses(g, nf, nb) ==
  LET m == Len(nb)
  IN (IF \A i \in 1..m : IsDeriv(g, nb[i].edges, 0) THEN {} ELSE {"malformed"})
     \cup (IF \A i \in 1..m : IsDeriv(g, nb[i].edges, 0) =>
                /\ nb[i].s = DScore(g, nb[i].edges) THEN {} ELSE {"score"})
     \cup (IF \A i \in 1..m : IsDeriv(g, nb[i].edges, 0) =>
                /\ FDen(nb[i].f) = DFeats(g, nb[i].edges) THEN {} ELSE {"features"})
     \cup (IF \A i \in 1..m : IsDeriv(g, nb[i].edges, 0) =>
                /\ nb[i].trg = Strings(g, nf, nb[i].edges) THEN {} ELSE {"translation"})

\* P04: edge scores after weighting are the dot products
ScoreClauses(g, w, es) ==
  IF \A e \in EdgeIds(g) : es[e + 1] = Dot(w, E(g, e).f) THEN {} ELSE {"edge-score"}
================================================================================
