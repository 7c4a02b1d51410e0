-------------------------------- MODULE P31_sym --------------------------------
EXTENDS Symmetrize, TraceBase
Diag(r) ==
  LET x == r.in
      o == r.out
      n == Len(x.pairs)
      want(k) == ByTarget(Symmetrized(x.pairs[k].fe, x.pairs[k].ef, x.o))
      got(k) == [i \in 1..Len(o[k]) |-> <<o[k][i][1] + 1, o[k][i][2] + 1>>]
  IN (IF Len(o) = n THEN {} ELSE {"lines"})
     \cup (IF Len(o) # n \/ \A k \in 1..n : Both(x.pairs[k].fe, x.pairs[k].ef) \subseteq ToSet(got(k)) /\ ToSet(got(k)) \subseteq Either(x.pairs[k].fe, x.pairs[k].ef)
           THEN {} ELSE {"outside"})
     \cup (IF Len(o) # n \/ \A k \in 1..n : got(k) = want(k) THEN {} ELSE {"alignment"})
================================================================================
