----------------------------- MODULE InsideOutside -----------------------------
(* Edge posteriors (P05).  Integer edge weights w; the observed posterior is      *)
(* scaled by 10^4 and compared with rounding slack.                               *)
EXTENDS HyperGraph

Scale == 10000
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Weight(g, d) == Prod([i \in 1..Len(d) |-> E(g, d[i]).w])
SumOver(S, Op(_)) == FoldSet(LAMBDA x, acc : acc + Op(x), 0, S)
Uses(d, e) == \E i \in 1..Len(d) : d[i] = e

\* p / Scale is n / z up to the rounding of the scaled observation
Close(p, n, z) == /\ p \in -2..(Scale + 2)
                  /\ LET x == p * z - n * Scale IN x <= 2 * z /\ x >= -2 * z

\* ordinary weights
PostClauses(g, leaf, post) ==
  LET ds == DerivTableOf(g, leaf)[0]
      Z == SumOver(ds, LAMBDA d : Weight(g, d))
      Num(e) == SumOver({d \in ds : Uses(d, e)}, LAMBDA d : Weight(g, d))
      bad == {e \in EdgeIds(g) : ~Close(post[e + 1], Num(e), Z)}
      unused == {e \in EdgeIds(g) : \A d \in ds : ~Uses(d, e)}
  IN (IF bad \ unused = {} THEN {} ELSE {"posterior"})
     \cup (IF \A e \in unused : post[e + 1] = 0 THEN {} ELSE {"unused-edge-has-mass"})

\* log weights so far apart (thousands) that only the derivations of maximal weight count
DomClauses(g, leaf, post) ==
  LET ds == DerivTableOf(g, leaf)[0]
      top == Max({DScore(g, d) : d \in ds})
      mx == {d \in ds : DScore(g, d) = top}
      Z == Cardinality(mx)
      Num(e) == Cardinality({d \in mx : Uses(d, e)})
      bad == {e \in EdgeIds(g) : ~Close(post[e + 1], Num(e), Z)}
  IN IF bad = {} THEN {} ELSE {"dominant-posterior"}
================================================================================
