------------------------------ MODULE AttachModel ------------------------------
(* Exhaustive attachment over all trees and alignments within bounds: every way   *)
(* to put placed rules together covers every target word of its span once.        *)
EXTENDS GhkmModel
CONSTANT Att
VARIABLE deriv       \* <<open>>: rules still to be chosen, and the words so far

Nulls == Unaligned(al, M)
Wid == [v \in P.fr |-> Widened(P.ts[v], Nulls, Att)]
RulesAt(v, w) == UNION {{[t |-> y.t, m |-> m] : y \in Spread(m.t, [i \in 1..Len(m.t) |-> P.ts[m.t[i]]], [i \in 1..Len(m.t) |-> Wid[m.t[i]]], w)} : m \in Mins[v]}

AInit == Init /\ deriv = [top |-> <<>>, open |-> <<>>, words |-> <<>>]
Start == /\ deriv.top = <<>> /\ 0 \in P.fr
         /\ \E w \in Wid[0] : deriv' = [top |-> w, open |-> <<<<0, w[1], w[2]>>>>, words |-> <<>>]
Apply == /\ deriv.open # <<>>
         /\ LET n == Head(deriv.open) IN
            \E r \in RulesAt(n[1], <<n[2], n[3]>>) :
               deriv' = [deriv EXCEPT !.open = r.t \o Tail(@),
                           !.words = @ \o SetToSeq((n[2]..n[3]) \ UNION {r.t[i][2]..r.t[i][3] : i \in 1..Len(r.t)})]
ANext == (Start \/ Apply) /\ UNCHANGED <<g, al, p>>
\* a complete derivation has the words of its span, each once
EachOnce == deriv.top # <<>> /\ deriv.open = <<>> =>
   /\ ToSet(deriv.words) = deriv.top[1]..deriv.top[2]
   /\ Len(deriv.words) = Cardinality(ToSet(deriv.words))
\* nothing that is aligned is lost or moved: it always can be completed
AlignedStay == deriv.open # <<>> => LET n == Head(deriv.open) IN
   /\ RulesAt(n[1], <<n[2], n[3]>>) # {}
   /\ (n[2]..n[3]) \ Nulls = P.ts[n[1]] \cup (Closed(P.ts[n[1]]) \ Nulls)
================================================================================
