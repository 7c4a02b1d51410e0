---------------------------- MODULE SymmetrizeModel ----------------------------
(* All pairs of small directional alignments.                                    *)
EXTENDS Symmetrize
AbsDiff(a, b) == IF a < b THEN b - a ELSE a - b
CONSTANTS N, M, Sloppy     \* Sloppy: (a mistaken variant) growing asks for nothing
VARIABLE x
Init == x \in [1..M -> 0..N] \X [1..N -> 0..M] \X BOOLEAN \X BOOLEAN
Next == UNCHANGED x
O == [sym |-> "grow", diag |-> x[3], final |-> TRUE, and |-> x[4]]
I == Both(x[1], x[2])
U == Either(x[1], x[2])
Near(a, b) == a # b /\ AbsDiff(a[1], b[1]) <= 1 /\ AbsDiff(a[2], b[2]) <= 1 /\ (x[3] \/ a[1] = b[1] \/ a[2] = b[2])
G == IF Sloppy THEN U ELSE ToSet(Grow(x[1], x[2], x[3]))
R == Symmetrized(x[1], x[2], O)
\* between the intersection and the union
Between == I \subseteq G /\ G \subseteq R /\ R \subseteq U
\* grown points touch others, and nothing more could be grown
Grown == /\ \A p \in G \ I : \E q \in G : Near(p, q)
         /\ \A p \in U \ G : (\E q \in G : Near(p, q)) => p[1] \in Rows(G) /\ p[2] \in Cols(G)
\* no point is left both (or, without and, one) of whose words nothing covers
Complete == \A p \in U \ R : IF x[4] THEN p[1] \in Rows(R) \/ p[2] \in Cols(R) ELSE p[1] \in Rows(R) /\ p[2] \in Cols(R)
================================================================================
