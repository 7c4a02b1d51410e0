------------------------------- MODULE NBestLazy -------------------------------
(* Design level of n-best extraction at one node: candidates <<edge, i, j>> name *)
(* an edge with the i-th best derivation of its first tail and the j-th best of  *)
(* its second.  The stack is ordered by score; a popped candidate is output and  *)
(* its two successors are pushed.  Scores are maintained incrementally, so that  *)
(* the same candidate reached over two routes may carry a rounding error.        *)
(* Remember: pushed candidates are remembered independently of their scores      *)
(* (FALSE is the behaviour before the repair: a set of <<score, candidate>>).    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

CONSTANTS Remember, Rounding, Vals, MaxLen, NEdges

Sorted == {s \in UNION {[1..k -> Vals] : k \in 1..MaxLen} : \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]}

VARIABLES L1, L2, base, stack, seen, out
vars == <<L1, L2, base, stack, seen, out>>

Err == IF Rounding THEN {0, 1} ELSE {0}
Sc(c) == 4 * (base[c[1]] + L1[c[2]] + L2[c[3]])
All == {<<e, i, j>> : e \in 1..NEdges, i \in 1..Len(L1), j \in 1..Len(L2)}

Init ==
  /\ L1 \in Sorted /\ L2 \in Sorted
  /\ base \in [1..NEdges -> Vals]
  /\ stack = {<<4 * (base[e] + L1[1] + L2[1]), <<e, 1, 1>>>> : e \in 1..NEdges}
  /\ seen = {<<e, 1, 1>> : e \in 1..NEdges}
  /\ out = <<>>

Before(x, y) == x[1] > y[1] \/ (x[1] = y[1] /\ (x[2][1] < y[2][1] \/ (x[2][1] = y[2][1] /\
                (x[2][2] < y[2][2] \/ (x[2][2] = y[2][2] /\ x[2][3] < y[2][3])))))
Top == CHOOSE x \in stack : \A y \in stack \ {x} : Before(x, y)

Step ==
  /\ stack # {}
  /\ Len(out) <= Cardinality(All)
  /\ LET x == Top
         c == x[2]
         n1 == IF c[2] < Len(L1) THEN {<<c[1], c[2] + 1, c[3]>>} ELSE {}
         n2 == IF c[3] < Len(L2) THEN {<<c[1], c[2], c[3] + 1>>} ELSE {}
         new == {n \in n1 \cup n2 : ~Remember \/ n \notin seen}
     IN \E err \in [new -> Err] :
        /\ stack' = (stack \ {x}) \cup {<<Sc(n) + err[n], n>> : n \in new}
        /\ seen' = seen \cup new
        /\ out' = Append(out, x)
  /\ UNCHANGED <<L1, L2, base>>

Done == stack = {} /\ UNCHANGED vars
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

NoRepeat == \A i, j \in 1..Len(out) : i # j => out[i][2] # out[j][2]
\* every prefix of the output is a best prefix (up to the rounding slack)
Slack == IF Rounding THEN 1 ELSE 0
BestFirst == \A i \in 1..Len(out) : \A c \in All : (\A j \in 1..i : out[j][2] # c) => Sc(out[i][2]) + Slack >= Sc(c)
Complete == stack = {} => {out[i][2] : i \in 1..Len(out)} = All
Termination == <>(stack = {})
================================================================================
