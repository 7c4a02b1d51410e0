------------------------------ MODULE OnlineLazy ------------------------------
(* The lazy bookkeeping by which regularized weights can be kept without touching *)
(* every weight at every example: each weight carries the time it is up to date   *)
(* with.  Checked to refine the eager definition for all histories within bounds, *)
(* and (as a check of the check) not to, when a new weight's time is left at 0.   *)
EXTENDS OnlineLearning

CONSTANTS Keys, L1, MaxT, StampNew

VARIABLES eager, cur, last, t

vars == <<eager, cur, last, t>>
P == [rate |-> 1, l1 |-> L1, rs |-> <<[k |-> 1, lo |-> -1, hi |-> 3]>>]

ReadLazy(k) == IF k \notin DOMAIN cur THEN 0 ELSE In(Shrink(cur[k], (t - last[k]) * L1), RangeOf(P.rs, k))

Init == eager = [k \in Keys |-> 0] /\ cur = << >> /\ last = [k \in Keys |-> 0] /\ t = 0

\* a change vector with an error, or an example without one
Update(c, err) ==
  /\ t < MaxT
  /\ eager' = Regular(P, IF err THEN [k \in Keys |-> IF c[k] = 0 THEN eager[k] ELSE In(eager[k] + c[k], RangeOf(P.rs, k))] ELSE eager)
  /\ cur' = IF ~err THEN cur
            ELSE [k \in DOMAIN cur \cup {x \in Keys : c[x] # 0} |-> IF c[k] = 0 THEN cur[k] ELSE In(ReadLazy(k) + c[k], RangeOf(P.rs, k))]
  /\ last' = [k \in Keys |-> IF err /\ c[k] # 0 /\ (StampNew \/ k \in DOMAIN cur) THEN t ELSE last[k]]
  /\ t' = t + 1

\* reading a weight brings it up to date, and drops it when it is zero
Read(k) ==
  /\ k \in DOMAIN cur
  /\ last[k] # t
  /\ cur' = IF ReadLazy(k) = 0 THEN [x \in DOMAIN cur \ {k} |-> cur[x]] ELSE [cur EXCEPT ![k] = ReadLazy(k)]
  /\ last' = [last EXCEPT ![k] = t]
  /\ UNCHANGED <<eager, t>>

Next == (\E c \in [Keys -> {-2, 0, 1, 3}], err \in BOOLEAN : Update(c, err)) \/ (\E k \in Keys : Read(k))
Spec == Init /\ [][Next]_vars

Refines == \A k \in Keys : ReadLazy(k) = eager[k]
===============================================================================
