------------------------------ MODULE TuneLoopGen ------------------------------
(* All histories of tuning runs that are stopped or in which a program fails.      *)
(* Atomic: a configuration comes into being whole (FALSE: a mistaken variant).      *)
EXTENDS TuneLoop, Json
CONSTANTS MaxStops, Atomic, Show, MaxIt
VARIABLES c, ini, it, p, hist
vars == <<c, ini, it, p, hist>>
Configs == {[max |-> m, still |-> s, nb |-> n, pp |-> n /\ q, filter |-> f] : m \in 1..MaxIt, s \in {{}, {1}, {2}}, n \in BOOLEAN, q \in BOOLEAN, f \in BOOLEAN}
Has == [i \in 1..(MaxIt + 1) |-> ini[i] # "no"]
Init == c \in {x \in Configs : \A s \in x.still : s <= x.max} /\ ini = [i \in 1..(MaxIt + 1) |-> "no"] /\ it = 0 /\ p = "start" /\ hist = <<>>
Start == /\ p = "start"
         /\ LET s == Newest(c, Has)
            IN IF s > 0 THEN it' = s /\ p' = "dec" /\ UNCHANGED ini
               ELSE IF c.filter THEN it' = 0 /\ p' = "filter" /\ UNCHANGED ini
               ELSE it' = 1 /\ p' = "dec" /\ ini' = [ini EXCEPT ![1] = "full"]
         /\ UNCHANGED <<c, hist>>
Working == p \notin {"start", "done"}
Writes == IF p = "filter" THEN 1 ELSE IF p = "upd" THEN it + 1 ELSE 0
Do == /\ Working
      /\ ini' = IF Writes = 0 THEN ini ELSE [ini EXCEPT ![Writes] = "full"]
      /\ IF p = "filter" THEN it' = 1 /\ p' = "dec"
         ELSE IF p = "fin" THEN it' = it /\ p' = "done"
         ELSE IF p = "upd" THEN IF it = LastOf(c, c.still, it) THEN it' = it /\ p' = "fin" ELSE it' = it + 1 /\ p' = "dec"
         ELSE it' = it /\ p' = Stages(c)[Pos(Stages(c), p) + 1]
      /\ UNCHANGED <<c, hist>>
Stop == /\ Working /\ Len(hist) < MaxStops
        /\ \E k \in {"before", "half", "fail", "after"} :
             /\ hist' = Append(hist, [it |-> it, p |-> p, k |-> k])
             /\ IF Writes = 0 \/ k = "before" THEN ini' = ini
                ELSE IF k = "after" THEN \E v \in (IF Atomic THEN {ini[Writes], "full"} ELSE {"full"}) : ini' = [ini EXCEPT ![Writes] = v]
                ELSE ini' = IF Atomic THEN ini ELSE [ini EXCEPT ![Writes] = "part"]
        /\ p' = "start" /\ UNCHANGED <<c, it>>
Ended == /\ p = "done" /\ p' = "over" /\ UNCHANGED <<c, ini, it, hist>>
         /\ IF Show THEN PrintT("GEN " \o ToJson([c |-> [c EXCEPT !.still = SetToSeq(@)], stops |-> hist])) ELSE TRUE
Next == Start \/ (p # "over" /\ Do) \/ (p # "over" /\ Stop) \/ Ended
\* decoding never begins with part of a configuration, and what tuning ends with is there
DecodesWhole == p = "dec" => ini[it] = "full"
EndsWhole == p = "done" => ini[it + 1] = "full"
================================================================================
