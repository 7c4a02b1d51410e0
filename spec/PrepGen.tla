-------------------------------- MODULE PrepGen --------------------------------
(* Preprocessing with shards that work on their own, stopped and resumed: the files *)
(* in progress are removed, what is marked as done is kept.                         *)
EXTENDS Preprocess, TLC, Json
CONSTANTS MaxN, MaxT, MaxStops, Short, Show
VARIABLES c, pc, f, done, joined, hist
vars == <<c, pc, f, done, joined, hist>>
Stages == <<"tok.s", "tok.t", "clean", "tree.s", "tree.t", "low.s", "low.t">>
Init == /\ c \in {[n |-> n, t |-> t, inter |-> i, keep |-> k] : n \in 1..MaxN, t \in 1..MaxT, i \in BOOLEAN, k \in SUBSET (1..MaxN)}
        /\ c.keep \subseteq 1..c.n /\ c.keep # {}
        /\ pc = 1 /\ f = [s \in 1..Len(Stages) |-> [j \in 1..c.t |-> "no"]] /\ done = [s \in 1..Len(Stages) |-> {}]
        /\ joined = [s \in 1..Len(Stages) |-> <<>>] /\ hist = <<>>
Running == pc \in 1..Len(Stages)
Shard(s, j) == IF s < 3 THEN Dealt(c.n, c.t, c.inter, j) ELSE Keeping(Dealt(c.n, c.t, c.inter, j), c.keep)
Start == Running /\ \E j \in 1..c.t : f[pc][j] = "no" /\ f' = [f EXCEPT ![pc][j] = "part"] /\ UNCHANGED <<c, pc, done, joined, hist>>
Finish == Running /\ \E j \in 1..c.t : /\ f[pc][j] = "part" /\ f' = [f EXCEPT ![pc][j] = "full"] /\ done' = [done EXCEPT ![pc] = @ \cup {j}]
                                       /\ UNCHANGED <<c, pc, joined, hist>>
Join == /\ Running /\ done[pc] = 1..c.t
        /\ joined' = [joined EXCEPT ![pc] = Joined([j \in 1..c.t |-> Shard(pc, j)], c.inter, Short)]
        /\ pc' = pc + 1 /\ UNCHANGED <<c, f, done, hist>>
\* everything stops while shard j is at work; the run taking it up starts after the files in progress are gone
Stop == /\ Running /\ Len(hist) < MaxStops
        /\ \E j \in 1..c.t : /\ f[pc][j] = "part"
                             /\ \E k \in {"before", "half", "after"} : hist' = Append(hist, [s |-> Stages[pc], j |-> j, k |-> k])
        /\ f' = [f EXCEPT ![pc] = [j \in 1..c.t |-> IF j \in done[pc] THEN "full" ELSE "no"]]
        /\ UNCHANGED <<c, pc, done, joined>>
Ended == pc = Len(Stages) + 1 /\ pc' = pc + 1 /\ UNCHANGED <<c, f, done, joined, hist>> /\ (IF Show THEN PrintT("GEN " \o ToJson([c |-> c, stops |-> hist])) ELSE TRUE)
Next == Start \/ Finish \/ Join \/ Stop \/ Ended
All(s) == IF s < 3 THEN 1..c.n ELSE c.keep
\* a joined file has every line once, in the order of the input when no shard lost lines
JoinWhole == \A s \in 1..Len(Stages) : s < pc => /\ Len(joined[s]) = Cardinality(All(s)) /\ ToSet(joined[s]) = All(s)
                                                 /\ (~c.inter \/ All(s) = 1..c.n) => \A i, j \in 1..Len(joined[s]) : i < j => joined[s][i] < joined[s][j]
\* line k of every file comes from the same line of the input
Parallel == \A s, z \in 3..Len(Stages) : s < pc /\ z < pc => joined[s] = joined[z]
================================================================================
