------------------------------ MODULE Preprocess ------------------------------
(* How preprocessing deals a corpus out to shards, and how it puts the shards back  *)
(* together.  Lines are numbers; a stage maps the lines of each shard one by one.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Size(n, t) == n \div t + 1
\* the lines of shard j (from 1) of n lines dealt to t shards
Dealt(n, t, inter, j) == SelectSeq([i \in 1..n |-> i], LAMBDA i : IF inter THEN (i - 1) % t = j - 1 ELSE (i - 1) \div Size(n, t) = j - 1)
Shards(n, t, inter) == [j \in 1..t |-> Dealt(n, t, inter, j)]
Keeping(s, keep) == SelectSeq(s, LAMBDA i : i \in keep)
RECURSIVE Deal(_, _)
\* one of each in turn, going on without the ones that have ended
Deal(ss, k) == LET row == SelectSeq([j \in 1..Len(ss) |-> j], LAMBDA j : Len(ss[j]) >= k)
               IN IF row = <<>> THEN <<>> ELSE [i \in 1..Len(row) |-> ss[row[i]][k]] \o Deal(ss, k + 1)
\* ... or ending with the first that has ended
RECURSIVE DealShort(_, _)
DealShort(ss, k) == LET row == SelectSeq([j \in 1..Len(ss) |-> j], LAMBDA j : \A i \in 1..j : Len(ss[i]) >= k)
                    IN [i \in 1..Len(row) |-> ss[row[i]][k]] \o (IF Len(row) = Len(ss) THEN DealShort(ss, k + 1) ELSE <<>>)
Joined(ss, inter, short) == IF ~inter THEN FlattenSeq(ss) ELSE IF short THEN DealShort(ss, 1) ELSE Deal(ss, 1)
================================================================================
