----------------------------- MODULE RescoringRun -----------------------------
(* The rescorer as a process, for every file of at most MaxLines lines: it takes  *)
(* apart the file into the lists that Rescoring!Groups defines.                    *)
EXTENDS Rescoring

CONSTANTS MaxLines, Ids
VARIABLES file, pos, list, done

Init == /\ \E n \in 0..MaxLines : \E q \in [1..n -> Ids] : file = [i \in 1..n |-> [id |-> q[i], w |-> <<i>>]]
        /\ pos = 0 /\ list = <<>> /\ done = <<>>
\* a line of the same sentence
Read == /\ pos < Len(file)
        /\ IF list = <<>> THEN TRUE ELSE list[Len(list)].id = file[pos + 1].id
        /\ list' = Append(list, file[pos + 1])
        /\ pos' = pos + 1
        /\ UNCHANGED <<file, done>>
\* the sentence is complete
Flush == /\ list # <<>>
         /\ IF pos = Len(file) THEN TRUE ELSE file[pos + 1].id # list[Len(list)].id
         /\ done' = Append(done, list)
         /\ list' = <<>>
         /\ UNCHANGED <<file, pos>>
Next == Read \/ Flush
vars == <<file, pos, list, done>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* nothing is lost, repeated or put under another sentence
Kept == FlattenSeq(done) \o list = SubSeq(file, 1, pos)
AsGroups == pos = Len(file) /\ list = <<>> => done = Groups(file)
Ends == <>(pos = Len(file) /\ list = <<>>)
================================================================================
