---------------------------- MODULE ThreadPoolCode ----------------------------
(* The pool's algorithm at the granularity of its critical sections: a mutex, two  *)
(* condition variables, workers, and a user that submits, waits and stops.         *)
(* Variant selects deliberate mistakes, which TLC has to find:                     *)
(*   "ok"       the algorithm                                                      *)
(*   "check"    Wait looks at the queue before taking the mutex, and only then waits *)
(*   "one"      stopping wakes up one worker instead of all                        *)
(*   "if"       a submitter that was woken up does not look at the queue again     *)
(*   "norun"    waiting does not count the running tasks                           *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NW, NT, Limit, Process, Variant, Spurious
Workers == 1..NW
U == 0
VARIABLES mutex, need, avail,      \* owner (or -1); threads waiting on each condition variable
          q, running, stopped, stopping, wpc, wt, upc, ut, done, started, maxq

vars == <<mutex, need, avail, q, running, stopped, stopping, wpc, wt, upc, ut, done, started, maxq>>
Init == /\ mutex = -1 /\ need = {} /\ avail = {} /\ q = <<>> /\ running = 0 /\ stopped = FALSE /\ stopping = FALSE
        /\ wpc = [w \in Workers |-> "loop"] /\ wt = [w \in Workers |-> 0] /\ upc = "submit" /\ ut = 1 /\ done = {} /\ started = {} /\ maxq = 0

Free == mutex = -1
W1(w) == \* while(!stopped)
  /\ wpc[w] = "loop" /\ wpc' = [wpc EXCEPT ![w] = IF stopped THEN "exit" ELSE "lock"]
  /\ UNCHANGED <<mutex, need, avail, q, running, stopped, stopping, wt, upc, ut, done, started, maxq>>
W2(w) == \* lock; wait if there is nothing to do (releasing the lock)
  /\ wpc[w] = "lock" /\ Free
  /\ IF q = <<>> /\ ~stopped
     THEN need' = need \cup {w} /\ wpc' = [wpc EXCEPT ![w] = "waiting"] /\ UNCHANGED mutex
     ELSE mutex' = w /\ wpc' = [wpc EXCEPT ![w] = "take"] /\ UNCHANGED need
  /\ UNCHANGED <<avail, q, running, stopped, stopping, wt, upc, ut, done, started, maxq>>
W3(w) == \* woken up: lock again
  /\ wpc[w] = "waiting" /\ (w \notin need \/ Spurious) /\ Free
  /\ mutex' = w /\ need' = need \ {w} /\ wpc' = [wpc EXCEPT ![w] = "take"]
  /\ UNCHANGED <<avail, q, running, stopped, stopping, wt, upc, ut, done, started, maxq>>
W4(w) == \* take the first task, unlock
  /\ wpc[w] = "take"
  /\ IF ~stopped /\ q # <<>>
     THEN wt' = [wt EXCEPT ![w] = Head(q)] /\ q' = Tail(q) /\ running' = running + 1 /\ wpc' = [wpc EXCEPT ![w] = "run"]
     ELSE wpc' = [wpc EXCEPT ![w] = "notify"] /\ UNCHANGED <<wt, q, running>>
  /\ mutex' = -1
  /\ UNCHANGED <<need, avail, stopped, stopping, upc, ut, done, started, maxq>>
W5(w) == \* run the task
  /\ wpc[w] = "run" /\ started' = started \cup {wt[w]} /\ wpc' = [wpc EXCEPT ![w] = "finish"]
  /\ UNCHANGED <<mutex, need, avail, q, running, stopped, stopping, wt, upc, ut, done, maxq>>
W6(w) == \* finished: count, under the lock
  /\ wpc[w] = "finish" /\ Free
  /\ done' = done \cup {wt[w]} /\ running' = running - 1 /\ wpc' = [wpc EXCEPT ![w] = "notify"]
  /\ UNCHANGED <<mutex, need, avail, q, stopped, stopping, wt, upc, ut, started, maxq>>
W7(w) == /\ wpc[w] = "notify" /\ avail' = {} /\ wpc' = [wpc EXCEPT ![w] = "loop"]
         /\ UNCHANGED <<mutex, need, q, running, stopped, stopping, wt, upc, ut, done, started, maxq>>

Push == /\ q' = Append(q, ut) /\ need' = {} /\ ut' = ut + 1 /\ upc' = "submit"
        /\ maxq' = IF Len(q') > maxq THEN Len(q') ELSE maxq
U1 == /\ upc = "submit" /\ ut > NT /\ upc' = (IF Variant = "check" THEN "check" ELSE "wait")
      /\ UNCHANGED <<mutex, need, avail, q, running, stopped, stopping, wpc, wt, ut, done, started, maxq>>
U2 == /\ upc = "submit" /\ ut <= NT /\ Free
      /\ IF Limit # 0 /\ Len(q) >= Limit THEN avail' = avail \cup {U} /\ upc' = "full" /\ UNCHANGED <<q, need, ut, maxq>>
         ELSE Push /\ UNCHANGED avail
      /\ UNCHANGED <<mutex, running, stopped, stopping, wpc, wt, done, started>>
U3 == /\ upc = "full" /\ (U \notin avail \/ Spurious) /\ Free
      /\ IF Variant # "if" /\ Len(q) >= Limit THEN avail' = avail \cup {U} /\ UNCHANGED <<q, need, ut, maxq, upc>>
         ELSE Push /\ avail' = avail \ {U}
      /\ UNCHANGED <<mutex, running, stopped, stopping, wpc, wt, done, started>>
Busy == q # <<>> \/ (Variant # "norun" /\ running # 0)
UW == /\ upc \in {"wait", "waiting"} /\ Free /\ (upc = "wait" \/ U \notin avail \/ Spurious)
      /\ IF Busy THEN avail' = avail \cup {U} /\ upc' = "waiting" ELSE avail' = avail \ {U} /\ upc' = "waited"
      /\ UNCHANGED <<mutex, need, q, running, stopped, stopping, wpc, wt, ut, done, started, maxq>>
\* the mistaken wait
UC == \/ /\ upc = "check" /\ upc' = (IF q = <<>> THEN "waited" ELSE "checked") /\ UNCHANGED avail
         /\ UNCHANGED <<mutex, need, q, running, stopped, stopping, wpc, wt, ut, done, started, maxq>>
      \/ /\ upc = "checked" /\ Free /\ avail' = avail \cup {U} /\ upc' = "slept"
         /\ UNCHANGED <<mutex, need, q, running, stopped, stopping, wpc, wt, ut, done, started, maxq>>
      \/ /\ upc = "slept" /\ Free /\ U \notin avail /\ upc' = "check"
         /\ UNCHANGED <<mutex, need, avail, q, running, stopped, stopping, wpc, wt, ut, done, started, maxq>>
US == \/ /\ upc = "waited" /\ Free /\ stopping' = TRUE /\ upc' = (IF Process THEN "drain" ELSE "stop")
         /\ UNCHANGED <<mutex, need, avail, q, running, stopped, wpc, wt, ut, done, started, maxq>>
      \/ /\ upc \in {"drain", "draining"} /\ Free /\ (upc = "drain" \/ U \notin avail \/ Spurious)
         /\ IF q # <<>> THEN avail' = avail \cup {U} /\ upc' = "draining" ELSE avail' = avail \ {U} /\ upc' = "stop"
         /\ UNCHANGED <<mutex, need, q, running, stopped, stopping, wpc, wt, ut, done, started, maxq>>
      \/ /\ upc = "stop" /\ Free /\ stopped' = TRUE /\ upc' = "wake"
         /\ UNCHANGED <<mutex, need, avail, q, running, stopping, wpc, wt, ut, done, started, maxq>>
      \/ /\ upc = "wake" /\ upc' = "join"
         /\ IF Variant = "one" /\ need # {} THEN \E w \in need : need' = need \ {w} ELSE need' = {}
         /\ UNCHANGED <<mutex, avail, q, running, stopped, stopping, wpc, wt, ut, done, started, maxq>>
      \/ /\ upc = "join" /\ \A w \in Workers : wpc[w] = "exit"
         /\ upc' = "over"
         /\ UNCHANGED <<mutex, need, avail, q, running, stopped, stopping, wpc, wt, ut, done, started, maxq>>

Worker(w) == W1(w) \/ W2(w) \/ W3(w) \/ W4(w) \/ W5(w) \/ W6(w) \/ W7(w)
Usr == U1 \/ U2 \/ U3 \/ UW \/ UC \/ US
Next == (\E w \in Workers : Worker(w)) \/ Usr \/ (upc = "over" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ (\A w \in Workers : SF_vars(Worker(w))) /\ SF_vars(Usr)

QueueBound == Limit = 0 \/ maxq <= Limit
WaitDone == upc = "waited" => done = 1..NT
StopDone == upc = "over" => done = 1..NT /\ started = 1..NT
AtMostOnce == \A i \in 1..NT : Cardinality({w \in Workers : wpc[w] \in {"run", "finish"} /\ wt[w] = i}) + Cardinality({k \in 1..Len(q) : q[k] = i})
                                + (IF i \in done THEN 1 ELSE 0) <= 1
Terminates == <>(upc = "over")
==============================================================================
