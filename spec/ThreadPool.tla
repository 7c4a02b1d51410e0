------------------------------ MODULE ThreadPool ------------------------------
(* The worker pool as its users see it.  A state s is a record:                   *)
(*   pend   tasks whose submission has been called but not yet accepted           *)
(*   q      accepted, waiting tasks      tk  taken by a worker, not yet started   *)
(*   rn     running tasks                dn  finished tasks                       *)
(*   acc    every task accepted          del tasks the pool has deleted           *)
(*   stop   "no", "asked", "over"        fin complete-all was asked for           *)
(*   wt     waits in progress: <<number, tasks accepted when it was called>>      *)
(* Events are what a user can observe; Accept and Take are internal.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS W, Limit, Keep        \* used through parameters below as well

Fresh == [pend |-> {}, q |-> {}, tk |-> {}, rn |-> {}, dn |-> {}, acc |-> {}, del |-> {}, stop |-> "no", fin |-> FALSE, wt |-> {}]

\* internal actions, for w workers and queue limit l: the set of successors
Accepts(s, w, l) ==
  IF s.stop = "over" \/ (l # 0 /\ Cardinality(s.q) >= l) THEN {}
  ELSE {[s EXCEPT !.pend = @ \ {i}, !.q = @ \cup {i}, !.acc = @ \cup {i}] : i \in s.pend}
Takes(s, w, l) ==
  IF s.stop = "over" \/ Cardinality(s.tk) + Cardinality(s.rn) >= w THEN {}
  ELSE {[s EXCEPT !.q = @ \ {i}, !.tk = @ \cup {i}] : i \in s.q}
Internal(s, w, l) == Accepts(s, w, l) \cup Takes(s, w, l)
RECURSIVE Close(_, _, _)
Close(S, w, l) == LET T == S \cup UNION {Internal(s, w, l) : s \in S} IN IF T = S THEN S ELSE Close(T, w, l)

\* an observable event e = <<kind, number, _>>: the successors (none if it is not allowed)
Event(s, e, keep) ==
  LET i == e[2] IN
  CASE e[1] = "call"  -> {[s EXCEPT !.pend = @ \cup {i}]}
    [] e[1] = "ret"   -> IF i \in s.acc THEN {s} ELSE {}
    [] e[1] = "err"   -> IF i \in s.pend /\ s.stop # "no" THEN {[s EXCEPT !.pend = @ \ {i}]} ELSE {}
    [] e[1] = "start" -> IF i \in s.tk THEN {[s EXCEPT !.tk = @ \ {i}, !.rn = @ \cup {i}]} ELSE {}
    [] e[1] = "end"   -> IF i \in s.rn THEN {[s EXCEPT !.rn = @ \ {i}, !.dn = @ \cup {i}]} ELSE {}
    [] e[1] = "del"   -> IF i \in s.dn /\ i \notin s.del /\ ~keep THEN {[s EXCEPT !.del = @ \cup {i}]} ELSE {}
    [] e[1] = "waitcall" -> {[s EXCEPT !.wt = @ \cup {<<i, s.acc>>}]}
    [] e[1] = "waitret"  -> {[s EXCEPT !.wt = @ \ {x}] : x \in {x \in s.wt : x[1] = i /\ x[2] \subseteq s.dn}}
    [] e[1] = "stopcall" -> IF s.stop = "no" THEN {[s EXCEPT !.stop = "asked", !.fin = (i = 1)]} ELSE {s}
    [] e[1] = "stopret"  -> IF s.tk = {} /\ s.rn = {} /\ (s.fin => s.q = {} /\ s.dn = s.acc) THEN {[s EXCEPT !.stop = "over"]} ELSE {}
    [] OTHER -> {}

----------------------------------------------------------------------------
(* The same as a state machine, for the design-level checks: Tasks submitted by one *)
(* user in order, with a wait and a stop at the end.                                *)
CONSTANT Tasks
VARIABLES s, todo, pc
vars == <<s, todo, pc>>
PInit == s = Fresh /\ todo = Tasks /\ pc = "submit"
Internals == s' \in Internal(s, W, Limit) /\ UNCHANGED <<todo, pc>>
Do(e) == s' \in Event(s, e, Keep)
User == \/ pc = "submit" /\ todo # {} /\ \E i \in todo : Do(<<"call", i>>) /\ todo' = todo \ {i} /\ pc' = "ret"
        \/ pc = "ret" /\ (\E i \in Tasks : i \notin todo /\ s.pend = {} /\ Do(<<"ret", i>>)) /\ pc' = "submit" /\ UNCHANGED todo
        \/ pc = "submit" /\ todo = {} /\ Do(<<"waitcall", 0>>) /\ pc' = "wait" /\ UNCHANGED todo
        \/ pc = "wait" /\ Do(<<"waitret", 0>>) /\ pc' = "stop" /\ UNCHANGED todo
        \/ pc = "stop" /\ (\E b \in {0, 1} : Do(<<"stopcall", b>>)) /\ pc' = "stopping" /\ UNCHANGED todo
        \/ pc = "stopping" /\ Do(<<"stopret", 0>>) /\ pc' = "over" /\ UNCHANGED todo
Workers == \E i \in Tasks : Do(<<"start", i>>) \/ Do(<<"end", i>>) \/ Do(<<"del", i>>)
PNext == Internals \/ User \/ (Workers /\ UNCHANGED <<todo, pc>>)
PSpec == PInit /\ [][PNext]_vars /\ WF_vars(PNext)

Bounded == Limit = 0 \/ Cardinality(s.q) <= Limit
Partition == /\ s.acc = s.q \cup s.tk \cup s.rn \cup s.dn
             /\ s.q \cap s.tk = {} /\ s.q \cap s.rn = {} /\ s.q \cap s.dn = {} /\ s.tk \cap s.rn = {} /\ s.tk \cap s.dn = {} /\ s.rn \cap s.dn = {}
AllRun == pc = "over" => s.dn = Tasks
Ends == <>(pc = "over")
==============================================================================
