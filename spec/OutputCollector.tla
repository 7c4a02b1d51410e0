--------------------------- MODULE OutputCollector ---------------------------
(* Ordered output.  Sentence i's text is a sequence of pieces; whatever the order  *)
(* in which sentences are finished, the stream is at all times a prefix of the     *)
(* texts in sentence order, and it holds at least the texts of every sentence      *)
(* whose predecessors and itself have been handed over (their calls returned).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE UpTo(_, _)
\* the least number not in S, counting from k
UpTo(S, k) == IF k \in S THEN UpTo(S, k + 1) ELSE k
RECURSIVE Texts(_, _, _)
\* Text(i) pieces of sentences k..n-1
Texts(Text(_), k, m) == LET n == TLCEval(m) IN IF k >= n THEN <<>> ELSE Text(k) \o Texts(Text, k + 1, n)
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
\* what the stream may hold when the calls in `called` have been made and those in `done` have returned
Legal(Text(_), stream, called, done) ==
  /\ IsPrefix(stream, Texts(Text, 0, UpTo(called, 0)))
  /\ IsPrefix(Texts(Text, 0, UpTo(done, 0)), stream)

------------------------------------------------------------------------------
(* The algorithm: a critical section that either emits the sentence and everything  *)
(* saved after it, or saves it.  Variants: "ok"; "nolock" (next is read before the   *)
(* lock is taken); "noskip" (sentences without text are not handed over).            *)
CONSTANTS Threads, N, Variant
VARIABLES next, saved, stream, lock, pc, me, todo, called, done, seen
vars == <<next, saved, stream, lock, pc, me, todo, called, done, seen>>
Txt(i) == IF i % 3 = 2 THEN <<>> ELSE <<i>>
OInit == /\ next = 0 /\ saved = {} /\ stream = <<>> /\ lock = 0 /\ pc = [t \in Threads |-> "idle"] /\ me = [t \in Threads |-> -1]
         /\ todo = 0..(N - 1) /\ called = {} /\ done = {} /\ seen = [t \in Threads |-> -1]
Call(t) == /\ pc[t] = "idle" /\ \E i \in todo :
                /\ todo' = todo \ {i} /\ me' = [me EXCEPT ![t] = i] /\ called' = called \cup {i}
                /\ pc' = [pc EXCEPT ![t] = IF Variant = "noskip" /\ Txt(i) = <<>> THEN "ret" ELSE "enter"]
                /\ seen' = [seen EXCEPT ![t] = next]
           /\ UNCHANGED <<next, saved, stream, lock, done>>
Enter(t) == /\ pc[t] = "enter" /\ lock = 0 /\ lock' = 1
            /\ seen' = IF Variant = "nolock" THEN seen ELSE [seen EXCEPT ![t] = next]
            /\ pc' = [pc EXCEPT ![t] = "test"] /\ UNCHANGED <<next, saved, stream, me, todo, called, done>>
Test(t) == /\ pc[t] = "test"
           /\ IF me[t] = seen[t]
              THEN stream' = stream \o Txt(me[t]) /\ next' = next + 1 /\ pc' = [pc EXCEPT ![t] = "drain"] /\ UNCHANGED saved
              ELSE saved' = saved \cup {me[t]} /\ pc' = [pc EXCEPT ![t] = "leave"] /\ UNCHANGED <<stream, next>>
           /\ UNCHANGED <<lock, me, todo, called, done, seen>>
Drain(t) == /\ pc[t] = "drain"
            /\ IF next \in saved THEN stream' = stream \o Txt(next) /\ saved' = saved \ {next} /\ next' = next + 1 /\ UNCHANGED pc
               ELSE pc' = [pc EXCEPT ![t] = "leave"] /\ UNCHANGED <<stream, saved, next>>
            /\ UNCHANGED <<lock, me, todo, called, done, seen>>
Leave(t) == /\ pc[t] = "leave" /\ lock' = 0 /\ pc' = [pc EXCEPT ![t] = "ret"] /\ UNCHANGED <<next, saved, stream, me, todo, called, done, seen>>
Ret(t) == /\ pc[t] = "ret" /\ done' = done \cup {me[t]} /\ pc' = [pc EXCEPT ![t] = "idle"]
          /\ UNCHANGED <<next, saved, stream, lock, me, todo, called, seen>>
ONext == \E t \in Threads : Call(t) \/ Enter(t) \/ Test(t) \/ Drain(t) \/ Leave(t) \/ Ret(t)
OSpec == OInit /\ [][ONext]_vars /\ WF_vars(ONext)
Ordered == Legal(Txt, stream, called, done)
Delivered == <>(done = 0..(N - 1) /\ stream = Texts(Txt, 0, N))
==============================================================================
