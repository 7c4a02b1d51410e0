------------------------------- MODULE TraceBase -------------------------------
(* The generic part of conformance checking.  A trace file holds one record per  *)
(* recorded behaviour of the implementation: its input, and everything observed. *)
(* Every record is validated against the specification by the operator Diagnose, *)
(* supplied by the module of the property (the set of violated clauses; empty:   *)
(* the record is a behaviour of the specification).  The state space is a tree   *)
(* root -> chunk -> record, so that TLC's workers validate chunks in parallel.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Diagnose(_), Chunk

Trace == ndJsonDeserialize(IOEnv.TRACE)
NRec == Len(Trace)

VARIABLES ph, idx, bad

tvars == <<ph, idx, bad>>

TInit == ph = "root" /\ idx = 0 /\ bad = {}

PickChunk ==
  /\ ph = "root"
  /\ \E c \in 0..((NRec - 1) \div Chunk) : idx' = c
  /\ ph' = "chunk"
  /\ bad' = {}

\* A record whose implementation run did not end normally is rejected here, once for
\* every module: the specification never crashes, hangs or throws on these inputs.
Ended(r) == r.st = "ok"

Validate ==
  /\ ph = "chunk"
  /\ \E i \in (idx * Chunk + 1)..(IF (idx + 1) * Chunk < NRec THEN (idx + 1) * Chunk ELSE NRec) :
       /\ idx' = i
       /\ bad' = IF Ended(Trace[i]) THEN Diagnose(Trace[i]) ELSE {"ended:" \o Trace[i].st}
       /\ IF bad' # {} THEN PrintT("REJECT " \o ToString(i) \o " " \o ToString(bad')) ELSE TRUE
  /\ ph' = "record"

TNext == PickChunk \/ Validate

Conforms == bad = {}
\* every record was looked at: root + chunks + records distinct states
AllSeen == TLCGet("stats").distinct = 1 + ((NRec - 1) \div Chunk + 1) + NRec
================================================================================
