----------------------------- MODULE SymbolDict -----------------------------
(* The symbol dictionary.  Abstractly: a partial injective map d from words to     *)
(* identifiers that only grows, and not at all once frozen.  An observation is     *)
(*   <<"wid", w, id>>    looking up word w gave id (-1: unknown)                   *)
(*   <<"sym", id, w>>    identifier id stands for word w                           *)
(*   <<"freeze", ..>>    from now on nothing is added                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Init0 == [d |-> <<>>, fz |-> FALSE]         \* d: function from a set of words to identifiers
Known(s, w) == w \in DOMAIN s.d
Ids(s) == {s.d[w] : w \in DOMAIN s.d}
\* the successor states under an observation; none if the observation is not allowed
Obs(s, e) ==
  CASE e[1] = "wid" ->
         IF Known(s, e[2]) THEN IF e[3] = s.d[e[2]] THEN {s} ELSE {}
         ELSE IF s.fz THEN IF e[3] = -1 THEN {s} ELSE {}
         ELSE IF e[3] >= 0 /\ e[3] \notin Ids(s) THEN {[s EXCEPT !.d = (e[2] :> e[3]) @@ @]} ELSE {}
    [] e[1] = "sym" -> IF \E w \in DOMAIN s.d : s.d[w] = e[2] /\ w = e[3] THEN {s} ELSE {}
    [] e[1] = "freeze" -> {[s EXCEPT !.fz = TRUE]}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* The implementation, step by step: lookups by several threads under a reader-     *)
(* upgrader-writer lock.  Variant "ok" is the real algorithm; in "unlocked" the      *)
(* lookup lets go of the lock between the search and the insertion; in "samesize"    *)
(* the identifier is computed before the lock is upgraded.                           *)
CONSTANTS Threads, Words, Ops, Variant
VARIABLES map, vocab, frozen, upg, wr, pc, w, idv, left, abs, ok
vars == <<map, vocab, frozen, upg, wr, pc, w, idv, left, abs, ok>>
None == "none"
DInit == /\ map = <<>> /\ vocab = <<>> /\ frozen = FALSE /\ upg = None /\ wr = None
         /\ pc = [t \in Threads |-> "idle"] /\ w \in [Threads -> Words] /\ idv = [t \in Threads |-> -1]
         /\ left = [t \in Threads |-> Ops] /\ abs = {Init0} /\ ok = TRUE
Observe(e) == LET T == UNION {Obs(s, e) : s \in abs} IN abs' = T /\ ok' = (T # {})
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ wr = None
            /\ (Variant = "unlocked" \/ upg = None)
            /\ \E x \in Words : w' = [w EXCEPT ![t] = x]
            /\ upg' = IF Variant = "unlocked" THEN upg ELSE t
            /\ pc' = [pc EXCEPT ![t] = "find"] /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<map, vocab, frozen, wr, idv, abs, ok>>
Find(t) == /\ pc[t] = "find"
           /\ IF w[t] \in DOMAIN map
              THEN idv' = [idv EXCEPT ![t] = map[w[t]]] /\ pc' = [pc EXCEPT ![t] = "ret"]
              ELSE /\ idv' = [idv EXCEPT ![t] = IF frozen THEN -1 ELSE Len(vocab)]
                   /\ pc' = [pc EXCEPT ![t] = IF frozen THEN "ret" ELSE "up"]
           /\ UNCHANGED <<map, vocab, frozen, upg, wr, w, left, abs, ok>>
Upgrade(t) == /\ pc[t] = "up" /\ wr = None
              /\ wr' = t /\ pc' = [pc EXCEPT ![t] = "add"]
              /\ idv' = IF Variant = "unlocked" THEN idv ELSE [idv EXCEPT ![t] = Len(vocab)]
              /\ UNCHANGED <<map, vocab, frozen, upg, w, left, abs, ok>>
Add(t) == /\ pc[t] = "add"
          /\ vocab' = Append(vocab, w[t]) /\ map' = (w[t] :> idv[t]) @@ map
          /\ wr' = None /\ pc' = [pc EXCEPT ![t] = "ret"]
          /\ UNCHANGED <<frozen, upg, w, idv, left, abs, ok>>
Return(t) == /\ pc[t] = "ret" /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ upg' = IF upg = t THEN None ELSE upg
             /\ Observe(<<"wid", w[t], idv[t]>>)
             /\ UNCHANGED <<map, vocab, frozen, wr, w, idv, left>>
Symbol(t) == /\ pc[t] = "idle" /\ idv[t] >= 0 /\ wr = None /\ idv[t] < Len(vocab)
             /\ Observe(<<"sym", idv[t], vocab[idv[t] + 1]>>)
             /\ UNCHANGED <<map, vocab, frozen, upg, wr, pc, w, idv, left>>
FreezeIt == /\ ~frozen /\ \A t \in Threads : pc[t] = "idle"
            /\ frozen' = TRUE /\ Observe(<<"freeze", 0, 0>>)
            /\ UNCHANGED <<map, vocab, upg, wr, pc, w, idv, left>>
DNext == FreezeIt \/ \E t \in Threads : Begin(t) \/ Find(t) \/ Upgrade(t) \/ Add(t) \/ Return(t) \/ Symbol(t)
DSpec == DInit /\ [][DNext]_vars
\* every observation of the algorithm is one of the abstract map
Refines == ok
OneToOne == \A x, y \in DOMAIN map : map[x] = map[y] => x = y
BackWard == \A x \in DOMAIN map : map[x] < Len(vocab) => vocab[map[x] + 1] = x
=============================================================================
