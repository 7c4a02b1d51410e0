------------------------------- MODULE SparseGen -------------------------------
(* Every history of Depth operations over two vectors, two features and small     *)
(* values; algebraic laws of the specification itself are checked on the way.     *)
EXTENDS SparseVec, TLC, Json
CONSTANTS Depth, Vals
VARIABLES st, hist
Rs == {0, 1}
Start == [v |-> <<Zero, Zero>>, m |-> <<Zero, Zero>>]
Ops == {<<"new", 0, <<<<1, 2>>, <<0, a>>, <<1, b>>>>>> : a \in Vals, b \in Vals}
   \cup {<<"add", i, k, a>> : i \in Rs, k \in Fs, a \in Vals \ {0}}
   \cup {<<n, i, j>> : n \in {"pluseq", "minuseq", "eq", "text", "tomap", "mpluseqv", "mminuseqv", "dot"}, i \in Rs, j \in Rs}
   \cup {<<n, 0, i, j>> : n \in {"plus", "minus"}, i \in Rs, j \in Rs}
   \cup {<<"scale", 1, i, c>> : i \in Rs, c \in {0, -1}}
Init == st = Start /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : st' = Step(st, o) /\ hist' = Append(hist, o)
        /\ IF Len(hist') = Depth THEN PrintT("GEN " \o ToJson(hist')) ELSE TRUE
Commutes == Plus(V(st, 0), V(st, 1)) = Plus(V(st, 1), V(st, 0))
Inverts == Minus(Plus(V(st, 0), V(st, 1)), V(st, 1)) = V(st, 0)
Linear == DotP(Plus(V(st, 0), V(st, 1)), V(st, 0)) = DotP(V(st, 0), V(st, 0)) + DotP(V(st, 1), V(st, 0))
================================================================================
