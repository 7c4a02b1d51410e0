------------------------------ MODULE SparseVec ------------------------------
(* Sparse vectors as the functions they denote: feature -> integer (a fixed      *)
(* denominator is applied by the recorder).  Registers v[1..] hold the values of *)
(* the vector-based representation and m[1..] of the map-based one; an operation *)
(* is a sequence <<name, arguments...>> and gives the next state and what is     *)
(* observed.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

CONSTANT NF                      \* features are 0..NF-1
Fs == 0..(NF - 1)
Zero == [k \in Fs |-> 0]

Abs(x) == IF x < 0 THEN -x ELSE x
\* the function denoted by a list of <<feature, value>> pairs, in any order, repeated or not
Denote(ps) == [k \in Fs |-> FoldLeft(LAMBDA a, p : IF p[1] = k THEN a + p[2] ELSE a, 0, ps)]
Plus(a, b) == [k \in Fs |-> a[k] + b[k]]
Minus(a, b) == [k \in Fs |-> a[k] - b[k]]
Times(a, c) == [k \in Fs |-> a[k] * c]
DotP(a, b) == MapThenSumSet(LAMBDA k : a[k] * b[k], Fs)
L1(a) == MapThenSumSet(LAMBDA k : Abs(a[k]), Fs)

\* st = [v |-> seq of functions, m |-> seq of functions]; register numbers count from 0
V(st, i) == st.v[i + 1]
M(st, i) == st.m[i + 1]
SetV(st, i, f) == [st EXCEPT !.v[i + 1] = f]
SetM(st, i, f) == [st EXCEPT !.m[i + 1] = f]

Step(st, o) ==
  CASE o[1] = "new"       -> SetV(st, o[2], Denote(o[3]))
    [] o[1] = "add"       -> SetV(st, o[2], [V(st, o[2]) EXCEPT ![o[3]] = @ + o[4]])
    [] o[1] = "pluseq"    -> SetV(st, o[2], Plus(V(st, o[2]), V(st, o[3])))
    [] o[1] = "minuseq"   -> SetV(st, o[2], Minus(V(st, o[2]), V(st, o[3])))
    [] o[1] = "plus"      -> SetV(st, o[2], Plus(V(st, o[3]), V(st, o[4])))
    [] o[1] = "minus"     -> SetV(st, o[2], Minus(V(st, o[3]), V(st, o[4])))
    [] o[1] = "scale"     -> SetV(st, o[2], Times(V(st, o[3]), o[4]))
    [] o[1] = "text"      -> SetV(st, o[2], V(st, o[3]))
    [] o[1] = "tomap"     -> SetM(st, o[2], V(st, o[3]))
    [] o[1] = "mpluseqv"  -> SetM(st, o[2], Plus(M(st, o[2]), V(st, o[3])))
    [] o[1] = "mminuseqv" -> SetM(st, o[2], Minus(M(st, o[2]), V(st, o[3])))
    [] o[1] = "mplusv"    -> SetM(st, o[2], Plus(M(st, o[3]), V(st, o[4])))
    [] o[1] = "mminusv"   -> SetM(st, o[2], Minus(M(st, o[3]), V(st, o[4])))
    [] o[1] = "mpluseq"   -> SetM(st, o[2], Plus(M(st, o[2]), M(st, o[3])))
    [] o[1] = "mminuseq"  -> SetM(st, o[2], Minus(M(st, o[2]), M(st, o[3])))
    [] o[1] = "mplus"     -> SetM(st, o[2], Plus(M(st, o[3]), M(st, o[4])))
    [] o[1] = "mminus"    -> SetM(st, o[2], Minus(M(st, o[3]), M(st, o[4])))
    [] o[1] = "mscale"    -> SetM(st, o[2], Times(M(st, o[3]), o[4]))
    [] o[1] = "mtext"     -> SetM(st, o[2], M(st, o[3]))
    [] OTHER              -> st

VecOps == {"new", "add", "pluseq", "minuseq", "plus", "minus", "scale", "text"}
MapOps == {"tomap", "mpluseqv", "mminuseqv", "mplusv", "mminusv", "mpluseq", "mminuseq", "mplus", "mminus", "mscale", "mtext"}

\* an observed list of pairs: strictly increasing features, and the function it denotes
Increasing(ps) == \A i \in 1..(Len(ps) - 1) : ps[i][1] < ps[i + 1][1]
Known(ps) == \A i \in 1..Len(ps) : ps[i][1] \in Fs
Reads(ps, f) == Known(ps) /\ Increasing(ps) /\ Denote(ps) = f

\* what may be observed of operation o taken from st to st2
Observes(st, o, st2, obs) ==
  CASE o[1] \in VecOps -> Reads(obs, V(st2, o[2]))
    [] o[1] \in MapOps -> Reads(obs, M(st2, o[2]))
    [] o[1] = "dot"   -> obs = DotP(V(st, o[2]), V(st, o[3]))
    [] o[1] = "mdot"  -> obs = DotP(M(st, o[2]), M(st, o[3]))
    [] o[1] = "mdotv" -> obs = DotP(M(st, o[2]), V(st, o[3]))
    [] o[1] = "eq"    -> obs = (IF V(st, o[2]) = V(st, o[3]) THEN 1 ELSE 0)
    [] o[1] = "meq"   -> obs = (IF M(st, o[2]) = M(st, o[3]) THEN 1 ELSE 0)
    [] o[1] = "mnorm" -> \* scaled so that the absolute values sum up to o[3], in thousandths
         /\ Known(obs)
         /\ LET f == Denote(obs)
                g == M(st, o[2])
                l == L1(g)
            IN \A k \in Fs : IF l = 0 THEN f[k] = 0 ELSE Abs(f[k] * l - g[k] * o[3] * 1000) <= l
==============================================================================
