------------------------------- MODULE Envelope -------------------------------
(* Upper envelopes of lines with integer slope and height, and line search over   *)
(* the sum of the statistics of the highest lines.  A line is a record [m, b].     *)
(* A position is a fraction <<p, q>> with q > 0; the ends of the world are          *)
(* <<-Far, 1>> and <<Far, 1>>.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Far == 100000000
NegInf == <<-Far, 1>>
PosInf == <<Far, 1>>
Lt(x, y) == IF x = PosInf \/ y = NegInf THEN FALSE
            ELSE IF x = NegInf \/ y = PosInf THEN TRUE
            ELSE x[1] * y[2] < y[1] * x[2]
Le(x, y) == ~Lt(y, x)
MaxOf(S) == CHOOSE x \in S : \A y \in S : Le(y, x)
MinOf(S) == CHOOSE x \in S : \A y \in S : Le(x, y)

\* where line k (steeper) overtakes line l
Cross(l, k) == <<l.b - k.b, k.m - l.m>>
\* the open interval in which line l is above every other line of set L (empty: lo >= hi)
Lo(L, l) == MaxOf({NegInf} \cup {Cross(k, l) : k \in {k \in L : k.m < l.m}})
Hi(L, l) == MinOf({PosInf} \cup {Cross(l, k) : k \in {k \in L : k.m > l.m}})
Top(L, l) == /\ \A k \in L : k.m = l.m => k.b <= l.b
             /\ Lt(Lo(L, l), Hi(L, l))
\* the segments, from the left
Segments(L) ==
  LET T == {l \in L : Top(L, l)}
  IN SortSeq(SetToSeq({[m |-> l.m, b |-> l.b, lo |-> Lo(L, l), hi |-> Hi(L, l)] : l \in T}), LAMBDA a, b : a.m < b.m)

\* an observed position (in hundred thousandths; beyond the sentinel: infinite) is position x
Scale == 100000
PosIs(obs, x) ==
  IF x = NegInf THEN obs < -1000000000
  ELSE IF x = PosInf THEN obs > 1000000000
  ELSE /\ obs > -1000000000 /\ obs < 1000000000
       /\ LET d == obs * x[2] - x[1] * Scale IN d <= x[2] /\ -d <= x[2]

\* ------------- line search -------------
\* segs: a sequence of envelopes; stat[i][k]: statistics <<v, d>> of segment k of envelope i
Bounds(segs) == UNION {{segs[i][k].hi : k \in 1..Len(segs[i])} \cup {segs[i][k].lo : k \in 1..Len(segs[i])} : i \in 1..Len(segs)}
\* equal positions as one
Canon(S) == LET q == SortSeq(SetToSeq(S), Lt)
            IN FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ Le(x, acc[Len(acc)]) THEN acc ELSE Append(acc, x), <<>>, q)
SegAt(sg, l, r) == CHOOSE k \in 1..Len(sg) : Le(sg[k].lo, l) /\ Le(r, sg[k].hi)
AddP(a, b) == <<a[1] + b[1], a[2] + b[2]>>
\* the elementary intervals, with the sum of the statistics in each
Intervals(segs, stat) ==
  LET bs == TLCEval(Canon(Bounds(segs) \cup {NegInf, PosInf}))
  IN [j \in 1..(Len(bs) - 1) |->
        [lo |-> bs[j], hi |-> bs[j + 1],
         st |-> FoldLeft(LAMBDA acc, i : IF segs[i] = <<>> THEN acc ELSE AddP(acc, stat[i][SegAt(segs[i], bs[j], bs[j + 1])]), <<0, 0>>, [i \in 1..Len(segs) |-> i])]]
\* scores are fractions v/d (0 without a denominator)
ScoreLe(a, b) == IF a[2] = 0 THEN (b[2] = 0 \/ b[1] >= 0) ELSE IF b[2] = 0 THEN a[1] <= 0 ELSE a[1] * b[2] <= b[1] * a[2]
===============================================================================
