------------------------------- MODULE HieroModel -------------------------------
(* All alignments of N with M words: what holds for the rules of each.            *)
EXTENDS Hiero
CONSTANTS N, M, Lim, Loose      \* Loose: (a mistaken variant) links to the outside do not matter
VARIABLE al
Init == al \in SUBSET ((0..(N - 1)) \X (0..(M - 1)))
Next == UNCHANGED al

P == IF Loose THEN {p \in (0..(N - 1)) \X (0..(N - 1)) \X (0..(M - 1)) \X (0..(M - 1)) : p[1] <= p[2] /\ p[3] <= p[4] /\ p[2] - p[1] < Lim /\ p[4] - p[3] < Lim
                       /\ TrgOf(al, p[1], p[2]) # {} /\ TrgOf(al, p[1], p[2]) \subseteq p[3]..p[4]}
     ELSE Phrases(N, M, al, Lim)
T == Tight(al, P)
\* one shortest pair for each source span
Unique == \A p, q \in T : p[1] = q[1] /\ p[2] = q[2] => p = q
\* filling a rule's variables with their phrases gives its own phrase back, on both sides
Fill(side, spans) == FlattenSeq([k \in 1..Len(side) |-> IF side[k][1] = 0 THEN <<side[k][2]>>
                       ELSE [i \in 1..(spans[side[k][1]][2] - spans[side[k][1]][1] + 1) |-> spans[side[k][1]][1] + i - 1]])
Upto(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Refill == \A p \in T : \A qs \in Subs(T, p) :
   /\ Fill(SrcSide(p, qs), [i \in 1..Len(qs) |-> <<qs[i][1], qs[i][2]>>]) = Upto(p[1], p[2])
   /\ Fill(TrgSide(p, qs), [i \in 1..Len(qs) |-> <<qs[i][3], qs[i][4]>>]) = Upto(p[3], p[4])
\* a link of a phrase is a link of the rule, or of one of the phrases taken out
KeepLinks == \A p \in T : \A qs \in Subs(T, p) :
   Cardinality(Links(al, p, qs)) + FoldLeft(LAMBDA x, q : x + Cardinality({a \in al : q[1] <= a[1] /\ a[1] <= q[2]}), 0, qs)
     = Cardinality({a \in al : p[1] <= a[1] /\ a[1] <= p[2]})
================================================================================
