--------------------------------- MODULE Hiero ---------------------------------
(* Phrase pairs and hierarchical rules of a word-aligned sentence pair: source     *)
(* positions 0..n-1, target positions 0..m-1, al a set of pairs <<source, target>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

TrgOf(al, s1, s2) == {a[2] : a \in {x \in al : s1 <= x[1] /\ x[1] <= s2}}
\* <<s1, s2, t1, t2>>: both spans within the limit, some link inside, and none from inside to outside
Consistent(al, p) ==
  /\ \E a \in al : p[1] <= a[1] /\ a[1] <= p[2]
  /\ \A a \in al : (p[1] <= a[1] /\ a[1] <= p[2]) <=> (p[3] <= a[2] /\ a[2] <= p[4])
Phrases(n, m, al, lim) ==
  {p \in UNION {{s} \X (s..(IF s + lim - 1 < n - 1 THEN s + lim - 1 ELSE n - 1)) \X (0..(m - 1)) \X (0..(m - 1)) : s \in 0..(n - 1)} :
     p[3] <= p[4] /\ p[4] - p[3] < lim /\ Consistent(al, p)}
\* of the phrase pairs with the same source the one with the shortest target makes rules
Tight(al, P) == {p \in P : LET T == TrgOf(al, p[1], p[2]) IN p[3] = Min(T) /\ p[4] = Max(T)}
Inside(q, p) == q # p /\ p[1] <= q[1] /\ q[2] <= p[2] /\ p[3] <= q[3] /\ q[4] <= p[4]
Apart(a, b, c, d) == b < c \/ d < a
\* the choices of sub-phrases, from the left of the source
Subs(P, p) == LET I == {q \in P : Inside(q, p)} IN
  {<<>>} \cup {<<q>> : q \in I} \cup {y \in I \X I : y[1][2] < y[2][1] /\ Apart(y[1][3], y[1][4], y[2][3], y[2][4])}
\* one side of a rule: <<0, position>> a word, <<i, 0>> the i-th variable; spans: the variables' spans
Side(lo, hi, spans) ==
  LET at(j) == LET c == {i \in 1..Len(spans) : spans[i][1] <= j /\ j <= spans[i][2]} IN IF c = {} THEN <<0, j>> ELSE <<Min(c), 0>>
  IN FoldLeft(LAMBDA acc, k : IF at(lo + k - 1)[1] # 0 /\ k > 1 /\ at(lo + k - 2) = at(lo + k - 1) THEN acc ELSE Append(acc, at(lo + k - 1)),
              <<>>, [k \in 1..(hi - lo + 1) |-> k])
SrcSide(p, qs) == Side(p[1], p[2], [i \in 1..Len(qs) |-> <<qs[i][1], qs[i][2]>>])
TrgSide(p, qs) == Side(p[3], p[4], [i \in 1..Len(qs) |-> <<qs[i][3], qs[i][4]>>])
Words(q) == SelectSeq(q, LAMBDA x : x[1] = 0)
\* some word on either side, not too many, and no variables next to each other in the source
Usable(p, qs, maxterm) ==
  LET s == SrcSide(p, qs)
      t == TrgSide(p, qs)
  IN /\ Len(Words(s)) \in 1..maxterm /\ Len(Words(t)) \in 1..maxterm
     /\ \A i \in 1..(Len(s) - 1) : s[i][1] = 0 \/ s[i + 1][1] = 0
\* the words' links, counted within the rule
Links(al, p, qs) ==
  LET s == Words(SrcSide(p, qs))
      t == Words(TrgSide(p, qs))
  IN {<<z[1] - 1, z[2] - 1>> : z \in {y \in (1..Len(s)) \X (1..Len(t)) : <<s[y[1]][2], t[y[2]][2]>> \in al}}
================================================================================
