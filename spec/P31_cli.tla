-------------------------------- MODULE P31_cli --------------------------------
EXTENDS RuleFiltering, TraceBase

Count(q, y) == Cardinality({i \in 1..Len(q) : q[i] = y})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])

\* ---- filtering: o.kept are the numbers of the lines kept, o.same: they are unchanged
DiagFilter(r) ==
  LET x == r.in
      o == r.out
      n == Len(x.rules)
      want(i) == IF x.exact THEN Useful(x.rules[i], x.sents) ELSE RunsFound(x.rules[i], x.sents, x.o)
      must == {i \in 1..n : want(i)}
      got == ToSet(o.kept)
  IN (IF must \subseteq got THEN {} ELSE {"dropped"})
     \cup (IF got \subseteq must THEN {} ELSE {"kept"})
     \cup (IF o.same /\ \A k \in 1..(Len(o.kept) - 1) : o.kept[k] < o.kept[k + 1] THEN {} ELSE {"lines"})

\* ---- turning a table around: columns 1 and 2 in each other's place, the links of the last of four or more turned
Turn(row) ==
  [k \in 1..Len(row.cols) |-> IF k = 1 THEN row.cols[2] ELSE IF k = 2 THEN row.cols[1] ELSE row.cols[k]]
DiagReverse(r) ==
  LET x == r.in
      o == r.out
      n == Len(x.rows)
      Flip(q) == [i \in 1..Len(q) |-> <<q[i][2], q[i][1]>>]
  IN (IF Len(o.once) = n /\ \A k \in 1..n : o.once[k].cols = Turn(x.rows[k]) /\ o.once[k].links = Flip(x.rows[k].links) THEN {} ELSE {"once"})
     \cup (IF Len(o.twice) = n /\ \A k \in 1..n : o.twice[k].cols = x.rows[k].cols /\ o.twice[k].links = x.rows[k].links THEN {} ELSE {"twice"})

\* ---- one table of two: features of both (the first's where both have one), the rule's counts; with a limit, of the
\* rules of one source the most frequent, in their order
Merged(x, k) ==
  LET a == x.rows[k]
      has(f) == \E i \in 1..Len(a.f1) : a.f1[i][1] = f
  IN [src |-> a.src, trg |-> a.trg, feats |-> ToSet(a.f1) \cup {p \in ToSet(a.f2) : ~has(p[1])}, counts |-> <<a.c, a.s, a.t>>, al |-> a.al]
\* the rules with the same source, whatever its label
Group(x, k) == {i \in 1..Len(x.rows) : x.rows[i].group = x.rows[k].group}
Best(x, k) == Cardinality({i \in Group(x, k) : x.rows[i].c > x.rows[k].c \/ (x.rows[i].c = x.rows[k].c /\ i < k)}) < x.top
DiagCombine(r) ==
  LET x == r.in
      o == r.out
      keep == SelectSeq([k \in 1..Len(x.rows) |-> k], LAMBDA k : x.top = 0 \/ Best(x, k))
      want == [i \in 1..Len(keep) |-> Merged(x, keep[i])]
  IN IF x.bad THEN (IF o.rc # 0 THEN {} ELSE {"mismatch-not-reported"})
     ELSE (IF o.rc = 0 THEN {} ELSE {"failed"})
     \cup (IF Len(o.rows) = Len(want) /\ \A k \in 1..Len(want) :
              /\ o.rows[k].src = want[k].src /\ o.rows[k].trg = want[k].trg /\ o.rows[k].counts = want[k].counts /\ o.rows[k].al = want[k].al
              /\ ToSet(o.rows[k].feats) = want[k].feats /\ Len(o.rows[k].feats) = Cardinality(want[k].feats)
           THEN {} ELSE {"rows"})
================================================================================
