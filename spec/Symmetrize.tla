------------------------------- MODULE Symmetrize -------------------------------
(* Word alignments of n source with m target words in two directions: fe[j] is the *)
(* source word of target word j, ef[i] the target word of source word i (0: none).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

FromFe(fe) == {<<fe[j], j>> : j \in {k \in 1..Len(fe) : fe[k] # 0}}
FromEf(ef) == {<<i, ef[i]>> : i \in {k \in 1..Len(ef) : ef[k] # 0}}
Both(fe, ef) == FromFe(fe) \cap FromEf(ef)
Either(fe, ef) == FromFe(fe) \cup FromEf(ef)
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
ByTarget(S) == SetToSortSeq(S, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1]))
BySource(S) == SetToSortSeq(S, Less)
Rows(A) == {a[1] : a \in A}
Cols(A) == {a[2] : a \in A}
Around(diag) == <<<<-1, 0>>, <<0, -1>>, <<1, 0>>, <<0, 1>>>> \o (IF diag THEN <<<<-1, -1>>, <<-1, 1>>, <<1, -1>>, <<1, 1>>>> ELSE <<>>)

\* growing: the list of points is gone through, in the order they were added, until nothing is added any more;
\* a neighbour in the union joins when its source or its target word is not covered yet
RECURSIVE GrowFrom(_, _, _, _)
GrowFrom(sym, i, U, diag) ==
  IF i > Len(sym) THEN sym
  ELSE LET nx == FoldLeft(LAMBDA acc, d :
                     LET p == <<sym[i][1] + d[1], sym[i][2] + d[2]>>
                     IN IF p \in U /\ ~(p[1] \in Rows(ToSet(acc)) /\ p[2] \in Cols(ToSet(acc))) THEN Append(acc, p) ELSE acc, sym, Around(diag))
       IN GrowFrom(nx, i + 1, U, diag)
\* every point's neighbours have been looked at once; a point left out stays left out, since words only become covered
Grow(fe, ef, diag) == GrowFrom(ByTarget(Both(fe, ef)), 1, Either(fe, ef), diag)
\* at the end, points of one direction and then of the other, in order of the source, for words not covered
Final(A, cand, and) ==
  FoldLeft(LAMBDA acc, p :
     LET r == p[1] \in Rows(acc)
         c == p[2] \in Cols(acc)
     IN IF p \notin acc /\ (IF and THEN ~r /\ ~c ELSE ~(r /\ c)) THEN acc \cup {p} ELSE acc, A, BySource(cand))
Symmetrized(fe, ef, o) ==
  CASE o.sym = "intersect" -> Both(fe, ef)
    [] o.sym = "union" -> Either(fe, ef)
    [] OTHER -> LET G == ToSet(Grow(fe, ef, o.diag))
                IN IF ~o.final THEN G
                   ELSE Final(Final(G, FromFe(fe) \ Both(fe, ef), o.and), FromEf(ef) \ Both(fe, ef), o.and)
=================================================================================
