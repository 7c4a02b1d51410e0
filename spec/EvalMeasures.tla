----------------------------- MODULE EvalMeasures -----------------------------
(* Evaluation measures of a hypothesis s against a reference r (sequences of     *)
(* word numbers): exact statistics, and scores in logarithms (millionths).       *)
EXTENDS FixedLn, FiniteSets, SequencesExt, FiniteSetsExt

Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
AbsV(x) == IF x < 0 THEN -x ELSE x
Sum(S, Op(_)) == FoldSet(LAMBDA x, acc : acc + Op(x), 0, S)
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)

\* ---- n-grams
Ngrams(s, n) == {SubSeq(s, i, i + n - 1) : i \in 1..(Len(s) - n + 1)}
Occ(s, g) == Cardinality({i \in 1..(Len(s) - Len(g) + 1) : SubSeq(s, i, i + Len(g) - 1) = g})
Matches(r, s, n) == Sum(Ngrams(s, n), LAMBDA g : Least(Occ(r, g), Occ(s, g)))
NCount(s, n) == Most(Len(s) - n + 1, 0)

\* ---- BLEU: <<match, hypothesis count, reference count>> for each order
BleuStats(r, s, order) == [k \in 1..(3 * order) |->
   LET n == ((k - 1) \div 3) + 1
   IN CASE (k - 1) % 3 = 0 -> Matches(r, s, n) [] (k - 1) % 3 = 1 -> NCount(s, n) [] OTHER -> NCount(r, n)]
AddStats(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]

\* the options: order, smooth (in quarters), prec (precision weight in tenths), mean, inverse, brev
\* the n-th precision (recall, F) as a fraction <<num, den>>
Frac(v, n, o) ==
  LET sm == IF n = 1 THEN 0 ELSE o.smooth
      mat == 4 * v[3 * n - 2] + sm
      sys == 4 * v[3 * n - 1] + sm
      ref == 4 * v[3 * n] + sm
      den == o.prec * sys + (10 - o.prec) * ref
      f == IF sys = 0 \/ den = 0 THEN <<0, 1>> ELSE <<10 * mat, den>>
  IN IF o.inverse THEN <<f[2] - f[1], f[2]>> ELSE f
RECURSIVE GcdE(_, _)
GcdE(a, b) == IF b = 0 THEN a ELSE GcdE(b, a % b)
Red(f) == LET g == GcdE(f[1], f[2]) IN <<f[1] \div g, f[2] \div g>>
AddF(a, b) == Red(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
\* the logarithm of the brevity penalty ("none": the penalty is total)
NoLn == -2000000000
LnBrev(sys, ref, o) ==
  IF ~o.brev \/ sys >= ref THEN 0
  ELSE IF sys = 0 THEN NoLn
  ELSE -(((ref - sys) * 1000000) \div sys)
LnMean(fs, o) ==
  LET n == Len(fs)
  IN IF o.mean = "geom"
     THEN IF \E i \in 1..n : fs[i][1] = 0 THEN NoLn
          ELSE SumSeq([i \in 1..n |-> Ln(fs[i][1]) - Ln(fs[i][2])]) \div n
     ELSE LET t == FoldLeft(AddF, <<0, 1>>, [i \in 1..n |-> Red(fs[i])])
          IN IF t[1] = 0 THEN NoLn ELSE Ln(t[1]) - Ln(t[2]) - Ln(n)
BleuLn(v, o) ==
  LET fs == [n \in 1..o.order |-> Frac(v, n, o)]
      m == LnMean(fs, o)
      b == LnBrev(v[2], v[3], o)
  IN IF m = NoLn \/ b = NoLn THEN NoLn ELSE m + b

\* an observed logarithm, up to rounding; far below zero counts as zero
LnOk(obs, exp, tol) == IF exp = NoLn \/ exp < -600000000 THEN obs = NoLn \/ obs < -590000000
                       ELSE obs # NoLn /\ AbsV(obs - exp) <= tol

\* ---- edit distance, row by row
EditDistance(r, s) ==
  LET row0 == [j \in 1..(Len(s) + 1) |-> j - 1]
      next(row, w) == FoldLeft(LAMBDA acc, j : Append(acc, Least(Least(row[j + 1] + 1, acc[j] + 1), row[j] + (IF s[j] = w THEN 0 ELSE 1))),
                               <<row[1] + 1>>, [j \in 1..Len(s) |-> j])
      last == FoldLeft(next, row0, r)
  IN last[Len(s) + 1]
\* words that no order of the hypothesis could match
BagDistance(r, s) ==
  Most(Len(r), Len(s)) - Sum({s[i] : i \in 1..Len(s)}, LAMBDA w : Least(Occ(r, <<w>>), Occ(s, <<w>>)))

\* ---- RIBES: the reference position of each hypothesis word that one is certain about
Unique(r, s, g) == Occ(r, g) = 1 /\ Occ(s, g) = 1
PosOf(r, g) == CHOOSE i \in 1..(Len(r) - Len(g) + 1) : SubSeq(r, i, i + Len(g) - 1) = g
\* the first context, growing by a word at a time and looking left before right, that is unique on both sides
RECURSIVE AlignFrom(_, _, _, _)
AlignFrom(r, s, i, w) ==
  IF w >= Len(s) THEN 0
  ELSE LET lg == SubSeq(s, i - w, i)
           rg == SubSeq(s, i, i + w)
       IN IF i - w >= 1 /\ Unique(r, s, lg) THEN PosOf(r, lg) + w
          ELSE IF i + w <= Len(s) /\ Unique(r, s, rg) THEN PosOf(r, rg)
          ELSE AlignFrom(r, s, i, w + 1)
AlignOf(r, s, i) ==
  IF Occ(r, <<s[i]>>) = 0 THEN 0
  ELSE IF Unique(r, s, <<s[i]>>) THEN PosOf(r, <<s[i]>>)
  ELSE AlignFrom(r, s, i, 1)
RibesAlign(r, s) == SelectSeq([i \in 1..Len(s) |-> AlignOf(r, s, i)], LAMBDA p : p # 0)
\* alpha and beta in hundredths
RibesLn(r, s, alpha, beta) ==
  IF r = <<>> THEN (IF s = <<>> THEN 0 ELSE NoLn)
  ELSE IF s = <<>> THEN NoLn
  ELSE LET al == RibesAlign(r, s)
           n == Len(al)
           bp == IF Len(s) >= Len(r) THEN 0 ELSE -(((Len(r) - Len(s)) * 1000000) \div Len(s))
           asc == Cardinality({p \in (1..n) \X (1..n) : p[1] < p[2] /\ al[p[1]] < al[p[2]]})
           rest == (alpha * (Ln(n) - Ln(Len(s)))) \div 100 + (beta * bp) \div 100
       IN IF n = 1 /\ Len(r) = 1 THEN rest
          ELSE IF n < 2 \/ asc = 0 THEN NoLn
          ELSE Ln(asc) - Ln((n * (n - 1)) \div 2) + rest

\* ---- NIST: matches weighted with the information of the n-gram in all references (in nats, millionths)
OccAll(rs, g) == SumSeq([i \in 1..Len(rs) |-> Occ(rs[i], g)])
Info(rs, g) == Ln(IF Len(g) = 1 THEN SumSeq([i \in 1..Len(rs) |-> Len(rs[i])]) ELSE OccAll(rs, SubSeq(g, 1, Len(g) - 1))) - Ln(OccAll(rs, g))
NistStats(rs, r, s, order) == [k \in 1..(2 * order + 1) |->
   IF k = 2 * order + 1 THEN Len(r)
   ELSE LET n == ((k - 1) \div 2) + 1
        IN IF k % 2 = 0 THEN NCount(s, n)
           ELSE Sum({g \in Ngrams(s, n) : Occ(r, g) > 0}, LAMBDA g : Least(Occ(r, g), Occ(s, g)) * Info(rs, g))]
===============================================================================
