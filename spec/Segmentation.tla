------------------------------ MODULE Segmentation ------------------------------
(* Splitting a corpus of words into one segment for each reference sentence, for  *)
(* the highest score. Plan[r][p]: the best way to split what follows the first    *)
(* p - 1 words over the references from the r-th on.                              *)
EXTENDS EvalMeasures

\* slack in quarters: a segment has at most that many times the words of its reference
Limit(ref, slack) == (Len(ref) * slack) \div 4
\* x.m: "wer" or "bleu"; the statistics of a segment
Stat(x, ref, seg) == IF x.m = "wer" THEN <<EditDistance(ref, seg), Len(ref)>> ELSE BleuStats(ref, seg, x.o.order)
\* the score of summed statistics, as a number that grows with it
Value(x, st) ==
  IF x.m = "wer" THEN (IF st[2] = 0 THEN 0 ELSE IF x.rev THEN -st[1] ELSE st[1])
  ELSE BleuLn(st, x.o)
\* two scores that differ by less than rounding
Close(x, a, b, va, vb) == x.m = "bleu" /\ a # b /\ va # vb /\ AbsV(va - vb) <= 20
Same(x, a, b, va, vb) == x.m = "bleu" /\ a # b /\ va = vb /\ va # NoLn
Dead == [ok |-> FALSE, st |-> <<>>, next |-> 0, val |-> 0, sure |-> TRUE]
\* the first of the best ends for a segment that starts after p words; rest[q + 1]: the plan after q words
Choose(x, ref, words, p, ends, rest) ==
  FoldLeft(LAMBDA acc, q :
    IF ~rest[q + 1].ok THEN acc
    ELSE LET st == TLCEval(LET own == Stat(x, ref, SubSeq(words, p + 1, q)) IN IF rest[q + 1].st = <<>> THEN own ELSE AddStats(own, rest[q + 1].st))
             v == TLCEval(Value(x, st))
             sure == rest[q + 1].sure /\ acc.sure /\ ~(acc.ok /\ (Close(x, acc.st, st, acc.val, v) \/ Same(x, acc.st, st, acc.val, v)))
         IN IF ~acc.ok \/ v > acc.val THEN [ok |-> TRUE, st |-> st, next |-> q, val |-> v, sure |-> sure]
            ELSE [acc EXCEPT !.sure = sure],
    Dead, ends)
Row(x, ref, words, isLast, rest) ==
  LET n == Len(words)
      lim == Limit(ref, x.slack)
      ends(p) == LET hi == Least(n, p + lim)
                 IN IF isLast THEN (IF p + lim >= n THEN <<n>> ELSE <<>>) ELSE [k \in 1..(hi - p + 1) |-> p + k - 1]
  IN [k \in 1..(n + 1) |-> TLCEval(Choose(x, ref, words, k - 1, ends(k - 1), rest))]
\* all rows, the last reference's first
Plan(x) ==
  LET n == Len(x.words)
      m == Len(x.refs)
      end == [k \in 1..(n + 1) |-> [Dead EXCEPT !.ok = TRUE]]
  IN FoldLeft(LAMBDA acc, k : <<TLCEval(Row(x, x.refs[m + 1 - k], x.words, k = 1, IF acc = <<>> THEN end ELSE Head(acc)))>> \o acc,
              <<>>, [k \in 1..m |-> k])
\* the segments of a plan
Segments(x, plan) ==
  FoldLeft(LAMBDA acc, r : LET q == plan[r][acc.p + 1].next IN [p |-> q, s |-> Append(acc.s, SubSeq(x.words, acc.p + 1, q))],
           [p |-> 0, s |-> <<>>], [r \in 1..Len(x.refs) |-> r]).s
\* any split that keeps the limits: end positions, one for each reference
Splits(x) == {c \in [1..Len(x.refs) -> 0..Len(x.words)] :
   /\ c[Len(x.refs)] = Len(x.words)
   /\ \A r \in 1..Len(x.refs) : LET b == IF r = 1 THEN 0 ELSE c[r - 1] IN b <= c[r] /\ c[r] - b <= Limit(x.refs[r], x.slack)}
TotalOf(x, c) == FoldLeft(LAMBDA acc, r : LET own == Stat(x, x.refs[r], SubSeq(x.words, (IF r = 1 THEN 0 ELSE c[r - 1]) + 1, c[r]))
                                          IN IF acc = <<>> THEN own ELSE AddStats(acc, own), <<>>, [r \in 1..Len(x.refs) |-> r])
==================================================================================
