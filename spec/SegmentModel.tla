------------------------------ MODULE SegmentModel ------------------------------
(* All small corpora and references: for a measure whose statistics add up over    *)
(* references of fixed length, the plan is the best of all splits.                 *)
EXTENDS Segmentation
CONSTANTS V, NRef, RefLen, NWord, Slack, Rev, Greedy
VARIABLE x
Sents(l) == UNION {[1..k -> 1..V] : k \in 0..l}
Init == x \in {[m |-> "wer", rev |-> Rev, slack |-> Slack, refs |-> rs, words |-> w] : rs \in [1..NRef -> Sents(RefLen)], w \in Sents(NWord)}
Next == UNCHANGED x
\* (a mistaken variant) every segment best for itself, from the left
GreedyCost == FoldLeft(LAMBDA acc, r :
   LET C == {q \in acc[1]..Least(Len(x.words), acc[1] + Limit(x.refs[r], x.slack)) : r < NRef \/ q = Len(x.words)}
       cost(q) == EditDistance(x.refs[r], SubSeq(x.words, acc[1] + 1, q))
   IN IF acc[1] < 0 \/ C = {} THEN <<0 - 1, 1000>>
      ELSE LET q == CHOOSE y \in C : \A z \in C : cost(y) <= cost(z) IN <<q, acc[2] + cost(q)>>, <<0, 0>>, [r \in 1..NRef |-> r])[2]
Optimal ==
  LET top == Plan(x)[1][1]
      S == Splits(x)
      cost == {TotalOf(x, c)[1] : c \in S}
      mine == IF Greedy THEN GreedyCost ELSE top.st[1]
  IN IF S = {} THEN ~top.ok
     ELSE top.ok /\ (IF Rev THEN \A k \in cost : mine <= k ELSE \A k \in cost : mine >= k)
          /\ LET segs == Segments(x, Plan(x)) IN Len(segs) = NRef /\ FlattenSeq(segs) = x.words
==================================================================================
