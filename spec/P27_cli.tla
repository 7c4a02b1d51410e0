-------------------------------- MODULE P27_cli --------------------------------
EXTENDS Segmentation, TraceBase
Diag(r) ==
  LET x == r.in
      o == r.out
      plan == TLCEval(Plan(x))
      possible == IF x.refs = <<>> THEN x.words = <<>> ELSE plan[1][1].ok
      legal == /\ Len(o.segs) = Len(x.refs) /\ FlattenSeq(o.segs) = x.words
               /\ \A k \in 1..Len(o.segs) : Len(o.segs[k]) <= Limit(x.refs[k], x.slack)
  IN IF ~possible THEN (IF o.error THEN {} ELSE {"no-error"})
     ELSE IF o.error THEN {"error"}
     ELSE IF ~legal THEN {"not-a-split"}
     ELSE IF x.refs = <<>> THEN {}
     \* scores too close to tell apart decide nothing
     ELSE IF ~plan[1][1].sure THEN {}
     ELSE IF x.m = "wer" THEN (IF FoldLeft(LAMBDA a, k : a + EditDistance(x.refs[k], o.segs[k]), 0, [k \in 1..Len(x.refs) |-> k]) = plan[1][1].st[1] THEN {} ELSE {"not-best"})
     ELSE IF o.segs = Segments(x, plan) THEN {} ELSE {"not-best"}
================================================================================
