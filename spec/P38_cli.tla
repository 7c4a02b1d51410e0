-------------------------------- MODULE P38_cli --------------------------------
(* r.in: src, trg (lines of words), low (word, lowered word), thr, inter, max, two, forest, caser, rej (words  *)
(* that the forest parser fails on), stops; r.out: runs: [rc], files: name -> lines                             *)
EXTENDS Preprocess, TraceBase
Diag(r) ==
  LET x == r.in
      n == Len(x.src)
      runs == r.out.runs
      Fs == r.out.files
      langs == IF x.two THEN {"s", "t"} ELSE {"s"}
      line(l, i) == IF l = "s" THEN x.src[i] ELSE x.trg[i]
      lower(w) == x.low[CHOOSE k \in 1..Len(x.low) : x.low[k][1] = w][2]
      Lows(ws) == [k \in 1..Len(ws) |-> lower(ws[k])]
      Glue(ws, sep) == FoldLeft(LAMBDA a, w : IF a = "" THEN w ELSE a \o sep \o w, "", ws)
      Tree(ws, rt, s, p) == "(" \o rt \o " (" \o s \o FoldLeft(LAMBDA a, w : a \o " (" \o p \o " " \o w \o ")", "", ws) \o "))"
      rejected(ws) == \E k \in 1..Len(ws) : ws[k] \in ToSet(x.rej)
      Forest(ws, yes, not) == (IF rejected(ws) THEN not ELSE yes) \o ":" \o Glue(ws, " ")
      Text(st, l, i) == LET ws == line(l, i) IN
        CASE st \in {"tok", "clean", "high"} -> Glue(ws, " ")
          [] st = "tree" -> Tree(ws, "ROOT", "S", "X")
          [] st \in {"treelow", "treetrue~"} -> Tree(Lows(ws), "root", "s", "x")
          [] st \in {"low", "true~"} -> Glue(Lows(ws), " ")
          [] st = "for" -> Forest(ws, "EG", "ROOT")
          [] st \in {"forlow", "fortrue~"} -> (IF rejected(ws) THEN "root" ELSE "eg") \o ":" \o Glue(Lows(ws), " ")
          [] OTHER -> "?"
      fits(ws) == Len(ws) >= 1 /\ Len(ws) <= x.max
      keep == IF x.max = 0 THEN 1..n ELSE {i \in 1..n : \A l \in langs : fits(line(l, i))}
      all == [i \in 1..n |-> i]
      Named(st, l) == st \o "." \o l
      File(st, l) == IF Named(st, l) \in DOMAIN Fs THEN Fs[Named(st, l)] ELSE <<"-">>
      order == Keeping(all, keep)
      \* the order in which the cleaned source lines appear, when they were dealt out one by one
      found == LET cs == File("clean", "s") IN [k \in 1..Len(cs) |-> LET q == {i \in keep : Text("clean", "s", i) = cs[k]} IN IF q = {} THEN 0 ELSE CHOOSE i \in q : TRUE]
      ord == IF ~x.inter \/ keep = 1..n THEN order ELSE found
      Want(st, l) == LET o == IF st = "tok" THEN all ELSE ord IN [k \in 1..Len(o) |-> IF o[k] = 0 THEN "?" ELSE Text(st, l, o[k])]
      stages(l) == <<"tok", "clean", "tree", "treelow", "low">> \o (IF x.forest /\ l = "s" THEN <<"for", "forlow">> ELSE <<>>)
                   \o (IF x.caser /\ l = "s" THEN <<"high", "true~", "treetrue~">> \o (IF x.forest THEN <<"fortrue~">> ELSE <<>>) ELSE <<>>)
      last == runs[Len(runs)]
      lost == x.stops # <<>> /\ x.stops[1].k = "drop"
      wrong == UNION {{Named(stages(l)[k], l) : k \in {j \in 1..Len(stages(l)) : File(stages(l)[j], l) # Want(stages(l)[j], l)}} : l \in langs}
  IN IF x.bad # "" THEN (IF last.rc # 0 /\ ~last.low THEN {} ELSE {"not-refused-" \o x.bad})
     ELSE IF lost THEN (IF runs[1].rc # 0 THEN {} ELSE {"loss-hidden"}) \cup (IF runs[1].after THEN {"went-on"} ELSE {})
                       \cup (IF last.rc = 0 /\ wrong # {} THEN {"loss-passed-over-later"} ELSE {})
     ELSE (IF last.rc = 0 THEN {} ELSE {"failed"})
          \cup (IF Len(runs) = Len(x.stops) + 1 \/ Len(x.stops) = 0 THEN {} ELSE {"not-stopped"})
          \cup (IF ToSet(ord) = keep /\ Len(ord) = Cardinality(keep) THEN {} ELSE {"lines-lost-or-repeated"})
          \cup wrong
================================================================================
