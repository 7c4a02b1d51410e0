-------------------------------- MODULE P35_cli --------------------------------
(* r.in: c, stops; r.out: ref (whether an undisturbed run worked), runs: [rc, log, before, after, ini]  *)
EXTENDS TrainResume, TraceBase
Diag(r) ==
  LET c == r.in.c
      runs == r.out.runs
      n == Len(runs)
      have(k) == IF k = 1 THEN {} ELSE Trusted(runs[k].before, Later)
      takes(k) == {Points[i] : i \in {j \in 1..Len(Points) : Takes(c, have(k), Points[j])}} \ {"ini"}
      stop(k) == r.in.stops[k]
      planned(k) == k <= Len(r.in.stops)
      hit(k) == planned(k) /\ (stop(k).k = "stop" \/ stop(k).p \in takes(k))
      upto(k, i) == {p \in takes(k) : At(p) <= i}
      log(k) == ToSet(runs[k].log)
      once(k) == Len(runs[k].log) = Cardinality(log(k))
      whole(k) == \A x \in Model(c) : runs[k].after[x] = "full"
      wrong(k) ==
        (IF log(k) \subseteq takes(k) /\ once(k) THEN {} ELSE {"repeated"})
        \cup (IF ~hit(k) THEN (IF runs[k].rc = 0 THEN {} ELSE {"not-finished"}) \cup (IF takes(k) \subseteq log(k) THEN {} ELSE {"left-out"})
                               \cup (IF whole(k) THEN {} ELSE {"model"})
              ELSE IF stop(k).k = "stop" THEN (IF runs[k].rc = 0 /\ log(k) = upto(k, At(stop(k).p)) THEN {} ELSE {"stages"})
              ELSE (IF runs[k].rc # 0 THEN {} ELSE {"failure-hidden"})
                   \cup (IF \A p \in log(k) : At(p) <= At(stop(k).p) \/ p = Partner(stop(k).p) THEN {} ELSE {"went-on"})
                   \cup (IF runs[k].after["ini"] = runs[k].before["ini"] THEN {} ELSE {"configuration-of-failed-run"}))
  IN IF ~r.out.ref THEN {"training"}
     ELSE UNION {wrong(k) : k \in 1..n}
          \cup (IF n > 0 /\ ~hit(n) /\ \A k \in 1..n - 1 : hit(k) THEN {} ELSE {"runs"})
          \cup (IF r.out.again THEN {} ELSE {"overwritten"})
================================================================================
