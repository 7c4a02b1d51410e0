---------------------------- MODULE TrainResumeGen ----------------------------
(* All histories of runs that are stopped; Wrong: the order in which the lexicons   *)
(* vouch for each other although they are written together.                         *)
EXTENDS TrainResume, Json
CONSTANTS MaxStops, Wrong, Show, Which
VARIABLES c, f, have, pc, hist
vars == <<c, f, have, pc, hist>>
\* what is given: nothing to convert, alignments, lexicons, the rule table; and the number of processes
B == [sword |-> FALSE, tword |-> TRUE, align |-> TRUE, l1 |-> FALSE, l2 |-> FALSE, tm |-> FALSE, threads |-> 1]
AllConfigs == <<B, [B EXCEPT !.align = FALSE], [B EXCEPT !.align = FALSE, !.threads = 2], [B EXCEPT !.align = FALSE, !.threads = 2, !.tword = FALSE],
  [B EXCEPT !.sword = TRUE], [B EXCEPT !.sword = TRUE, !.align = FALSE, !.threads = 2], [B EXCEPT !.l1 = TRUE], [B EXCEPT !.l2 = TRUE, !.align = FALSE],
  [B EXCEPT !.l1 = TRUE, !.l2 = TRUE, !.threads = 2], [B EXCEPT !.tm = TRUE], [B EXCEPT !.tword = FALSE], [B EXCEPT !.sword = TRUE, !.tm = TRUE]>>
Configs == {AllConfigs[i] : i \in Which}
L(x) == IF Wrong /\ x = "l1" THEN "l2" ELSE Later(x)
All == [sw |-> "no", tw |-> "no", al |-> "no", l1 |-> "no", l2 |-> "no", ex |-> "no", r1 |-> "no", r2 |-> "no", tm |-> "no", ini |-> "no"]
Init == c \in Configs /\ f = All /\ have = {} /\ pc = 1 /\ hist = <<>>
Down == 0
P == Points[pc]
Running == pc \in 1..Len(Points)
Write(g, q, v) == [x \in FileNames |-> IF x \in q THEN v[x] ELSE g[x]]
Skip == Running /\ ~Takes(c, have, P) /\ pc' = pc + 1 /\ UNCHANGED <<c, f, have, hist>>
Do == Running /\ Takes(c, have, P) /\ pc' = pc + 1 /\ f' = Write(f, Outs(c, P), [x \in FileNames |-> "full"]) /\ UNCHANGED <<c, have, hist>>
\* the step fails, leaving part of its output; with two processes the other one ends first
Fail == /\ Running /\ P # "ini" /\ Takes(c, have, P) /\ Len(hist) < MaxStops
        /\ \E k \in (IF P = "s2" THEN {"fail", "revfail"} ELSE {"fail"}) :
             hist' = Append(hist, [p |-> P, k |-> k, v |-> <<>>])
        /\ f' = Write(IF c.threads = 2 THEN Write(f, Outs(c, Partner(P)), [x \in FileNames |-> "full"]) ELSE f, Outs(c, P), [x \in FileNames |-> "half"])
        /\ pc' = Down /\ UNCHANGED <<c, have>>
\* everything stops: the files being written are there or not, in part or whole
Kill == /\ Running /\ P # "ini" /\ Takes(c, have, P) /\ Len(hist) < MaxStops
        /\ LET o == Outs(c, P) \cup (IF c.threads = 2 THEN Outs(c, Partner(P)) ELSE {})
           IN \E v \in [o -> {"no", "empty", "half", "full"}] :
                /\ f' = [x \in FileNames |-> IF x \in o THEN v[x] ELSE f[x]]
                /\ hist' = Append(hist, [p |-> P, k |-> "kill", v |-> SetToSeq({<<x, v[x]>> : x \in o})])
        /\ pc' = Down /\ UNCHANGED <<c, have>>
\* training was asked to end after this step
Stop == /\ Running /\ P \in {"sym", "lex"} /\ Len(hist) < MaxStops
        /\ f' = IF Takes(c, have, P) THEN Write(f, Outs(c, P), [x \in FileNames |-> "full"]) ELSE f
        /\ hist' = Append(hist, [p |-> P, k |-> "stop", v |-> <<>>]) /\ pc' = Down /\ UNCHANGED <<c, have>>
Resume == pc = Down /\ have' = Trusted(f, L) /\ pc' = 1 /\ UNCHANGED <<c, f, hist>>
Ended == /\ pc = Len(Points) + 1 /\ pc' = pc + 1 /\ UNCHANGED <<c, f, have, hist>>
         /\ IF Show THEN PrintT("GEN " \o ToJson([c |-> c, stops |-> hist])) ELSE TRUE
Next == Skip \/ Do \/ Fail \/ Kill \/ Stop \/ Resume \/ Ended
TrustWhole == \A x \in Trusted(f, L) : f[x] = "full"
\* a step only runs on whole input
InputsWhole == Running => CASE P = "lex" -> c.align \/ ~Takes(c, have, P) \/ f.al = "full"
                            [] P = "ext" -> c.align \/ ~Takes(c, have, P) \/ f.al = "full"
                            [] P \in {"s1", "s2"} -> ~Takes(c, have, P) \/ (f.ex = "full" /\ (c.l1 \/ f.l1 = "full") /\ (c.l2 \/ f.l2 = "full"))
                            [] P = "comb" -> ~Takes(c, have, P) \/ (f.r1 = "full" /\ f.r2 = "full")
                            [] OTHER -> TRUE
EndsWhole == pc > Len(Points) => \A x \in Model(c) : f[x] = "full"
================================================================================
