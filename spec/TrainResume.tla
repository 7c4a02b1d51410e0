------------------------------ MODULE TrainResume ------------------------------
(* Training as a sequence of steps that leave files behind; it can be stopped at   *)
(* any moment (machine, signal), a step can fail, and it can be taken up again.    *)
(* What was written when it stopped is not known to be whole: an output is trusted *)
(* only when the output of a later step exists.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Points == <<"conv-src", "conv-trg", "giza-st", "giza-ts", "sym", "lex", "ext", "s1", "s2", "comb", "ini">>
At(p) == CHOOSE i \in 1..Len(Points) : Points[i] = p
FileNames == {"sw", "tw", "al", "l1", "l2", "ex", "r1", "r2", "tm", "ini"}

\* c: [sword, tword, align, l1, l2, tm: given (or nothing to convert), threads]
Outs(c, p) ==
  CASE p = "conv-src" -> {"sw"} [] p = "conv-trg" -> {"tw"} [] p \in {"giza-st", "giza-ts"} -> {} [] p = "sym" -> {"al"}
    [] p = "lex" -> (IF c.l1 THEN {} ELSE {"l1"}) \cup (IF c.l2 THEN {} ELSE {"l2"})
    [] p = "ext" -> {"ex"} [] p = "s1" -> {"r1"} [] p = "s2" -> {"r2"} [] p = "comb" -> {"tm"} [] p = "ini" -> {"ini"}
\* the file whose existence shows that x had been written completely
Later(x) ==
  CASE x \in {"sw", "tw"} -> "al" [] x = "al" -> "l1" [] x \in {"l1", "l2"} -> "ex" [] x = "ex" -> "r1"
    [] x \in {"r1", "r2"} -> "tm" [] x = "tm" -> "ini" [] OTHER -> "none"
Exists(f, x) == IF x = "none" THEN FALSE ELSE f[x] # "no"
Trusted(f, later(_)) == {x \in FileNames : Exists(f, x) /\ Exists(f, later(x))}
\* the steps a run takes when it can rely on the files in have
Takes(c, have, p) ==
  CASE p = "conv-src" -> ~c.sword /\ "sw" \notin have
    [] p = "conv-trg" -> ~c.tword /\ "tw" \notin have
    [] p \in {"giza-st", "giza-ts", "sym"} -> ~c.align /\ "al" \notin have
    [] p = "lex" -> ~((c.l1 \/ "l1" \in have) /\ (c.l2 \/ "l2" \in have))
    [] p = "ext" -> ~c.tm /\ "tm" \notin have /\ "ex" \notin have
    [] p \in {"s1", "s2"} -> ~c.tm /\ "tm" \notin have /\ ~{"r1", "r2"} \subseteq have
    [] p = "comb" -> ~c.tm /\ "tm" \notin have
    [] p = "ini" -> TRUE
Partner(p) == CASE p = "giza-st" -> "giza-ts" [] p = "giza-ts" -> "giza-st" [] p = "s1" -> "s2" [] p = "s2" -> "s1" [] OTHER -> p
\* what has to be there, complete, when training ends
Model(c) == (IF c.l1 THEN {} ELSE {"l1"}) \cup (IF c.l2 THEN {} ELSE {"l2"}) \cup (IF c.tm THEN {} ELSE {"tm"}) \cup {"ini"}
================================================================================
