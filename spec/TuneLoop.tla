------------------------------- MODULE TuneLoop -------------------------------
(* Tuning as a loop: iteration i decodes with weights W[i], gathers candidates and *)
(* finds W[i + 1]; it ends when the weights do not move any more or after max       *)
(* iterations.  What the loop has reached is the newest configuration run<i>.ini    *)
(* (ini[i]); when taken up again it goes on from there.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

\* o: [nb: n-best lists or forests, pp: post-processing, filter, max]
Stages(o) == <<"dec">> \o (IF o.nb /\ o.pp THEN <<"pp">> ELSE <<>>) \o (IF o.nb THEN <<"uniq", "sta">> ELSE <<>>) \o <<"tun", "upd">>
Pos(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
\* where a run goes on: 0 when it has to begin with the model
Newest(o, has) == LET S == {i \in 1..o.max : has[i]} IN IF S = {} THEN 0 ELSE Max(S)
\* the last iteration of a run that begins with s; still: the iterations after which the weights have not moved
LastOf(o, still, s) == Min({i \in s..o.max : i \in still \/ i = o.max})
================================================================================
