------------------------------- MODULE P30_trace -------------------------------
EXTENDS Config, TraceBase
RECURSIVE Run(_, _, _, _, _)
\* k: the number of observations used up so far
Run(st, c, out, i, k) ==
  IF st.die = 1 THEN (IF out.die = 1 THEN {} ELSE {"accepted-error:" \o c.ops[i - 1][1]})
  ELSE IF i > Len(c.ops) THEN (IF out.die = 1 THEN {"rejected-correct"} ELSE IF out.main # st.main THEN {"main-arguments"} ELSE {})
  ELSE LET o == c.ops[i]
           s2 == Step(st, o, c)
       IN IF o[1] \in Getters /\ s2.die = 0 /\ out.die = 0
          THEN (IF k + 1 > Len(out.obs) THEN {"missing"}
                ELSE IF out.obs[k + 1] = Observed(s2, o, c) THEN Run(s2, c, out, i + 1, k + 1) ELSE {"get:" \o o[1]})
          ELSE Run(s2, c, out, i + 1, k)
Diag(r) == Run([tab |-> r.in.opts, main |-> <<>>, die |-> 0], r.in, r.out, 1, 0)

\* the decoder itself: command line, then the file it names, then the command line again
CliStep(c) == LET s1 == CommandLine([tab |-> c.opts, main |-> <<>>, die |-> 0], c.args, 0, 255)
                  s2 == IF s1.die = 1 THEN s1 ELSE File(s1, c.file, 1)
              IN IF s2.die = 1 THEN s2 ELSE CommandLine([s2 EXCEPT !.main = <<>>], c.args, 0, 255)
DiagCli(r) ==
  LET st == CliStep(r.in)
  IN IF st.die = 1 THEN (IF r.out.shown = 0 /\ r.out.rc # 0 THEN {} ELSE {"accepted-error"})
     ELSE IF r.out.shown = 0 THEN {"rejected-correct"}
     ELSE {"option:" \o n : n \in {n \in Names(r.in.opts) : n \in Names(r.out.tab) /\ Get(r.out.tab, n) # Get(st.tab, n)}}
          \cup {"missing:" \o n : n \in Names(r.in.opts) \ Names(r.out.tab)}
================================================================================
