-------------------------------- MODULE Config --------------------------------
(* Options: a table from option name to its present text.  It starts with the    *)
(* defaults; reading a configuration file or a command line changes it; a getter *)
(* reads it at a type.  Any error ends the run ("die").                          *)
(* st = [tab: seq of <<name, text>>, main: seq of texts, die: 0/1]               *)
EXTENDS Integers, Sequences, FiniteSets

Names(tab) == {tab[i][1] : i \in 1..Len(tab)}
Get(tab, n) == tab[CHOOSE i \in 1..Len(tab) : tab[i][1] = n][2]
Put(tab, n, v) == [i \in 1..Len(tab) |-> IF tab[i][1] = n THEN <<n, v>> ELSE tab[i]]
Die(st) == [st EXCEPT !.die = 1]
SetOpt(st, n, v) == IF n \in Names(st.tab) THEN [st EXCEPT !.tab = Put(st.tab, n, v)] ELSE Die(st)

\* command line arguments: [d |-> 1, s |-> name] for "-name", [d |-> 0, s |-> text] for anything else
RECURSIVE Args(_, _, _)
Args(st, a, i) ==
  IF st.die = 1 \/ i > Len(a) THEN st
  ELSE IF a[i].d = 0 THEN Args([st EXCEPT !.main = Append(st.main, a[i].s)], a, i + 1)
  ELSE IF i = Len(a) \/ a[i + 1].d = 1 THEN Args(SetOpt(st, a[i].s, "true"), a, i + 1)
  ELSE Args(SetOpt(st, a[i].s, a[i + 1].s), a, i + 2)
CommandLine(st, a, min, max) ==
  LET s2 == Args(st, a, 1)
  IN IF Len(s2.main) < min \/ Len(s2.main) > max THEN Die(s2) ELSE s2

\* a configuration file: items <<name, lines>>; no lines is an error, as is a line out of place ("bad")
RECURSIVE Join(_, _)
Join(ls, i) == IF i > Len(ls) THEN "" ELSE (IF i > 1 THEN " " ELSE "") \o ls[i] \o Join(ls, i + 1)
RECURSIVE File(_, _, _)
File(st, f, i) ==
  IF st.die = 1 \/ i > Len(f) THEN st
  ELSE IF f[i].kind = "bad" \/ Len(f[i].lines) = 0 THEN Die(st)
  ELSE File(SetOpt(st, f[i].name, Join(f[i].lines, 1)), f, i + 1)

\* what texts mean at each type; anything not listed in the vocabulary of a type is ill-typed.
\* voc: seq of [s, int (or 1 0 in ok), ...]
Entry(voc, s) == CHOOSE i \in 1..Len(voc) : voc[i].s = s
InVoc(voc, s) == \E i \in 1..Len(voc) : voc[i].s = s

Step(st, o, c) ==
  IF st.die = 1 THEN st
  ELSE CASE o[1] = "args" -> CommandLine(st, o[2], c.min, c.max)
    [] o[1] = "file" -> File(st, o[2], 1)
    [] o[1] \in {"setint", "setbool", "setreal"} -> SetOpt(st, o[2], o[4])
    [] o[1] = "setstr" -> SetOpt(st, o[2], o[3])
    [] OTHER -> IF o[2] \notin Names(st.tab) THEN Die(st)
                ELSE IF o[1] \in {"str", "strs"} THEN st
                ELSE LET s == Get(st.tab, o[2])
                         e == c.voc[Entry(c.voc, s)]
                     IN IF ~InVoc(c.voc, s) THEN Die(st)
                        ELSE IF (o[1] = "int" /\ e.isint = 1) \/ (o[1] = "real" /\ e.isreal = 1) \/ (o[1] = "bool" /\ e.isbool = 1) THEN st
                        ELSE Die(st)
Getters == {"int", "real", "bool", "str", "strs"}
Observed(st, o, c) ==
  LET s == Get(st.tab, o[2])
      e == c.voc[Entry(c.voc, s)]
  IN CASE o[1] = "int" -> e.i [] o[1] = "real" -> e.r [] o[1] = "bool" -> e.b
       [] o[1] = "str" -> s [] o[1] = "strs" -> e.parts
==============================================================================
