------------------------------ MODULE TreeFormats ------------------------------
(* The tree and forest formats, on the level of characters (byte values) for the  *)
(* bracketed ones.  A tree is a term [l, b, e, k]: label (sequence of bytes),      *)
(* first and last+1 word position, children; a word has leaf = TRUE.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

WS == {32, 9, 10, 13}
OPEN == 40
CLOSE == 41
QUOTE == 34
Leaf(w, p) == [l |-> w, b |-> p, e |-> p + 1, leaf |-> TRUE, k |-> <<>>]
Node(l, b, e, k) == [l |-> l, b |-> b, e |-> e, leaf |-> FALSE, k |-> k]

\* ---- a reader of several trees: stack of open nodes [l, b, k], word position, finished trees ----
Reader0 == [m |-> "struct", acc |-> <<>>, stack |-> <<>>, pos |-> 0, out |-> <<>>, words |-> <<>>, end |-> "null"]
Fail(s) == [s EXCEPT !.m = "err", !.end = "err"]
Emit(s, t) == [s EXCEPT !.m = "struct", !.acc = <<>>, !.stack = <<>>, !.pos = 0, !.words = <<>>,
                        !.out = Append(@, [t |-> t, words |-> s.words, empty |-> FALSE])]
EmitEmpty(s) == [s EXCEPT !.m = "struct", !.acc = <<>>, !.out = Append(@, [t |-> Leaf(<<>>, 0), words |-> <<>>, empty |-> TRUE])]
Close(s) ==
  IF s.stack = <<>> THEN Fail(s)
  ELSE LET top == s.stack[Len(s.stack)]
           rest == SubSeq(s.stack, 1, Len(s.stack) - 1)
           t == Node(top.l, top.b, s.pos, top.k)
       IN IF rest = <<>> THEN Emit([s EXCEPT !.stack = rest], t)
          ELSE [s EXCEPT !.m = "struct", !.stack = [rest EXCEPT ![Len(rest)].k = Append(@, t)]]
OpenNode(s, l) == [s EXCEPT !.acc = <<>>, !.stack = Append(@, [l |-> l, b |-> s.pos, k |-> <<>>])]
AddWord(s, w) == [s EXCEPT !.pos = @ + 1, !.acc = <<>>, !.words = Append(@, w), !.stack[Len(s.stack)].k = Append(@, Leaf(w, s.pos))]

\* ---- Penn treebank: "(" label children-or-word ")" --------------------------------------------
PStruct(s, c) == IF c \in WS THEN s ELSE IF c = CLOSE THEN Close(s) ELSE IF c = OPEN THEN [s EXCEPT !.m = "label", !.acc = <<>>] ELSE Fail(s)
PennStep(s, c) ==
  CASE s.m = "err" -> s
    [] s.m = "struct" -> PStruct(s, c)
    [] s.m = "label" -> IF s.acc = <<>> /\ s.stack = <<>> /\ c = CLOSE THEN EmitEmpty(s)
                        ELSE IF c \in WS THEN (IF s.acc = <<>> THEN Fail(s) ELSE [OpenNode(s, s.acc) EXCEPT !.m = "after"])
                        ELSE IF c \in {OPEN, CLOSE} THEN Fail(s)
                        ELSE [s EXCEPT !.acc = Append(@, c)]
    [] s.m = "after" -> IF c \in WS THEN s ELSE IF c = OPEN THEN PStruct(s, c) ELSE IF c = CLOSE THEN PStruct(AddWord(s, <<>>), c)
                        ELSE [s EXCEPT !.m = "word", !.acc = <<c>>]
    [] s.m = "word" -> IF c = CLOSE THEN PStruct([AddWord(s, s.acc) EXCEPT !.m = "struct"], c)
                       ELSE IF c \in WS \/ c = OPEN THEN Fail(s)
                       ELSE [s EXCEPT !.acc = Append(@, c)]
PennRead(cs) == FoldLeft(PennStep, Reader0, cs)

\* ---- rule format: label ( children ), words in double quotes, all separated by white space ------
IsQuoted(t) == Len(t) > 1 /\ t[1] = QUOTE /\ t[Len(t)] = QUOTE
RuleTok(s, t) ==
  IF s.m = "err" THEN s
  ELSE IF s.m = "paren" THEN (IF t = <<OPEN>> THEN [s EXCEPT !.m = "struct"] ELSE Fail(s))
  ELSE IF t = <<CLOSE>> THEN Close(s)
  ELSE IF IsQuoted(t) THEN (LET w == SubSeq(t, 2, Len(t) - 1)
                            IN IF s.stack = <<>> THEN Emit([s EXCEPT !.words = <<w>>], Leaf(w, 0)) ELSE AddWord(s, w))
  ELSE [OpenNode(s, t) EXCEPT !.m = "paren"]
RuleStep(s, c) == IF s.m = "err" THEN s
                  ELSE IF c \in WS THEN (IF s.acc = <<>> THEN s ELSE [RuleTok([s EXCEPT !.acc = <<>>], s.acc) EXCEPT !.acc = <<>>])
                  ELSE [s EXCEPT !.acc = Append(@, c)]
RuleRead(cs) == LET s == FoldLeft(RuleStep, Reader0, Append(cs, 32)) IN IF s.m = "paren" THEN Fail(s) ELSE s

\* ---- plain words: one sentence per line, a flat tree of Xs ---------------------------------------
X == <<88>>
WordTree(ws) == Node(X, 0, Len(ws), [i \in 1..Len(ws) |-> Node(X, i - 1, i, <<Leaf(ws[i], i - 1)>>)])
WordStep(s, c) == IF c = 10 THEN [s EXCEPT !.out = Append(@, LET ws == IF s.acc = <<>> THEN s.words ELSE Append(s.words, s.acc)
                                                             IN [t |-> WordTree(ws), words |-> ws, empty |-> FALSE]), !.words = <<>>, !.acc = <<>>]
                  ELSE IF c = 32 THEN [s EXCEPT !.words = IF s.acc = <<>> THEN @ ELSE Append(@, s.acc), !.acc = <<>>]
                  ELSE [s EXCEPT !.acc = Append(@, c)]
WordRead(cs) == FoldLeft(WordStep, Reader0, IF cs = <<>> \/ cs[Len(cs)] = 10 THEN cs ELSE Append(cs, 10))

Read(fmt, cs) == CASE fmt = "penn" -> PennRead(cs) [] fmt = "rule" -> RuleRead(cs) [] fmt = "word" -> WordRead(cs)

\* ---- graphs -------------------------------------------------------------------------------------
GEdgesOf(g, n) == {i \in 1..Len(g.edges) : g.edges[i].h = n}
RECURSIVE TermOf(_, _)
TermOf(g, n) ==
  LET nd == g.nodes[n + 1]
      es == GEdgesOf(g, n)
  IN IF es = {} THEN [l |-> nd.sym, b |-> nd.b, e |-> nd.e, leaf |-> TRUE, k |-> <<>>]
     ELSE LET x == g.edges[CHOOSE i \in es : TRUE]
          IN Node(nd.sym, nd.b, nd.e, [i \in 1..Len(x.t) |-> TermOf(g, x.t[i])])
SumSnd(S) == FoldSet(LAMBDA x, a : x[2] + a, 0, S)
\* every node has at most one edge and one parent, the root none
IsTree(g) == /\ \A n \in 0..(Len(g.nodes) - 1) : Cardinality(GEdgesOf(g, n)) <= 1
             /\ \A n \in 0..(Len(g.nodes) - 1) :
                  SumSnd({<<i, Cardinality({k \in 1..Len(g.edges[i].t) : g.edges[i].t[k] = n})>> : i \in 1..Len(g.edges)}) = IF n = 0 THEN 0 ELSE 1

================================================================================
