------------------------------- MODULE P34_hiero ------------------------------
(* What hiero-extractor prints for a file of sentences.                           *)
EXTENDS Hiero, TraceBase

Cat(q) == FoldLeft(LAMBDA a, b : a \o b, "", q)
Join(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat([i \in 1..(Len(q) - 1) |-> " " \o q[i + 1]])
Text(side, words) == Join([k \in 1..Len(side) |-> IF side[k][1] = 0 THEN "\"" \o words[side[k][2] + 1] \o "\"" ELSE "x" \o ToString(side[k][1] - 1) \o ":X"]) \o " @ X"
Count(q, y) == Cardinality({i \in 1..Len(q) : q[i] = y})

\* the lines of a sentence pair: every phrase divides a count of one among its rules
Lines(y, maxphrase, maxterm) ==
  LET m == Len(y.t)
      al == {<<y.align[k][1], y.align[k][2]>> : k \in 1..Len(y.align)}
      n == IF al = {} THEN 0 ELSE Max({a[1] : a \in al}) + 1
      T == TLCEval(Tight(al, Phrases(n, m, al, maxphrase)))
      of(p) == LET us == TLCEval(SetToSeq({qs \in Subs(T, p) : Usable(p, qs, maxterm)}))
               IN [i \in 1..Len(us) |-> <<Text(SrcSide(p, us[i]), y.s) \o " ||| " \o Text(TrgSide(p, us[i]), y.t), Links(al, p, us[i]), 100000 \div Len(us)>>]
  IN FlattenSeq([k \in 1..Cardinality(T) |-> of(SetToSeq(T)[k])])

DiagFile(r) ==
  LET x == r.in
      o == r.out
      n == Len(x.sents)
      mp == IF x.default THEN 10 ELSE x.o.maxphrase
      mt == IF x.default THEN 5 ELSE x.o.maxterm
      want == TLCEval([k \in 1..n |-> TLCEval(Lines(x.sents[k], mp, mt))])
      off == TLCEval([k \in 1..n |-> FoldLeft(LAMBDA a, j : a + Len(want[j]), 0, [j \in 1..(k - 1) |-> j])])
      seen(k) == TLCEval([i \in 1..Len(want[k]) |-> LET z == o.lines[off[k] + i] IN <<z.text, {<<z.links[j][1], z.links[j][2]>> : j \in 1..Len(z.links)}, z.p>>])
      \* printed to six digits
      like(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ a[3] - b[3] \in -1..1
      same(a, b) == \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : like(a[j], a[i])}) = Cardinality({j \in 1..Len(b) : like(b[j], a[i])})
  IN IF x.bad THEN (IF o.rc # 0 THEN {} ELSE {"sizes-not-reported"})
     ELSE IF o.rc # 0 THEN {"failed"}
     ELSE IF Len(o.lines) # off[n] + Len(want[n]) THEN {"number-of-rules"}
     ELSE IF \A k \in 1..n : same(want[k], seen(k)) THEN {} ELSE {"rules"}
================================================================================
