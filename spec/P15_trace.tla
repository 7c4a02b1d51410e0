------------------------------- MODULE P15_trace -------------------------------
EXTENDS Hiero, TraceBase

Cat(q) == FoldLeft(LAMBDA a, b : a \o b, "", q)
Join(q) == IF q = <<>> THEN "" ELSE q[1] \o Cat([i \in 1..(Len(q) - 1) |-> " " \o q[i + 1]])
Text(side, words) == Join([k \in 1..Len(side) |-> IF side[k][1] = 0 THEN "\"" \o words[side[k][2] + 1] \o "\"" ELSE "x" \o ToString(side[k][1] - 1) \o ":X"]) \o " @ X"
Count(q, y) == Cardinality({i \in 1..Len(q) : q[i] = y})

Diag(r) ==
  LET x == r.in
      o == r.out
      m == Len(x.trg)
      al == {<<x.align[k][1], x.align[k][2]>> : k \in 1..Len(x.align)}
      \* the source up to its last aligned word: what follows is in no phrase
      n == IF al = {} THEN 0 ELSE Max({a[1] : a \in al}) + 1
      P == TLCEval(Phrases(n, m, al, x.maxphrase))
      T == TLCEval(Tight(al, P))
      got == {<<o.phrases[k][1], o.phrases[k][2], o.phrases[k][3], o.phrases[k][4]>> : k \in 1..Len(o.phrases)}
      rule(p, qs) == <<Text(SrcSide(p, qs), x.src) \o " ||| " \o Text(TrgSide(p, qs), x.trg), Links(al, p, qs)>>
      usable(p) == SetToSeq({qs \in Subs(T, p) : Usable(p, qs, x.maxterm)})
      \* for every phrase the rules it gives
      want == TLCEval([k \in 1..Cardinality(T) |-> LET us == TLCEval(usable(SetToSeq(T)[k])) IN [i \in 1..Len(us) |-> rule(SetToSeq(T)[k], us[i])]])
      groups == TLCEval(SelectSeq(want, LAMBDA g : g # <<>>))
      seen == TLCEval([k \in 1..Len(o.groups) |-> [i \in 1..Len(o.groups[k]) |-> <<o.groups[k][i][1], {<<o.groups[k][i][2][j][1], o.groups[k][i][2][j][2]>> : j \in 1..Len(o.groups[k][i][2])}>>]])
      \* two groups are the same when they have the same rules equally often
      Bag(g) == {<<y, Count(g, y)>> : y \in ToSet(g)}
      wb == TLCEval([k \in 1..Len(groups) |-> Bag(groups[k])])
      sb == TLCEval([k \in 1..Len(seen) |-> Bag(seen[k])])
      all(gs) == UNION {ToSet(gs[k]) : k \in 1..Len(gs)}
  IN (IF got \subseteq P THEN {} ELSE {"inconsistent-phrase"})
     \cup (IF P \subseteq got THEN {} ELSE {"missing-phrase"})
     \cup (IF Cardinality(got) = Len(o.phrases) THEN {} ELSE {"repeated-phrase"})
     \cup (IF all(seen) \subseteq all(groups) THEN {} ELSE {"unlicensed-rule"})
     \cup (IF all(groups) \subseteq all(seen) THEN {} ELSE {"missing-rule"})
     \cup (IF Len(wb) = Len(sb) /\ \A k \in 1..Len(wb) : Count(wb, wb[k]) = Count(sb, wb[k]) THEN {} ELSE {"counts"})
     \cup (IF \A k \in 1..Len(seen) : \A i \in 1..Len(seen[k]) : Cardinality(seen[k][i][2]) = Len(o.groups[k][i][2]) THEN {} ELSE {"links"})
================================================================================
