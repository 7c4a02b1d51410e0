--------------------------------- MODULE NGram ---------------------------------
(* Back-off n-gram language models.  lm = [n |-> order, g |-> sequence of [w, p,  *)
(* b]]: an n-gram, its log10 probability and back-off weight in quarters.  Words  *)
(* outside the vocabulary are the unknown word.                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NTab(lm) == [k \in {lm.g[i].w : i \in 1..Len(lm.g)} |-> LET i == CHOOSE j \in 1..Len(lm.g) : lm.g[j].w = k IN <<lm.g[i].p, lm.g[i].b>>]
Unk == "'<unk>"
\* a model with its table
Tabled(lm) == LET t == TLCEval(NTab(lm)) IN [n |-> lm.n, tab |-> t, dom |-> TLCEval(DOMAIN t)]
Known(T, w) == <<w>> \in T.dom /\ w # Unk
Vocab(T, w) == IF Known(T, w) THEN w ELSE Unk
\* log probability of the last word of gram after the others
RECURSIVE NProb(_, _)
NProb(T, gram) ==
  IF gram \in T.dom THEN T.tab[gram][1]
  ELSE IF Len(gram) = 1 THEN -400          \* a model without an unknown word: log probability -100
  ELSE LET ctx == TLCEval(SubSeq(gram, 1, Len(gram) - 1))
           less == TLCEval(Tail(gram))
       IN (IF ctx \in T.dom THEN T.tab[ctx][2] ELSE 0) + NProb(T, less)
\* log probability of a sentence with its boundaries (T: a tabled model)
SentProb(T, words) ==
  LET s == TLCEval(<<"'<s>">> \o [i \in 1..Len(words) |-> Vocab(T, words[i])] \o <<"'</s>">>)
      p(i) == LET q == TLCEval(SubSeq(s, IF i > T.n THEN i - T.n + 1 ELSE 1, i)) IN NProb(T, q)
  IN FoldLeft(LAMBDA a, i : a + p(i), 0, [i \in 1..(Len(s) - 1) |-> i + 1])
NUnk(T, words) == Cardinality({i \in 1..Len(words) : ~ Known(T, words[i])})
================================================================================
