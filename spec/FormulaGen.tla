------------------------------- MODULE FormulaGen ------------------------------
(* Every token sequence up to a length: operands are numbered by position, so     *)
(* that every reading has its own value.  Checked on the way: the two ways of     *)
(* being rejected and accepted exclude each other, and parentheses around a whole *)
(* formula change nothing.                                                        *)
EXTENDS Formula, TLC, Json
CONSTANT MaxLen
VARIABLE t
Kinds == {"n", "+", "-", "*", "/", "(", ")"}
Primes == <<7, 2, 5, 3, 11, 2, 3, 4, 5>>
Init == t = <<>>
Next == /\ Len(t) < MaxLen
        /\ \E k \in Kinds : t' = Append(t, IF k = "n" THEN <<"n", Primes[Len(t) + 1], 1>> ELSE <<k>>)
        /\ PrintT("GEN " \o ToJson(t'))
Exclusive == ~(WellFormedFormula(t) /\ MustReject(t))
Parens == WellFormedFormula(t) => Value(<<<<"(">>>> \o t \o <<<<")">>>>) = Value(t)
Distrib == (WellFormedFormula(t) /\ Value(t) # Undef) => Value(<<<<"n", 2, 1>>, <<"*">>, <<"(">>>> \o t \o <<<<")">>>>) = Apply("*", <<2, 1>>, Value(t))
================================================================================
