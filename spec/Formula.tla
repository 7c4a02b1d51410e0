------------------------------- MODULE Formula -------------------------------
(* Formulas as token sequences, and their value by the usual reading: a formula  *)
(* splits at its last + or - outside parentheses, failing that at its last * or  *)
(* /, failing that it is an operand or a formula in parentheses.  Values are     *)
(* rationals <<n, d>> (d > 0), or <<0, 0>> once a division by zero occurs.       *)
(* Tokens: <<"n", num, den>> operands, <<"+">>, <<"-">>, <<"*">>, <<"/">>,       *)
(* <<"(">>, <<")">>, <<"u">> an undefined variable, <<"bad">> an illegal sign.   *)
EXTENDS Integers, Sequences, FiniteSets

Ill == <<1, 0>>          \* not a formula
Undef == <<0, 0>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == IF d = 0 THEN Undef
              ELSE LET s == IF d < 0 THEN -1 ELSE 1
                       g == Gcd(Abs(n), Abs(d))
                   IN <<(s * n) \div g, (s * d) \div g>>
Big(x) == Abs(x) > 20000
Small(p) == IF Big(p[1]) \/ Big(p[2]) THEN Undef ELSE p
\* values out of the range handled here are treated as undefined (nothing is said about them)
Apply(op, a, b) ==
  IF a = Ill \/ b = Ill THEN Ill
  ELSE IF a = Undef \/ b = Undef THEN Undef
  ELSE Small(CASE op = "+" -> Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
    [] op = "-" -> Norm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
    [] op = "*" -> Norm(a[1] * b[1], a[2] * b[2])
    [] op = "/" -> IF b[1] = 0 THEN Undef ELSE Norm(a[1] * b[2], a[2] * b[1]))

Depth(t, i, j) == Cardinality({k \in i..j : t[k][1] = "("}) - Cardinality({k \in i..j : t[k][1] = ")"})
Outside(t, i, j, ops) == {k \in (i + 1)..(j - 1) : t[k][1] \in ops /\ Depth(t, i, k) = 0}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Balanced(t, i, j) == Depth(t, i, j) = 0 /\ \A k \in i..j : Depth(t, i, k) >= 0

RECURSIVE Val(_, _, _)
Val(t, i, j) ==
  IF j < i \/ ~Balanced(t, i, j) THEN Ill
  ELSE IF i = j THEN (IF t[i][1] = "n" THEN Norm(t[i][2], t[i][3]) ELSE Ill)
  ELSE LET add == Outside(t, i, j, {"+", "-"})
           mul == Outside(t, i, j, {"*", "/"})
       IN IF add # {} THEN LET k == MaxOf(add) IN Apply(t[k][1], Val(t, i, k - 1), Val(t, k + 1, j))
          ELSE IF mul # {} THEN LET k == MaxOf(mul) IN Apply(t[k][1], Val(t, i, k - 1), Val(t, k + 1, j))
          ELSE IF t[i][1] = "(" /\ t[j][1] = ")" /\ \A k \in i..(j - 1) : Depth(t, i, k) > 0 THEN Val(t, i + 1, j - 1)
          ELSE Ill

Value(t) == Val(t, 1, Len(t))
WellFormedFormula(t) == Len(t) > 0 /\ Value(t) # Ill

Count(t, K) == Cardinality({k \in 1..Len(t) : t[k][1] \in K})
\* malformed beyond doubt: unbalanced, too few or too many operands, undefined variables, illegal signs
MustReject(t) ==
  \/ Count(t, {"u", "bad"}) > 0
  \/ ~Balanced(t, 1, Len(t))
  \/ Count(t, {"n", "+", "-", "*", "/"}) > 0 /\ Count(t, {"n"}) # Count(t, {"+", "-", "*", "/"}) + 1
==============================================================================
