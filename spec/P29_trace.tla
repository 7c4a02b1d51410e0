------------------------------- MODULE P29_trace -------------------------------
EXTENDS Formula, TraceBase
Diag(r) ==
  LET t == r.in.toks
      v == Value(t)
  IN IF MustReject(t) THEN (IF r.out.ok = 0 THEN {} ELSE {"malformed-accepted"})
     ELSE IF v = Ill THEN {}                                   \* nothing said
     ELSE IF r.out.ok = 0 THEN {"well-formed-rejected"}
     ELSE IF v = Undef THEN {}                                 \* division by zero, or out of range
     ELSE IF Abs(r.out.v * v[2] - v[1] * 1000) <= v[2] THEN {} ELSE {"value"}
================================================================================
