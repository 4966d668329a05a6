------------------------------- MODULE MCSpan -------------------------------
(* The construction is a span program for every formula of up to N leaves,   *)
(* and solving over a small field agrees with solving over a large one.      *)
EXTENDS Span, TLC
CONSTANT N
VARIABLE t

RECURSIVE Trees(_, _)
Trees(lo, n) ==
  IF n = 1 THEN {<<"v", lo>>}
  ELSE UNION {{<<o, a, b>> : o \in {"and", "or"}, a \in Trees(lo, k), b \in Trees(lo + k, n - k)} : k \in 1..(n - 1)}

Init == t = <<"v", 1>>
(* grow: replace the whole formula by one with more leaves *)
Next == \E n \in 2..N : \E u \in Trees(1, n) : t[1] = "v" /\ t' = u
Spec == Init /\ [][Next]_t

Exact == LET p == Program(t) IN IsSpanProgram(t, p.matrix, p.attrs, p.cols, 32749)
AnyField == LET p == Program(t) IN \A q \in {2, 3, 7} : IsSpanProgram(t, p.matrix, p.attrs, p.cols, q)
=============================================================================
