----------------------------- MODULE SpanTrace -----------------------------
(* Span programs and solver answers recorded from the code.                  *)
EXTENDS Span, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Block == IF N <= 64 THEN 1 ELSE N \div 64

VARIABLE i
Init == i \in {j \in 1..N : j % Block = 1 \/ Block = 1}
Next == i < N /\ Block > 1 /\ i % Block # 0 /\ i' = i + 1
Spec == Init /\ [][Next]_i

P == 32749     \* entries of a span program are small: agrees with the real field
RECURSIVE AsFormula(_)
AsFormula(n) == IF n[1] = "v" THEN <<"v", n[2]>> ELSE <<n[1], AsFormula(n[2]), AsFormula(n[3])>>

GoodProgram(e) ==
  LET t == AsFormula(e.node)
  IN IF OnceOnly(t)
     THEN /\ e.res = "ok"
          /\ e.rows = Len(e.attrs)
          /\ IsSpanProgram(t, e.matrix, e.attrs, e.cols, P)
          /\ \A k \in DOMAIN e.attrs : e.back[k] = k - 1
     ELSE e.res = "err"

GoodSolution(e) ==
  CASE e.m = <<>> \/ e.m[1] = <<>> -> e.res \in {"err", "none"}
    [] e.res = "some" -> /\ Len(e.a) = Len(e.m)
                         /\ Combine(e.a, e.m, e.q) = Ones(Len(e.m[1]))
    [] e.res = "none" -> ~InSpan(e.m, Ones(Len(e.m[1])), e.q)
    [] OTHER -> FALSE

(* a large formula: its program against the given sets of attributes *)
GoodLarge(e) ==
  LET t == AsFormula(e.node)
      ls == LeafSet(t)
  IN /\ OnceOnly(t) /\ e.res = "ok"
     /\ e.rows = Len(e.attrs) /\ Len(e.matrix) = e.rows /\ e.rows = Cardinality(ls)
     /\ {e.attrs[k] : k \in DOMAIN e.attrs} = ls
     /\ \A k \in DOMAIN e.matrix : Len(e.matrix[k]) = e.cols
     /\ \A k \in DOMAIN e.attrs : e.back[k] = k - 1
     /\ \A k \in DOMAIN e.sets :
          LET S == Range(e.sets[k]) IN Reaches(e.matrix, e.attrs, e.cols, S, P) = Holds(t, S)

(* over the real scalar field the residual is observed, solvability is the specification's *)
(* small entries: solvable there if it is modulo both of two primes, up to a chance nobody meets *)
Solvable(e) == InSpan(e.m, Ones(Len(e.m[1])), P) \/ InSpan(e.m, Ones(Len(e.m[1])), 32719)
GoodReal(e) ==
  CASE e.res = "some" -> /\ e.n = Len(e.m)
                         /\ \A k \in DOMAIN e.zero : e.zero[k]
                         /\ Solvable(e)
    [] e.res = "none" -> ~Solvable(e)
    [] OTHER -> FALSE

Good(e) == CASE e.op = "msp" /\ e.sets = <<>> -> GoodProgram(e)
             [] e.op = "msp"    -> GoodLarge(e)
             [] e.op = "span_s" -> GoodSolution(e)
             [] e.op = "span_b" -> GoodReal(e)

Checked == Good(Trace[i]) \/ PrintT("@@REJECT " \o ToJson([line |-> i, spec |-> Trace[i].op]))
=============================================================================
