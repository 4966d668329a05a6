------------------------------ MODULE MCSpanBad ------------------------------
(* Broken constructions of span programs; TLC has to find a formula for which   *)
(* each is none (configurations MCSpanBad_<name>.cfg).                           *)
EXTENDS MCSpan

(* common part: Lewko-Waters with the vectors of And's two operands to choose *)
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE With(_, _, _, _)
With(todo, done, width, how) ==
  IF todo = <<>> THEN [rows |-> done, cols |-> width]
  ELSE LET u == todo[1][1] v == todo[1][2] rest == Tail(todo)
           zero == [i \in 1..width |-> 0]
       IN CASE u[1] = "v"  -> With(rest, Append(done, <<u[2], v>>), width, how)
            [] u[1] = "or" -> With(rest \o <<<<u[2], v>>, <<u[3], IF how = "or" THEN Pad(<<1>>, Len(v)) ELSE v>>>>, done, width, how)
            [] u[1] = "and" ->
                 With(rest \o <<<<u[2], Append(IF how = "short" THEN v ELSE Pad(v, width), 1)>>,
                               <<u[3], Append(zero, -1)>>>>,
                      done, IF how = "shared" THEN Max2(width, 2) ELSE width + 1, how)
Prog(u, how, base) ==
  LET b == With(<<<<u, <<1>>>>>>, <<>>, 1, how)
  IN [matrix |-> [i \in DOMAIN b.rows |-> IF base THEN Rebase(Pad(b.rows[i][2], b.cols)) ELSE Pad(b.rows[i][2], b.cols)],
      attrs  |-> [i \in DOMAIN b.rows |-> b.rows[i][1]],
      cols   |-> b.cols]
short(u) == Prog(u, "short", TRUE)        \* the new coordinate is put at the end of an unpadded vector
shared(u) == Prog(u, "shared", TRUE)      \* all Ands use the same new coordinate
orfirst(u) == Prog(u, "or", TRUE)         \* the second operand of Or gets the root's vector
unbased(u) == Prog(u, "", FALSE)          \* target (1,0,..,0) instead of (1,..,1)
=============================================================================
