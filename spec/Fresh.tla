------------------------------- MODULE Fresh --------------------------------
(* What an operation's outputs give away about the numbers it drew, and what   *)
(* those must be: never seen before, nor a small multiple or neighbour of one  *)
(* seen before, nor trivial, nor the sum or difference of two drawn together.  *)
(*                                                                             *)
(* Numbers are exponents modulo Mod, in the transparent group.                 *)
EXTENDS BigMod, FiniteSets

VARIABLES near,     \* what was drawn, its double, their opposites, and the neighbours of those
          bytes,    \* kind -> byte strings drawn
          secrets   \* master key -> [t: attribute value -> number, y]

Least == << Neg(Num(2)), Neg(One), Zero, One, Num(2) >>
Around(a) == LET d == Twice(a)
             IN TLCEval({Plus(x, s) : x \in {a, d, Neg(a), Neg(d)}, s \in {Least[i] : i \in 1..5}})
Trivial == {Least[i] : i \in 1..5}

FreshInit == near = Trivial /\ bytes = << >> /\ secrets = << >>

(* numbers drawn by one operation, one after the other *)
RECURSIVE Draw(_, _, _)
Draw(seen, l, i) == IF i > Len(l) THEN [ok |-> TRUE, near |-> seen]
                    ELSE LET a == Around(l[i])
                         IN IF a \cap seen # {} THEN [ok |-> FALSE, near |-> seen] ELSE Draw(seen \cup a, l, i + 1)
Drawn(l) == TLCEval(Draw(near, l, 1))

Unrelated(l) ==    \* no sum or difference of two is a third
  \A i, j \in DOMAIN l : i < j =>
    LET s == {Plus(l[i], l[j]), Sub(l[i], l[j])}
        o == s \cup {Neg(x) : x \in s}
    IN \A k \in DOMAIN l : k \notin {i, j} => l[k] \notin o
FirstOf(l, n) == SubSeq(l, 1, IF n < Len(l) THEN n ELSE Len(l))

Times(c, a) == CASE c = 0 -> Zero [] c = 1 -> a [] c = -1 -> Neg(a) [] c > 1 -> Mul(Num(c), a) [] OTHER -> Neg(Mul(Num(0 - c), a))
Sum(l) == FoldLeft(LAMBDA s, x : Plus(s, x), Zero, l)
Row(r, u) == FoldLeft(LAMBDA s, i : Plus(s, Times(r[i], u[i])), Zero, [i \in DOMAIN r |-> i])

(* shares d (divided by the attributes' secrets) of total, cut with u along the rows of a matrix: u is given  *)
(* by whoever recorded the key, and has to fit                                                                *)
Cut(t, rows, matrix, d, u, total) ==
  /\ Sum(u) = total
  /\ \A i \in DOMAIN rows : Mul(d[i], t[rows[i] + 1]) = Row(matrix[i], u)

(* what u shows of the draws: its entries add up to a number known beforehand *)
Shares(u, total) == IF Len(u) = 1 THEN <<>> ELSE IF Len(u) = 2 /\ total = Zero THEN <<u[1]>> ELSE u

(* a ciphertext: s from its elements *)
Hides(t, y, attrs, e, ep, s, g) ==
  /\ \A i \in DOMAIN attrs : e[i] = Mul(s, t[attrs[i] + 1])
  /\ ep = Plus(g, Mul(y, s))
=============================================================================
