------------------------------- MODULE BigMod -------------------------------
(* Arithmetic modulo a number too large for TLC's integers: numbers are        *)
(* sequences of Limbs digits in base Base, the lowest first.                   *)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS Base, Limbs, Mod      \* Mod: the modulus, as Limbs digits

Fits == Base * Base * (Limbs + 1) <= 2147483647

Lo(v) == SubSeq(v, 1, Limbs)
Hi(v) == SubSeq(v, Limbs + 1, Len(v))

(* carries, leaving at least Limbs digits and no zeros above *)
RECURSIVE Spill(_, _)
Spill(v, c) == IF c = 0 THEN v ELSE Spill(Append(v, c % Base), c \div Base)
Strip(v) == LET top == {i \in (Limbs + 1)..Len(v) : v[i] # 0}
            IN IF top = {} THEN Lo(v) ELSE SubSeq(v, 1, CHOOSE i \in top : \A j \in top : j <= i)
Norm(v) ==
  LET r == FoldLeft(LAMBDA a, x : TLCEval(<<Append(a[1], (x + a[2]) % Base), (x + a[2]) \div Base>>), <<<<>>, 0>>, v)
  IN TLCEval(Strip(Spill(r[1], r[2])))

(* comparisons of normal numbers of Limbs digits *)
RECURSIVE Below(_, _, _)
Below(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Below(a, b, i - 1)
Less(a, b) == Below(a, b, Limbs)

(* a - b for a >= b *)
Minus(a, b) == FoldLeft(LAMBDA s, i : LET d == a[i] - b[i] - s[2]
                                      IN TLCEval(<<Append(s[1], IF d < 0 THEN d + Base ELSE d), IF d < 0 THEN 1 ELSE 0>>),
                        <<<<>>, 0>>, [i \in 1..Limbs |-> i])[1]

(* 2^j * Mod as long as it has no more digits than Mod was given *)
RECURSIVE Doubles(_)
Doubles(v) == LET d == TLCEval(Norm([i \in 1..Limbs |-> 2 * v[i]]))
              IN IF Len(d) > Limbs THEN <<v>> ELSE Append(Doubles(d), v)
Multiples == TLCEval(Doubles(Mod))       \* the largest first

Small(v) == FoldLeft(LAMBDA a, m : TLCEval(IF Less(a, m) THEN a ELSE Minus(a, m)), v, Multiples)

Num(n) == Small(Norm(<<n>> \o [i \in 1..(Limbs - 1) |-> 0]))        \* n below Base^Limbs
Zero == Num(0)
One == Num(1)

Twice(v) == LET d == TLCEval(Norm([i \in 1..Limbs |-> 2 * v[i]]))
            IN IF Len(d) = Limbs THEN Small(d)
               ELSE \* below 2 * Mod, and one digit too long
                    FoldLeft(LAMBDA s, i : LET x == d[i] - Mod[i] - s[2]
                                           IN TLCEval(<<Append(s[1], IF x < 0 THEN x + Base ELSE x), IF x < 0 THEN 1 ELSE 0>>),
                             <<<<>>, 0>>, [i \in 1..Limbs |-> i])[1]

(* Base^(Limbs + k - 1) modulo Mod, k in 1..Limbs *)
Bits == CHOOSE n \in 0..30 : 2^n = Base                              \* Base is a power of two
Count(n) == [i \in 1..n |-> i]
Shift(v) == FoldLeft(LAMBDA a, i : Twice(a), v, Count(Bits))        \* v * Base
Powers == TLCEval(LET first == FoldLeft(LAMBDA a, i : Shift(a), One, Count(Limbs))
                  IN FoldLeft(LAMBDA t, i : TLCEval(Append(t, Shift(t[i - 1]))), <<first>>, [i \in 1..(Limbs - 1) |-> i + 1]))

RECURSIVE Dot(_, _, _, _, _)
Dot(a, b, i, n, k) == IF i > n THEN 0 ELSE a[i] * b[k - i] + Dot(a, b, i + 1, n, k)
Conv(a, b) == TLCEval([k \in 1..(2 * Limbs - 1) |->
                 Dot(a, b, IF k > Limbs THEN k - Limbs + 1 ELSE 1, IF k > Limbs THEN Limbs ELSE k, k + 1)])

(* brings a normal number of any length down to a residue *)
RECURSIVE Column(_, _, _, _)
Column(v, j, i, s) == IF i + Limbs > Len(v) THEN s ELSE Column(v, j, i + 1, s + v[i + Limbs] * Powers[i][j])
RECURSIVE Reduce(_)
Reduce(v) == IF Len(v) = Limbs THEN Small(v)
             ELSE Reduce(Norm(TLCEval([j \in 1..Limbs |-> Column(v, j, 1, v[j])])))

Plus(a, b) == TLCEval(Reduce(Norm([i \in 1..Limbs |-> a[i] + b[i]])))
Neg(a) == IF a = Zero THEN Zero ELSE TLCEval(Minus(Mod, a))
Sub(a, b) == Plus(a, Neg(b))
Mul(a, b) == IF a = Zero \/ b = Zero THEN Zero ELSE IF a = One THEN b ELSE IF b = One THEN a ELSE TLCEval(Reduce(Norm(Conv(a, b))))
=============================================================================
