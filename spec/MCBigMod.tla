------------------------------ MODULE MCBigMod ------------------------------
(* The arithmetic against plain integers, for every pair of residues.          *)
EXTENDS BigMod, TLC

CONSTANTS M
VARIABLES a, b
Digits(n) == [i \in 1..Limbs |-> (n \div Base^(i - 1)) % Base]
ModDef == Digits(M)

Init == a \in 0..(M - 1) /\ b \in 0..(M - 1)
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

A == Digits(a)
B == Digits(b)
Right == /\ Num(a) = A
         /\ Plus(A, B) = Digits((a + b) % M)
         /\ Sub(A, B) = Digits((a - b) % M)
         /\ Neg(A) = Digits((0 - a) % M)
         /\ Mul(A, B) = Digits((a * b) % M)
         /\ Less(A, B) = (a < b)
=============================================================================
