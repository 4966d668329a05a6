------------------------------- MODULE Parse -------------------------------
(* Formula texts.  A text is a sequence of characters.                        *)
(*    E := T | T '&' E | T '|' E         T := digits | '(' E ')'              *)
(* Blanks are ignored everywhere; numbers are below 2^32; nothing else is a   *)
(* formula.  Values are kept as digit sequences without leading zeros.        *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
Val(c) == CHOOSE i \in 0..9 : Digits[i + 1] = c
Blank == " "

RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = "0" THEN Strip(Tail(d)) ELSE d

Largest == <<"4", "2", "9", "4", "9", "6", "7", "2", "9", "5">>
RECURSIVE LeqDigits(_, _)
LeqDigits(a, b) ==     \* same length
  a = <<>> \/ Val(a[1]) < Val(b[1]) \/ (a[1] = b[1] /\ LeqDigits(Tail(a), Tail(b)))
Fits(d) == Len(d) < 10 \/ (Len(d) = 10 /\ LeqDigits(d, Largest))

RECURSIVE EndOfNumber(_, _)
EndOfNumber(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN EndOfNumber(s, i + 1) ELSE i

(* result of reading from position i: ok, tree, next position *)
No == [ok |-> FALSE, t |-> <<>>, n |-> 0]
Yes(t, n) == [ok |-> TRUE, t |-> t, n |-> n]

RECURSIVE ReadE(_, _), ReadT(_, _)
ReadT(s, i) ==
  IF i > Len(s) THEN No
  ELSE IF IsDigit(s[i])
       THEN LET j == EndOfNumber(s, i) d == Strip(SubSeq(s, i, j - 1))
            IN IF Fits(d) THEN Yes(<<"v", d>>, j) ELSE No
       ELSE IF s[i] = "("
            THEN LET r == ReadE(s, i + 1)
                 IN IF r.ok /\ r.n <= Len(s) /\ s[r.n] = ")" THEN Yes(r.t, r.n + 1) ELSE No
            ELSE No
ReadE(s, i) ==
  LET l == ReadT(s, i)
  IN IF ~l.ok THEN No
     ELSE IF l.n <= Len(s) /\ s[l.n] \in {"&", "|"}
          THEN LET r == ReadE(s, l.n + 1)
               IN IF r.ok THEN Yes(<<IF s[l.n] = "&" THEN "and" ELSE "or", l.t, r.t>>, r.n) ELSE No
          ELSE l

ParseText(chars) ==
  LET s == SelectSeq(chars, LAMBDA c : c # Blank) r == ReadE(s, 1)
  IN IF r.ok /\ r.n = Len(s) + 1 THEN r ELSE No

----------------------------------------------------------------------------
RECURSIVE Concat(_)
Concat(d) == IF d = <<>> THEN "" ELSE d[1] \o Concat(Tail(d))
RECURSIVE Show(_)
Show(t) ==
  CASE t[1] = "v"   -> "LEAF(" \o Concat(t[2]) \o ")"
    [] t[1] = "and" -> "AND( " \o Show(t[2]) \o ", " \o Show(t[3]) \o " )"
    [] t[1] = "or"  -> "OR( " \o Show(t[2]) \o ", " \o Show(t[3]) \o " )"

RECURSIVE Numbers(_)
Numbers(t) == IF t[1] = "v" THEN <<t[2]>> ELSE Numbers(t[2]) \o Numbers(t[3])
SingleUse(t) == Cardinality({Numbers(t)[i] : i \in DOMAIN Numbers(t)}) = Len(Numbers(t))

(* a text that denotes t: operands that are formulas get parentheses, except on the right *)
RECURSIVE Text(_, _)
Text(t, left) ==
  IF t[1] = "v" THEN t[2]
  ELSE LET body == Text(t[2], TRUE) \o <<IF t[1] = "and" THEN "&" ELSE "|">> \o Text(t[3], FALSE)
       IN IF left THEN <<"(">> \o body \o <<")">> ELSE body
=============================================================================
