-------------------------------- MODULE Blob --------------------------------
(* Byte strings an attacker can assemble from the outputs she saw: a blob is   *)
(* a normalised sequence of pieces [s, f, t], the bytes f..t-1 of the source   *)
(* s.  Altered and invented bytes come from sources of their own, so that two  *)
(* blobs are the same bytes exactly when their pieces are equal.               *)
(*                                                                             *)
(* A recipe is                                                                 *)
(*   <<"ref", s>>            the source s                                      *)
(*   <<"cat", <<r, ..>>>>    one after the other                               *)
(*   <<"cut", r, p, q>>      bytes p..q-1; a position is <<base, offset>> with *)
(*                           base "s" start, "n" end, "e" end of the first     *)
(*                           section of r (a ref)                              *)
(*   <<"xor", r, p>>         the byte at p altered                             *)
(*   <<"junk", n, t>>        n bytes out of nowhere, named t                   *)
EXTENDS Integers, Sequences

Piece(s, f, t) == [s |-> s, f |-> f, t |-> t]

(* append a piece, merged with the last when it continues it *)
Glue(P, x) ==
  IF x.f >= x.t THEN P
  ELSE IF P = <<>> THEN <<x>>
  ELSE LET y == P[Len(P)] IN
       IF y.s = x.s /\ y.t = x.f THEN [P EXCEPT ![Len(P)].t = x.t] ELSE Append(P, x)

RECURSIVE Join(_, _)
Join(P, Q) == IF Q = <<>> THEN P ELSE Join(Glue(P, Head(Q)), Tail(Q))

RECURSIVE Size(_)
Size(P) == IF P = <<>> THEN 0 ELSE Head(P).t - Head(P).f + Size(Tail(P))

(* bytes a..b-1 of P *)
RECURSIVE Cut(_, _, _)
Cut(P, a, b) ==
  IF P = <<>> \/ b <= a THEN <<>>
  ELSE LET x == Head(P)
           n == x.t - x.f
           here == Piece(x.s, x.f + (IF a < n THEN a ELSE n), x.f + (IF b < n THEN b ELSE n))
           less(v) == IF v > n THEN v - n ELSE 0
       IN Join(IF here.f < here.t THEN <<here>> ELSE <<>>, Cut(Tail(P), less(a), less(b)))

Clamp(i, n) == IF i < 0 THEN 0 ELSE IF i > n THEN n ELSE i

(* sources: size and end of the first section, by name *)
RECURSIVE Eval(_, _)
RECURSIVE EvalAll(_, _)
EvalAll(rs, src) == IF rs = <<>> THEN <<>> ELSE Join(Eval(Head(rs), src), EvalAll(Tail(rs), src))

At(p, P, r, src) ==
  LET n == Size(P)
  IN Clamp(CASE p[1] = "s" -> p[2] [] p[1] = "n" -> n + p[2] [] p[1] = "e" -> src[r[2]].e + p[2], n)

Eval(r, src) ==
  CASE r[1] = "ref"  -> IF src[r[2]].n = 0 THEN <<>> ELSE <<Piece(r[2], 0, src[r[2]].n)>>
    [] r[1] = "cat"  -> EvalAll(r[2], src)
    [] r[1] = "cut"  -> LET P == Eval(r[2], src) IN Cut(P, At(r[3], P, r[2], src), At(r[4], P, r[2], src))
    [] r[1] = "xor"  -> LET P == Eval(r[2], src)
                            i == At(r[3], P, r[2], src)
                        IN IF i >= Size(P) THEN P
                           ELSE Join(Glue(Cut(P, 0, i), [Cut(P, i, i + 1)[1] EXCEPT !.s = "~" \o @]),
                                     Cut(P, i + 1, Size(P)))
    [] r[1] = "junk" -> IF r[2] = 0 THEN <<>> ELSE <<Piece("!" \o r[3], 0, r[2])>>
=============================================================================
