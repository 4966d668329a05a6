------------------------------ MODULE MCWireBad ------------------------------
(* Broken readers of the formats; TLC has to refute MCWire's invariants for    *)
(* each of them (configurations MCWireBad_<name>.cfg).                          *)
EXTENDS MCWire

(* n times the element size is computed in few bits *)
wrap(b, i, k, q) ==
  LET z == (q * ESize(k)) % 65536
  IN IF i = 0 \/ Skip(b, i, z) = 0 THEN 0
     ELSE IF k # "u32" /\ \E j \in 0..(z \div ESize(k) - 1) : ~Valid(k, b, i + j * ESize(k)) THEN 0
     ELSE i + z

(* missing elements are taken for zeros; a vector may lack its last byte *)
Invalid(b, i, k, q) == k # "u32" /\ \E j \in 0..(q - 1) : i + (j + 1) * ESize(k) <= Len(b) + 1 /\ ~Valid(k, b, i + j * ESize(k))
clipped(b, i, k, q) ==
  IF i = 0 \/ q > 99 \/ Invalid(b, i, k, q) THEN 0
  ELSE IF q * ESize(k) > Len(b) - i + 1 THEN Len(b) + 1 ELSE i + q * ESize(k)
offbyone(b, i, k, q) ==
  LET end == i + q * ESize(k)
  IN IF i = 0 \/ q > 99 \/ end > Len(b) + 2 \/ Invalid(b, i, k, q) THEN 0
     ELSE IF end > Len(b) + 1 THEN Len(b) + 1 ELSE end

(* the second count is believed *)
trusting(kind_, b) ==
  CASE kind_ = "msk" -> Elem(b, Vec(b, 1, "sc"), "sc")
    [] kind_ = "mpk" -> Elem(b, Vec(b, 1, "g2"), "gt")
    [] kind_ = "mdk" -> Vec(b, 1, "g3")
    [] kind_ = "msg" -> Elem(b, 1, "gt")
    [] kind_ = "key" -> LET i == Vec(b, 1, "g3") IN IF i = 0 THEN 0 ELSE Program(b, i)
    [] kind_ = "ct"  -> Elem(b, Vec(b, Vec(b, 1, "u32"), "g2"), "gt")

(* anything is an element; only the first of a vector is looked at *)
anything(k, b, i) == TRUE
firstonly(b, i, k, q) ==
  IF i = 0 \/ q > Len(b) \/ Skip(b, i, q * ESize(k)) = 0 THEN 0
  ELSE IF k # "u32" /\ q > 0 /\ ~Valid(k, b, i) THEN 0
  ELSE i + q * ESize(k)

(* a section of the layout is forgotten when writing *)
unwritten(kind_, n_, c_) ==
  CASE kind_ = "msk" -> << <<"n", "count", n_>>, <<"t", "sc", n_>>, <<"y", "sc", 1>> >>
    [] kind_ = "mpk" -> << <<"n", "count", n_>>, <<"t", "g2", n_>>, <<"y", "gt", 1>> >>
    [] kind_ = "mdk" -> << <<"n", "count", n_>>, <<"t", "g3", n_>> >>
    [] kind_ = "msg" -> << <<"m", "gt", 1>> >>
    [] kind_ = "key" -> << <<"n", "count", n_>>, <<"d", "g3", n_>>, <<"rows", "count", n_>>,
                           <<"cols", "count", c_>>, <<"rho", "u32", n_>>, <<"M", "sc", n_ * c_>> >>
    [] kind_ = "ct"  -> << <<"n", "count", n_>>, <<"gamma", "u32", n_>>, <<"e", "g2", n_>>, <<"f", "gt", 1>> >>
=============================================================================
