-------------------------------- MODULE Wire --------------------------------
(* The byte formats of keys, ciphertexts, messages, headers and containers.    *)
(* A format is a sequence of sections; a byte string must be refused when it   *)
(* does not reach the end of its sections: it is cut short, a count claims     *)
(* more than is there, counts disagree, or an element is no encoding of one.   *)
(* Bytes after the last section are not specified.                             *)
(*                                                                             *)
(* Positions are 1-based; 0 stands for "no such position".                     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  SizeOf(_),         \* element kind -> bytes: "sc", "g2", "g3", "gt"
  Valid(_, _, _)     \* (kind, b, i): the bytes of b from i on start with an encoding

Big == 2097152       \* any count from here on is more than there are bytes

U32(b, i) == IF b[i] > 0 \/ b[i + 1] >= 32 THEN Big
             ELSE b[i + 1] * 65536 + b[i + 2] * 256 + b[i + 3]

ToU32(n) == <<0, n \div 65536, (n \div 256) % 256, n % 256>>

(* the position after n bytes from i on, if they are there *)
Skip(b, i, n) == IF i = 0 \/ n > Len(b) - i + 1 THEN 0 ELSE i + n

ESize(k) == IF k = "u32" THEN 4 ELSE SizeOf(k)

Elem(b, i, k) ==
  IF Skip(b, i, ESize(k)) = 0 THEN 0
  ELSE IF k = "u32" \/ Valid(k, b, i) THEN i + ESize(k) ELSE 0

(* n elements of kind k, one after the other *)
Elems(b, i, k, n) ==
  IF i = 0 \/ n > Len(b) \/ Skip(b, i, n * ESize(k)) = 0 THEN 0
  ELSE IF k # "u32" /\ \E j \in 0..(n - 1) : ~Valid(k, b, i + j * ESize(k)) THEN 0
  ELSE i + n * ESize(k)

Count(b, i) == IF Skip(b, i, 4) = 0 THEN Big ELSE U32(b, i)
Vec(b, i, k) == IF Skip(b, i, 4) = 0 THEN 0 ELSE Elems(b, i + 4, k, U32(b, i))

(* span program: rows, columns, one attribute per row, the matrix *)
Program(b, i) ==
  IF Skip(b, i, 8) = 0 THEN 0
  ELSE LET n == U32(b, i)
           m == U32(b, i + 4)
       IN IF n > Len(b) \/ m > Len(b) THEN 0
          ELSE Elems(b, Elems(b, i + 8, "u32", n), "sc", IF n * m > Len(b) THEN Big ELSE n * m)

(* the end of the object of a kind, 0 when b must be refused *)
End(kind, b) ==
  CASE kind = "msk" -> Elem(b, Vec(b, 1, "sc"), "sc")
    [] kind = "mpk" -> Elem(b, Vec(b, 1, "g2"), "gt")
    [] kind = "mdk" -> Vec(b, 1, "g3")
    [] kind = "msg" -> Elem(b, 1, "gt")
    [] kind = "key" -> LET i == Vec(b, 1, "g3")
                       IN IF i = 0 \/ Count(b, i) # Count(b, 1) THEN 0 ELSE Program(b, i)
    [] kind = "ct"  -> LET i == Vec(b, 1, "u32")
                       IN IF i = 0 \/ Count(b, i) # Count(b, 1) THEN 0
                          ELSE Elem(b, Vec(b, i, "g2"), "gt")

NonceSize == 12
KeySize == 32

(* an encrypted header: a sized ciphertext, then nothing or a nonce and sized metadata *)
HeaderEnd(b) ==
  LET n == Count(b, 1)
      i == IF n >= Big THEN 0 ELSE Skip(b, 5, n)
      j == Skip(b, i, NonceSize)
  IN IF i = 0 \/ End("ct", SubSeq(b, 5, i - 1)) = 0 THEN 0
     ELSE IF i = Len(b) + 1 THEN i
     ELSE IF j = 0 \/ Count(b, j) >= Big THEN 0 ELSE Skip(b, j + 4, Count(b, j))

(* an exported header: a sized symmetric key and the rest *)
ExportEnd(b) ==
  LET n == Count(b, 1)
  IN IF n >= Big \/ n < KeySize THEN 0 ELSE Skip(b, 5, n)

(* an exported clear header: the rest is nothing or metadata starting with a sized uid *)
ClearEnd(b) ==
  LET i == ExportEnd(b)
  IN IF i = 0 THEN 0
     ELSE IF i = Len(b) + 1 THEN i
     ELSE IF Count(b, i) >= Big THEN 0 ELSE Skip(b, i + 4, Count(b, i))

(* a block: nonce and tag around at least one byte; it opens only if authentic *)
BlockOverhead == 28

EndOf(kind, b) ==
  CASE kind = "hdr"    -> HeaderEnd(b)
    [] kind = "export" -> ExportEnd(b)
    [] kind = "clear"  -> ClearEnd(b)
    [] kind = "block"  -> IF Len(b) <= BlockOverhead THEN 0 ELSE Len(b) + 1
    [] OTHER           -> End(kind, b)

MustRefuse(kind, b) == EndOf(kind, b) = 0

----------------------------------------------------------------------------
(* Writing: the same formats from the shape of an object.  El(k, t) are the   *)
(* bytes of an element named t.                                                *)

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

(* sections of an object with n elements and c columns: <<name, kind, count>> *)
Layout(kind, n, c) ==
  CASE kind = "msk" -> << <<"n", "count", n>>, <<"t", "sc", n>>, <<"y", "sc", 1>> >>
    [] kind = "mpk" -> << <<"n", "count", n>>, <<"t", "g2", n>>, <<"y", "gt", 1>> >>
    [] kind = "mdk" -> << <<"n", "count", n>>, <<"t", "g3", n>> >>
    [] kind = "msg" -> << <<"m", "gt", 1>> >>
    [] kind = "key" -> << <<"n", "count", n>>, <<"d", "g3", n>>, <<"rows", "count", n>>,
                          <<"cols", "count", c>>, <<"rho", "u32", n>>, <<"M", "sc", n * c>> >>
    [] kind = "ct"  -> << <<"n", "count", n>>, <<"gamma", "u32", n>>, <<"n2", "count", n>>,
                          <<"e", "g2", n>>, <<"f", "gt", 1>> >>

SecSize(s) == IF s[2] = "count" THEN 4 ELSE s[3] * ESize(s[2])

RECURSIVE LayoutSize(_)
LayoutSize(l) == IF l = <<>> THEN 0 ELSE SecSize(Head(l)) + LayoutSize(Tail(l))

(* offset (from 0) of section i *)
Offset(l, i) == LayoutSize(SubSeq(l, 1, i - 1))

AnnouncedSize(kind, n, c) == LayoutSize(Layout(kind, n, c))

(* bytes with "el" filling elements *)
Write(l, El(_, _)) ==
  Cat([i \in 1..Len(l) |->
        IF l[i][2] = "count" THEN ToU32(l[i][3])
        ELSE Cat([j \in 1..l[i][3] |-> El(l[i][2], j)])])
=============================================================================
