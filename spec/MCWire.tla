------------------------------- MODULE MCWire -------------------------------
(* Every format with up to N elements and C columns, and every way of damaging *)
(* one or two places of it: checked on the grammar, and printed as recipes for *)
(* the real serializers.                                                        *)
EXTENDS Wire, TLC, Json

CONSTANTS N, C, Elements, Depth, Backward
(* Backward: of two places the later one is damaged first, so that both are hit *)
(* Elements: <<size of sc, g2, g3, gt>>; an element starting with 255 is invalid *)

MCSizeOf(k) == CASE k = "sc" -> Elements[1] [] k = "g2" -> Elements[2] [] k = "g3" -> Elements[3] [] k = "gt" -> Elements[4]
Small == <<2, 3, 4, 5>>
MCValid(k, b, i) == b[i] # 255
El(k, j) == IF k = "u32" THEN ToU32(j) ELSE [x \in 1..ESize(k) |-> j]

VARIABLES kind, n, c, muts
vars == <<kind, n, c, muts>>

Kinds == {"msk", "mpk", "mdk", "msg", "key", "ct"}
L == Layout(kind, n, c)
Genuine == Write(L, El)

Counts == {i \in 1..Len(L) : L[i][2] = "count"}
Elems1 == {i \in 1..Len(L) : L[i][2] \in {"sc", "g2", "g3", "gt"} /\ L[i][3] > 0}

Numbers1 == {i \in 1..Len(L) : L[i][2] = "u32" /\ L[i][3] > 0}

(* a damage: what, section, where in it *)
Damages ==
       {<<"cut", i, x>> : i \in 1..Len(L), x \in {"start", "in", "mid", "last"}}
  \cup {<<"count", i, x>> : i \in Counts, x \in {"zero", "less", "more", "double", "max", "top", "half", "wrap"}}
  \cup {<<"elem", i, x>> : i \in Elems1, x \in {"first", "last", "sign"}}
  \cup {<<"null", i, x>> : i \in Elems1, x \in {"first", "mid", "last"}}
  \cup {<<"num", i, x>> : i \in Numbers1, x \in {"zero", "max", "far", "repeat"}}
  \cup {<<"drop", i, "one">> : i \in Elems1}
  \cup {<<"dup", i, "one">> : i \in Elems1}
  \cup {<<"swap", i, "all">> : i \in Elems1}
  \cup {<<"tail", Len(L), x>> : x \in {"one", "copy"}}

Init == kind \in Kinds /\ n \in (IF kind = "msg" THEN {1} ELSE 0..N)
        /\ c \in (IF kind = "key" THEN 1..C ELSE {1})
        /\ (kind = "key" => n > 0) /\ muts = <<>>
Next == /\ Len(muts) < Depth
        /\ \E d \in Damages : (\A k \in 1..Len(muts) : muts[k] # d /\ (Backward => d[2] <= muts[k][2])) /\ muts' = Append(muts, d)
        /\ UNCHANGED <<kind, n, c>>
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* the effect of a damage on bytes; o: offset, z: size of the section          *)
O(i) == Offset(L, i)
Z(i) == SecSize(L[i])
Min2(a, b) == IF a < b THEN a ELSE b
Sub(b, lo, hi) == SubSeq(b, Min2(lo, Len(b)) + 1, Min2(hi, Len(b)))
Over(b, o, x) == [j \in 1..Len(b) |-> IF j > o /\ j <= o + Len(x) THEN x[j - o] ELSE b[j]]

NewCount(v, x) == CASE x = "zero" -> ToU32(0) [] x = "less" -> ToU32(IF v = 0 THEN 7 ELSE v - 1) [] x = "more" -> ToU32(v + 1)
                    [] x = "double" -> ToU32(2 * v + 2) [] x = "max" -> <<255, 255, 255, 255>>
                    [] x = "top" -> <<128, 0, 0, 0>> [] x = "half" -> <<16, 0, 0, 0>> [] x = "wrap" -> <<64, 0, 0, v>>

Apply(b, d) ==
  LET i == d[2]
      x == d[3]
      e == ESize(L[i][2])
  IN CASE d[1] = "cut"   -> Sub(b, 0, O(i) + (CASE x = "start" -> 0 [] x = "in" -> 1 [] x = "mid" -> Z(i) \div 2
                                                [] x = "last" -> IF Z(i) = 0 THEN 0 ELSE Z(i) - 1))
       [] d[1] = "count" -> Over(b, O(i), NewCount(L[i][3], x))
       [] d[1] = "elem"  -> Over(b, O(i) + (IF x = "last" THEN Z(i) - e ELSE 0), [j \in 1..e |-> IF x = "sign" /\ j > 1 THEN 1 ELSE 255])
       [] d[1] = "null"  -> Over(b, O(i) + e * (CASE x = "first" -> 0 [] x = "mid" -> L[i][3] \div 2 [] x = "last" -> L[i][3] - 1), [j \in 1..e |-> 0])
       [] d[1] = "num"   -> Over(b, O(i) + (IF x = "repeat" THEN Z(i) - e ELSE 0),
                                 CASE x = "zero" -> ToU32(0) [] x = "max" -> <<255, 255, 255, 255>> [] x = "far" -> ToU32(1000)
                                   [] x = "repeat" -> Sub(b, O(i), O(i) + 4))
       [] d[1] = "drop"  -> Sub(b, 0, O(i)) \o Sub(b, O(i) + e, Len(b))
       [] d[1] = "dup"   -> Sub(b, 0, O(i) + e) \o Sub(b, O(i), Len(b))
       [] d[1] = "swap"  -> b
       [] d[1] = "tail"  -> IF x = "one" THEN Append(b, 0) ELSE b \o b

RECURSIVE Damage(_, _)
Damage(b, ms) == IF ms = <<>> THEN b ELSE Damage(Apply(b, Head(ms)), Tail(ms))

(* every object fills its format exactly *)
Genuinely == End(kind, Genuine) = Len(Genuine) + 1 /\ Len(Genuine) = AnnouncedSize(kind, n, c)
(* cut anywhere it must be refused *)
Truncated == \A k \in 0..(Len(Genuine) - 1) : MustRefuse(kind, SubSeq(Genuine, 1, k))
(* a count that says something else must be refused, unless the rest happens to fill it *)
Counted ==
  \A i \in Counts : \A x \in {"max", "top", "half", "wrap"} : MustRefuse(kind, Apply(Genuine, <<"count", i, x>>))
Disagree ==
  kind \in {"key", "ct"} =>
    \A i \in {1, 3} : \A x \in {"zero", "less", "more"} :
      (n > 0 \/ x # "zero") => MustRefuse(kind, Apply(Genuine, <<"count", i, x>>))
BadElement ==
  \A i \in Elems1 : \A x \in {"first", "last"} : MustRefuse(kind, Apply(Genuine, <<"elem", i, x>>))
(* the neutral element and any number are written like the others *)
Neutral ==
  /\ \A i \in Elems1 : \A x \in {"first", "mid", "last"} : ~MustRefuse(kind, Apply(Genuine, <<"null", i, x>>))
  /\ \A i \in Numbers1 : \A x \in {"zero", "max", "far", "repeat"} : ~MustRefuse(kind, Apply(Genuine, <<"num", i, x>>))
(* another kind's bytes are not taken for this one by accident of the empty object only *)
Prefix == \A k \in 0..3 : MustRefuse(kind, [j \in 1..k |-> 0])

Emit == muts # <<>> => PrintT("@@MUT " \o ToJson([kind |-> kind, n |-> n, c |-> c, muts |-> muts,
                                                  refuse |-> MustRefuse(kind, Damage(Genuine, muts))]))
=============================================================================
