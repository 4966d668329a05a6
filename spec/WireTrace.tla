----------------------------- MODULE WireTrace ------------------------------
(* Byte strings presented to the real deserializers, and what came of using   *)
(* whatever was accepted.                                                      *)
EXTENDS Wire, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
M == Len(Trace)
Block == IF M <= 64 THEN 1 ELSE M \div 64

VARIABLE i
Init == i \in {j \in 1..M : j % Block = 1 \/ Block = 1}
Next == i < M /\ Block > 1 /\ i % Block # 0 /\ i' = i + 1
Spec == Init /\ [][Next]_i

(* transparent group: an element is its exponent, eight bytes below 32749 *)
ToySize(k) == 8
ToyValid(k, b, j) == /\ \A x \in 0..5 : b[j + x] = 0
                     /\ b[j + 6] * 256 + b[j + 7] < 32749

(* BLS12-381: scalars are little endian below r; of the group elements only those  *)
(* computed by the library are known to be encodings, any other bytes are not one. *)
BlsSize(k) == CASE k = "sc" -> 32 [] k = "g2" -> 48 [] k = "g3" -> 96 [] k = "gt" -> 288
R == <<1,0,0,0,255,255,255,255,254,91,254,255,2,164,189,83,5,216,161,9,8,216,57,51,72,125,157,41,83,167,237,115>>
Below(b, j) == \E x \in 0..31 : /\ b[j + x] < R[x + 1]
                                /\ \A y \in (x + 1)..31 : b[j + y] = R[y + 1]
Pool == ndJsonDeserialize(IOEnv.POOL)
Pools == [k \in {"g2", "g3", "gt"} |-> {Pool[x].b : x \in {y \in 1..Len(Pool) : Pool[y].k = k}}]
(* the sign bit of a point: both signs are points *)
Unsigned(k, s) == IF k = "gt" THEN s ELSE [s EXCEPT ![1] = IF (@ \div 32) % 2 = 1 THEN @ - 32 ELSE @]
BlsValid(k, b, j) == IF k = "sc" THEN Below(b, j)
                     ELSE Unsigned(k, SubSeq(b, j, j + BlsSize(k) - 1)) \in Pools[k]

----------------------------------------------------------------------------
(* how much a call may allocate: bounded by what it was given *)
LoadBound(n) == 1000000 + 2000 * n
UseBound(n) == 4000000 + 4000 * n

Answered == {"ok", "err", "none", "msg", "wrong", "skip"}

(* in: <<kind, bytes>> ..; genuine: all of them written by the library *)
GoodLoad(e) ==
  /\ e.res \in {"ok", "err"}
  /\ (\E x \in DOMAIN e.in : MustRefuse(e.in[x][1], e.in[x][2])) => e.res = "err"
  /\ e.genuine => e.res = "ok"
  /\ e.alloc <= LoadBound(e.size)

(* any use of anything that was accepted gets an answer *)
GoodUse(e) == e.res \in Answered /\ e.alloc <= UseBound(e.size)

(* the library's own bytes fill their format exactly *)
GoodWrite(e) == /\ e.n = Len(e.b)
                /\ EndOf(e.kind, e.b) = Len(e.b) + 1
                /\ e.kind \in {"msk", "mpk", "mdk", "msg", "key", "ct"} => Len(e.b) = AnnouncedSize(e.kind, e.elems, e.cols)

(* an object written, announced, read back and written again; bytes not kept *)
GoodSize(e) == /\ e.res = "ok" /\ e.len /\ e.len2 /\ e.same /\ e.eq
               /\ e.n = AnnouncedSize(e.kind, e.elems, e.cols)

Good(e) == CASE e.op = "back" -> e.same
             [] e.op = "size" -> GoodSize(e)
             [] e.op = "load" -> GoodLoad(e)
             [] e.op = "use" -> GoodUse(e)
             [] e.op = "write" -> GoodWrite(e)

Why(e) == CASE e.op = "load" -> (IF \E x \in DOMAIN e.in : MustRefuse(e.in[x][1], e.in[x][2]) THEN "refusal"
                                 ELSE IF e.genuine THEN "acceptance" ELSE "an answer within bounds")
            [] e.op = "use" -> "an answer within bounds"
            [] OTHER -> "exactly the format"

Checked == Good(Trace[i]) \/ PrintT("@@REJECT " \o ToJson([line |-> i, spec |-> Why(Trace[i])]))
=============================================================================
