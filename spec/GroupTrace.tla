----------------------------- MODULE GroupTrace -----------------------------
(* Programs run on the BLS12-381 backend.  Exponents are exact: modulo the     *)
(* order of the group.  What was observed: the bytes of every element computed.*)
EXTENDS BigMod, FiniteSets, Json, IOUtils

(* the order of BLS12-381, lowest byte first *)
Order == <<1, 0, 0, 0, 255, 255, 255, 255, 254, 91, 254, 255, 2, 164, 189, 83, 5, 216, 161, 9, 8, 216, 57, 51, 72, 125, 157, 41, 83, 167, 237, 115>>

LimbsOf(b) ==    \* 13 bits each
  LET B(i) == IF i \in DOMAIN b THEN b[i] ELSE 0
  IN TLCEval([j \in 1..20 |-> LET bit == 13 * (j - 1)
                          i == bit \div 8 + 1
                      IN ((B(i) + 256 * B(i + 1) + 65536 * B(i + 2)) \div 2^(bit % 8)) % 8192])
OrderLimbs == TLCEval(LimbsOf(Order))

Unknown == {"g", "u1", "u2"}

VARIABLES sc, g1, g2, g3, gt, known, now, bad
G == INSTANCE Group WITH SZero <- Zero, SOne <- One, SAdd <- Plus, SNeg <- Neg, SMul <- Mul, Basis <- Unknown
vars == <<sc, g1, g2, g3, gt, known, now, bad>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Starts == {i \in 1..N : Trace[i].op = "begin"}

(* what elements look like, seen in another process *)
MinusOne == Neg(One)
Start(b) == [k \in {"g2", "g3", "gt"} |->
  LET e(x) == IF k = "gt" THEN G!Of("g", x) ELSE x
  IN [x \in {e(Zero), e(One), e(MinusOne)} |-> b[k][IF x = e(Zero) THEN 1 ELSE IF x = e(One) THEN 2 ELSE 3]]]

Init == /\ G!InitRegs /\ now \in Starts /\ bad = FALSE /\ known = Start(Trace[now].seen)

Valid(b) == Len(b) = 32 /\ Less(LimbsOf(b), OrderLimbs)
Pad(b) == b \o [i \in 1..(32 - Len(b)) |-> 0]

(* one exponent, one encoding *)
Agrees(k, v, w) == IF v \in DOMAIN known[k] THEN known[k][v] = w
                   ELSE \A u \in DOMAIN known[k] : known[k][u] # w
Learn(k, v, w) == IF v \in DOMAIN known[k] THEN known
                  ELSE [known EXCEPT ![k] = G!Put(@, v, w)]

Size(k) == CASE k = "sc" -> 32 [] k = "g2" -> 48 [] k = "g3" -> 96 [] k = "gt" -> 288

(* the number an operation was given, or that was observed *)
Number(e) ==
  CASE e.f = "int" -> LET n == LimbsOf(e.mag) IN IF e.neg THEN Neg(n) ELSE n
    [] e.f \in {"msg_to_sc", "msg_to_gt"} -> LimbsOf(Pad(e.msg))
    [] e.f \in {"sc_rand", "sc_div"} -> LimbsOf(e.w)
    [] OTHER -> Zero

Accepted(e) == e.f \in {"msg_to_sc", "msg_to_gt"} => Len(e.msg) <= 32 /\ Valid(Pad(e.msg))

(* each judgement: [ok, kind, reg, val, w]; kind "" for nothing kept *)
Nothing(b) == [ok |-> b, kind |-> "", reg |-> "", val |-> Zero, both |-> FALSE, w |-> ""]

Op(e) ==
  IF ~Accepted(e) THEN Nothing(e.res = "err")
  ELSE LET n == TLCEval(Number(e))
           k == G!Kind(e.f)
           v == TLCEval(G!Value(e, n))
       IN [ok |-> /\ e.res = "ok"
                  /\ G!Quotient(e, n)
                  /\ e.f \in {"g2_gens", "g3_gens"} => e.n = Len(e.xs)
                  /\ IF k = "sc" THEN Valid(e.w) /\ LimbsOf(e.w) = v
                     ELSE Agrees(k, v, e.w) /\ Len(e.w) = 2 * Size(k),
           kind |-> k, reg |-> e.d, val |-> v, both |-> e.f \in G!G1Ops, w |-> IF k = "sc" THEN "" ELSE e.w]

Same(e) == Nothing(e.eq = (G!Reg(e.t, e.a) = G!Reg(e.t, e.x)))

(* an element's bytes, read back, also with other bytes behind them *)
Codec(e) ==
  Nothing(/\ e.res = "ok" /\ e.eq /\ e.len /\ e.short /\ e.w2 = e.w /\ e.w3 = e.w
          /\ IF e.t = "sc" THEN LimbsOf(e.w) = sc[e.a] /\ Valid(e.w) ELSE Agrees(e.t, G!Reg(e.t, e.a), e.w))

(* the other point with the same abscissa: one bit of the first digit *)
Digit == [c \in {"8", "9", "a", "b"} |-> CASE c = "8" -> "a" [] c = "9" -> "b" [] c = "a" -> "8" [] c = "b" -> "9"]
First(w) == SubSeq(w, 1, 1)
Flipped(w) == IF First(w) \in DOMAIN Digit THEN Digit[First(w)] \o SubSeq(w, 2, Len(w)) ELSE ""

(* any bytes: an element whose encoding they are, or refused.  Bytes of an element not seen before do   *)
(* not turn up by chance.                                                                                *)
Decode(e) ==
  LET k == e.t
      n == Size(k)
      b == SubSeq(e.in, 1, 2 * n)
      is == {v \in DOMAIN known[k] : known[k][v] = b}
      neg == IF k = "gt" THEN {} ELSE {v \in DOMAIN known[k] : known[k][v] = Flipped(b)}
  IN IF Len(e.in) < 2 * n \/ is \cup neg = {} THEN Nothing(e.res = "err")
     ELSE LET v == IF is # {} THEN CHOOSE v \in is : TRUE ELSE Neg(CHOOSE v \in neg : TRUE)
          IN [ok |-> e.res = "ok" /\ e.w = b /\ Agrees(k, v, b), kind |-> k, reg |-> e.d, val |-> v, both |-> FALSE, w |-> b]
DecodeSc(e) ==
  IF Len(e.in) < 32 \/ ~Valid(SubSeq(e.in, 1, 32)) THEN Nothing(e.res = "err")
  ELSE [ok |-> e.res = "ok" /\ e.w = SubSeq(e.in, 1, 32), kind |-> "sc", reg |-> e.d, val |-> LimbsOf(SubSeq(e.in, 1, 32)), both |-> FALSE, w |-> ""]

Judged(e) == CASE e.op = "op" -> Op(e)
               [] e.op = "eq" -> Same(e)
               [] e.op = "codec" -> Codec(e)
               [] e.op = "decode" -> IF e.t = "sc" THEN DecodeSc(e) ELSE Decode(e)

More == now < N /\ Trace[now + 1].op # "begin"
Next ==
  /\ More /\ ~bad
  /\ now' = now + 1
  /\ LET j == TLCEval(Judged(Trace[now + 1]))
         k == IF j.ok THEN j.kind ELSE ""
     IN /\ bad' = ~j.ok
        /\ sc' = IF k = "sc" THEN G!Put(sc, j.reg, j.val) ELSE sc
        /\ g2' = IF k = "g2" THEN G!Put(g2, j.reg, j.val) ELSE g2
        /\ g3' = IF k = "g3" THEN G!Put(g3, j.reg, j.val) ELSE g3
        /\ g1' = IF k = "g3" /\ j.both THEN G!Put(g1, j.reg, j.val) ELSE g1
        /\ gt' = IF k = "gt" THEN G!Put(gt, j.reg, j.val) ELSE gt
        /\ known' = IF k \in {"g2", "g3", "gt"} THEN Learn(k, j.val, j.w) ELSE known
Spec == Init /\ [][Next]_vars

Followed == bad => PrintT("@@REJECT " \o ToJson([line |-> now]))
=============================================================================
