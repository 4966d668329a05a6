---------------------------- MODULE FfiBufTrace -----------------------------
(* Calls of the C interface with all kinds of buffers, judged one by one, and  *)
(* callers retrying with the reported lengths.                                 *)
EXTENDS FfiBuf, TLC, Json, IOUtils

BlsSize(k) == CASE k = "sc" -> 32 [] k = "g2" -> 48 [] k = "g3" -> 96 [] k = "gt" -> 288
AnyValid(k, b, j) == TRUE
W == INSTANCE Wire WITH SizeOf <- BlsSize, Valid <- AnyValid

Trace == ndJsonDeserialize(IOEnv.TRACE)
M == Len(Trace)
Block == IF M <= 64 THEN 1 ELSE M \div 64

VARIABLE i
Init == i \in {j \in 1..M : j % Block = 1 \/ Block = 1}
Next == i < M /\ Block > 1 /\ i % Block # 0 /\ i' = i + 1
Spec == Init /\ [][Next]_i

(* sizes of the results, from the shapes of what was asked; -1: no such data *)
Max0(x) == IF x < 0 THEN 0 ELSE x
MetaSize(uid, ad) == (IF uid = 0 /\ ad < 0 THEN 0 ELSE 4 + uid + Max0(ad)) + 16
HeaderSize(n, uid, ad) == 4 + W!AnnouncedSize("ct", n, 0) + 12 + 4 + MetaSize(uid, ad)

Need(f, a) ==
  CASE f \in {"enc_header", "enc_header_cache"} -> <<32, HeaderSize(a.n, a.uid, a.ad)>>
    [] f \in {"dec_header", "dec_header_cache"} -> <<32, a.uid, Max0(a.ad)>>
    [] f = "enc_block" -> <<a.n + W!BlockOverhead>>
    [] f = "dec_block" -> <<a.n>>
    [] f = "master" -> <<4 + W!AnnouncedSize("msk", a.n, 0) + W!AnnouncedSize("mpk", a.n, 0)>>
    [] f = "ukey" -> <<W!AnnouncedSize("key", a.rows, a.cols)>>
    [] f = "rotate" -> <<a.n>>
    [] f \in {"create_enc", "create_dec"} -> <<>>

GoodCall(e) == Allowed(e.in, e.outs, Need(e.f, e.a), e.seen)

(* a caller starting with any sizes reaches success *)
GoodChain(e) ==
  LET need == Need(e.f, e.a)
      cs == e.calls
  IN /\ \A j \in DOMAIN cs : Allowed("ok", cs[j].outs, need, cs[j].seen)
     /\ \A j \in 2..Len(cs) : cs[j].outs = Retry(cs[j - 1].outs, cs[j - 1].seen)
     /\ cs[Len(cs)].seen.rc = 0
     /\ Len(cs) <= Len(need) + 1

(* the size announced by a container *)
GoodSize(e) == IF e.n < 4 THEN e.rc = 1 /\ e.err ELSE e.rc = W!AnnouncedSize("ct", e.k, 0) /\ ~e.err

Good(e) == CASE e.op = "call" -> GoodCall(e)
             [] e.op = "chain" -> GoodChain(e)
             [] e.op = "size" -> GoodSize(e)

Why(e) == IF e.op = "size" THEN "the announced length, or a refusal below four bytes"
          ELSE IF e.op # "call" THEN "success with the reported lengths"
          ELSE LET need == Need(e.f, e.a)
               IN IF Misused(e.in, e.outs) THEN "a refusal leaving the outputs untouched"
                  ELSE IF e.in = "bad" \/ Empty(e.outs) THEN "a refusal"
                  ELSE IF Small(e.outs, need) # {} THEN "a refusal reporting the length needed: " \o ToString(need)
                  ELSE "exactly the result, of length " \o ToString(need)

Checked == Good(Trace[i]) \/ PrintT("@@REJECT " \o ToJson([line |-> i, spec |-> Why(Trace[i])]))
=============================================================================
