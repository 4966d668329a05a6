----------------------------- MODULE HybridTrace -----------------------------
(* Recorded histories of the engine and the hybrid layer checked against       *)
(* Hybrid, in the manner of AbeTrace.                                          *)
EXTENDS AbeTrace, Hybrid

allVars == <<vars, hybVars>>

HInit == HybInit /\ Init

HStep(e) ==
  CASE e.op = "symkey"  -> SymKey(e.c, e.p, e.m, e.attrs, e.len, e.res, e.n, e.w)
    [] e.op = "opensym" -> OpenSym(e.c, e.k, e.len, e.res, e.n, e.agree)
    [] e.op = "hdr_enc" -> HeaderMade(e.h, e.p, e.m, e.attrs, e.meta, e.uid, e.ad, e.res, e.w, e.n, e.e)
    [] e.op = "hdr_dec" -> HeaderOpened(e.from, e.k, e.res, e.w, e.uid, e.ad)
    [] e.op = "blk_enc" -> BlockMade(e.b, e.key, e.uid, e.num, e.size, e.max, e.over, e.res, e.n)
    [] e.op = "blk_dec" -> BlockOpened(e.from, e.key, e.uid, e.num, e.max, e.res, e.of)
    [] e.op = "msg_enc" -> MailMade(e.c, e.p, e.m, e.attrs, e.data, e.size, e.over, e.res, e.n)
    [] e.op = "msg_dec" -> MailOpened(e.from, e.k, e.res, e.data)
    [] e.op = "hdr_size" -> HeaderSize(e.from, e.res, e.n)
    [] OTHER            -> Step(e) /\ UNCHANGED hybVars

HWant(e) ==
  CASE e.op \in {"symkey", "hdr_enc"} -> [want |-> IF CanEncrypt(e.p, e.m, e.attrs) THEN "ok" ELSE "err"]
    [] e.op = "opensym" -> [want |-> Outcomes(keys[e.k], cts[e.c]), asked |-> e.len, generated |-> caps[e.c].n]
    [] e.op = "hdr_dec" ->
         LET P == Eval(e.from, src)
         IN [pieces |-> P,
             want |-> {<<h, Outcomes(keys[e.k], cts[h]), heads[h]>> : h \in EncapsOf(P)}]
    [] e.op = "blk_enc" -> [want |-> IF e.size >= 1 /\ e.size <= e.max THEN "ok" ELSE "err"]
    [] e.op = "blk_dec" ->
         LET P == Eval(e.from, src)
         IN [pieces |-> P, want |-> IF BlockOpens(P, e.key, e.uid, e.num, e.max) THEN "ok" ELSE "err"]
    [] e.op = "msg_enc" -> [want |-> IF CanEncrypt(e.p, e.m, e.attrs) /\ e.size >= 1 THEN "ok" ELSE "err"]
    [] e.op = "msg_dec" ->
         LET P == Eval(e.from, src)
         IN [pieces |-> P, want |-> {<<c, Outcomes(keys[e.k], cts[c]), mails[c]>> : c \in Mail(P)}]
    [] e.op = "hdr_size" -> [pieces |-> Eval(e.from, src), sizes |-> src]
    [] OTHER -> Want(e)

HFollow ==
  /\ Pending
  /\ HStep(Trace[now])
  /\ now' = now + 1
  /\ UNCHANGED <<start, dead>>

HReject ==
  /\ Pending
  /\ ~ENABLED HStep(Trace[now])
  /\ PrintT("@@REJECT " \o ToJson([line |-> now, start |-> start, spec |-> ToString(HWant(Trace[now]))]))
  /\ dead' = TRUE /\ UNCHANGED <<pols, msts, keys, cts, nextm, start, now, hybVars>>

HNext == HFollow \/ HReject
HSpec == HInit /\ [][HNext]_allVars
=============================================================================
