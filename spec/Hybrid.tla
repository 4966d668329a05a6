------------------------------- MODULE Hybrid -------------------------------
(* The hybrid layer on top of the engine: encapsulated symmetric keys, headers *)
(* with encrypted metadata, and encrypted blocks, together with what an        *)
(* attacker may present instead of them.                                       *)
EXTENDS Abe, Blob

VARIABLES
  caps,    \* encapsulation name -> [w, n]: its symmetric key, and how long it was asked
  heads,   \* header name -> [w, uid, ad, meta]: symmetric key, metadata, whether any was put in
  blks,    \* block name  -> [key, uid, num, size]
  src,     \* source name -> [n, e]: sizes of the byte strings seen
  mails,   \* complete message name -> [data, size]
  kseen    \* symmetric keys generated so far (16 byte prefixes)
hybVars == <<caps, heads, blks, src, mails, kseen>>

HybInit == mails = None /\ caps = None /\ heads = None /\ blks = None /\ src = None /\ kseen = {}

Least(a, b) == IF a <= b THEN a ELSE b

----------------------------------------------------------------------------
(* Symmetric keys.  w16: the first 16 bytes when there are as many.           *)
SymKey(c, p, m, as, n, res, len, w16) ==
  /\ Encrypt(c, p, m, as, c, res)
  /\ IF res = "ok"
     THEN /\ len = n
          /\ n >= 16 => w16 \notin kseen
          /\ caps' = Put(caps, c, [n |-> n])
          /\ kseen' = IF n >= 16 THEN kseen \cup {w16} ELSE kseen
     ELSE UNCHANGED <<caps, kseen>>
  /\ UNCHANGED <<heads, blks, src, mails>>

(* agree: how many bytes coincide with the key generated for c *)
OpenSym(c, k, n, res, len, agree) ==
  LET out == Outcomes(keys[k], cts[c])
      all == Least(n, caps[c].n)
  IN /\ \/ "msg" \in out /\ res = "ok" /\ len = n /\ agree = all
        \/ "no" \in out /\ res = "err"
        \/ "wrong" \in out /\ res = "ok" /\ len = n /\ (all >= 16 => agree < 8)
     /\ UNCHANGED abeVars /\ UNCHANGED hybVars

----------------------------------------------------------------------------
(* Headers *)

NoMeta(uid, ad) == uid = "" /\ ad = ""

(* the announced size h.e ends the encapsulation, n the header *)
HeaderMade(h, p, m, as, meta, uid, ad, res, w, n, e) ==
  /\ Encrypt(h, p, m, as, h, res)
  /\ IF res = "ok"
     THEN /\ w \notin kseen
          /\ n >= e /\ (meta <=> n > e)
          /\ heads' = Put(heads, h, [w |-> w, uid |-> uid, ad |-> ad, meta |-> meta])
          /\ kseen' = kseen \cup {w}
          /\ src' = Put(src, h, [n |-> n, e |-> e])
     ELSE UNCHANGED <<heads, kseen, src>>
  /\ UNCHANGED <<caps, blks, mails>>

(* the header whose encapsulation opens the blob P unaltered, if any *)
EncapsOf(P) ==
  {h \in DOMAIN heads : P # <<>> /\ P[1].s = h /\ P[1].f = 0 /\ P[1].t >= src[h].e}

(* whatever the attacker presents, it does not open with metadata that nobody put in *)
Safe(w, uid, ad) ==
  \/ NoMeta(uid, ad)
  \/ \E h \in DOMAIN heads : heads[h].w = w /\ heads[h].uid = uid /\ heads[h].ad = ad

(* somebody put this metadata in, under this key *)
Authentic(w, uid, ad) ==
  \E h \in DOMAIN heads : heads[h].meta /\ heads[h].w = w /\ heads[h].uid = uid /\ heads[h].ad = ad

Unreadable(k, w) == \A h \in DOMAIN heads : heads[h].w = w => "msg" \in Outcomes(keys[k], cts[h])

(* what opening the blob P with the key k may give *)
HeaderOutcome(P, k, res, w, uid, ad) ==
  IF EncapsOf(P) # {} THEN
    LET h == CHOOSE x \in EncapsOf(P) : TRUE
        out == Outcomes(keys[k], cts[h])
        rest == Cut(P, src[h].e, Size(P))
        own == /\ heads[h].meta /\ rest # <<>>
               /\ rest[1].s = h /\ rest[1].f = src[h].e /\ rest[1].t = src[h].n
    IN \/ "msg" \in out /\ res = "ok" /\ w = heads[h].w
          /\ IF own THEN uid = heads[h].uid /\ ad = heads[h].ad
             ELSE IF rest = <<>> THEN NoMeta(uid, ad)
             ELSE Authentic(w, uid, ad)
       \/ res = "err" /\ ("no" \in out \/ ~(own \/ rest = <<>>))
       \/ "wrong" \in out /\ res = "ok" /\ w # heads[h].w /\ Safe(w, uid, ad) /\ Unreadable(k, w)
  ELSE \/ res = "err"
       \/ res = "ok" /\ Safe(w, uid, ad) /\ Unreadable(k, w)

HeaderOpened(r, k, res, w, uid, ad) ==
  /\ HeaderOutcome(Eval(r, src), k, res, w, uid, ad)
  /\ UNCHANGED abeVars /\ UNCHANGED hybVars

----------------------------------------------------------------------------
(* Blocks; key: the name of the symmetric key used *)

BlockMade(b, key, uid, num, size, max, over, res, n) ==
  /\ res = IF size >= 1 /\ size <= max THEN "ok" ELSE "err"
  /\ IF res = "ok"
     THEN /\ n = size + over
          /\ blks' = Put(blks, b, [key |-> key, uid |-> uid, num |-> num, size |-> size])
          /\ src' = Put(src, b, [n |-> n, e |-> n])
     ELSE UNCHANGED <<blks, src>>
  /\ UNCHANGED abeVars /\ UNCHANGED <<caps, heads, kseen, mails>>

Whole(P) == {b \in DOMAIN blks : P = <<Piece(b, 0, src[b].n)>>}

(* same: the plaintext returned is the one the block was made of *)
BlockOpens(P, key, uid, num, max) ==
  \E b \in Whole(P) : /\ blks[b].key = key /\ blks[b].uid = uid /\ blks[b].num = num
                      /\ blks[b].size <= max

BlockOpened(r, key, uid, num, max, res, of) ==
  LET P == Eval(r, src)
  IN /\ IF BlockOpens(P, key, uid, num, max)
        THEN res = "ok" /\ of \in Whole(P)
        ELSE res = "err"
     /\ UNCHANGED abeVars /\ UNCHANGED hybVars

----------------------------------------------------------------------------
(* Complete messages: header size, header, block 0 *)

MailMade(c, p, m, as, data, size, over, res, n) ==
  /\ res = IF CanEncrypt(p, m, as) /\ size >= 1 THEN "ok" ELSE "err"
  /\ IF res = "ok"
     THEN /\ Encrypt(c, p, m, as, c, "ok")
          /\ mails' = Put(mails, c, [data |-> data, size |-> size])
          /\ src' = Put(src, c, [n |-> n, e |-> n - size - over])
     ELSE UNCHANGED <<abeVars, mails, src>>
  /\ UNCHANGED <<caps, heads, blks, kseen>>

Mail(P) == {c \in DOMAIN mails : P = <<Piece(c, 0, src[c].n)>>}

MailOutcome(P, k, res, data) ==
  \/ \E c \in Mail(P) : LET out == Outcomes(keys[k], cts[c]) IN
        IF res = "ok" THEN data = mails[c].data /\ "msg" \in out
        ELSE res = "err" /\ out # {"msg"}
  \/ /\ Mail(P) = {}
     /\ \/ res = "err"
        \/ \E c \in DOMAIN mails : mails[c].data = data /\ "msg" \in Outcomes(keys[k], cts[c])

MailOpened(r, k, res, data) ==
  /\ MailOutcome(Eval(r, src), k, res, data)
  /\ UNCHANGED abeVars /\ UNCHANGED hybVars

(* the header of a complete message ends at src.e: size field and header *)
HeaderSize(r, res, n) ==
  LET P == Eval(r, src)
  IN /\ IF Size(P) < 4 THEN res = "err"
        ELSE IF P[1].s \in DOMAIN mails /\ P[1].f = 0 /\ P[1].t >= 4
        THEN res = "ok" /\ n = src[P[1].s].e - 4
        ELSE res = "ok"
     /\ UNCHANGED abeVars /\ UNCHANGED hybVars
=============================================================================
