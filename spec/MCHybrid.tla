------------------------------ MODULE MCHybrid ------------------------------
(* Does the layout of headers and blocks give what Hybrid promises?  The       *)
(* mechanism - length fields, an ideal authenticated cipher, a decapsulation   *)
(* that yields nothing or an unrelated key when its input was altered - is     *)
(* followed on everything an attacker can assemble from up to Cuts pieces of   *)
(* three headers (or three blocks), and compared with the rules of Hybrid.     *)
(* Every section is one or two units long; the recipes are replayed in the     *)
(* real code with the sections' real sizes.                                    *)
EXTENDS Hybrid, Json, IOUtils

CONSTANTS Cuts, Emit

VARIABLES kind, pres, who, res
mvars == <<kind, pres, who, res>>

(* units of a header: 0 length, 1-2 encapsulation | 3 nonce, 4 size, 5-6 ciphertext and tag *)
HE == 3
HN == 7
Heads == {"a", "b", "c"}        \* c carries no metadata
(* units of a block: 0 nonce, 1-2 ciphertext, 3 tag *)
BN == 4
Blocks == {"x", "y", "z"}

AttrKey(V) == [m |-> 1, tree |-> <<"any", V>>, ups |-> {}, exact |-> TRUE, pool |-> {}]
Start ==
  /\ pols = None /\ msts = None /\ nextm = 1 /\ caps = None /\ mails = None /\ kseen = {}
  /\ keys = [k \in {"k1", "k2"} |-> AttrKey(IF k = "k1" THEN {1} ELSE {2})]
  /\ cts = [h \in Heads |-> [m |-> 1, g |-> h, V |-> IF h = "b" THEN {2} ELSE {1}]]
  /\ heads = [h \in Heads |-> [w |-> "w" \o h, uid |-> IF h = "c" THEN "" ELSE "u" \o h, ad |-> "",
                               meta |-> h # "c"]]
  /\ blks = [b \in Blocks |-> [key |-> IF b = "z" THEN "K2" ELSE "K1", uid |-> "u",
                               num |-> IF b = "y" THEN "2" ELSE "1", size |-> 5]]
  /\ src = [s \in Heads \cup Blocks |->
              IF s \in Blocks THEN [n |-> BN, e |-> BN]
              ELSE [n |-> IF s = "c" THEN HE ELSE HN, e |-> HE]]

Sources == IF kind = "hdr" THEN Heads ELSE Blocks
Slices(S) == {<<"cut", <<"ref", s>>, <<"s", i>>, <<"s", j>>>> : s \in S, i \in 0..(HN - 1), j \in 1..HN}
Proper(S) == {x \in Slices(S) : x[3][2] < x[4][2] /\ x[4][2] <= src[x[2][2]].n}
Junks == {<<"junk", 1, "j">>}
RECURSIVE Cats(_, _)
Cats(n, S) ==
  IF n = 0 THEN {<<>>} ELSE LET R == Cats(n - 1, S) IN R \cup {Append(r, x) : r \in {q \in R : Len(q) = n - 1}, x \in S}
Xors == {<<"xor", <<"ref", s>>, <<"s", i>>>> : s \in Heads \cup Blocks, i \in 0..(HN - 1)}
Recipes(S) ==
  {<<"cat", c>> : c \in Cats(Cuts, Proper(S) \cup Junks) \ {<<>>}}
  \cup {x \in Xors : x[2][2] \in S /\ x[3][2] < src[x[2][2]].n}

Init ==
  /\ Start
  /\ kind \in {"hdr", "blk"}
  /\ pres \in Recipes(Sources)
  /\ IF kind = "hdr" THEN who \in {<<"k1", "", "">>, <<"k2", "", "">>} ELSE who \in {<<"K1", "u", "1">>, <<"K2", "u", "1">>, <<"K1", "u", "2">>, <<"K1", "v", "1">>}
  /\ res = <<"todo">>

----------------------------------------------------------------------------
(* The mechanism *)

Unit(P, i) == Cut(P, i, i + 1)
Number(x) ==    \* what a unit says when it is read as a length
  IF x = <<>> THEN {}
  ELSE LET y == x[1] IN
    IF y.s \in Heads /\ y.f = 0 THEN {HE - 1}
    ELSE IF y.s \in Heads /\ y.f = 4 THEN {2}
    ELSE 0..HN
Bad == <<"err">>
Decapsulated(enc, k) ==
  LET hs == {h \in Heads : enc = <<Piece(h, 1, HE)>>}
  IN IF hs # {} THEN {IF Sat(keys[k].tree, cts[h].V) THEN heads[h].w ELSE "none" : h \in hs}
     ELSE {"none", "unrelated"}

MetaRead(w, rest) ==
  IF rest = <<>> THEN {<<"ok", w, "", "">>}
  ELSE UNION {IF 2 + m > Size(rest) THEN {Bad}
              ELSE LET hs == {h \in Heads : /\ heads[h].meta /\ heads[h].w = w
                                            /\ Unit(rest, 0) = <<Piece(h, 3, 4)>>
                                            /\ Cut(rest, 2, 2 + m) = <<Piece(h, 5, HN)>>}
                   IN IF hs = {} THEN {Bad} ELSE {<<"ok", w, heads[h].uid, heads[h].ad>> : h \in hs}
              : m \in Number(Unit(rest, 1))}
       \cup (IF Size(rest) < 2 THEN {Bad} ELSE {})

OpenHeader(P, k) ==
  (IF Size(P) < 1 THEN {Bad} ELSE {}) \cup
  UNION {IF 1 + n > Size(P) THEN {Bad}
         ELSE UNION {IF w = "none" THEN {Bad} ELSE MetaRead(w, Cut(P, 1 + n, Size(P)))
                     : w \in Decapsulated(Cut(P, 1, 1 + n), k)}
         : n \in Number(Unit(P, 0))}

OpenBlock(P, q) ==
  LET bs == {b \in Blocks : P = <<Piece(b, 0, BN)>> /\ <<blks[b].key, blks[b].uid, blks[b].num>> = q}
  IN IF bs = {} THEN {Bad} ELSE {<<"ok", b>> : b \in bs}

Next ==
  /\ res = <<"todo">>
  /\ res' \in IF kind = "hdr" THEN OpenHeader(Eval(pres, src), who[1]) ELSE OpenBlock(Eval(pres, src), who)
  /\ UNCHANGED <<kind, pres, who>> /\ UNCHANGED abeVars /\ UNCHANGED hybVars

MSpec == Init /\ [][Next]_<<mvars, abeVars, hybVars>>

Promise ==
  res # <<"todo">> =>
    IF kind = "hdr"
    THEN IF res = Bad THEN HeaderOutcome(Eval(pres, src), who[1], "err", "", "", "")
         ELSE HeaderOutcome(Eval(pres, src), who[1], "ok", res[2], res[3], res[4])
    ELSE IF BlockOpens(Eval(pres, src), who[1], who[2], who[3], 10)
         THEN res # Bad /\ res[2] \in Whole(Eval(pres, src))
         ELSE res = Bad

Written == ~Emit \/ res # <<"todo">> \/ who \notin {<<"k1", "", "">>, <<"K1", "u", "1">>}
           \/ PrintT("@@PRES " \o ToJson([kind |-> kind, pres |-> pres]))

(* uid and block number make up the associated data: the number, of a fixed     *)
(* size, after the uid; two different pairs never give the same bytes           *)
Seqs(n) == [1..n -> {0, 1}]
Uids == UNION {Seqs(n) : n \in 0..4}
ASSUME \A a, b \in Uids : \A m, n \in Seqs(2) : a \o m = b \o n => a = b /\ m = n
=============================================================================
