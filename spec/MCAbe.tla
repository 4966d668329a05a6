------------------------------- MODULE MCAbe -------------------------------
(* Exhaustive exploration of Abe for small constants, with the user's view   *)
(* recorded beside the engine's: what was asked for, in attribute names, and *)
(* the policy as it was at that moment.  The invariants state the guarantees *)
(* in those terms; the engine's state only knows attribute values.           *)
EXTENDS Abe

CONSTANTS MaxKeys, MaxCts, MaxRot, Masters, Focus

VARIABLES kinfo, cinfo, rots
mcVars == <<pols, msts, keys, cts, nextm, kinfo, cinfo, rots>>

Ha == <<"H", "a">>  Hb == <<"H", "b">>  Fx == <<"F", "x">>  Fy == <<"F", "y">>
at(a) == <<"attr", a>>

Policies ==
  {AddAxis(AddAxis(EmptyPolicy(4 + MaxRot), "H", <<"a", "b">>, hh), "F", <<"x", "y">>, ff) :
     hh \in BOOLEAN, ff \in {FALSE}}

KeyFormulas ==
  CASE Focus = "access" ->
         {at(Ha), at(Hb), at(Fx), <<"all">>,
          <<"and", at(Hb), at(Fx)>>, <<"or", at(Ha), at(Fy)>>,
          <<"and", at(Ha), <<"or", at(Fx), at(Fy)>>>>,
          <<"or", <<"and", at(Hb), at(Fx)>>, at(Fy)>>}
    [] Focus = "delegate" ->
         {<<"all">>, <<"or", at(Ha), at(Fx)>>, <<"and", at(Hb), <<"or", at(Fx), at(Fy)>>>>}
    [] OTHER -> {at(Hb), <<"and", at(Ha), at(Fx)>>, <<"or", at(Fx), at(Fy)>>}

ChildFormulas == {<<"all">>, at(Ha), at(Fx), <<"and", at(Ha), at(Fx)>>, <<"or", at(Fx), at(Ha)>>,
                  <<"and", at(Fy), at(Hb)>>}

AttrLists ==
  CASE Focus = "access" -> {<<Ha>>, <<Hb>>, <<Fx>>, <<Fy, Ha>>, <<Hb, Fx>>, <<Fx, Fy>>, <<Fx, Ha, Fx>>}
    [] OTHER -> {<<Ha>>, <<Hb, Fx>>, <<Fx>>, <<Fy, Ha>>}

Count(f) == Cardinality(DOMAIN f)
Nth(i) == <<"1", "2", "3", "4">>[i]
NewKey == Nth(Count(keys) + 1)
NewCt == Nth(Count(cts) + 1)

Init ==
  /\ AbeInit
  /\ kinfo = None /\ cinfo = None /\ rots = 0

Setup ==
  /\ pols = None
  /\ \E p \in Policies : pols' = Put(pols, "p", p)
  /\ UNCHANGED <<msts, keys, cts, nextm, kinfo, cinfo, rots>>

DoMaster ==
  /\ pols # None
  /\ \E m \in Masters : m \notin DOMAIN msts /\ NewMaster(m, "p", "ok")
  /\ UNCHANGED <<kinfo, cinfo, rots>>

DoRotate ==
  /\ pols # None /\ rots < MaxRot
  /\ \E a \in {Ha, Hb, Fx} : RotateAttr("p", a, "ok")
  /\ rots' = rots + 1
  /\ UNCHANGED <<kinfo, cinfo>>

DoIssue ==
  /\ Count(keys) < MaxKeys
  /\ \E m \in DOMAIN msts, f \in KeyFormulas :
       /\ IssueKey(NewKey, "p", m, f, "ok")
       /\ kinfo' = Put(kinfo, NewKey, [how |-> "issued", m |-> m, f |-> f, pol |-> pols["p"], from |-> {}])
  /\ UNCHANGED <<cinfo, rots>>

DoDelegate ==
  /\ Count(keys) < MaxKeys /\ Focus = "delegate"
  /\ \E m \in DOMAIN msts, s \in DOMAIN keys, f \in ChildFormulas :
       /\ kinfo[s].how # "spliced"
       /\ DelegateKey(NewKey, "p", m, s, f, "ok")
       /\ kinfo' = Put(kinfo, NewKey, [how |-> "delegated", m |-> m, f |-> f, pol |-> pols["p"], from |-> {s}])
  /\ UNCHANGED <<cinfo, rots>>

DoRecombine ==
  /\ Count(keys) < MaxKeys /\ Focus = "collude"
  /\ \E S \in SUBSET DOMAIN keys, t \in {<<"any", {1}>>, <<"and", <<"any", {2}>>, <<"any", {3}>>>>} :
       /\ Cardinality(S) >= 2
       /\ \A s \in S : kinfo[s].how # "spliced"
       /\ Recombine(NewKey, S, t, "ok")
       /\ kinfo' = Put(kinfo, NewKey, [how |-> "spliced", m |-> "", f |-> <<"all">>, pol |-> pols["p"], from |-> S])
  /\ UNCHANGED <<cinfo, rots>>

DoEncrypt ==
  /\ Count(cts) < MaxCts
  /\ \E m \in DOMAIN msts, as \in AttrLists :
       /\ Encrypt(NewCt, "p", m, as, NewCt, "ok")
       /\ cinfo' = Put(cinfo, NewCt, [m |-> m, as |-> Rng(as), pol |-> pols["p"]])
  /\ UNCHANGED <<kinfo, rots>>

Next == Setup \/ DoMaster \/ DoRotate \/ DoIssue \/ DoDelegate \/ DoRecombine \/ DoEncrypt
Spec == Init /\ [][Next]_mcVars

----------------------------------------------------------------------------
(* The guarantees, in the user's terms *)

(* the attributes of c that had already reached their encryption-time generation when k was made *)
Shared(k, c) ==
  {a \in cinfo[c].as : Len(cinfo[c].pol.vals[a]) <= Len(kinfo[k].pol.vals[a])}

RECURSIVE NameSat(_, _, _)
NameSat(p, f, as) ==
  CASE f[1] = "attr" -> Covers(p, f[2]) \cap as # {}
    [] f[1] = "all"  -> as # {}
    [] f[1] = "and"  -> NameSat(p, f[2], as) /\ NameSat(p, f[3], as)
    [] f[1] = "or"   -> NameSat(p, f[2], as) \/ NameSat(p, f[3], as)

Issued(k) == kinfo[k].how = "issued"
Reads(k, c) == "msg" \in Outcomes(keys[k], cts[c])
MustRead(k, c) == Outcomes(keys[k], cts[c]) = {"msg"}
Entitled(k, c) == kinfo[k].m = cinfo[c].m /\ NameSat(kinfo[k].pol, kinfo[k].f, Shared(k, c))

(* C01, C03, C04: whoever is entitled reads the message *)
Authorized == \A k \in DOMAIN keys, c \in DOMAIN cts :
                Issued(k) /\ Entitled(k, c) => MustRead(k, c)
(* C02, C03, C04: whoever is not is refused *)
Refused == \A k \in DOMAIN keys, c \in DOMAIN cts :
                Issued(k) /\ kinfo[k].m = cinfo[c].m /\ ~Entitled(k, c)
                  => Outcomes(keys[k], cts[c]) = {"no"}
(* C06: another authority's ciphertexts *)
Foreign == \A k \in DOMAIN keys, c \in DOMAIN cts :
                kinfo[k].how # "spliced" /\ kinfo[k].m # cinfo[c].m => ~Reads(k, c)
(* C04: data encrypted only with attributes rotated after the key was made *)
Revoked == \A k \in DOMAIN keys, c \in DOMAIN cts :
                Issued(k) /\ (\A a \in cinfo[c].as :
                                Len(cinfo[c].pol.vals[a]) > Len(kinfo[k].pol.vals[a]))
                  => ~Reads(k, c)
(* C05: a delegated key never reads more than its parent or its own policy *)
NoAmplification == \A k \in DOMAIN keys, c \in DOMAIN cts :
                kinfo[k].how = "delegated" /\ Reads(k, c) =>
                  /\ \A s \in kinfo[k].from : Reads(s, c)
                  /\ kinfo[k].f = <<"all">> \/ Entitled(k, c)
(* C05: randomizing keeps the rights *)
Randomized == \A k \in DOMAIN keys, c \in DOMAIN cts :
                kinfo[k].how = "delegated" /\ kinfo[k].f = <<"all">>
                /\ (\A s \in kinfo[k].from : kinfo[s].m = kinfo[k].m)
                  => \A s \in kinfo[k].from : Reads(s, c) = Reads(k, c)
(* C06: pooling *)
NoCollusion == \A k \in DOMAIN keys, c \in DOMAIN cts :
                kinfo[k].how = "spliced" /\ Reads(k, c) => \E s \in kinfo[k].from : Reads(s, c)
(* C10 *)
Budget == \A p \in DOMAIN pols :
            /\ AllVals(pols[p]) \subseteq 1..pols[p].max
            /\ \A m \in DOMAIN msts : \A a \in DOMAIN pols[p].vals :
                 CanEncrypt(p, m, <<a>>) /\ CanIssue(p, m, at(a))
            /\ \A a, b \in DOMAIN pols[p].vals : a # b => Rng(pols[p].vals[a]) \cap Rng(pols[p].vals[b]) = {}

(* C11: what is accepted, leaf by leaf: names the policy knows, no "all" inside, and no two *)
(* leaves granting an attribute in common                                                 *)
RECURSIVE LeavesOf(_)
LeavesOf(f) == IF f[1] \in {"attr", "all"} THEN <<f>> ELSE LeavesOf(f[2]) \o LeavesOf(f[3])
Odd == {<<"all">>, at(Ha), at(Hb), at(Fx), at(<<"H", "x">>), at(<<"G", "a">>)}
Two == Odd \cup {<<o, x, y>> : o \in {"and", "or"}, x \in Odd, y \in Odd}
Asked == Two \cup {<<"and", x, y>> : x \in Two \ Odd, y \in {at(Fy), at(Ha), <<"all">>}}
Admission == keys = None /\ cts = None => \A p \in DOMAIN pols, m \in DOMAIN msts :
   /\ \A f \in Asked :
        LET ls == LeavesOf(f) IN
        CanIssue(p, m, f) <=>
          \/ f = <<"all">>
          \/ /\ \A i \in DOMAIN ls : ls[i][1] = "attr" /\ \E a \in {Ha, Hb, Fx, Fy} : ls[i][2] = a
             /\ \A i, j \in DOMAIN ls : i # j => Covers(pols[p], ls[i][2]) \cap Covers(pols[p], ls[j][2]) = {}
   /\ \A as \in {<<>>, <<Fx>>, <<Fx, Ha>>, <<Fx, <<"H", "x">>>>, <<<<"G", "a">>, Fx>>} :
        CanEncrypt(p, m, as) <=> \A i \in DOMAIN as : as[i] \in {Ha, Hb, Fx, Fy}

(* what could be read stays readable, what could not stays unreadable *)
Stable == [][\A k \in DOMAIN keys, c \in DOMAIN cts :
               /\ k \in DOMAIN keys' /\ c \in DOMAIN cts'
               /\ Outcomes(keys[k], cts[c]) = Outcomes(keys'[k], cts'[c])]_mcVars
=============================================================================
