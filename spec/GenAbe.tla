------------------------------- MODULE GenAbe -------------------------------
(* Random behaviours of Abe, written as the commands that replay them in the  *)
(* real engine together with the outcomes the specification allows.           *)
EXTENDS Abe, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
Profile == IOEnv.PROFILE     \* which actions are frequent

VARIABLE hist
gvars == <<pols, msts, keys, cts, nextm, hist>>

Init == AbeInit /\ hist = <<>>

Emit(c) == hist' = Append(hist, c)

Axes == {"H", "F", "G x"}
Names == {"a", "b", "c", "d"}
Perms == {s \in UNION {[1..n -> Names] : n \in 1..4} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
AttrsOf(p) == DOMAIN pols[p].vals
Anything == {<<x, n>> : x \in Axes \cup {"Z"}, n \in Names \cup {"z"}}
One(S) == {RandomElement(S)}
Chance(n) == RandomElement(1..100) <= n

(* singleton sets: the quantifier that ranges over them fixes the random choice *)
RECURSIVE Tree1(_, _)
Tree1(S, n) ==
  IF n <= 1 \/ Cardinality(S) <= 1
  THEN {<<"attr", a>> : a \in One(S)}
  ELSE UNION {UNION {{<<o, f, g>> : o \in One({"and", "or"}), f \in Tree1(T, n - 1), g \in Tree1(S \ T, n - 1)}
                       : T \in One({T \in SUBSET S : T # {} /\ T # S /\ Cardinality(T) <= 3})}
                : x \in {0}}

RECURSIVE Wild1(_, _)
Wild1(S, n) ==
  IF n <= 1 THEN IF Chance(10) THEN {<<"all">>} ELSE {<<"attr", a>> : a \in One(S)}
  ELSE {<<o, f, g>> : o \in One({"and", "or"}), f \in Wild1(S, n - 1), g \in Wild1(S, RandomElement(1..(n - 1)))}

(* few attributes: SUBSET stays small *)
Few(S) == IF Cardinality(S) <= 5 THEN {S}
          ELSE UNION {UNION {{{a, b, c, d, e} : d \in One(S), e \in One(S)} : c \in One(S)}
                        : <<a, b>> \in {<<x, y>> : x \in One(S), y \in One(S)}}

Policy1(p) ==
  UNION {IF Chance(5) THEN {<<"all">>}
         ELSE IF Chance(IF Profile = "refuse" THEN 40 ELSE 8) THEN Wild1(S \cup One(Anything), 3)
         ELSE UNION {IF Acceptable(pols[p], f) \/ Profile = "refuse" THEN {f}
                     ELSE {<<"attr", a>> : a \in One(S)} : f \in Tree1(S, 4)} : S \in Few(AttrsOf(p))}

RECURSIVE List1(_, _)
List1(S, n) == IF n = 0 THEN {<<>>} ELSE {<<a>> \o r : a \in One(S), r \in List1(S, n - 1)}
AttrList1(p) ==
  IF Chance(IF Profile = "refuse" THEN 25 ELSE 4) THEN List1(AttrsOf(p) \cup One(Anything), 2)
  ELSE List1(AttrsOf(p), RandomElement(1..4))

(* the parent's policy with operands dropped or exchanged *)
RECURSIVE Less1(_)
Less1(t) ==
  IF t[1] = "attr" \/ t[1] = "all" THEN {t}
  ELSE IF t[1] = "or" /\ Chance(40) THEN Less1(t[RandomElement({2, 3})])
  ELSE IF Chance(50) THEN {<<t[1], f, g>> : f \in Less1(t[2]), g \in Less1(t[3])}
  ELSE {<<t[1], g, f>> : f \in Less1(t[2]), g \in Less1(t[3])}

Fresh(base, f) == base \o ToString(Len(hist))
Outcome(b) == IF b THEN "ok" ELSE "err"

GPolicy ==
  \E p \in {"p1", "p2"} \ DOMAIN pols, n \in One(IF Profile = "budget" THEN 1..9 ELSE IF Profile = "rotate" THEN 10..24 ELSE 4..16) :
    NewPolicy(p, n, "ok") /\ Emit([op |-> "policy", p |-> p, max |-> n, res |-> "ok"])

GCopy ==
  \E p \in One(DOMAIN pols) :
    CopyPolicy(p, "q", "ok") /\ Emit([op |-> "copy_policy", p |-> p, q |-> "q", res |-> "ok"])

GAxis ==
  \E p \in One(DOMAIN pols), x \in One(Axes), ns \in One(Perms), h \in One(BOOLEAN) :
    \E r \in {Outcome(CanAddAxis(pols[p], x, ns))} :
      /\ DeclareAxis(p, x, ns, h, r)
      /\ Emit([op |-> "axis", p |-> p, name |-> x, attrs |-> ns, hier |-> h, res |-> r])

GRotate ==
  \E p \in One(DOMAIN pols) :
    \E a \in IF AttrsOf(p) = {} \/ Chance(5) THEN One(Anything) ELSE One(AttrsOf(p)) :
      \E r \in {Outcome(CanRotate(pols[p], a))} :
        RotateAttr(p, a, r) /\ Emit([op |-> "rotate", p |-> p, attr |-> a, res |-> r])

GMaster ==
  \E p \in One(DOMAIN pols), m \in {"m1", "m2"} \ DOMAIN msts :
    /\ NewMaster(m, p, "ok")
    /\ Emit([op |-> "master", m |-> m, p |-> p, res |-> "ok"])

GIssue ==
  \E p \in One({p \in DOMAIN pols : AttrsOf(p) # {}}), m \in One(DOMAIN msts), k \in {Fresh("k", 0)} :
    \E f \in Policy1(p) :
      \E r \in {Outcome(CanIssue(p, m, f))} :
        /\ IssueKey(k, p, m, f, r)
        /\ Emit([op |-> "ukey", k |-> k, p |-> p, m |-> m, ap |-> f, res |-> r])

Hist(k) == hist[CHOOSE i \in DOMAIN hist : "k" \in DOMAIN hist[i] /\ hist[i].op \in {"ukey", "delegate"}
                                            /\ hist[i].k = k]
ParentFormula(k) == Hist(k).ap

GDelegate ==
  \E p \in One({p \in DOMAIN pols : AttrsOf(p) # {}}), m \in One(DOMAIN msts), s \in One(DOMAIN keys),
     k \in {Fresh("d", 0)} :
    \E f \in IF Chance(30) THEN {<<"all">>} ELSE IF Chance(60) THEN Less1(ParentFormula(s)) ELSE Policy1(p) :
      \E r \in {Outcome(CanDelegate(p, m, s, f))} :
        \* a single use policy keeps the number of representatives small
        /\ DelegateKey(k, p, m, s, f, r)
        /\ Emit([op |-> "delegate", k |-> k, p |-> p, m |-> m, src |-> s, ap |-> f, res |-> r])

GEncrypt ==
  \E p \in One({p \in DOMAIN pols : AttrsOf(p) # {}}), m \in One(DOMAIN msts), c \in {Fresh("c", 0)},
     g \in One({"g1", "g2"}) :
    \E as \in AttrList1(p) :
      \E r \in {Outcome(CanEncrypt(p, m, as))} :
        /\ Encrypt(c, p, m, as, g, r)
        /\ Emit([op |-> "encrypt", c |-> c, p |-> p, m |-> m, attrs |-> as, g |-> g, res |-> r])

GDecrypt ==
  \E c \in One(DOMAIN cts), k \in One(DOMAIN keys) :
    \E out \in One(Outcomes(keys[k], cts[c])) :
      /\ Decrypt(c, k, out)
      /\ Emit([op |-> "decrypt", c |-> c, k |-> k, res |-> Outcomes(keys[k], cts[c]), g |-> cts[c].g])

GReload ==
  \E x \in One({[kind |-> "key", id |-> k] : k \in DOMAIN keys}
               \cup {[kind |-> "ct", id |-> c] : c \in DOMAIN cts}
               \cup {[kind |-> d, id |-> m] : d \in {"msk", "mpk", "mdk"}, m \in DOMAIN msts}) :
    Reload(TRUE) /\ Emit([op |-> "reload", kind |-> x.kind, id |-> x.id, res |-> "ok"])

Pick(w) == w      \* weights by profile, out of 100
Weights ==
  CASE Profile = "rotate"   -> [axis |-> 6, rot |-> 22, mst |-> 4, key |-> 16, del |-> 4, enc |-> 22, dec |-> 24, rel |-> 2]
    [] Profile = "delegate" -> [axis |-> 6, rot |-> 5,  mst |-> 4, key |-> 12, del |-> 26, enc |-> 20, dec |-> 25, rel |-> 2]
    [] Profile = "budget"   -> [axis |-> 14, rot |-> 20, mst |-> 6, key |-> 20, del |-> 2, enc |-> 20, dec |-> 16, rel |-> 2]
    [] Profile = "refuse"   -> [axis |-> 10, rot |-> 10, mst |-> 4, key |-> 34, del |-> 10, enc |-> 20, dec |-> 10, rel |-> 2]
    [] Profile = "foreign"  -> [axis |-> 6, rot |-> 5, mst |-> 10, key |-> 20, del |-> 12, enc |-> 20, dec |-> 25, rel |-> 2]
    [] Profile = "reload"   -> [axis |-> 8, rot |-> 8, mst |-> 6, key |-> 14, del |-> 10, enc |-> 14, dec |-> 16, rel |-> 24]
    [] OTHER                -> [axis |-> 8, rot |-> 6, mst |-> 4, key |-> 24, del |-> 4, enc |-> 24, dec |-> 28, rel |-> 2]

Ops == <<"axis", "rot", "mst", "key", "del", "enc", "dec", "rel">>
RECURSIVE Draw(_, _)
Draw(i, n) == IF i = 8 \/ n <= Weights[Ops[i]] THEN Ops[i] ELSE Draw(i + 1, n - Weights[Ops[i]])

HasAttrs == \E p \in DOMAIN pols : AttrsOf(p) # {}
Does(o) ==
  CASE o = "axis" -> IF pols # None /\ Chance(75) THEN GAxis
                     ELSE IF pols # None /\ Chance(40) THEN GCopy
                     ELSE IF {"p1", "p2"} \ DOMAIN pols # {} THEN GPolicy ELSE GAxis
    [] o = "rot"  -> IF HasAttrs THEN GRotate ELSE GAxis
    [] o = "mst"  -> IF {"m1", "m2"} \ DOMAIN msts # {} THEN GMaster ELSE GRotate
    [] o = "key"  -> IF HasAttrs /\ msts # None THEN GIssue ELSE GAxis
    [] o = "del"  -> IF keys # None /\ HasAttrs THEN GDelegate ELSE GAxis
    [] o = "enc"  -> IF HasAttrs /\ msts # None THEN GEncrypt ELSE GAxis
    [] o = "dec"  -> IF keys # None /\ cts # None THEN GDecrypt
                     ELSE IF HasAttrs /\ msts # None THEN GEncrypt ELSE GAxis
    [] o = "rel"  -> IF msts # None THEN GReload ELSE GAxis

Next ==
  /\ Len(hist) < Depth
  /\ IF pols = None THEN GPolicy
     ELSE IF ~HasAttrs THEN GAxis
     ELSE IF Len(hist) >= 3 /\ msts = None THEN GMaster
     ELSE \E n \in One(1..100) : \E o \in {Draw(1, n)} : Does(o)

Spec == Init /\ [][Next]_gvars

(* evaluated once in every state of every behaviour *)
Written == Len(hist) # Depth \/ PrintT("@@HIST " \o ToJson(hist))
=============================================================================
