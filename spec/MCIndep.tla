------------------------------ MODULE MCIndep -------------------------------
(* Calls that write different names do not affect one another: from any state *)
(* (reached by a few calls) two such calls have the same outcomes and lead to *)
(* the same state in either order.  By induction the calls of one thread,     *)
(* which writes names of its own and reads names everyone has, follow the     *)
(* common preparation as if it were alone: this is how histories of several   *)
(* threads on the same objects are judged, thread by thread (checks/indep.py).*)
(* Two copies of the engine run side by side.                                 *)
EXTENDS Access, TLC

CONSTANTS Depth,    \* calls before the pair
          Shared    \* FALSE: the real engine.  TRUE: a broken one, see below

VARIABLES p1, ms1, k1, c1, n1,  p2, ms2, k2, c2, n2,  phase, pre, a, b, out, memo1, memo2
vars == <<p1, ms1, k1, c1, n1, p2, ms2, k2, c2, n2, phase, pre, a, b, out, memo1, memo2>>

W1 == INSTANCE Abe WITH pols <- p1, msts <- ms1, keys <- k1, cts <- c1, nextm <- n1, OrToAndExact <- TRUE
W2 == INSTANCE Abe WITH pols <- p2, msts <- ms2, keys <- k2, cts <- c2, nextm <- n2, OrToAndExact <- TRUE

at(x) == <<"attr", x>>
Ha == <<"H", "a">>  Hb == <<"H", "b">>  Fx == <<"F", "x">>  Fz == <<"F", "z">>
Base == AddAxis(AddAxis(EmptyPolicy(4), "H", <<"a", "b">>, TRUE), "F", <<"x">>, FALSE)

Ops(t) ==      \* what thread t may do; its names end in t
  LET own == {"p", t} IN
  {[op |-> "copy", p |-> "p", q |-> t, r |-> {"p"}, w |-> t]}
  \cup {[op |-> "rotate", p |-> t, x |-> x, r |-> {t}, w |-> t] : x \in {Ha, Fx, Fz}}
  \cup {[op |-> "master", p |-> p, m |-> "m" \o t, r |-> {p}, w |-> "m" \o t] : p \in own}
  \cup {[op |-> "ukey", p |-> p, m |-> "m", k |-> "k" \o t, f |-> f, r |-> {p, "m"}, w |-> "k" \o t] : p \in own,
           f \in {at(Ha), <<"and", at(Hb), at(Fx)>>, <<"or", at(Ha), at(Hb)>>, <<"all">>, at(Fz)}}
  \cup {[op |-> "delegate", p |-> p, m |-> "m", k |-> "d" \o t, s |-> "k", f |-> f, r |-> {p, "m", "k"}, w |-> "d" \o t] : p \in own,
           f \in {at(Ha), at(Fx), <<"all">>}}
  \cup {[op |-> "encrypt", p |-> p, m |-> "m", c |-> "c" \o t, l |-> l, r |-> {p, "m"}, w |-> "c" \o t] : p \in own,
           l \in {<<Ha>>, <<Fx, Hb>>, <<Fz>>}}
  \cup {[op |-> "decrypt", c |-> c, k |-> k, r |-> {c, k}, w |-> ""] : c \in {"c", "c" \o t}, k \in {"k", "k" \o t, "d" \o t}}

Able1(o) == CASE o.op = "decrypt" -> o.c \in DOMAIN c1 /\ o.k \in DOMAIN k1
              [] o.op = "delegate" -> o.s \in DOMAIN k1 /\ o.p \in DOMAIN p1
              [] OTHER -> o.p \in DOMAIN p1

Do1(o, r) ==
  CASE o.op = "copy"     -> W1!CopyPolicy(o.p, o.q, r)
    [] o.op = "rotate"   -> W1!RotateAttr(o.p, o.x, r)
    [] o.op = "master"   -> W1!NewMaster(o.m, o.p, r)
    [] o.op = "ukey"     -> W1!IssueKey(o.k, o.p, o.m, o.f, r)
    [] o.op = "delegate" -> W1!DelegateKey(o.k, o.p, o.m, o.s, o.f, r)
    [] o.op = "encrypt"  -> W1!Encrypt(o.c, o.p, o.m, o.l, "g", r)
    [] o.op = "decrypt"  -> W1!Decrypt(o.c, o.k, r)
Do2(o, r) ==
  CASE o.op = "copy"     -> W2!CopyPolicy(o.p, o.q, r)
    [] o.op = "rotate"   -> W2!RotateAttr(o.p, o.x, r)
    [] o.op = "master"   -> W2!NewMaster(o.m, o.p, r)
    [] o.op = "ukey"     -> W2!IssueKey(o.k, o.p, o.m, o.f, r)
    [] o.op = "delegate" -> W2!DelegateKey(o.k, o.p, o.m, o.s, o.f, r)
    [] o.op = "encrypt"  -> W2!Encrypt(o.c, o.p, o.m, o.l, "g", r)
    [] o.op = "decrypt"  -> W2!Decrypt(o.c, o.k, r)

Res == {"ok", "err", "msg", "no", "wrong"}

(* A broken engine remembers, per list of attribute names, what the last       *)
(* encryption for it gave, and answers the next one from memory, whatever the  *)
(* policy: the memory is the hidden state that the property excludes.          *)
Recall(o, m) == IF Shared /\ o.op = "encrypt" /\ o.l \in DOMAIN m THEN {m[o.l]} ELSE Res
Learn(o, r, m) == IF Shared /\ o.op = "encrypt" THEN [l \in DOMAIN m \cup {o.l} |-> IF l = o.l THEN r ELSE m[l]] ELSE m
(* the outcome of the memory where it differs from the right one *)
Stale(o, m) == Shared /\ o.op = "encrypt" /\ o.l \in DOMAIN m
Run1(o, r) == /\ IF Stale(o, memo1) THEN r = memo1[o.l] /\ UNCHANGED <<p1, ms1, k1, c1, n1>> ELSE Do1(o, r)
              /\ memo1' = Learn(o, r, memo1)
Run2(o, r) == /\ IF Stale(o, memo2) THEN r = memo2[o.l] /\ UNCHANGED <<p2, ms2, k2, c2, n2>> ELSE Do2(o, r)
              /\ memo2' = Learn(o, r, memo2)

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
None == [x \in {} |-> 0]
Nil == [op |-> "nil"]

Init ==
  LET pols == Put(None, "p", Base)
      msts == Put(None, "m", [id |-> 1, size |-> 4])
      key == [m |-> 1, tree |-> Tree(Base, <<"or", at(Ha), at(Fx)>>), ups |-> {}, exact |-> TRUE, pool |-> {}]
      ct == [m |-> 1, g |-> "g", V |-> {Current(Base, Ha)}]
  IN /\ p1 = pols /\ p2 = pols /\ ms1 = msts /\ ms2 = msts /\ n1 = 1 /\ n2 = 1
     /\ k1 = Put(None, "k", key) /\ k2 = Put(None, "k", key)
     /\ c1 = Put(None, "c", ct) /\ c2 = Put(None, "c", ct)
     /\ phase = "pre" /\ pre = 0 /\ a = Nil /\ b = Nil /\ out = <<>> /\ memo1 = None /\ memo2 = None

(* the same calls in both copies *)
Prefix == /\ phase = "pre" /\ pre < Depth /\ pre' = pre + 1
          /\ \E t \in {"A", "B"} : \E o \in Ops(t), r \in Res :
               Able1(o) /\ o.op # "decrypt" /\ Run1(o, r) /\ Run2(o, r)
          /\ UNCHANGED <<phase, a, b, out>>

(* thread A's call first here, thread B's first there *)
First == /\ phase = "pre" /\ phase' = "first"
         /\ \E x \in Ops("A"), y \in Ops("B") :
              /\ Able1(x) /\ Able1(y) /\ ~(x.op = "master" /\ y.op = "master")      \* authorities are numbered
              /\ a' = x /\ b' = y
              /\ \E r, s \in Res : Run1(x, r) /\ Run2(y, s) /\ out' = <<r, s>>
         /\ UNCHANGED pre
Second == /\ phase = "first" /\ phase' = "second"
          /\ \E r, s \in Res : Run1(b, s) /\ Run2(a, r) /\ out' = out \o <<r, s>>
          /\ UNCHANGED <<pre, a, b>>

Next == Prefix \/ First \/ Second
Spec == Init /\ [][Next]_vars

TypeOK == phase = "first" => a.w \notin b.r /\ b.w \notin a.r
(* outcomes: <<a alone first, b alone first, a after b, b after a>> *)
Independent == phase = "second" => /\ out[1] = out[3] /\ out[2] = out[4]
                                   /\ <<p1, ms1, k1, c1, n1>> = <<p2, ms2, k2, c2, n2>>
(* nothing a thread does changes what another one wrote *)
Untouched == /\ p1["p"] = Base /\ ms1["m"] = [id |-> 1, size |-> 4] /\ Cardinality(c1["c"].V) = 1
(* the second calls are possible *)
NeverStuck == phase = "first" => ENABLED Second
=============================================================================
