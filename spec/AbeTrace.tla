------------------------------ MODULE AbeTrace ------------------------------
(* Are recorded histories of the real engine behaviours of Abe?  The file     *)
(* holds many histories, each opened by a "begin" event; each is followed     *)
(* from its own initial state.  An event the specification does not allow is  *)
(* printed and its history abandoned; every other history is still checked.   *)
EXTENDS Abe, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES start, now, dead      \* start of this history, next event, abandoned
vars == <<pols, msts, keys, cts, nextm, start, now, dead>>

Starts == {i \in 1..N : Trace[i].op = "begin"}

Init == AbeInit /\ start \in Starts /\ now = start /\ dead = FALSE

Seen(e) ==
  CASE e.res = "msg" -> IF e.g = cts[e.c].g THEN "msg" ELSE "wrong"
    [] e.res \in {"none", "err"} -> "no"
    [] e.res = "wrong" -> "wrong"
    [] OTHER -> "crash"

(* what can be read when the specification is stricter than the run: see AbeStrict *)
RECURSIVE NodeTree(_)
NodeTree(n) ==      \* a span program shape chosen by an attacker
  IF n[1] = "v" THEN <<"any", {n[2]}>> ELSE <<n[1], NodeTree(n[2]), NodeTree(n[3])>>

Step(e) ==
  CASE e.op = "begin"    -> UNCHANGED abeVars
    [] e.op = "policy"   -> NewPolicy(e.p, e.max, e.res)
    [] e.op = "axis"     -> DeclareAxis(e.p, e.name, e.attrs, e.hier, e.res)
    [] e.op = "rotate"   -> RotateAttr(e.p, e.attr, e.res)
    [] e.op = "declare"  -> DeclareAll(e.p, e.max, e.axes, e.res)
    [] e.op = "rotate_all" -> RotateAll(e.p, e.q, e.attrs, e.res)
    [] e.op = "copy_policy" -> CopyPolicy(e.p, e.q, e.res)
    [] e.op = "master"   -> NewMaster(e.m, e.p, e.res)
    [] e.op = "ukey"     -> IssueKey(e.k, e.p, e.m, e.ap, e.res)
    [] e.op = "delegate" -> DelegateKey(e.k, e.p, e.m, e.src, e.ap, e.res)
    [] e.op = "splice"   -> Recombine(e.k, Rng(e.from), NodeTree(e.shape), e.res)
    [] e.op = "encrypt"  -> Encrypt(e.c, e.p, e.m, e.attrs, e.g, e.res)
    [] e.op = "decrypt"  -> Decrypt(e.c, e.k, Seen(e))
    [] e.op = "reload"   -> Reload(e.res = "ok" /\ e.len /\ e.len2 /\ e.same /\ e.eq)
    [] e.op = "kept"     -> Reload(e.res = "ok" /\ e.same)      \* nothing changes an object
    [] e.op = "policy_load" -> Reload(e.res = "ok")
    [] e.op = "load"     -> Reload(e.res = "ok")    \* bytes saved earlier
    [] e.op = "dump"     -> /\ e.res = "ok"
                            /\ e.last = pols[e.p].last
                            /\ e.max = pols[e.p].max
                            /\ {<<x[1], x[2], x[3]>> : x \in Rng(e.axes)}
                                 = {<<x.name, x.attrs, x.hier>> : x \in Rng(pols[e.p].axes)}
                            /\ {x[1] : x \in Rng(e.vals)} = DOMAIN pols[e.p].vals
                            /\ \A x \in Rng(e.vals) : pols[e.p].vals[x[1]] = x[2]
                            /\ UNCHANGED abeVars

(* what the specification wanted, for the report *)
Want(e) ==
  CASE e.op = "decrypt" ->
         [want |-> Outcomes(keys[e.k], cts[e.c]), key |-> keys[e.k], ct |-> cts[e.c]]
    [] e.op = "ukey" -> [want |-> IF CanIssue(e.p, e.m, e.ap) THEN "ok" ELSE "err",
                         acceptable |-> Acceptable(pols[e.p], e.ap)]
    [] e.op = "delegate" -> [want |-> IF CanDelegate(e.p, e.m, e.src, e.ap) THEN "ok" ELSE "err",
                             acceptable |-> e.ap[1] = "all" \/ Acceptable(pols[e.p], e.ap)]
    [] e.op = "encrypt" -> [want |-> IF CanEncrypt(e.p, e.m, e.attrs) THEN "ok" ELSE "err",
                            known |-> \A i \in DOMAIN e.attrs : Known(pols[e.p], e.attrs[i])]
    [] e.op = "declare" -> [want |-> IF AllAxes(EmptyPolicy(e.max), e.axes)[1] THEN "ok" ELSE "err"]
    [] e.op = "rotate_all" -> [want |-> IF AllRotated(pols[e.p], e.attrs)[1] THEN "ok" ELSE "err"]
    [] e.op = "dump" -> [want |-> "ok", policy |-> pols[e.p]]
    [] OTHER -> [want |-> "ok"]

Pending == ~dead /\ now <= N /\ (Trace[now].op = "begin" => now = start)

Follow ==
  /\ Pending
  /\ Step(Trace[now])
  /\ now' = now + 1
  /\ UNCHANGED <<start, dead>>

Reject ==
  /\ Pending
  /\ ~ENABLED Step(Trace[now])
  /\ PrintT("@@REJECT " \o ToJson([line |-> now, start |-> start, spec |-> ToString(Want(Trace[now]))]))
  /\ dead' = TRUE /\ UNCHANGED <<pols, msts, keys, cts, nextm, start, now>>

Next == Follow \/ Reject
Spec == Init /\ [][Next]_vars

(* reference monitors evaluated on every state of every recorded history *)
TypeOK ==
  /\ \A p \in DOMAIN pols : pols[p].last <= pols[p].max
  /\ \A k \in DOMAIN keys : keys[k].exact => (keys[k].pool = {} /\ keys[k].m <= nextm)

=============================================================================
