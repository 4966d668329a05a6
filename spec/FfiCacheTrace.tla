--------------------------- MODULE FfiCacheTrace ----------------------------
(* Histories of calls recorded on several threads, ordered by the tickets      *)
(* taken at their start and end.                                               *)
EXTENDS FfiCache, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLES start, now
vars == <<alive, made, pend, start, now>>

Starts == {i \in 1..N : Trace[i].op = "begin"}

Init == CacheInit /\ start \in Starts /\ now = start + 1

Rng(s) == {s[i] : i \in DOMAIN s}

Step(e) ==
  CASE e.op = "create"  -> Call(e.t, ACreate(e.kind, e.what, e.good))
    [] e.op = "destroy" -> Call(e.t, ADestroy(e.kind, e.h))
    [] e.op = "use"     -> Call(e.t, AUse(e.kind, e.h, Rng(e.fits)))
    [] e.op = "created" -> IF e.res = "ok" THEN Created(e.t, e.h) \/ CreatedDone(e.t, e.h) ELSE e.res = "err" /\ NotCreated(e.t)
    [] e.op = "destroyed" -> e.res = "ok" /\ DestroyedDone(e.t)
    [] e.op = "used"    -> Used(e.t, e.got)
    [] OTHER -> FALSE

Pending == now <= N /\ Trace[now].op # "begin"

(* a destruction only matters just before an answer that can see it: taking it *)
(* any earlier is the same, as answers remember what they may be               *)
Follow == Pending /\ Step(Trace[now]) /\ now' = now + 1 /\ UNCHANGED start
(* and a creation before its end matters only to calls given its handle *)
Ends(t, i) == i > N \/ (Trace[i].op = "created" /\ Trace[i].t = t)
Given(t) == LET i == CHOOSE i \in now..(N + 1) : Ends(t, i) /\ \A j \in now..(i - 1) : ~Ends(t, j)
            IN IF i > N THEN [res |-> "err"] ELSE Trace[i]
Early(t) ==
  /\ pend[t].op = "create" /\ pend[t].good /\ ~pend[t].done
  /\ \E u \in Threads : pend[u].op \in {"use", "destroy"} /\ pend[u].kind = pend[t].kind
                      /\ Given(t).res = "ok" /\ pend[u].h = Given(t).h
  /\ Inserted(t, Given(t).h)
Silent == Pending /\ (\E t \in Threads : Destroyed(t) \/ Early(t)) /\ UNCHANGED <<start, now>>

Next == Follow \/ Silent
Spec == Init /\ [][Next]_vars

(* a history is accepted when its end is reached; which ones are is collected here *)
Reached == (now <= N /\ Trace[now].op # "begin") \/ PrintT("@@DONE " \o ToJson([start |-> start]))
(* how far each history was followed *)
Far == PrintT("@@FAR " \o ToJson([start |-> start, now |-> now]))
=============================================================================
