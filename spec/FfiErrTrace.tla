----------------------------- MODULE FfiErrTrace ----------------------------
EXTENDS FfiErr, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)

VARIABLE now
vars == <<slot, now>>

Starts == {i \in 1..N : Trace[i].op = "begin"}
Init == ErrInit /\ now \in Starts

Step(e) ==
  CASE e.op = "start"  -> Start(e.t)
    [] e.op = "fail"   -> Fail(e.t, e.m)
    [] e.op = "ok"     -> Succeed(e.t)
    [] e.op = "noread" -> NoRead(e.t)
    [] e.op = "read"   -> Read(e.t, e.cap, e.len, e.got, e.zero)
    [] OTHER -> FALSE

More == now < N /\ Trace[now + 1].op # "begin"
Next == More /\ Step(Trace[now + 1]) /\ now' = now + 1
Spec == Init /\ [][Next]_vars

Followed == ~More \/ ENABLED Next \/ PrintT("@@REJECT " \o ToJson([line |-> now + 1,
   spec |-> IF Trace[now + 1].op = "read" THEN "the " \o ToString(Cut(slot[Trace[now + 1].t], Trace[now + 1].cap)) \o " bytes " \o slot[Trace[now + 1].t] ELSE "an error message"]))
=============================================================================
