------------------------------- MODULE FfiBuf -------------------------------
(* What a call that fills caller buffers may do with them.  A call has outputs *)
(* in order; of each, what the caller gave (size, missing pointers) and what   *)
(* the result needs.                                                           *)
EXTENDS Integers, Sequences, FiniteSets

(* given: [cap, null, nolen, opt] -- opt: leaving this output away asks for no data *)
Missing(o) == o.null \/ o.nolen \/ o.cap = 0
Wanted(o) == ~(o.opt /\ Missing(o))

(* inputs: "ok", "void" (a null pointer or nothing where data is required), "bad" (refused content) *)
Misused(in, outs) == in = "void" \/ \E i \in DOMAIN outs : ~outs[i].opt /\ (outs[i].null \/ outs[i].nolen)
Empty(outs) == \E i \in DOMAIN outs : ~outs[i].opt /\ ~outs[i].null /\ ~outs[i].nolen /\ outs[i].cap = 0
Small(outs, need) == {i \in DOMAIN outs : Wanted(outs[i]) /\ outs[i].cap < need[i]}

(* seen: [rc, out], of each output [len, over, touched, tail]: the reported length, whether anything  *)
(* was written beyond the given size, how far it was written, whether beyond the reported length     *)
Untouched(o, r) == r.len = o.cap /\ r.touched = 0
NoOverrun(outs, seen) == \A i \in DOMAIN outs : ~seen.out[i].over /\ seen.out[i].touched <= outs[i].cap

Refused(outs, seen) == seen.rc # 0 /\ \A i \in DOMAIN outs : Untouched(outs[i], seen.out[i])

(* too small: at least one length that is needed is reported, and lengths are only ever needed ones *)
Reports(outs, need, seen) ==
  /\ seen.rc # 0
  /\ \E i \in Small(outs, need) : seen.out[i].len = need[i]
  /\ \A i \in DOMAIN outs : seen.out[i].len \in {outs[i].cap, need[i]}

Filled(outs, need, seen) ==
  /\ seen.rc = 0
  /\ \A i \in DOMAIN outs :
       IF Wanted(outs[i]) THEN /\ seen.out[i].len = need[i]
                               /\ ~seen.out[i].tail /\ seen.out[i].right
       ELSE seen.out[i].touched = 0

Allowed(in, outs, need, seen) ==
  /\ NoOverrun(outs, seen)
  /\ IF Misused(in, outs) THEN Refused(outs, seen)
     ELSE IF in = "bad" THEN seen.rc # 0
     ELSE IF Empty(outs) THEN seen.rc # 0 /\ \A i \in DOMAIN outs : seen.out[i].len \in {outs[i].cap, need[i]}
     ELSE IF Small(outs, need) # {} THEN Reports(outs, need, seen)
     ELSE Filled(outs, need, seen)

(* the caller's retry: give at least the lengths reported *)
Retry(outs, seen) == [i \in DOMAIN outs |-> [outs[i] EXCEPT !.cap = IF seen.out[i].len > @ THEN seen.out[i].len ELSE @]]
=============================================================================
