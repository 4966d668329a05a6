------------------------------ MODULE MCFfiBuf ------------------------------
(* Any answers the specification allows lead a caller who gives what was       *)
(* reported to success; and a function writing its outputs one after the other *)
(* is allowed.                                                                 *)
EXTENDS FfiBuf, TLC

CONSTANTS MaxOuts, MaxNeed, Broken   \* Broken: "", "offbyone", "silent", "overrun"

Caps == 0..(MaxNeed + 1)
OutGiven == [cap : Caps, null : BOOLEAN, nolen : BOOLEAN, opt : BOOLEAN]

VARIABLES outs, need, in, calls, seen
vars == <<outs, need, in, calls, seen>>

None == [rc |-> -1]
Init == /\ \E n \in 1..MaxOuts : /\ outs \in [1..n -> OutGiven]
                                 /\ need \in [1..n -> (0..MaxNeed)]
        /\ ~outs[1].opt /\ need[1] > 0
        /\ \A i \in DOMAIN outs : outs[i].null => outs[i].cap = 1 /\ ~outs[i].nolen
        /\ in \in {"ok", "void", "bad"} /\ calls = 0 /\ seen = None

(* the implementation: checks, then outputs in order, each reporting its length first *)
Blank(o) == [len |-> o.cap, over |-> FALSE, touched |-> 0, tail |-> FALSE, right |-> FALSE]
Put(o, n) == [len |-> n, over |-> FALSE, touched |-> n, tail |-> FALSE, right |-> TRUE]
Late(o, n) == [len |-> CASE Broken = "offbyone" -> n - 1 [] Broken = "silent" -> o.cap [] OTHER -> n,
               over |-> Broken = "overrun", touched |-> IF Broken = "overrun" THEN o.cap ELSE 0, tail |-> FALSE, right |-> FALSE]
Impl == LET sm == Small(outs, need)
            f == IF sm = {} THEN 0 ELSE CHOOSE i \in sm : \A j \in sm : i <= j
        IN IF Misused(in, outs) \/ in = "bad" \/ Empty(outs)
           THEN [rc |-> 1, out |-> [i \in DOMAIN outs |-> Blank(outs[i])]]
           ELSE [rc |-> IF f = 0 THEN 0 ELSE 1,
                 out |-> [i \in DOMAIN outs |->
                    IF ~Wanted(outs[i]) THEN Blank(outs[i])
                    ELSE IF f = 0 \/ i < f THEN Put(outs[i], need[i])
                    ELSE IF i = f THEN Late(outs[i], need[i]) ELSE Blank(outs[i])]]

(* what any allowed implementation may show, as far as the retry can see it *)
Shown == [rc : {0, 1}, out : [DOMAIN outs -> [len : 0..MaxNeed + 1, over : {FALSE}, touched : {0}, tail : {FALSE}, right : {TRUE}]]]

Start == calls = 0 /\ calls' = 1 /\ seen' \in {s \in Shown : Allowed(in, outs, need, s)} /\ UNCHANGED <<outs, need, in>>
(* only lengths that are really needed make the caller try again *)
Again == /\ calls > 0 /\ seen.rc # 0 /\ in = "ok" /\ ~Misused(in, outs) /\ ~Empty(outs)
         /\ outs' = Retry(outs, seen)
         /\ calls' = calls + 1
         /\ seen' \in {s \in Shown : Allowed(in, outs', need, s)}
         /\ UNCHANGED <<need, in>>
Next == Start \/ Again
Spec == Init /\ [][Next]_vars

ImplAllowed == Allowed(in, outs, need, Impl)
(* every retry gives something more: success after at most one more call than there are outputs *)
Progress == (calls > 0 /\ seen.rc # 0 /\ in = "ok" /\ ~Misused(in, outs) /\ ~Empty(outs)) => Retry(outs, seen) # outs
Ends == calls <= Len(outs) + 1
=============================================================================
