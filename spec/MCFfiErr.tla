------------------------------ MODULE MCFfiErr ------------------------------
(* What the library does (a message kept per thread, taken by the read) against *)
(* what is promised, told from the history of calls.  Designs that break the    *)
(* promise: "global" one message for all threads, "first" keeps the oldest,     *)
(* "keep" reading does not take it, "clear" successful calls clear it.          *)
EXTENDS FfiErr, TLC, Json, IOUtils

CONSTANTS Design, Depth, Emit

Messages == {"aa", "bbcc"}
Caps == {1, 2, 3}

VARIABLES mem, hist     \* the library's memory; the calls and answers so far
vars == <<slot, mem, hist>>

At(t) == IF Design = "global" THEN 0 ELSE t
Cells == IF Design = "global" THEN {0} ELSE Threads

Init == ErrInit /\ mem = [c \in Cells |-> ""] /\ hist = <<>>

DoFail(t, m) == /\ Fail(t, m)
                /\ mem' = [mem EXCEPT ![At(t)] = IF Design = "first" /\ @ # "" THEN @ ELSE m]
                /\ hist' = Append(hist, [op |-> "fail", t |-> t, m |-> m])
DoOk(t) == /\ Succeed(t)
           /\ mem' = IF Design = "clear" THEN [mem EXCEPT ![At(t)] = ""] ELSE mem
           /\ hist' = Append(hist, [op |-> "ok", t |-> t])
DoNoRead(t) == NoRead(t) /\ UNCHANGED mem /\ hist' = Append(hist, [op |-> "noread", t |-> t])
DoRead(t, cap) ==
  LET m == mem[At(t)]
      n == Cut(m, cap)
  IN /\ hist' = Append(hist, [op |-> "read", t |-> t, cap |-> cap, got |-> SubSeq(m, 1, 2 * n)])
     /\ mem' = [mem EXCEPT ![At(t)] = IF Design = "keep" THEN @ ELSE ""]
     /\ slot' = [slot EXCEPT ![t] = ""]

Next == /\ Len(hist) < Depth
        /\ \E t \in Threads : \/ \E m \in Messages : DoFail(t, m)
                              \/ DoOk(t) \/ DoNoRead(t)
                              \/ \E c \in Caps : DoRead(t, c)
Spec == Init /\ [][Next]_vars

(* the promise: a read gives the start of the last failure of its thread since its previous read *)
Since(k) == LET t == hist[k].t
                before == {j \in 1..(k - 1) : hist[j].t = t /\ hist[j].op \in {"fail", "read"}}
                l == CHOOSE j \in before : \A x \in before : x <= j
            IN IF before = {} \/ hist[l].op = "read" THEN "" ELSE hist[l].m
Promise == \A k \in DOMAIN hist : hist[k].op = "read" =>
             hist[k].got = SubSeq(Since(k), 1, 2 * Cut(Since(k), hist[k].cap))
Same == Design = "" => mem = slot

Sequences == (Emit /\ Len(hist) = Depth) =>
  PrintT("@@SEQ " \o ToJson([k \in DOMAIN hist |-> [op |-> hist[k].op, t |-> hist[k].t,
     m |-> IF hist[k].op = "fail" THEN Len(hist[k].m) ELSE IF hist[k].op = "read" THEN hist[k].cap ELSE 0]]))
=============================================================================
