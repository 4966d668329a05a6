------------------------------- MODULE FfiErr -------------------------------
(* The last error of each thread.  Messages are strings of hexadecimal digits, *)
(* two for each byte; "" is no message.                                        *)
EXTENDS Integers, Sequences

CONSTANT Threads

VARIABLE slot       \* thread -> the message of its last failing call not yet read

ErrInit == slot = [t \in Threads |-> ""]

(* a thread begins: nobody's message is there *)
Start(t) == slot' = [slot EXCEPT ![t] = ""]

Fail(t, m) == m # "" /\ slot' = [slot EXCEPT ![t] = m]
Succeed(t) == UNCHANGED slot

Bytes(m) == Len(m) \div 2
Cut(m, cap) == IF Bytes(m) <= cap - 1 THEN Bytes(m) ELSE cap - 1

(* a buffer of cap >= 1 bytes got len bytes and a zero *)
Read(t, cap, len, got, zero) ==
  /\ len = Cut(slot[t], cap) /\ got = SubSeq(slot[t], 1, 2 * len) /\ zero
  /\ slot' = [slot EXCEPT ![t] = ""]

(* a read without a buffer reads nothing *)
NoRead(t) == UNCHANGED slot
=============================================================================
