---------------------------- MODULE ParseTrace ----------------------------
EXTENDS Parse, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Block == IF N <= 64 THEN 1 ELSE N \div 64

VARIABLE i
Init == i \in {j \in 1..N : j % Block = 1 \/ Block = 1}
Next == i < N /\ Block > 1 /\ i % Block # 0 /\ i' = i + 1
Spec == Init /\ [][Next]_i

Good(e) ==
  IF e.op = "show"      \* a formula built directly
  THEN e.res = "ok" /\ e.shown = Show(e.tree)
  ELSE LET r == ParseText(e.chars)
       IN IF r.ok
          THEN e.res = "ok" /\ e.tree = r.t /\ e.shown = Show(r.t) /\ e.msp = SingleUse(r.t)
          ELSE e.res = "err" /\ ~e.msp

Checked == Good(Trace[i]) \/ PrintT("@@REJECT " \o ToJson([line |-> i,
              spec |-> IF Trace[i].op = "show" THEN "show" ELSE ToString(ParseText(Trace[i].chars))]))
=============================================================================
