----------------------------- MODULE FreshTrace -----------------------------
(* Histories of operations that draw random numbers, in the transparent group  *)
(* of order 2^61 - 1, and byte strings drawn elsewhere.                        *)
EXTENDS Fresh, Json, IOUtils

Mersenne61 == <<8191, 8191, 8191, 8191, 511>>

VARIABLES now, bad
vars == <<near, bytes, secrets, now, bad>>

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Starts == {i \in 1..N : Trace[i].op = "begin"}

Init == FreshInit /\ now \in Starts /\ bad = FALSE

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Of(kind) == IF kind \in DOMAIN bytes THEN bytes[kind] ELSE {}

(* what is judged true of an event beyond its draws; the numbers drawn; kinds and bytes drawn *)
Claim(e) ==
  CASE e.op = "ukey" -> e.u = <<>> \/ Cut(secrets[e.m].t, e.rows, e.matrix, e.d, e.u, secrets[e.m].y)
    [] e.op = "delegate" -> e.u = <<>> \/ Cut(secrets[e.m].t, e.rows, e.matrix, [i \in DOMAIN e.d |-> Sub(e.d[i], e.from[i])], e.u, Zero)
    [] e.op = "encrypt" -> Hides(secrets[e.m].t, secrets[e.m].y, e.attrs, e.e, e.ep, e.s, e.g)
    [] OTHER -> TRUE
Numbers(e) ==
  CASE e.op = "master" -> e.t \o <<e.y>>
    [] e.op = "ukey" -> IF e.u = <<>> THEN <<>> ELSE Shares(e.u, secrets[e.m].y)
    [] e.op = "delegate" -> IF e.u = <<>> THEN <<>> ELSE Shares(e.u, Zero)
    [] e.op = "encrypt" -> IF e.given THEN <<e.s>> ELSE <<e.s, e.g>>
    [] e.op = "msg" -> <<e.g>>
    [] OTHER -> <<>>
Related(e) == IF e.op \in {"ukey", "delegate"} THEN FirstOf(Numbers(e), IF Len(e.u) > 24 THEN 16 ELSE Len(e.u) - 1) ELSE FirstOf(Numbers(e), 4)

(* everything drawn anywhere in the run: each string once *)
Once(l) == Cardinality(Range(l)) = Len(l)

(* many strings of one kind: every bit takes both values (but for the unused ones of the last or first byte), *)
(* every byte many, no byte repeats another                                                                    *)
Bit(x, b) == (x \div 2^b) % 2
Spread(e) ==
  LET n == Len(e.w[1])
  IN \A i \in 1..n :
       /\ \A b \in 0..7 : (i = e.odd /\ b >= e.bits) \/ {Bit(e.w[k][i], b) : k \in DOMAIN e.w} = {0, 1}
       /\ Cardinality({e.w[k][i] : k \in DOMAIN e.w}) >= e.least
       /\ \A j \in 1..(i - 1) : \E k \in DOMAIN e.w : e.w[k][i] # e.w[k][j]

(* no six bytes of a secret in what is sent (hexadecimal) *)
Windows(w) == {SubSeq(w, 2 * i - 1, 2 * i + 10) : i \in 1..((Len(w) \div 2) - 5)}
Apart(e) == \A i \in DOMAIN e.w : Windows(e.w[i][1]) \cap Windows(e.w[i][2]) = {}

Whole(e) == CASE e.op = "apart" -> Apart(e)
              [] e.op = "pool" -> Once(e.w)
              [] e.op = "spread" -> Spread(e)
              [] e.op = "bytes" -> Once(e.w) /\ Range(e.w) \cap Of(e.kind) = {}
              [] OTHER -> TRUE

More == now < N /\ Trace[now + 1].op # "begin"
Next ==
  /\ More /\ ~bad
  /\ now' = now + 1
  /\ LET e == Trace[now + 1]
         l == TLCEval(Numbers(e))
         d == Drawn(l)
         ok == TLCEval(d.ok /\ Claim(e) /\ Unrelated(Related(e)) /\ Whole(e))
     IN /\ bad' = ~ok
        /\ near' = d.near
        /\ bytes' = IF e.op = "bytes" THEN Put(bytes, e.kind, Of(e.kind) \cup Range(e.w)) ELSE bytes
        /\ secrets' = IF e.op = "master" THEN Put(secrets, e.m, [t |-> e.t, y |-> e.y]) ELSE secrets
Spec == Init /\ [][Next]_vars

Followed == bad => PrintT("@@REJECT " \o ToJson([line |-> now]))
=============================================================================
