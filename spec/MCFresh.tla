------------------------------ MODULE MCFresh -------------------------------
(* Ways of drawing randomness, against the promise that no draw ever comes     *)
(* twice: not in another operation, on another thread, after the objects were  *)
(* saved and a new process loaded them, nor within one operation.              *)
(*                                                                             *)
(* "fresh" a generator seeded from entropy for every operation; "thread" one   *)
(* per thread; "locked" one for the process.  The others break the promise:    *)
(* "racy" one for the process, read and advanced in two steps; "constant" the  *)
(* same seed in every process; "forked" a thread starts with a copy of the     *)
(* process' generator; "derived" seeded from the operation's inputs; "copied"  *)
(* one draw for all components; "stored" the generator's state is saved with   *)
(* the objects.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Design, Threads, Ops, Depth, Emit

Wants(o) == IF o = "msg" THEN 1 ELSE 2       \* components drawn

VARIABLES entropy,     \* seeds handed out so far
          gen,         \* where a generator lives -> <<seed, draws made>>
          busy,        \* thread -> what it read and is about to use
          saved,       \* a generator saved with the objects
          drawn,       \* all draws, in order
          hist
vars == <<entropy, gen, busy, saved, drawn, hist>>

Nobody == [op |-> "", at |-> <<0, 0>>]
Init == /\ entropy = 0 /\ gen = << >> /\ busy = [t \in Threads |-> Nobody] /\ saved = << >> /\ drawn = <<>> /\ hist = <<>>

Place(t) == IF Design \in {"thread", "constant", "forked"} THEN <<"thread", t>> ELSE <<"process">>
Draws(g, n) == IF Design = "copied" THEN [i \in 1..n |-> <<g[1], g[2] + 1>>] ELSE [i \in 1..n |-> <<g[1], g[2] + i>>]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* the generator an operation uses, and whether it took entropy *)
Source(t, o, same) ==
  CASE Design \in {"fresh", "copied"} -> <<<<entropy + 1, 0>>, TRUE>>
    [] Design = "derived" -> IF same THEN <<<<o, 0>>, FALSE>> ELSE <<<<o \o ToString(entropy + 1), 0>>, TRUE>>
    [] Place(t) \in DOMAIN gen -> <<gen[Place(t)], FALSE>>
    [] Design = "constant" -> <<<<0, 0>>, FALSE>>
    [] Design = "forked" /\ <<"process">> \in DOMAIN gen -> <<gen[<<"process">>], FALSE>>
    [] Design = "stored" /\ <<"process">> \in DOMAIN saved -> <<saved[<<"process">>], FALSE>>
    [] OTHER -> <<<<entropy + 1, 0>>, TRUE>>

After(t, g, n) == Set(Set(gen, Place(t), <<g[1], g[2] + n>>), <<"process">>,
                      IF Design = "forked" /\ <<"process">> \in DOMAIN gen THEN gen[<<"process">>] ELSE <<g[1], g[2] + n>>)

Operate(t, o, same) ==
  /\ busy[t] = Nobody
  /\ LET s == Source(t, o, same)
         n == Wants(o)
     IN /\ entropy' = IF s[2] THEN entropy + 1 ELSE entropy
        /\ IF Design = "racy"
           THEN /\ busy' = [busy EXCEPT ![t] = [op |-> o, at |-> s[1]]]
                /\ gen' = IF Place(t) \in DOMAIN gen THEN gen ELSE Set(gen, Place(t), s[1])
                /\ UNCHANGED drawn
           ELSE /\ gen' = IF Design \in {"fresh", "derived", "copied"} THEN gen ELSE After(t, s[1], n)
                /\ drawn' = drawn \o Draws(s[1], n)
                /\ UNCHANGED busy
  /\ UNCHANGED saved
  /\ hist' = Append(hist, [op |-> o, t |-> t, same |-> same])

Finish(t) ==
  /\ busy[t] # Nobody
  /\ drawn' = drawn \o Draws(busy[t].at, Wants(busy[t].op))
  /\ gen' = Set(gen, Place(t), <<busy[t].at[1], busy[t].at[2] + Wants(busy[t].op)>>)
  /\ busy' = [busy EXCEPT ![t] = Nobody]
  /\ UNCHANGED <<entropy, saved, hist>>

Idle == \A t \in Threads : busy[t] = Nobody
Save == /\ Idle /\ hist # <<>> /\ hist[Len(hist)].op \notin {"save", "restart"}
        /\ saved' = IF Design = "stored" THEN gen ELSE saved
        /\ hist' = Append(hist, [op |-> "save", t |-> 0, same |-> FALSE])
        /\ UNCHANGED <<entropy, gen, busy, drawn>>
(* a new process, which loads what was saved *)
Restart == /\ Idle /\ hist # <<>> /\ hist[Len(hist)].op # "restart"
           /\ gen' = << >>
           /\ hist' = Append(hist, [op |-> "restart", t |-> 0, same |-> FALSE])
           /\ UNCHANGED <<entropy, busy, saved, drawn>>

Next == \/ /\ Len(hist) < Depth
           /\ \/ \E t \in Threads, o \in Ops, same \in BOOLEAN : Operate(t, o, same)
              \/ Save \/ Restart
        \/ \E t \in Threads : Finish(t)
Spec == Init /\ [][Next]_vars

Promise == \A i, j \in DOMAIN drawn : drawn[i] = drawn[j] => i = j

Sequences == (Emit /\ Len(hist) = Depth) => PrintT("@@SEQ " \o ToJson(hist))
=============================================================================
