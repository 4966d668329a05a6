----------------------------- MODULE MCFfiCache -----------------------------
(* The design of the handle tables: a counter and a locked map, used by        *)
(* threads in any interleaving, refines FfiCache.  Create reads and advances   *)
(* the counter in one step and inserts in another; a use holds the map while  *)
(* it works.                                                                   *)
EXTENDS FfiCache

CONSTANTS Contents,   \* what caches are made of
          Calls,      \* how many calls are made in all
          Counting,   \* "atomic": as designed; "split", "size": broken designs
          t1, t2, t3, ca, cb

VARIABLES next, map, pc, reg, lock, left
implVars == <<next, map, pc, reg, lock, left>>
mcVars == <<alive, made, pend, next, map, pc, reg, lock, left>>

Handles == 0..(Calls + 1)
K == "enc"      \* the two tables do not interact

MCInit == /\ CacheInit
          /\ next = 0 /\ map = [h \in {} |-> ""] /\ lock = {} /\ left = Calls
          /\ pc = [t \in Threads |-> "idle"]
          /\ reg = [t \in Threads |-> 0]

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Set(t, v) == reg' = [reg EXCEPT ![t] = v]

StartCreate(t) == \E c \in Contents :
  /\ pc[t] = "idle" /\ left > 0 /\ left' = left - 1
  /\ Call(t, ACreate(K, c, TRUE)) /\ Go(t, "take")
  /\ UNCHANGED <<next, map, reg, lock>>

Take(t) ==
  /\ pc[t] = "take"
  /\ CASE Counting = "atomic" -> next' = next + 1 /\ Set(t, next) /\ Go(t, "insert")
       [] Counting = "split"  -> Set(t, next) /\ Go(t, "bump") /\ UNCHANGED next
       [] Counting = "size"   -> Set(t, Cardinality(DOMAIN map)) /\ Go(t, "insert") /\ UNCHANGED next
  /\ UNCHANGED <<map, lock, left, alive, made, pend>>
Bump(t) == /\ pc[t] = "bump" /\ next' = reg[t] + 1 /\ Go(t, "insert")
           /\ UNCHANGED <<map, reg, lock, left, alive, made, pend>>
Insert(t) ==
  /\ pc[t] = "insert" /\ lock = {}
  /\ map' = With(map, reg[t], pend[t].what)
  /\ Inserted(t, reg[t]) /\ Go(t, "return")
  /\ UNCHANGED <<next, reg, lock, left>>
(* another thread may meet the cache before its creator is told of it *)
Return(t) == /\ pc[t] = "return" /\ CreatedDone(t, reg[t]) /\ Go(t, "idle")
             /\ UNCHANGED <<next, map, reg, lock, left>>
(* the broken designs return a handle that was returned before: seen here *)
Clash == \E t \in Threads : pc[t] = "insert" /\ reg[t] \in made[K]

StartUse(t) == \E h \in Handles :
  /\ pc[t] = "idle" /\ left > 0 /\ left' = left - 1
  /\ Call(t, AUse(K, h, Contents)) /\ Set(t, h) /\ Go(t, "read")
  /\ UNCHANGED <<next, map, lock>>
ReadLock(t) == /\ pc[t] = "read" /\ lock' = lock \cup {t} /\ Go(t, "work")
               /\ UNCHANGED <<next, map, reg, left, alive, made, pend>>
Work(t) ==
  /\ pc[t] = "work" /\ lock' = lock \ {t} /\ Go(t, "idle")
  /\ Used(t, UseOf(map, reg[t], Contents))
  /\ UNCHANGED <<next, map, reg, left>>

StartDestroy(t) == \E h \in Handles :
  /\ pc[t] = "idle" /\ left > 0 /\ left' = left - 1
  /\ Call(t, ADestroy(K, h)) /\ Set(t, h) /\ Go(t, "remove")
  /\ UNCHANGED <<next, map, lock>>
Remove(t) ==
  /\ pc[t] = "remove" /\ lock = {}
  /\ map' = Without(map, reg[t])
  /\ Destroyed(t) /\ Go(t, "end")
  /\ UNCHANGED <<next, reg, lock, left>>
End(t) == /\ pc[t] = "end" /\ DestroyedDone(t) /\ Go(t, "idle") /\ UNCHANGED <<next, map, reg, lock, left>>

MCNext == \E t \in Threads : \/ StartCreate(t) \/ Take(t) \/ Bump(t) \/ Insert(t) \/ Return(t)
                             \/ StartUse(t) \/ ReadLock(t) \/ Work(t)
                             \/ StartDestroy(t) \/ Remove(t) \/ End(t)
Sym == Permutations(Threads) \cup Permutations(Contents)
MCSpec == MCInit /\ [][MCNext]_mcVars

(* every answer of the design is one the specification allows *)
Refines == \A t \in Threads :
  /\ pc[t] = "work" => UseOf(map, reg[t], Contents) \in pend[t].may
  /\ pc[t] = "end" => pend[t].done
  /\ pc[t] = "return" => pend[t].done /\ pend[t].h = reg[t]
Unique == ~Clash
(* the design's table is the specification's *)
Same == map = alive[K]

(* the guarantee in words: a handle whose creation ended and whose destruction has not  *)
(* begun gives exactly what it was made of                                               *)
Stable == \A h \in made[K] :
  (h \in DOMAIN alive[K]) \/ \A t \in Threads : pend[t].op = "use" /\ pend[t].h = h => "err" \in pend[t].may
(* nobody waits forever: some thread can always move while one is busy *)
Alive == (\E t \in Threads : pc[t] # "idle") => ENABLED MCNext
=============================================================================
