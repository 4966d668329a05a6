------------------------------ MODULE GenCache ------------------------------
(* Every sequence of calls of one thread up to a length, with the answers the  *)
(* specification wants.  Handles are numbered in the order they were created;  *)
(* a name h stands for the h-th handle created, of either table.               *)
EXTENDS FfiCache, Json, IOUtils

Depth == atoi(IOEnv.DEPTH)
CONSTANT Contents
VARIABLE hist
gvars == <<alive, made, pend, hist>>

Init == CacheInit /\ hist = <<>>
T == CHOOSE t \in Threads : TRUE
NextH(k) == Cardinality(made[k]) + 1
Emit(c) == hist' = Append(hist, c)

(* calls in sequence: a call and its answer in one step *)
Create == \E k \in Kinds, c \in Contents :
  /\ made' = [made EXCEPT ![k] = @ \cup {NextH(k)}]
  /\ alive' = [alive EXCEPT ![k] = With(@, NextH(k), c)]
  /\ Emit([op |-> "create", kind |-> k, what |-> c, good |-> TRUE, h |-> NextH(k)])
CreateBad == \E k \in Kinds :
  /\ Emit([op |-> "create", kind |-> k, what |-> CHOOSE c \in Contents : TRUE, good |-> FALSE, h |-> 0])
  /\ UNCHANGED <<alive, made>>
(* the handle may belong to the other table, be destroyed, or never have been returned *)
Use == \E k \in Kinds, h \in made["enc"] \cup made["dec"] \cup {0}, c \in Contents :
  /\ Emit([op |-> "use", kind |-> k, h |-> h, fits |-> {c}, got |-> UseOf(alive[k], h, {c})])
  /\ UNCHANGED <<alive, made>>
Destroy == \E k \in Kinds, h \in made["enc"] \cup made["dec"] \cup {0} :
  /\ alive' = [alive EXCEPT ![k] = Without(@, h)]
  /\ Emit([op |-> "destroy", kind |-> k, h |-> h])
  /\ UNCHANGED made

Next == Len(hist) < Depth /\ (Create \/ CreateBad \/ Use \/ Destroy) /\ UNCHANGED pend
Spec == Init /\ [][Next]_gvars
Written == Len(hist) # Depth \/ hist[Depth].op # "use" \/ PrintT("@@SEQ " \o ToJson(hist))
=============================================================================
