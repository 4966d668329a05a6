------------------------------ MODULE FfiCache ------------------------------
(* The handle tables of the interfaces: encryption caches and decryption       *)
(* caches, created, used and destroyed by several threads.  A call takes      *)
(* effect at one moment between its start and its end.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Threads

VARIABLES
  alive,   \* kind -> (handle -> what it was made of)
  made,    \* kind -> handles returned so far
  pend     \* thread -> the call it is in, or Idle
cacheVars == <<alive, made, pend>>

Kinds == {"enc", "dec"}
Idle == [op |-> "idle"]

CacheInit == /\ alive = [k \in Kinds |-> [h \in {} |-> ""]]
             /\ made = [k \in Kinds |-> {}]
             /\ pend = [t \in Threads |-> Idle]

Without(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
With(f, h, c) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN c ELSE f[x]]

(* what using a handle gives: fits: the contents this use works with; got: the   *)
(* content that was seen at work, or "err"                                       *)
UseOf(tab, h, fits) ==
  IF h \in DOMAIN tab /\ tab[h] \in fits THEN tab[h] ELSE "err"

(* a pending use may take its answer from the table as it is now *)
Look(pe, al) ==
  [t \in Threads |->
    IF pe[t].op = "use" THEN [pe[t] EXCEPT !.may = @ \cup {UseOf(al[pe[t].kind], pe[t].h, pe[t].fits)}]
    ELSE pe[t]]

Call(t, c) ==
  /\ pend[t] = Idle
  /\ pend' = Look([pend EXCEPT ![t] = c], alive)
  /\ UNCHANGED <<alive, made>>

(* a destruction happens some time after it was asked *)
Destroyed(t) ==
  /\ pend[t].op = "destroy" /\ ~pend[t].done
  /\ alive' = [alive EXCEPT ![pend[t].kind] = Without(@, pend[t].h)]
  /\ pend' = Look([pend EXCEPT ![t].done = TRUE], alive')
  /\ UNCHANGED made

Answered(t) == pend' = [pend EXCEPT ![t] = Idle]

(* a creation takes effect some time before it ends: nobody was told the handle  *)
(* yet, but a call given that number by chance, or for a handle of the other     *)
(* table, meets the cache already                                                *)
Inserted(t, h) ==
  LET c == pend[t] IN
  /\ c.op = "create" /\ c.good /\ ~c.done
  /\ h \notin made[c.kind]
  /\ made' = [made EXCEPT ![c.kind] = @ \cup {h}]
  /\ alive' = [alive EXCEPT ![c.kind] = With(@, h, c.what)]
  /\ pend' = Look([pend EXCEPT ![t].done = TRUE, ![t].h = h], alive')

CreatedDone(t, h) ==
  /\ pend[t].op = "create" /\ pend[t].done /\ pend[t].h = h
  /\ Answered(t) /\ UNCHANGED <<alive, made>>

(* both at once *)
Created(t, h) ==
  LET c == pend[t] IN
  /\ c.op = "create" /\ c.good /\ ~c.done
  /\ h \notin made[c.kind]
  /\ made' = [made EXCEPT ![c.kind] = @ \cup {h}]
  /\ alive' = [alive EXCEPT ![c.kind] = With(@, h, c.what)]
  /\ pend' = Look([pend EXCEPT ![t] = Idle], alive')

NotCreated(t) ==
  /\ pend[t].op = "create" /\ ~pend[t].good
  /\ Answered(t) /\ UNCHANGED <<alive, made>>

DestroyedDone(t) ==
  /\ pend[t].op = "destroy" /\ pend[t].done
  /\ Answered(t) /\ UNCHANGED <<alive, made>>

Used(t, got) ==
  /\ pend[t].op = "use" /\ got \in pend[t].may
  /\ Answered(t) /\ UNCHANGED <<alive, made>>

ACreate(kind, what, good) == [op |-> "create", kind |-> kind, what |-> what, good |-> good, done |-> FALSE, h |-> -1]
ADestroy(kind, h) == [op |-> "destroy", kind |-> kind, h |-> h, done |-> FALSE]
AUse(kind, h, fits) == [op |-> "use", kind |-> kind, h |-> h, fits |-> fits, may |-> {}]
=============================================================================
