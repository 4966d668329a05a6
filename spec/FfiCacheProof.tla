---------------------------- MODULE FfiCacheProof ----------------------------
(* The design of MCFfiCache with the atomic counter, for any number of threads, *)
(* calls and handles: it refines FfiCache (proved with TLAPS).                  *)
EXTENDS FfiCache, TLAPS

CONSTANT Contents
ASSUME Something == "err" \notin Contents

VARIABLES next, map, pc, reg, lock
implVars == <<next, map, pc, reg, lock>>
vars == <<alive, made, pend, next, map, pc, reg, lock>>

K == "enc"
Init == /\ CacheInit
        /\ next = 0 /\ map = [h \in {} |-> ""] /\ lock = {}
        /\ pc = [t \in Threads |-> "idle"]
        /\ reg = [t \in Threads |-> 0]

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Set(t, v) == reg' = [reg EXCEPT ![t] = v]

StartCreate(t) == \E c \in Contents :
  /\ pc[t] = "idle"
  /\ Call(t, ACreate(K, c, TRUE)) /\ Go(t, "take")
  /\ UNCHANGED <<next, map, reg, lock>>
Take(t) == /\ pc[t] = "take" /\ next' = next + 1 /\ Set(t, next) /\ Go(t, "insert")
           /\ UNCHANGED <<map, lock, alive, made, pend>>
(* what the design does when it inserts, whether FfiCache allows it or not *)
InsertStep(t) == /\ pc[t] = "insert" /\ lock = {} /\ map' = With(map, reg[t], pend[t].what)
                 /\ Go(t, "return") /\ UNCHANGED <<next, reg, lock>>
Insert(t) == InsertStep(t) /\ Inserted(t, reg[t])
Return(t) == /\ pc[t] = "return" /\ CreatedDone(t, reg[t]) /\ Go(t, "idle")
             /\ UNCHANGED <<next, map, reg, lock>>
StartUse(t) == \E h \in Nat :
  /\ pc[t] = "idle" /\ Call(t, AUse(K, h, Contents)) /\ Set(t, h) /\ Go(t, "read")
  /\ UNCHANGED <<next, map, lock>>
ReadLock(t) == /\ pc[t] = "read" /\ lock' = lock \cup {t} /\ Go(t, "work")
               /\ UNCHANGED <<next, map, reg, alive, made, pend>>
Work(t) == /\ pc[t] = "work" /\ lock' = lock \ {t} /\ Go(t, "idle")
           /\ Used(t, UseOf(map, reg[t], Contents))
           /\ UNCHANGED <<next, map, reg>>
StartDestroy(t) == \E h \in Nat :
  /\ pc[t] = "idle" /\ Call(t, ADestroy(K, h)) /\ Set(t, h) /\ Go(t, "remove")
  /\ UNCHANGED <<next, map, lock>>
Remove(t) == /\ pc[t] = "remove" /\ lock = {} /\ map' = Without(map, reg[t])
             /\ Destroyed(t) /\ Go(t, "end") /\ UNCHANGED <<next, reg, lock>>
End(t) == /\ pc[t] = "end" /\ DestroyedDone(t) /\ Go(t, "idle") /\ UNCHANGED <<next, map, reg, lock>>

Step(t) == \/ StartCreate(t) \/ Take(t) \/ Insert(t) \/ Return(t)
           \/ StartUse(t) \/ ReadLock(t) \/ Work(t)
           \/ StartDestroy(t) \/ Remove(t) \/ End(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars

Pcs == {"idle", "take", "insert", "return", "read", "work", "remove", "end"}
Creating == [op : {"create"}, kind : {K}, what : Contents, good : {TRUE}, done : BOOLEAN, h : Int]
Using == [op : {"use"}, kind : {K}, h : Nat, fits : {Contents}, may : SUBSET (Contents \cup {"err"})]
Destroying == [op : {"destroy"}, kind : {K}, h : Nat, done : BOOLEAN]

Pending == {Idle} \cup Creating \cup Using \cup Destroying

TypeOK ==
  /\ next \in Nat
  /\ pc \in [Threads -> Pcs]
  /\ reg \in [Threads -> Nat]
  /\ pend \in [Threads -> Pending]
  /\ made \in [Kinds -> SUBSET Nat]
  /\ DOMAIN alive = Kinds
  /\ DOMAIN map \subseteq Nat
  /\ \A h \in DOMAIN map : map[h] \in Contents

(* the call a thread is in, by where it is *)
Shape(t) ==
  /\ pc[t] = "idle" => pend[t] = Idle
  /\ pc[t] = "take" => pend[t] \in Creating /\ ~pend[t].done
  /\ pc[t] = "insert" => pend[t] \in Creating /\ ~pend[t].done /\ reg[t] < next /\ reg[t] \notin made[K]
  /\ pc[t] = "return" => pend[t] \in Creating /\ pend[t].done /\ pend[t].h = reg[t]
  /\ pc[t] \in {"read", "work"} => pend[t] \in Using /\ pend[t].h = reg[t] /\ UseOf(map, reg[t], Contents) \in pend[t].may
  /\ pc[t] = "remove" => pend[t] \in Destroying /\ pend[t].h = reg[t] /\ ~pend[t].done
  /\ pc[t] = "end" => pend[t] \in Destroying /\ pend[t].done

Inv ==
  /\ TypeOK
  /\ map = alive[K]
  /\ \A h \in made[K] : h < next
  /\ DOMAIN map \subseteq made[K]
  /\ \A t \in Threads : Shape(t)
  /\ \A t, u \in Threads : t # u /\ pc[t] = "insert" /\ pc[u] = "insert" => reg[t] # reg[u]

(* every step of the design is allowed by the specification: no handle twice, and answers it may give *)
Refines == \A t \in Threads :
  /\ pc[t] = "insert" => reg[t] \notin made[K]
  /\ pc[t] = "work" => UseOf(map, reg[t], Contents) \in pend[t].may
  /\ pc[t] = "return" => pend[t].done /\ pend[t].h = reg[t]
  /\ pc[t] = "end" => pend[t].done



LEMMA InitInv == Init => Inv
  BY Something DEF Init, Inv, TypeOK, Pending, Shape, CacheInit, Pcs, Kinds, K

LEMMA Ops == /\ \A p \in Creating : p.op = "create" /\ p.kind = K /\ p.what \in Contents
             /\ \A p \in Using : p.op = "use" /\ p.kind = K /\ p.h \in Nat /\ p.fits = Contents
             /\ \A p \in Destroying : p.op = "destroy" /\ p.kind = K /\ p.h \in Nat
             /\ Idle.op = "idle"
             /\ \A p \in Pending : p.op = "use" <=> p \in Using
  BY DEF Creating, Using, Destroying, Idle, Pending

LEMMA UseValue == \A m, h : UseOf(m, h, Contents) \in Contents \cup {"err"}
  BY DEF UseOf

LEMMA MoreAnswers ==
  ASSUME NEW p \in Using, NEW v \in Contents \cup {"err"}
  PROVE LET q == [p EXCEPT !.may = @ \cup {v}] IN q \in Using /\ q.h = p.h /\ v \in q.may
  BY DEF Using

LEMMA LookOK ==
  ASSUME NEW pe \in [Threads -> Pending], NEW al
  PROVE /\ Look(pe, al) \in [Threads -> Pending]
        /\ \A u \in Threads : /\ pe[u] \notin Using => Look(pe, al)[u] = pe[u]
                              /\ pe[u] \in Using => /\ Look(pe, al)[u] \in Using
                                                    /\ Look(pe, al)[u].h = pe[u].h
                                                    /\ UseOf(al[K], pe[u].h, Contents) \in Look(pe, al)[u].may
<1>1. ASSUME NEW u \in Threads
      PROVE /\ Look(pe, al)[u] \in Pending
            /\ pe[u] \notin Using => Look(pe, al)[u] = pe[u]
            /\ pe[u] \in Using => /\ Look(pe, al)[u] \in Using
                                  /\ Look(pe, al)[u].h = pe[u].h
                                  /\ UseOf(al[K], pe[u].h, Contents) \in Look(pe, al)[u].may
  <2>1. CASE pe[u] \in Using
    <3>1. pe[u].op = "use" /\ pe[u].kind = K /\ pe[u].fits = Contents BY <2>1, Ops
    <3>2. Look(pe, al)[u] = [pe[u] EXCEPT !.may = @ \cup {UseOf(al[K], pe[u].h, Contents)}] BY <3>1 DEF Look
    <3>3. UseOf(al[K], pe[u].h, Contents) \in Contents \cup {"err"} BY UseValue
    <3> QED BY <2>1, <3>2, <3>3, MoreAnswers DEF Pending
  <2>2. CASE pe[u] \notin Using
    <3>1. pe[u].op # "use" BY <2>2, Ops
    <3> QED BY <2>2, <3>1 DEF Look
  <2> QED BY <2>1, <2>2
<1>2. DOMAIN Look(pe, al) = Threads /\ Look(pe, al) = [u \in Threads |-> Look(pe, al)[u]] BY DEF Look
<1> QED BY <1>1, <1>2

LEMMA EnumK == K \in Kinds BY DEF K, Kinds

LEMMA StartCreateInv == ASSUME Inv, NEW t \in Threads, StartCreate(t) PROVE Inv'
<1>0. PICK c \in Contents : pc[t] = "idle" /\ Call(t, ACreate(K, c, TRUE)) /\ Go(t, "take") /\ UNCHANGED <<next, map, reg, lock>> BY DEF StartCreate
<1> DEFINE mine == ACreate(K, c, TRUE)
<1>m. mine \in Creating /\ ~mine.done BY DEF Creating, ACreate
<1>c. pend' = Look([pend EXCEPT ![t] = mine], alive') /\ alive' = alive /\ made' = made /\ pc' = [pc EXCEPT ![t] = "take"] /\ UNCHANGED <<next, map, reg, lock>> BY <1>0 DEF Call, Go
<1> DEFINE pe == [pend EXCEPT ![t] = mine]
<1>t. pc \in [Threads -> Pcs] /\ reg \in [Threads -> Nat] /\ next \in Nat /\ made \in [Kinds -> SUBSET Nat] /\ pend \in [Threads -> Pending] BY DEF Inv, TypeOK
<1>p. pe \in [Threads -> Pending] BY <1>m, <1>t DEF Pending
<1>g. map' = alive'[K] BY <1>c, EnumK DEF Inv, TypeOK
<1>l. /\ pend' \in [Threads -> Pending]
      /\ \A u \in Threads : /\ pe[u] \notin Using => pend'[u] = pe[u]
                            /\ pe[u] \in Using => pend'[u] \in Using /\ pend'[u].h = pe[u].h /\ UseOf(map', pe[u].h, Contents) \in pend'[u].may
  <2> HIDE DEF pe
  <2>1. pend' = Look(pe, alive') BY <1>c DEF pe
  <2> QED BY <2>1, <1>p, <1>g, LookOK
<1>v. pe[t] = mine /\ \A u \in Threads : u # t => pe[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <1>c, <1>t
<1>w. pc'[t] = "take" BY <1>c, <1>t
<1> HIDE DEF pe
<1>1. TypeOK'
  <2>1. pc' \in [Threads -> Pcs] /\ reg' \in [Threads -> Nat] /\ next' \in Nat BY <1>c, <1>t DEF Pcs
  <2>2. made' \in [Kinds -> SUBSET Nat] /\ DOMAIN alive' = Kinds BY <1>0, <1>m, <1>c, <1>t, EnumK DEF Inv, TypeOK
  <2>3. DOMAIN map' \subseteq Nat /\ \A h \in DOMAIN map' : map'[h] \in Contents BY <1>0, <1>m, <1>c, <1>t DEF Inv, TypeOK, With, Without
  <2> QED BY <2>1, <2>2, <2>3, <1>l DEF TypeOK
<1>3. (\A h \in made[K] : h < next)' BY <1>0, <1>m, <1>c, <1>t, EnumK DEF Inv
<1>4. (DOMAIN map \subseteq made[K])' BY <1>0, <1>m, <1>c, <1>t, EnumK DEF Inv, With, Without
<1>5. ASSUME NEW u \in Threads PROVE Shape(u)'
  <2>1. CASE u = t
    <3> DEFINE q == pend'[t]
    <3>1. mine \notin Using => q = mine BY <1>l, <1>v
    <3>2. mine \in Using => q \in Using /\ q.h = mine.h /\ UseOf(map', mine.h, Contents) \in q.may BY <1>l, <1>v
    <3>3. \A p \in Creating \cup Destroying : p \notin Using BY Ops
    <3> QED BY <2>1, <3>1, <3>2, <3>3, <1>w, <1>0, <1>m, <1>c, <1>t DEF Shape
  <2>2. CASE u # t
    <3>1. Shape(u) BY DEF Inv
    <3>2. pe[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <2>2, <1>v
    <3>3. pend[u] \notin Using => pend'[u] = pend[u] BY <3>2, <1>l
    <3>4. pend[u] \in Using => pend'[u] \in Using /\ pend'[u].h = pend[u].h /\ UseOf(map', pend[u].h, Contents) \in pend'[u].may BY <3>2, <1>l
    <3>5. \A p \in Creating \cup Destroying \cup {Idle} : p \notin Using BY Ops
    <3>6. pc[u] = "insert" => reg[u] \notin made'[K] /\ reg[u] < next' BY <3>1, <1>0, <1>m, <1>c, <1>t, EnumK, <2>2 DEF Shape, Inv
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Shape
  <2> QED BY <2>1, <2>2
<1>6. (\A u, v \in Threads : u # v /\ pc[u] = "insert" /\ pc[v] = "insert" => reg[u] # reg[v])' BY <1>v, <1>w DEF Inv
<1> QED BY <1>1, <1>g, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA StartUseInv == ASSUME Inv, NEW t \in Threads, StartUse(t) PROVE Inv'
<1>0. PICK h \in Nat : pc[t] = "idle" /\ Call(t, AUse(K, h, Contents)) /\ Set(t, h) /\ Go(t, "read") /\ UNCHANGED <<next, map, lock>> BY DEF StartUse
<1> DEFINE mine == AUse(K, h, Contents)
<1>m. mine \in Using /\ mine.h = h BY DEF Using, AUse
<1>c. pend' = Look([pend EXCEPT ![t] = mine], alive') /\ alive' = alive /\ made' = made /\ pc' = [pc EXCEPT ![t] = "read"] /\ reg' = [reg EXCEPT ![t] = h] /\ UNCHANGED <<next, map, lock>> BY <1>0 DEF Call, Go, Set
<1> DEFINE pe == [pend EXCEPT ![t] = mine]
<1>t. pc \in [Threads -> Pcs] /\ reg \in [Threads -> Nat] /\ next \in Nat /\ made \in [Kinds -> SUBSET Nat] /\ pend \in [Threads -> Pending] BY DEF Inv, TypeOK
<1>p. pe \in [Threads -> Pending] BY <1>m, <1>t DEF Pending
<1>g. map' = alive'[K] BY <1>c, EnumK DEF Inv, TypeOK
<1>l. /\ pend' \in [Threads -> Pending]
      /\ \A u \in Threads : /\ pe[u] \notin Using => pend'[u] = pe[u]
                            /\ pe[u] \in Using => pend'[u] \in Using /\ pend'[u].h = pe[u].h /\ UseOf(map', pe[u].h, Contents) \in pend'[u].may
  <2> HIDE DEF pe
  <2>1. pend' = Look(pe, alive') BY <1>c DEF pe
  <2> QED BY <2>1, <1>p, <1>g, LookOK
<1>v. pe[t] = mine /\ \A u \in Threads : u # t => pe[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <1>c, <1>t
<1>w. pc'[t] = "read" BY <1>c, <1>t
<1> HIDE DEF pe
<1>1. TypeOK'
  <2>1. pc' \in [Threads -> Pcs] /\ reg' \in [Threads -> Nat] /\ next' \in Nat BY <1>c, <1>t DEF Pcs
  <2>2. made' \in [Kinds -> SUBSET Nat] /\ DOMAIN alive' = Kinds BY <1>0, <1>m, <1>c, <1>t, EnumK DEF Inv, TypeOK
  <2>3. DOMAIN map' \subseteq Nat /\ \A h \in DOMAIN map' : map'[h] \in Contents BY <1>0, <1>m, <1>c, <1>t DEF Inv, TypeOK, With, Without
  <2> QED BY <2>1, <2>2, <2>3, <1>l DEF TypeOK
<1>3. (\A h \in made[K] : h < next)' BY <1>0, <1>m, <1>c, <1>t, EnumK DEF Inv
<1>4. (DOMAIN map \subseteq made[K])' BY <1>0, <1>m, <1>c, <1>t, EnumK DEF Inv, With, Without
<1>5. ASSUME NEW u \in Threads PROVE Shape(u)'
  <2>1. CASE u = t
    <3> DEFINE q == pend'[t]
    <3>1. mine \notin Using => q = mine BY <1>l, <1>v
    <3>2. mine \in Using => q \in Using /\ q.h = mine.h /\ UseOf(map', mine.h, Contents) \in q.may BY <1>l, <1>v
    <3>3. \A p \in Creating \cup Destroying : p \notin Using BY Ops
    <3> QED BY <2>1, <3>1, <3>2, <3>3, <1>w, <1>0, <1>m, <1>c, <1>t DEF Shape
  <2>2. CASE u # t
    <3>1. Shape(u) BY DEF Inv
    <3>2. pe[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <2>2, <1>v
    <3>3. pend[u] \notin Using => pend'[u] = pend[u] BY <3>2, <1>l
    <3>4. pend[u] \in Using => pend'[u] \in Using /\ pend'[u].h = pend[u].h /\ UseOf(map', pend[u].h, Contents) \in pend'[u].may BY <3>2, <1>l
    <3>5. \A p \in Creating \cup Destroying \cup {Idle} : p \notin Using BY Ops
    <3>6. pc[u] = "insert" => reg[u] \notin made'[K] /\ reg[u] < next' BY <3>1, <1>0, <1>m, <1>c, <1>t, EnumK, <2>2 DEF Shape, Inv
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Shape
  <2> QED BY <2>1, <2>2
<1>6. (\A u, v \in Threads : u # v /\ pc[u] = "insert" /\ pc[v] = "insert" => reg[u] # reg[v])' BY <1>v, <1>w DEF Inv
<1> QED BY <1>1, <1>g, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA StartDestroyInv == ASSUME Inv, NEW t \in Threads, StartDestroy(t) PROVE Inv'
<1>0. PICK h \in Nat : pc[t] = "idle" /\ Call(t, ADestroy(K, h)) /\ Set(t, h) /\ Go(t, "remove") /\ UNCHANGED <<next, map, lock>> BY DEF StartDestroy
<1> DEFINE mine == ADestroy(K, h)
<1>m. mine \in Destroying /\ mine.h = h /\ ~mine.done BY DEF Destroying, ADestroy
<1>c. pend' = Look([pend EXCEPT ![t] = mine], alive') /\ alive' = alive /\ made' = made /\ pc' = [pc EXCEPT ![t] = "remove"] /\ reg' = [reg EXCEPT ![t] = h] /\ UNCHANGED <<next, map, lock>> BY <1>0 DEF Call, Go, Set
<1> DEFINE pe == [pend EXCEPT ![t] = mine]
<1>t. pc \in [Threads -> Pcs] /\ reg \in [Threads -> Nat] /\ next \in Nat /\ made \in [Kinds -> SUBSET Nat] /\ pend \in [Threads -> Pending] BY DEF Inv, TypeOK
<1>p. pe \in [Threads -> Pending] BY <1>m, <1>t DEF Pending
<1>g. map' = alive'[K] BY <1>c, EnumK DEF Inv, TypeOK
<1>l. /\ pend' \in [Threads -> Pending]
      /\ \A u \in Threads : /\ pe[u] \notin Using => pend'[u] = pe[u]
                            /\ pe[u] \in Using => pend'[u] \in Using /\ pend'[u].h = pe[u].h /\ UseOf(map', pe[u].h, Contents) \in pend'[u].may
  <2> HIDE DEF pe
  <2>1. pend' = Look(pe, alive') BY <1>c DEF pe
  <2> QED BY <2>1, <1>p, <1>g, LookOK
<1>v. pe[t] = mine /\ \A u \in Threads : u # t => pe[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <1>c, <1>t
<1>w. pc'[t] = "remove" BY <1>c, <1>t
<1> HIDE DEF pe
<1>1. TypeOK'
  <2>1. pc' \in [Threads -> Pcs] /\ reg' \in [Threads -> Nat] /\ next' \in Nat BY <1>c, <1>t DEF Pcs
  <2>2. made' \in [Kinds -> SUBSET Nat] /\ DOMAIN alive' = Kinds BY <1>0, <1>m, <1>c, <1>t, EnumK DEF Inv, TypeOK
  <2>3. DOMAIN map' \subseteq Nat /\ \A h \in DOMAIN map' : map'[h] \in Contents BY <1>0, <1>m, <1>c, <1>t DEF Inv, TypeOK, With, Without
  <2> QED BY <2>1, <2>2, <2>3, <1>l DEF TypeOK
<1>3. (\A h \in made[K] : h < next)' BY <1>0, <1>m, <1>c, <1>t, EnumK DEF Inv
<1>4. (DOMAIN map \subseteq made[K])' BY <1>0, <1>m, <1>c, <1>t, EnumK DEF Inv, With, Without
<1>5. ASSUME NEW u \in Threads PROVE Shape(u)'
  <2>1. CASE u = t
    <3> DEFINE q == pend'[t]
    <3>1. mine \notin Using => q = mine BY <1>l, <1>v
    <3>2. mine \in Using => q \in Using /\ q.h = mine.h /\ UseOf(map', mine.h, Contents) \in q.may BY <1>l, <1>v
    <3>3. \A p \in Creating \cup Destroying : p \notin Using BY Ops
    <3> QED BY <2>1, <3>1, <3>2, <3>3, <1>w, <1>0, <1>m, <1>c, <1>t DEF Shape
  <2>2. CASE u # t
    <3>1. Shape(u) BY DEF Inv
    <3>2. pe[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <2>2, <1>v
    <3>3. pend[u] \notin Using => pend'[u] = pend[u] BY <3>2, <1>l
    <3>4. pend[u] \in Using => pend'[u] \in Using /\ pend'[u].h = pend[u].h /\ UseOf(map', pend[u].h, Contents) \in pend'[u].may BY <3>2, <1>l
    <3>5. \A p \in Creating \cup Destroying \cup {Idle} : p \notin Using BY Ops
    <3>6. pc[u] = "insert" => reg[u] \notin made'[K] /\ reg[u] < next' BY <3>1, <1>0, <1>m, <1>c, <1>t, EnumK, <2>2 DEF Shape, Inv
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Shape
  <2> QED BY <2>1, <2>2
<1>6. (\A u, v \in Threads : u # v /\ pc[u] = "insert" /\ pc[v] = "insert" => reg[u] # reg[v])' BY <1>v, <1>w DEF Inv
<1> QED BY <1>1, <1>g, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA InsertInv == ASSUME Inv, NEW t \in Threads, Insert(t) PROVE Inv'
<1> DEFINE mine == [pend[t] EXCEPT !.done = TRUE, !.h = reg[t]]
<1>0. pend[t] \in Creating /\ reg[t] \in Nat /\ reg[t] < next /\ reg[t] \notin made[K] /\ pc[t] = "insert" BY DEF Insert, InsertStep, Inv, TypeOK, Shape
<1>m. mine \in Creating /\ mine.done /\ mine.h = reg[t] BY <1>0 DEF Creating
<1>k. pend[t].kind = K /\ pend[t].what \in Contents BY <1>0, Ops
<1>c. /\ pend' = Look([pend EXCEPT ![t] = mine], alive') /\ made' = [made EXCEPT ![K] = @ \cup {reg[t]}]
      /\ alive' = [alive EXCEPT ![K] = With(@, reg[t], pend[t].what)] /\ map' = With(map, reg[t], pend[t].what)
      /\ pc' = [pc EXCEPT ![t] = "return"] /\ UNCHANGED <<next, reg, lock>>
  <2>1. [pend EXCEPT ![t].done = TRUE, ![t].h = reg[t]] = [pend EXCEPT ![t] = mine] BY <1>0 DEF Inv, TypeOK
  <2> QED BY <1>k, <2>1 DEF Insert, InsertStep, Inserted, Go
<1> DEFINE pe == [pend EXCEPT ![t] = mine]
<1>t. pc \in [Threads -> Pcs] /\ reg \in [Threads -> Nat] /\ next \in Nat /\ made \in [Kinds -> SUBSET Nat] /\ pend \in [Threads -> Pending] BY DEF Inv, TypeOK
<1>p. pe \in [Threads -> Pending] BY <1>m, <1>t DEF Pending
<1>g. map' = alive'[K] BY <1>c, EnumK DEF Inv, TypeOK
<1>l. /\ pend' \in [Threads -> Pending]
      /\ \A u \in Threads : /\ pe[u] \notin Using => pend'[u] = pe[u]
                            /\ pe[u] \in Using => pend'[u] \in Using /\ pend'[u].h = pe[u].h /\ UseOf(map', pe[u].h, Contents) \in pend'[u].may
  <2> HIDE DEF pe
  <2>1. pend' = Look(pe, alive') BY <1>c DEF pe
  <2> QED BY <2>1, <1>p, <1>g, LookOK
<1>v. pe[t] = mine /\ \A u \in Threads : u # t => pe[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <1>c, <1>t
<1>w. pc'[t] = "return" BY <1>c, <1>t
<1> HIDE DEF pe
<1>1. TypeOK'
  <2>1. pc' \in [Threads -> Pcs] /\ reg' \in [Threads -> Nat] /\ next' \in Nat BY <1>c, <1>t DEF Pcs
  <2>2. made' \in [Kinds -> SUBSET Nat] /\ DOMAIN alive' = Kinds BY <1>0, <1>m, <1>c, <1>k, <1>t, EnumK DEF Inv, TypeOK
  <2>3. DOMAIN map' \subseteq Nat /\ \A h \in DOMAIN map' : map'[h] \in Contents BY <1>0, <1>m, <1>c, <1>k, <1>t DEF Inv, TypeOK, With, Without
  <2> QED BY <2>1, <2>2, <2>3, <1>l DEF TypeOK
<1>3. (\A h \in made[K] : h < next)' BY <1>0, <1>m, <1>c, <1>k, <1>t, EnumK DEF Inv
<1>4. (DOMAIN map \subseteq made[K])' BY <1>0, <1>m, <1>c, <1>k, <1>t, EnumK DEF Inv, With, Without
<1>5. ASSUME NEW u \in Threads PROVE Shape(u)'
  <2>1. CASE u = t
    <3> DEFINE q == pend'[t]
    <3>1. mine \notin Using => q = mine BY <1>l, <1>v
    <3>2. mine \in Using => q \in Using /\ q.h = mine.h /\ UseOf(map', mine.h, Contents) \in q.may BY <1>l, <1>v
    <3>3. \A p \in Creating \cup Destroying : p \notin Using BY Ops
    <3> QED BY <2>1, <3>1, <3>2, <3>3, <1>w, <1>0, <1>m, <1>c, <1>k, <1>t DEF Shape
  <2>2. CASE u # t
    <3>1. Shape(u) BY DEF Inv
    <3>2. pe[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <2>2, <1>v
    <3>3. pend[u] \notin Using => pend'[u] = pend[u] BY <3>2, <1>l
    <3>4. pend[u] \in Using => pend'[u] \in Using /\ pend'[u].h = pend[u].h /\ UseOf(map', pend[u].h, Contents) \in pend'[u].may BY <3>2, <1>l
    <3>5. \A p \in Creating \cup Destroying \cup {Idle} : p \notin Using BY Ops
    <3>6. pc[u] = "insert" => reg[u] \notin made'[K] /\ reg[u] < next' BY <3>1, <1>0, <1>m, <1>c, <1>k, <1>t, EnumK, <2>2 DEF Shape, Inv
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Shape
  <2> QED BY <2>1, <2>2
<1>6. (\A u, v \in Threads : u # v /\ pc[u] = "insert" /\ pc[v] = "insert" => reg[u] # reg[v])' BY <1>v, <1>w DEF Inv
<1> QED BY <1>1, <1>g, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA RemoveInv == ASSUME Inv, NEW t \in Threads, Remove(t) PROVE Inv'
<1> DEFINE mine == [pend[t] EXCEPT !.done = TRUE]
<1>0. pend[t] \in Destroying /\ pend[t].h = reg[t] /\ reg[t] \in Nat /\ pc[t] = "remove" BY DEF Remove, Inv, TypeOK, Shape
<1>m. mine \in Destroying /\ mine.done /\ mine.h = reg[t] BY <1>0 DEF Destroying
<1>k. pend[t].kind = K BY <1>0, Ops
<1>c. /\ pend' = Look([pend EXCEPT ![t] = mine], alive') /\ made' = made
      /\ alive' = [alive EXCEPT ![K] = Without(@, reg[t])] /\ map' = Without(map, reg[t])
      /\ pc' = [pc EXCEPT ![t] = "end"] /\ UNCHANGED <<next, reg, lock>>
  <2>1. [pend EXCEPT ![t].done = TRUE] = [pend EXCEPT ![t] = mine] BY <1>0 DEF Inv, TypeOK
  <2> QED BY <1>0, <1>k, <2>1 DEF Remove, Destroyed, Go
<1> DEFINE pe == [pend EXCEPT ![t] = mine]
<1>t. pc \in [Threads -> Pcs] /\ reg \in [Threads -> Nat] /\ next \in Nat /\ made \in [Kinds -> SUBSET Nat] /\ pend \in [Threads -> Pending] BY DEF Inv, TypeOK
<1>p. pe \in [Threads -> Pending] BY <1>m, <1>t DEF Pending
<1>g. map' = alive'[K] BY <1>c, EnumK DEF Inv, TypeOK
<1>l. /\ pend' \in [Threads -> Pending]
      /\ \A u \in Threads : /\ pe[u] \notin Using => pend'[u] = pe[u]
                            /\ pe[u] \in Using => pend'[u] \in Using /\ pend'[u].h = pe[u].h /\ UseOf(map', pe[u].h, Contents) \in pend'[u].may
  <2> HIDE DEF pe
  <2>1. pend' = Look(pe, alive') BY <1>c DEF pe
  <2> QED BY <2>1, <1>p, <1>g, LookOK
<1>v. pe[t] = mine /\ \A u \in Threads : u # t => pe[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <1>c, <1>t
<1>w. pc'[t] = "end" BY <1>c, <1>t
<1> HIDE DEF pe
<1>1. TypeOK'
  <2>1. pc' \in [Threads -> Pcs] /\ reg' \in [Threads -> Nat] /\ next' \in Nat BY <1>c, <1>t DEF Pcs
  <2>2. made' \in [Kinds -> SUBSET Nat] /\ DOMAIN alive' = Kinds BY <1>0, <1>m, <1>c, <1>k, <1>t, EnumK DEF Inv, TypeOK
  <2>3. DOMAIN map' \subseteq Nat /\ \A h \in DOMAIN map' : map'[h] \in Contents BY <1>0, <1>m, <1>c, <1>k, <1>t DEF Inv, TypeOK, With, Without
  <2> QED BY <2>1, <2>2, <2>3, <1>l DEF TypeOK
<1>3. (\A h \in made[K] : h < next)' BY <1>0, <1>m, <1>c, <1>k, <1>t, EnumK DEF Inv
<1>4. (DOMAIN map \subseteq made[K])' BY <1>0, <1>m, <1>c, <1>k, <1>t, EnumK DEF Inv, With, Without
<1>5. ASSUME NEW u \in Threads PROVE Shape(u)'
  <2>1. CASE u = t
    <3> DEFINE q == pend'[t]
    <3>1. mine \notin Using => q = mine BY <1>l, <1>v
    <3>2. mine \in Using => q \in Using /\ q.h = mine.h /\ UseOf(map', mine.h, Contents) \in q.may BY <1>l, <1>v
    <3>3. \A p \in Creating \cup Destroying : p \notin Using BY Ops
    <3> QED BY <2>1, <3>1, <3>2, <3>3, <1>w, <1>0, <1>m, <1>c, <1>k, <1>t DEF Shape
  <2>2. CASE u # t
    <3>1. Shape(u) BY DEF Inv
    <3>2. pe[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <2>2, <1>v
    <3>3. pend[u] \notin Using => pend'[u] = pend[u] BY <3>2, <1>l
    <3>4. pend[u] \in Using => pend'[u] \in Using /\ pend'[u].h = pend[u].h /\ UseOf(map', pend[u].h, Contents) \in pend'[u].may BY <3>2, <1>l
    <3>5. \A p \in Creating \cup Destroying \cup {Idle} : p \notin Using BY Ops
    <3>6. pc[u] = "insert" => reg[u] \notin made'[K] /\ reg[u] < next' BY <3>1, <1>0, <1>m, <1>c, <1>k, <1>t, EnumK, <2>2 DEF Shape, Inv
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>6 DEF Shape
  <2> QED BY <2>1, <2>2
<1>6. (\A u, v \in Threads : u # v /\ pc[u] = "insert" /\ pc[v] = "insert" => reg[u] # reg[v])' BY <1>v, <1>w DEF Inv
<1> QED BY <1>1, <1>g, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA TakeInv == ASSUME Inv, NEW t \in Threads, Take(t) PROVE Inv'
<1>c. pc[t] = "take" /\ next' = next + 1 /\ reg' = [reg EXCEPT ![t] = next] /\ pc' = [pc EXCEPT ![t] = "insert"] /\ pend' = pend /\ map' = map /\ alive' = alive /\ made' = made BY DEF Take, Go, Set
<1>t. pc \in [Threads -> Pcs] /\ reg \in [Threads -> Nat] /\ next \in Nat /\ made \in [Kinds -> SUBSET Nat] /\ pend \in [Threads -> Pending] BY DEF Inv, TypeOK
<1>v. \A u \in Threads : u # t => pend'[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <1>c, <1>t
<1>w. pc'[t] = "insert" BY <1>c, <1>t
<1>1. TypeOK' BY <1>c, <1>t DEF Inv, TypeOK, Pcs, Pending
<1>2. map' = alive'[K] BY <1>c DEF Inv
<1>3. (\A h \in made[K] : h < next)' BY <1>c, <1>t, EnumK DEF Inv
<1>4. (DOMAIN map \subseteq made[K])' BY <1>c DEF Inv
<1>5. ASSUME NEW u \in Threads PROVE Shape(u)'
  <2>0. Shape(u) BY DEF Inv
  <2>1. CASE u = t BY <2>0, <2>1, <1>c, <1>t, <1>w, EnumK DEF Shape, Inv
  <2>2. CASE u # t BY <2>0, <2>2, <1>c, <1>v, <1>t DEF Shape, UseOf
  <2> QED BY <2>1, <2>2
<1>6. (\A u, v \in Threads : u # v /\ pc[u] = "insert" /\ pc[v] = "insert" => reg[u] # reg[v])'
  <2>1. \A u \in Threads : Shape(u) BY DEF Inv
  <2>2. \A u \in Threads : pc[u] = "insert" => reg[u] < next BY <2>1 DEF Shape
  <2> QED BY <1>c, <1>t, <1>v, <1>w, <2>2 DEF Inv
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA ReadLockInv == ASSUME Inv, NEW t \in Threads, ReadLock(t) PROVE Inv'
<1>c. pc[t] = "read" /\ next' = next /\ reg' = reg /\ pc' = [pc EXCEPT ![t] = "work"] /\ pend' = pend /\ map' = map /\ alive' = alive /\ made' = made BY DEF ReadLock, Go
<1>t. pc \in [Threads -> Pcs] /\ reg \in [Threads -> Nat] /\ next \in Nat /\ made \in [Kinds -> SUBSET Nat] /\ pend \in [Threads -> Pending] BY DEF Inv, TypeOK
<1>v. \A u \in Threads : u # t => pend'[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <1>c, <1>t
<1>w. pc'[t] = "work" BY <1>c, <1>t
<1>1. TypeOK' BY <1>c, <1>t DEF Inv, TypeOK, Pcs, Pending
<1>2. map' = alive'[K] BY <1>c DEF Inv
<1>3. (\A h \in made[K] : h < next)' BY <1>c, <1>t, EnumK DEF Inv
<1>4. (DOMAIN map \subseteq made[K])' BY <1>c DEF Inv
<1>5. ASSUME NEW u \in Threads PROVE Shape(u)'
  <2>0. Shape(u) BY DEF Inv
  <2>1. CASE u = t BY <2>0, <2>1, <1>c, <1>t, <1>w, EnumK DEF Shape, Inv
  <2>2. CASE u # t BY <2>0, <2>2, <1>c, <1>v, <1>t DEF Shape, UseOf
  <2> QED BY <2>1, <2>2
<1>6. (\A u, v \in Threads : u # v /\ pc[u] = "insert" /\ pc[v] = "insert" => reg[u] # reg[v])'
  <2>1. \A u \in Threads : Shape(u) BY DEF Inv
  <2>2. \A u \in Threads : pc[u] = "insert" => reg[u] < next BY <2>1 DEF Shape
  <2> QED BY <1>c, <1>t, <1>v, <1>w, <2>2 DEF Inv
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA ReturnInv == ASSUME Inv, NEW t \in Threads, Return(t) PROVE Inv'
<1>c. pc[t] = "return" /\ next' = next /\ reg' = reg /\ pc' = [pc EXCEPT ![t] = "idle"] /\ pend' = [pend EXCEPT ![t] = Idle] /\ map' = map /\ alive' = alive /\ made' = made BY DEF Return, CreatedDone, Answered, Go
<1>t. pc \in [Threads -> Pcs] /\ reg \in [Threads -> Nat] /\ next \in Nat /\ made \in [Kinds -> SUBSET Nat] /\ pend \in [Threads -> Pending] BY DEF Inv, TypeOK
<1>v. \A u \in Threads : u # t => pend'[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <1>c, <1>t
<1>w. pc'[t] = "idle" BY <1>c, <1>t
<1>1. TypeOK' BY <1>c, <1>t DEF Inv, TypeOK, Pcs, Pending
<1>2. map' = alive'[K] BY <1>c DEF Inv
<1>3. (\A h \in made[K] : h < next)' BY <1>c, <1>t, EnumK DEF Inv
<1>4. (DOMAIN map \subseteq made[K])' BY <1>c DEF Inv
<1>5. ASSUME NEW u \in Threads PROVE Shape(u)'
  <2>0. Shape(u) BY DEF Inv
  <2>1. CASE u = t BY <2>0, <2>1, <1>c, <1>t, <1>w, EnumK DEF Shape, Inv
  <2>2. CASE u # t BY <2>0, <2>2, <1>c, <1>v, <1>t DEF Shape, UseOf
  <2> QED BY <2>1, <2>2
<1>6. (\A u, v \in Threads : u # v /\ pc[u] = "insert" /\ pc[v] = "insert" => reg[u] # reg[v])'
  <2>1. \A u \in Threads : Shape(u) BY DEF Inv
  <2>2. \A u \in Threads : pc[u] = "insert" => reg[u] < next BY <2>1 DEF Shape
  <2> QED BY <1>c, <1>t, <1>v, <1>w, <2>2 DEF Inv
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA WorkInv == ASSUME Inv, NEW t \in Threads, Work(t) PROVE Inv'
<1>c. pc[t] = "work" /\ next' = next /\ reg' = reg /\ pc' = [pc EXCEPT ![t] = "idle"] /\ pend' = [pend EXCEPT ![t] = Idle] /\ map' = map /\ alive' = alive /\ made' = made BY DEF Work, Used, Answered, Go
<1>t. pc \in [Threads -> Pcs] /\ reg \in [Threads -> Nat] /\ next \in Nat /\ made \in [Kinds -> SUBSET Nat] /\ pend \in [Threads -> Pending] BY DEF Inv, TypeOK
<1>v. \A u \in Threads : u # t => pend'[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <1>c, <1>t
<1>w. pc'[t] = "idle" BY <1>c, <1>t
<1>1. TypeOK' BY <1>c, <1>t DEF Inv, TypeOK, Pcs, Pending
<1>2. map' = alive'[K] BY <1>c DEF Inv
<1>3. (\A h \in made[K] : h < next)' BY <1>c, <1>t, EnumK DEF Inv
<1>4. (DOMAIN map \subseteq made[K])' BY <1>c DEF Inv
<1>5. ASSUME NEW u \in Threads PROVE Shape(u)'
  <2>0. Shape(u) BY DEF Inv
  <2>1. CASE u = t BY <2>0, <2>1, <1>c, <1>t, <1>w, EnumK DEF Shape, Inv
  <2>2. CASE u # t BY <2>0, <2>2, <1>c, <1>v, <1>t DEF Shape, UseOf
  <2> QED BY <2>1, <2>2
<1>6. (\A u, v \in Threads : u # v /\ pc[u] = "insert" /\ pc[v] = "insert" => reg[u] # reg[v])'
  <2>1. \A u \in Threads : Shape(u) BY DEF Inv
  <2>2. \A u \in Threads : pc[u] = "insert" => reg[u] < next BY <2>1 DEF Shape
  <2> QED BY <1>c, <1>t, <1>v, <1>w, <2>2 DEF Inv
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA EndInv == ASSUME Inv, NEW t \in Threads, End(t) PROVE Inv'
<1>c. pc[t] = "end" /\ next' = next /\ reg' = reg /\ pc' = [pc EXCEPT ![t] = "idle"] /\ pend' = [pend EXCEPT ![t] = Idle] /\ map' = map /\ alive' = alive /\ made' = made BY DEF End, DestroyedDone, Answered, Go
<1>t. pc \in [Threads -> Pcs] /\ reg \in [Threads -> Nat] /\ next \in Nat /\ made \in [Kinds -> SUBSET Nat] /\ pend \in [Threads -> Pending] BY DEF Inv, TypeOK
<1>v. \A u \in Threads : u # t => pend'[u] = pend[u] /\ pc'[u] = pc[u] /\ reg'[u] = reg[u] BY <1>c, <1>t
<1>w. pc'[t] = "idle" BY <1>c, <1>t
<1>1. TypeOK' BY <1>c, <1>t DEF Inv, TypeOK, Pcs, Pending
<1>2. map' = alive'[K] BY <1>c DEF Inv
<1>3. (\A h \in made[K] : h < next)' BY <1>c, <1>t, EnumK DEF Inv
<1>4. (DOMAIN map \subseteq made[K])' BY <1>c DEF Inv
<1>5. ASSUME NEW u \in Threads PROVE Shape(u)'
  <2>0. Shape(u) BY DEF Inv
  <2>1. CASE u = t BY <2>0, <2>1, <1>c, <1>t, <1>w, EnumK DEF Shape, Inv
  <2>2. CASE u # t BY <2>0, <2>2, <1>c, <1>v, <1>t DEF Shape, UseOf
  <2> QED BY <2>1, <2>2
<1>6. (\A u, v \in Threads : u # v /\ pc[u] = "insert" /\ pc[v] = "insert" => reg[u] # reg[v])'
  <2>1. \A u \in Threads : Shape(u) BY DEF Inv
  <2>2. \A u \in Threads : pc[u] = "insert" => reg[u] < next BY <2>1 DEF Shape
  <2> QED BY <1>c, <1>t, <1>v, <1>w, <2>2 DEF Inv
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6 DEF Inv

LEMMA StutterInv == ASSUME Inv, UNCHANGED vars PROVE Inv'
  BY DEF Inv, TypeOK, Shape, UseOf, vars

THEOREM Safety == Spec => []Inv
<1>1. Inv /\ [Next]_vars => Inv'
  BY StartCreateInv, TakeInv, InsertInv, ReturnInv, StartUseInv, ReadLockInv, WorkInv, StartDestroyInv, RemoveInv, EndInv, StutterInv DEF Next, Step
<1> QED BY InitInv, <1>1, PTL DEF Spec

THEOREM Refinement == Spec => []Refines
<1>1. Inv => Refines BY DEF Inv, Refines, Shape
<1> QED BY Safety, <1>1, PTL

(* once gone, gone *)
THEOREM Gone ==
  ASSUME Inv, [Next]_vars
  PROVE \A h \in made[K] : h \in made'[K] /\ (h \notin DOMAIN alive[K] => h \notin DOMAIN alive'[K])
<1>1. CASE UNCHANGED vars BY <1>1 DEF vars
<1>2. ASSUME NEW t \in Threads, Step(t)
      PROVE \A h \in made[K] : h \in made'[K] /\ (h \notin DOMAIN alive[K] => h \notin DOMAIN alive'[K])
  <2>0. made \in [Kinds -> SUBSET Nat] /\ DOMAIN alive = Kinds BY DEF Inv, TypeOK
  <2>1. CASE Insert(t)
    <3>1. pend[t] \in Creating /\ reg[t] \notin made[K] BY <2>1 DEF Insert, InsertStep, Inv, Shape
    <3>2. pend[t].kind = K BY <3>1, Ops
    <3> QED BY <2>0, <2>1, <3>1, <3>2, EnumK DEF Insert, Inserted, With
  <2>2. CASE Remove(t)
    <3>1. pend[t] \in Destroying BY <2>2 DEF Remove, Inv, Shape
    <3>2. pend[t].kind = K BY <3>1, Ops
    <3> QED BY <2>0, <2>2, <3>2, EnumK DEF Remove, Destroyed, Without
  <2>3. ASSUME alive' = alive, made' = made PROVE \A h \in made[K] : h \in made'[K] /\ (h \notin DOMAIN alive[K] => h \notin DOMAIN alive'[K]) BY <2>3
  <2> QED BY <1>2, <2>1, <2>2, <2>3 DEF Step, StartCreate, StartUse, StartDestroy, Take, Return, ReadLock, Work, End, Call, CreatedDone, Used, DestroyedDone
<1> QED BY <1>1, <1>2 DEF Next
=============================================================================
