------------------------------ MODULE MCPolicy ------------------------------
(* Policies through the interfaces (C21), for all small ones: whole           *)
(* declarations and lists of rotations, legal and not.  Beside the policies   *)
(* the user's view is kept: for each policy the list of attribute creations   *)
(* that made it, in order, and the last call with its outcome.  The           *)
(* guarantees are stated on these lists, not on the policies' own recursion.  *)
EXTENDS Abe

CONSTANTS MaxBudget, MaxList, MaxCalls

VARIABLES made,    \* policy name -> the attributes created, in order
          call,    \* the last call: [kind, src, list, max, known, res]
          calls
mcVars == <<pols, msts, keys, cts, nextm, made, call, calls>>

Names == {<<>>, <<"a">>, <<"b">>, <<"a", "b">>, <<"b", "a">>, <<"a", "a">>}
Axis == {[name |-> x, attrs |-> ns, hier |-> h] : x \in {"A", "B"}, ns \in Names, h \in BOOLEAN}
Declarations == {<<>>} \cup {<<a>> : a \in Axis} \cup {<<a, b>> : a, b \in {x \in Axis : ~x.hier}}

Attrs == {<<"A", "a">>, <<"A", "b">>, <<"B", "a">>}
Lists == UNION {[1..n -> Attrs \cup {<<"C", "a">>}] : n \in 0..MaxList}

RECURSIVE Flat(_)
Flat(axes) ==
  IF axes = <<>> THEN <<>>
  ELSE LET a == Head(axes) IN [i \in 1..Len(a.attrs) |-> <<a.name, a.attrs[i]>>] \o Flat(Tail(axes))

Init == AbeInit /\ made = None /\ call = None /\ calls = 0

Declare ==
  /\ pols = None /\ calls = 0
  /\ \E mx \in 0..MaxBudget, axes \in Declarations, res \in {"ok", "err"} :
       /\ DeclareAll("p", mx, axes, res)
       /\ made' = IF res = "ok" THEN Put(made, "p", Flat(axes)) ELSE made
       /\ call' = [kind |-> "declare", src |-> <<>>, list |-> Flat(axes), max |-> mx, res |-> res,
                   known |-> Cardinality({axes[i].name : i \in DOMAIN axes}) = Len(axes)]
  /\ calls' = 1

Turn ==
  /\ pols # None /\ calls <= MaxCalls
  /\ \E p \in DOMAIN pols, q \in {"p", "q"}, as \in Lists, res \in {"ok", "err"} :
       /\ RotateAll(p, q, as, res)
       /\ made' = IF res = "ok" THEN Put(made, q, made[p] \o as) ELSE made
       /\ call' = [kind |-> "rotate", src |-> made[p], list |-> as, max |-> pols[p].max, res |-> res,
                   known |-> Rng(as) \subseteq Rng(made[p])]
  /\ calls' = calls + 1

Next == Declare \/ Turn
Spec == Init /\ [][Next]_mcVars

----------------------------------------------------------------------------
Where(s, a) == {i \in DOMAIN s : s[i] = a}

(* every creation got the next unused value: the n-th one n; attributes keep all of theirs, oldest first *)
Values ==
  /\ DOMAIN pols = DOMAIN made
  /\ \A p \in DOMAIN pols :
    /\ pols[p].last = Len(made[p])
    /\ DOMAIN pols[p].vals = Rng(made[p])
    /\ \A a \in DOMAIN pols[p].vals :
         LET v == pols[p].vals[a]
         IN /\ Rng(v) = Where(made[p], a)
            /\ \A i \in 1..Len(v) - 1 : v[i] < v[i + 1]
            /\ Len(v) = Cardinality(Where(made[p], a))
            /\ Current(pols[p], a) = MaxOf(Where(made[p], a))

(* refused exactly when something cannot be done: an unknown or doubled name, or more than the budget *)
Outcome ==
  call # None =>
    (call.res = "ok" <=>
       /\ Len(call.src) + Len(call.list) <= call.max
       /\ call.known
       /\ call.kind = "declare" => Cardinality(Rng(call.list)) = Len(call.list))

(* a refused call yields nothing, and no call touches another policy, the budget or the axes *)
Atomic ==
  [][/\ call'.res = "err" => pols' = pols
     /\ call'.kind = "rotate" =>
          /\ Cardinality({p \in DOMAIN pols' : p \notin DOMAIN pols \/ pols'[p] # pols[p]}) <= 1
          /\ \A p \in DOMAIN pols' : /\ pols'[p].max = pols["p"].max
                                     /\ pols'[p].axes = pols["p"].axes]_mcVars
=============================================================================
