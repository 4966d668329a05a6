--------------------------------- MODULE Abe ---------------------------------
(* The attribute based encryption engine as its users see it: authorities,    *)
(* policies that evolve, user keys, delegation, ciphertexts, and who may read *)
(* what.  One action per public call; `res` is the outcome of the call.       *)
EXTENDS Access, TLC

(* A policy with an Or turned into an And narrows its parent, and by the       *)
(* property under verification a key delegated for it reads what it allows.    *)
(* The implementation's delegated key reads nothing (a known finding): FALSE   *)
(* describes the implementation, TRUE the guarantee.                           *)
CONSTANT OrToAndExact

VARIABLES
  pols,    \* policy name      -> policy
  msts,    \* authority name   -> [id, size]: instance and greatest value served
  keys,    \* user key name    -> key
  cts,     \* ciphertext name  -> [m, V, g]
  nextm    \* instances handed out so far

abeVars == <<pols, msts, keys, cts, nextm>>

(* A key:                                                                      *)
(*   m      instance of the authority that issued it                           *)
(*   tree   what its own access policy allows                                  *)
(*   ups    structures of its ancestors (it must not exceed any of them)       *)
(*   exact  it reads everything its access policy allows                       *)
(*   pool   for recombined keys: the keys whose shares it mixes                *)

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
None == [x \in {} |-> 0]

AbeInit ==
  /\ pols = None /\ msts = None /\ keys = None /\ cts = None /\ nextm = 0

----------------------------------------------------------------------------
NewPolicy(p, max, res) ==
  /\ res = "ok"
  /\ pols' = Put(pols, p, EmptyPolicy(max))
  /\ UNCHANGED <<msts, keys, cts, nextm>>

CopyPolicy(p, q, res) ==
  /\ res = "ok"
  /\ pols' = Put(pols, q, pols[p])
  /\ UNCHANGED <<msts, keys, cts, nextm>>

DeclareAxis(p, x, names, hier, res) ==
  /\ res = IF CanAddAxis(pols[p], x, names) THEN "ok" ELSE "err"
  /\ pols' = IF res = "ok" THEN [pols EXCEPT ![p] = AddAxis(@, x, names, hier)] ELSE pols
  /\ UNCHANGED <<msts, keys, cts, nextm>>

RotateAttr(p, a, res) ==
  /\ res = IF CanRotate(pols[p], a) THEN "ok" ELSE "err"
  /\ pols' = IF res = "ok" THEN [pols EXCEPT ![p] = Rotate(@, a)] ELSE pols
  /\ UNCHANGED <<msts, keys, cts, nextm>>

(* Through the C, Python and WebAssembly interfaces a whole policy is declared *)
(* at once, and a list of attributes is rotated in one call: all or nothing.    *)
RECURSIVE AllAxes(_, _)
AllAxes(P, axes) ==     \* <<possible, policy>>
  IF axes = <<>> THEN <<TRUE, P>>
  ELSE LET a == Head(axes)
           twice == \E i, j \in DOMAIN a.attrs : i # j /\ a.attrs[i] = a.attrs[j]
       IN IF CanAddAxis(P, a.name, a.attrs) /\ ~twice
          THEN AllAxes(AddAxis(P, a.name, a.attrs, a.hier), Tail(axes))
          ELSE <<FALSE, P>>

DeclareAll(p, max, axes, res) ==
  LET r == AllAxes(EmptyPolicy(max), axes)
  IN /\ res = IF r[1] THEN "ok" ELSE "err"
     /\ pols' = IF r[1] THEN Put(pols, p, r[2]) ELSE pols
     /\ UNCHANGED <<msts, keys, cts, nextm>>

RECURSIVE AllRotated(_, _)
AllRotated(P, as) ==
  IF as = <<>> THEN <<TRUE, P>>
  ELSE IF CanRotate(P, Head(as)) THEN AllRotated(Rotate(P, Head(as)), Tail(as))
  ELSE <<FALSE, P>>

(* q: the name under which the resulting policy is kept; p itself stays *)
RotateAll(p, q, as, res) ==
  LET r == AllRotated(pols[p], as)
  IN /\ res = IF r[1] THEN "ok" ELSE "err"
     /\ pols' = IF r[1] THEN Put(pols, q, r[2]) ELSE pols
     /\ UNCHANGED <<msts, keys, cts, nextm>>

(* an authority serves every value its policy can ever assign: 1..max *)
NewMaster(m, p, res) ==
  /\ res = "ok"
  /\ nextm' = nextm + 1
  /\ msts' = Put(msts, m, [id |-> nextm + 1, size |-> pols[p].max])
  /\ UNCHANGED <<pols, keys, cts>>

Serves(m, V) == \A v \in V : v <= msts[m].size

CanIssue(p, m, f) ==
  Acceptable(pols[p], f) /\ Serves(m, ValsOf(Tree(pols[p], f)))

IssueKey(k, p, m, f, res) ==
  /\ res = IF CanIssue(p, m, f) THEN "ok" ELSE "err"
  /\ keys' = IF res = "ok"
             THEN Put(keys, k, [m |-> msts[m].id, tree |-> Tree(pols[p], f), ups |-> {},
                                exact |-> TRUE, pool |-> {}])
             ELSE keys
  /\ UNCHANGED <<pols, msts, cts, nextm>>

(* Delegation needs every attribute value asked for to be in the parent key. *)
CanDelegate(p, m, s, f) ==
  /\ s \in DOMAIN keys
  /\ IF f[1] = "all"
     THEN Serves(m, ValsOf(keys[s].tree))
     ELSE /\ CanIssue(p, m, f)
          /\ ValsOf(Tree(pols[p], f)) \subseteq ValsOf(keys[s].tree)

Delegated(p, m, s, f) ==
  LET parent == keys[s]
      t == IF f[1] = "all" THEN parent.tree ELSE Tree(pols[p], f)
  IN [m     |-> parent.m,
      tree  |-> t,
      ups   |-> parent.ups \cup {parent.tree},
      exact |-> /\ parent.exact
                /\ parent.m = msts[m].id
                /\ \/ f[1] = "all"
                   \/ SameOn(t, parent.tree)
                   \/ OrToAndExact /\ Narrows(t, parent.tree),
      pool  |-> parent.pool]

DelegateKey(k, p, m, s, f, res) ==
  /\ res = IF CanDelegate(p, m, s, f) THEN "ok" ELSE "err"
  /\ keys' = IF res = "ok" THEN Put(keys, k, Delegated(p, m, s, f)) ELSE keys
  /\ UNCHANGED <<pols, msts, cts, nextm>>

(* An attacker assembles a key from the shares of the keys in S and a span      *)
(* program of her choice for the structure t.                                   *)
Recombine(k, S, t, res) ==
  /\ res = "ok"
  /\ keys' = Put(keys, k, [m |-> 0, tree |-> t, ups |-> {}, exact |-> FALSE,
                           pool |-> {keys[s] : s \in S}])
  /\ UNCHANGED <<pols, msts, cts, nextm>>

CanEncrypt(p, m, as) ==
  /\ \A i \in DOMAIN as : Known(pols[p], as[i])
  /\ Serves(m, {Current(pols[p], as[i]) : i \in DOMAIN as})

Encrypt(c, p, m, as, g, res) ==
  /\ res = IF CanEncrypt(p, m, as) THEN "ok" ELSE "err"
  /\ cts' = IF res = "ok"
            THEN Put(cts, c, [m |-> msts[m].id, g |-> g,
                              V |-> {Current(pols[p], as[i]) : i \in DOMAIN as}])
            ELSE cts
  /\ UNCHANGED <<pols, msts, keys, nextm>>

----------------------------------------------------------------------------
(* Reading *)

Allows(k, c) == k.m = c.m /\ Sat(k.tree, c.V) /\ \A u \in k.ups : Sat(u, c.V)

(* "msg" = the message put in, "wrong" = some other value, "no" = a refusal *)
Outcomes(k, c) ==
  IF k.pool # {}
  THEN {"no", "wrong"} \cup (IF \E o \in k.pool : Allows(o, c) THEN {"msg"} ELSE {})
  ELSE IF ~Sat(k.tree, c.V) THEN {"no"}
  ELSE IF k.m = c.m /\ k.exact THEN {"msg"}
  ELSE {"no", "wrong"} \cup (IF Allows(k, c) THEN {"msg"} ELSE {})

Decrypt(c, k, out) ==
  /\ out \in Outcomes(keys[k], cts[c])
  /\ UNCHANGED abeVars

----------------------------------------------------------------------------
(* Anything that must not change the abstract state: reloading from bytes *)
Reload(faithful) == faithful /\ UNCHANGED abeVars
=============================================================================
