---------------------------- MODULE MCPolicyBad ----------------------------
(* Broken designs for policies through the interfaces (see the .cfg files).   *)
EXTENDS MCPolicy

(* each attribute of the list is rotated once *)
RECURSIVE OnceEach(_, _)
OnceEach(P, as) ==
  IF as = <<>> THEN <<TRUE, P>>
  ELSE IF Head(as) \in Rng(Tail(as)) THEN OnceEach(P, Tail(as))
  ELSE IF CanRotate(P, Head(as)) THEN OnceEach(Rotate(P, Head(as)), Tail(as))
  ELSE <<FALSE, P>>

(* what cannot be rotated is passed over *)
RECURSIVE Skipping(_, _)
Skipping(P, as) ==
  IF as = <<>> THEN <<TRUE, P>>
  ELSE Skipping(IF CanRotate(P, Head(as)) THEN Rotate(P, Head(as)) ELSE P, Tail(as))

(* the list is rotated from its end *)
RECURSIVE Backwards(_, _)
Backwards(P, as) ==
  IF as = <<>> THEN <<TRUE, P>>
  ELSE LET r == Backwards(P, Tail(as))
       IN IF r[1] /\ CanRotate(r[2], Head(as)) THEN <<TRUE, Rotate(r[2], Head(as))>> ELSE <<FALSE, P>>

(* a refused list leaves what was done before the refusal *)
Partial(p, q, as, res) ==
  LET r == AllRotated(pols[p], as)
  IN /\ res = IF r[1] THEN "ok" ELSE "err"
     /\ pols' = Put(pols, q, r[2])
     /\ UNCHANGED <<msts, keys, cts, nextm>>

(* the policy given in is changed, instead of a new one made *)
InPlace(p, q, as, res) ==
  LET r == AllRotated(pols[p], as)
  IN /\ res = IF r[1] THEN "ok" ELSE "err"
     /\ pols' = IF r[1] THEN Put(Put(pols, p, r[2]), q, r[2]) ELSE pols
     /\ UNCHANGED <<msts, keys, cts, nextm>>

(* the newest value replaces the others *)
Replace(p, a) == [p EXCEPT !.last = @ + 1, !.vals[a] = <<p.last + 1>>]
(* an attribute rotated while it is the latest creation keeps its value *)
Reuse(p, a) == [p EXCEPT !.last = Max(@, 1 + p.vals[a][Len(p.vals[a])]), !.vals[a] = Append(@, 1 + p.vals[a][Len(p.vals[a])])]
(* one creation too many *)
Over(p, a) == Known(p, a) /\ p.last <= p.max
(* the last one may not be used *)
Under(p, a) == Known(p, a) /\ p.last + 1 < p.max
(* an axis declared again is added to the first *)
Again(p, x, names) == p.last + Len(names) <= p.max
=============================================================================
