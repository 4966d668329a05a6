------------------------------- MODULE Access -------------------------------
(* Policies, access policies and the access structures they denote.           *)
(*                                                                            *)
(* An attribute is a pair <<axis, name>>.  A policy gives every attribute a   *)
(* growing sequence of values (generations), newest last; values are handed   *)
(* out from a budget.  An access policy is a tree                             *)
(*    <<"attr", a>> | <<"and", f, g>> | <<"or", f, g>> | <<"all">>            *)
(* and denotes, under a policy, a monotone structure over values              *)
(*    <<"any", S>> | <<"and", s, t>> | <<"or", s, t>>                         *)
(* where <<"any", S>> is satisfied by any one value of S.                     *)
EXTENDS Naturals, Sequences, FiniteSets

Rng(s) == {s[i] : i \in DOMAIN s}
Max(a, b) == IF a >= b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

----------------------------------------------------------------------------
(* Policies *)

NoVals == [a \in {} |-> <<>>]
EmptyPolicy(max) == [max |-> max, last |-> 0, axes |-> <<>>, vals |-> NoVals]

Known(p, a) == a \in DOMAIN p.vals
HasAxis(p, x) == \E i \in DOMAIN p.axes : p.axes[i].name = x
AxisOf(p, x) == p.axes[CHOOSE i \in DOMAIN p.axes : p.axes[i].name = x]

CanAddAxis(p, x, names) == p.last + Len(names) <= p.max /\ ~HasAxis(p, x)
AddAxis(p, x, names, hier) ==
  [p EXCEPT !.last = @ + Len(names),
            !.axes = Append(@, [name |-> x, attrs |-> names, hier |-> hier]),
            !.vals = [a \in DOMAIN p.vals \cup {<<x, names[i]>> : i \in DOMAIN names} |->
                        IF a \in DOMAIN p.vals THEN p.vals[a]
                        ELSE <<p.last + (CHOOSE i \in DOMAIN names : names[i] = a[2])>>]]

CanRotate(p, a) == Known(p, a) /\ p.last < p.max
Rotate(p, a) == [p EXCEPT !.last = @ + 1, !.vals[a] = Append(@, p.last + 1)]

Current(p, a) == p.vals[a][Len(p.vals[a])]

(* what a right to `a` covers: itself, and what was declared before it on a hierarchical axis *)
Covers(p, a) ==
  LET ax == AxisOf(p, a[1])
      pos(n) == CHOOSE i \in DOMAIN ax.attrs : ax.attrs[i] = n
  IN IF ax.hier THEN {<<a[1], ax.attrs[i]>> : i \in 1..pos(a[2])} ELSE {a}

CoveredVals(p, a) == UNION {Rng(p.vals[b]) : b \in Covers(p, a)}
AllVals(p) == UNION {Rng(p.vals[a]) : a \in DOMAIN p.vals}

----------------------------------------------------------------------------
(* Access policies *)

RECURSIVE Wellformed(_, _)
Wellformed(p, f) ==       \* names known, no "all" inside
  CASE f[1] = "attr" -> HasAxis(p, f[2][1]) /\ Known(p, f[2])
    [] f[1] = "all"  -> FALSE
    [] OTHER         -> Wellformed(p, f[2]) /\ Wellformed(p, f[3])

RECURSIVE Tree(_, _)
Tree(p, f) ==
  CASE f[1] = "attr" -> <<"any", CoveredVals(p, f[2])>>
    [] f[1] = "all"  -> <<"any", AllVals(p)>>
    [] OTHER         -> <<f[1], Tree(p, f[2]), Tree(p, f[3])>>

RECURSIVE ValsOf(_)
ValsOf(t) == IF t[1] = "any" THEN t[2] ELSE ValsOf(t[2]) \cup ValsOf(t[3])

RECURSIVE ReadOnce(_)
ReadOnce(t) ==
  IF t[1] = "any" THEN TRUE
  ELSE ReadOnce(t[2]) /\ ReadOnce(t[3]) /\ ValsOf(t[2]) \cap ValsOf(t[3]) = {}

Acceptable(p, f) ==
  IF f[1] = "all" THEN DOMAIN p.vals # {}
  ELSE Wellformed(p, f) /\ ReadOnce(Tree(p, f))

RECURSIVE Sat(_, _)
Sat(t, V) ==
  CASE t[1] = "any" -> t[2] \cap V # {}
    [] t[1] = "and" -> Sat(t[2], V) /\ Sat(t[3], V)
    [] t[1] = "or"  -> Sat(t[2], V) \/ Sat(t[3], V)

(* Sets of values that always occur together in both trees are interchangeable: *)
(* it is enough to look at one representative of each.                          *)
RECURSIVE LeafSets(_)
LeafSets(t) == IF t[1] = "any" THEN {t[2]} ELSE LeafSets(t[2]) \cup LeafSets(t[3])
Reps(s, t) ==
  {MinOf(A \cap B) : <<A, B>> \in {ab \in LeafSets(s) \X LeafSets(t) : ab[1] \cap ab[2] # {}}}

(* the child structure allows exactly what the parent's does on the child's values *)
SameOn(child, parent) ==
  LET R == Reps(child, parent)
  IN \A V \in SUBSET R : Sat(child, V) = Sat(parent, V)

(* the child is obtained from the parent by dropping alternatives, turning Or into And, *)
(* or exchanging operands                                                               *)
RECURSIVE Narrows(_, _)
Narrows(c, p) ==
  LET both == \/ Narrows(c[2], p[2]) /\ Narrows(c[3], p[3])
              \/ Narrows(c[2], p[3]) /\ Narrows(c[3], p[2])
  IN CASE p[1] = "any" -> c[1] = "any" /\ c[2] \subseteq p[2]
       [] p[1] = "and" -> c[1] = "and" /\ both
       [] p[1] = "or"  -> \/ c[1] \in {"and", "or"} /\ both
                          \/ Narrows(c, p[2]) \/ Narrows(c, p[3])
=============================================================================
