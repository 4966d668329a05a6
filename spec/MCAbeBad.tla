------------------------------ MODULE MCAbeBad ------------------------------
(* Broken engines: each definition replaces one of Abe's or Access's in a     *)
(* configuration MCAbeBad_<name>.cfg, and TLC has to refute the guarantees    *)
(* (MCAbe's invariants, which do not use the replaced definitions).           *)
EXTENDS MCAbe

(* a right covers what was declared after it on a hierarchical axis *)
CoversUp(p, a) ==
  LET ax == AxisOf(p, a[1])
      pos(n) == CHOOSE i \in DOMAIN ax.attrs : ax.attrs[i] = n
  IN IF ax.hier THEN {<<a[1], ax.attrs[i]>> : i \in pos(a[2])..Len(ax.attrs)} ELSE {a}
upward(p, a) == UNION {Rng(p.vals[b]) : b \in CoversUp(p, a)}

(* hierarchies are ignored; every axis is taken as hierarchical; a whole axis is covered *)
flat(p, a) == Rng(p.vals[a])
steep(p, a) == UNION {Rng(p.vals[b]) : b \in {<<a[1], n>> : n \in
                 LET at_ == AxisOf(p, a[1]).attrs
                     pos == CHOOSE i \in DOMAIN at_ : at_[i] = a[2]
                 IN {at_[i] : i \in 1..pos}}}

(* keys hold only the newest value; or forget the newest one *)
newest(p, a) == {Current(p, b) : b \in Covers(p, a)}
older(p, a) == UNION {{p.vals[b][i] : i \in 1..Max(1, Len(p.vals[b]) - 1)} : b \in Covers(p, a)}

(* encryption keeps using the first value *)
first(p, a) == p.vals[a][1]

(* rotation gives the attribute its first value again; the newest value of any attribute; *)
(* forgets the values it had                                                               *)
reuse(p, a) == [p EXCEPT !.last = @ + 1, !.vals[a] = Append(@, p.vals[a][1])]
recycled(p, a) == [p EXCEPT !.last = @ + 1, !.vals[a] = Append(@, p.last)]
replaced(p, a) == [p EXCEPT !.last = @ + 1, !.vals[a] = <<p.last + 1>>]

(* the authority has one component too few *)
short(m, V) == \A v \in V : v < msts[m].size

(* And is read as Or, Or as And *)
RECURSIVE SatOr(_, _), SatAnd(_, _), SatFirst(_, _)
SatOr(t, V) == IF t[1] = "any" THEN t[2] \cap V # {} ELSE SatOr(t[2], V) \/ SatOr(t[3], V)
SatAnd(t, V) == IF t[1] = "any" THEN t[2] \cap V # {} ELSE SatAnd(t[2], V) /\ SatAnd(t[3], V)
SatFirst(t, V) == IF t[1] = "any" THEN t[2] \cap V # {} ELSE SatFirst(t[2], V)

(* any authority's key opens the ciphertext *)
anyauthority(k, c) == IF Sat(k.tree, c.V) THEN {"msg"} ELSE {"no"}

(* a delegated key is taken for a key issued for its own policy *)
unbounded(p, m, s, f) ==
  [m |-> keys[s].m, ups |-> {}, exact |-> TRUE, pool |-> {},
   tree |-> IF f[1] = "all" THEN keys[s].tree ELSE Tree(pols[p], f)]
(* randomizing gives everything the authority has; or something else than the parent *)
everything(p, m, s, f) ==
  [m |-> keys[s].m, ups |-> {}, exact |-> TRUE, pool |-> {},
   tree |-> IF f[1] = "all" THEN <<"any", AllVals(pols[p])>> ELSE Tree(pols[p], f)]
useless(p, m, s, f) ==
  [m |-> 0, ups |-> {}, exact |-> FALSE, pool |-> {},
   tree |-> IF f[1] = "all" THEN keys[s].tree ELSE Tree(pols[p], f)]

(* shares of different keys fit together *)
pooled(k, c) ==
  IF k.pool # {} THEN IF Sat(k.tree, c.V) THEN {"msg"} ELSE {"no"}
  ELSE IF ~Sat(k.tree, c.V) THEN {"no"}
  ELSE IF k.m = c.m /\ k.exact THEN {"msg"} ELSE {"no", "wrong"}

(* formulas that mention an attribute twice are accepted; unknown names are taken for *)
(* attributes nobody has                                                              *)
repeated(p, f) == IF f[1] = "all" THEN DOMAIN p.vals # {} ELSE Wellformed(p, f)
RECURSIVE KnownPart(_, _)
KnownPart(p, f) == CASE f[1] = "attr" -> IF Known(p, f[2]) THEN <<"any", CoveredVals(p, f[2])>> ELSE <<"any", {}>>
                     [] f[1] = "all" -> <<"any", {}>>
                     [] OTHER -> <<f[1], KnownPart(p, f[2]), KnownPart(p, f[3])>>
RECURSIVE NoAll(_)
NoAll(f) == CASE f[1] = "attr" -> TRUE [] f[1] = "all" -> FALSE [] OTHER -> NoAll(f[2]) /\ NoAll(f[3])
unknown(p, m, f) == IF f[1] = "all" THEN TRUE ELSE NoAll(f) /\ ReadOnce(KnownPart(pols[p], f))
=============================================================================
