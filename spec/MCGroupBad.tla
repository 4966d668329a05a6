----------------------------- MODULE MCGroupBad -----------------------------
(* Broken operations of the group; TLC has to find a program on which MCGroup's *)
(* laws do not hold (configurations MCGroupBad_<name>.cfg).                     *)
EXTENDS MCGroup

(* a pairing that looks only at the first pair; that forgets the exponents; that adds them *)
RECURSIVE PairedBut(_, _, _, _), Added(_, _, _, _)
single(ds, es, xs, i) == SMul(SMul(g1[ds[1]], g2[es[1]]), sc[xs[1]])
PairedBut(ds, es, xs, i) == IF i > Len(ds) THEN SZero
  ELSE SAdd(PairedBut(ds, es, xs, i + 1), SMul(g1[ds[i]], g2[es[i]]))
unscaled(ds, es, xs, i) == PairedBut(ds, es, xs, i)
Added(ds, es, xs, i) == IF i > Len(ds) THEN SZero
  ELSE SAdd(Added(ds, es, xs, i + 1), SAdd(SMul(g1[ds[i]], g2[es[i]]), sc[xs[i]]))
added(ds, es, xs, i) == Added(ds, es, xs, i)

(* raising to a power multiplies once too often; a quotient is a product; the neutral element is wrong *)
powered(u, x) == [c \in Bases |-> ZMul(u[c], ZAdd(x, IF x = 3 THEN 1 ELSE 0))]
unsigned(u) == u
(* only one coordinate of an element of Gt is multiplied *)
half(u, v) == [c \in Bases |-> IF c = "g" THEN ZAdd(u[c], v[c]) ELSE u[c]]
=============================================================================
