-------------------------------- MODULE Group -------------------------------
(* Registers of the pairing group.  An element is known by its exponent: of a  *)
(* scalar, of g2^x (ciphertext side), of g3^x (key side; g1 is the same number *)
(* ready for pairing), of e(g1,g2)^x.  Elements of Gt made at random have      *)
(* exponents nobody knows: an exponent in Gt is a combination of the           *)
(* generator's ("g") and of those.                                             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS SZero, SOne, SAdd(_, _), SNeg(_), SMul(_, _), Basis

VARIABLES sc, g1, g2, g3, gt
regs == <<sc, g1, g2, g3, gt>>

InitRegs == sc = <<>> /\ g1 = <<>> /\ g2 = <<>> /\ g3 = <<>> /\ gt = <<>>

Put(f, d, v) == [n \in DOMAIN f \cup {d} |-> IF n = d THEN v ELSE f[n]]

Of(b, x) == [c \in Basis |-> IF c = b THEN x ELSE SZero]
GtAdd(u, v) == [c \in Basis |-> SAdd(u[c], v[c])]
GtScale(u, x) == [c \in Basis |-> SMul(u[c], x)]
GtNeg(u) == [c \in Basis |-> SNeg(u[c])]

RECURSIVE Paired(_, _, _, _)
Paired(ds, es, xs, i) == IF i > Len(ds) THEN SZero
  ELSE SAdd(Paired(ds, es, xs, i + 1), SMul(SMul(g1[ds[i]], g2[es[i]]), sc[xs[i]]))

ScOps == {"sc_zero", "sc_one", "int", "sc_add", "sc_sub", "sc_mul", "sc_div", "sc_neg", "sc_rand", "msg_to_sc"}
G2Ops == {"g2_gen", "g2_gen_vec", "g2_gens", "g2_exp"}      \* gens: one element of a vector
G3Ops == {"g3_gen", "g3_gen_vec", "g3_gens", "g3_exp"}
G1Ops == {"g1_gen", "g3_mul", "g3_to_g1"}       \* they give both forms
GtOps == {"gt_gen", "gt_exp", "gt_mul", "gt_div", "gt_rand", "pair", "msg_to_gt"}

Kind(f) == CASE f \in ScOps -> "sc" [] f \in G2Ops -> "g2" [] f \in G3Ops \cup G1Ops -> "g3" [] f \in GtOps -> "gt"

(* the exponent of what the operation e computes; n: the number it was given (integers, messages) or    *)
(* that was observed (random scalars, quotients)                                                         *)
Value(e, n) ==
  CASE e.f = "sc_zero" -> SZero
    [] e.f = "sc_one" -> SOne
    [] e.f \in {"int", "sc_rand", "sc_div", "msg_to_sc"} -> n
    [] e.f = "sc_add" -> SAdd(sc[e.a], sc[e.x])
    [] e.f = "sc_sub" -> SAdd(sc[e.a], SNeg(sc[e.x]))
    [] e.f = "sc_mul" -> SMul(sc[e.a], sc[e.x])
    [] e.f = "sc_neg" -> SNeg(sc[e.a])
    [] e.f \in {"g2_gen", "g2_gen_vec", "g3_gen", "g3_gen_vec", "g1_gen"} -> sc[e.x]
    [] e.f \in {"g2_gens", "g3_gens"} -> sc[e.xs[e.at]]
    [] e.f = "g2_exp" -> SMul(g2[e.a], sc[e.x])
    [] e.f = "g3_exp" -> SMul(g3[e.a], sc[e.x])
    [] e.f = "g3_mul" -> SAdd(g3[e.a], g3[e.x])
    [] e.f = "g3_to_g1" -> g3[e.a]
    [] e.f = "gt_gen" -> Of("g", sc[e.x])
    [] e.f = "msg_to_gt" -> Of("g", n)
    [] e.f = "gt_exp" -> GtScale(gt[e.a], sc[e.x])
    [] e.f = "gt_mul" -> GtAdd(gt[e.a], gt[e.x])
    [] e.f = "gt_div" -> GtAdd(gt[e.a], GtNeg(gt[e.x]))
    [] e.f = "gt_rand" -> Of(e.b, SOne)
    [] e.f = "pair" -> Of("g", Paired(e.ds, e.es, e.xs, 1))

(* quotients: c is a / x *)
Quotient(e, c) == e.f = "sc_div" => sc[e.x] # SZero /\ SMul(c, sc[e.x]) = sc[e.a]

Keep(e, v) ==
  LET k == Kind(e.f)
  IN /\ sc' = IF k = "sc" THEN Put(sc, e.d, v) ELSE sc
     /\ g2' = IF k = "g2" THEN Put(g2, e.d, v) ELSE g2
     /\ g3' = IF k = "g3" THEN Put(g3, e.d, v) ELSE g3
     /\ g1' = IF e.f \in G1Ops THEN Put(g1, e.d, v) ELSE g1
     /\ gt' = IF k = "gt" THEN Put(gt, e.d, v) ELSE gt

Reg(k, n) == CASE k = "sc" -> sc[n] [] k = "g2" -> g2[n] [] k = "g3" -> g3[n] [] k = "gt" -> gt[n]
=============================================================================
