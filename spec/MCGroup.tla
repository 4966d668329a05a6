------------------------------- MODULE MCGroup ------------------------------
(* Programs over the registers with exponents modulo a small prime.  Checked   *)
(* on the way: the laws the scheme relies on, read off the registers' history  *)
(* of operations (not their exponents).                                        *)
EXTENDS Group, TLC, Json, IOUtils, Randomization

CONSTANTS P, Few      \* Few: of all operands only two, taken at random, for long programs
Depth == atoi(IOEnv.DEPTH)

ZAdd(a, b) == (a + b) % P
ZNeg(a) == (0 - a) % P
ZMul(a, b) == (a * b) % P
Bases == {"g", "u1"}

VARIABLE prog
vars == <<regs, prog>>

Init ==
  /\ sc = [s \in {"z", "o", "m", "t", "b"} |-> CASE s = "z" -> 0 [] s = "o" -> 1 [] s = "m" -> P - 1 [] s = "t" -> 2 [] s = "b" -> 3]
  /\ g1 = [n \in {"Q"} |-> 1] /\ g3 = [n \in {"Q"} |-> 1]
  /\ g2 = [n \in {"P"} |-> 1]
  /\ gt = [n \in {"T"} |-> [c \in Bases |-> IF c = "u1" THEN 1 ELSE 0]]
  /\ prog = <<>>

D == "r" \o ToString(Len(prog))
Two(f, dom1, dom2) == {[f |-> f, d |-> D, a |-> a, x |-> x] : a \in dom1, x \in dom2}
OneArg(f, dom) == {[f |-> f, d |-> D, a |-> a] : a \in dom}
FromX(f, dom) == {[f |-> f, d |-> D, x |-> x] : x \in dom}
S == DOMAIN sc
Some(D0) == IF Few /\ Cardinality(D0) > 2 THEN RandomSubset(2, D0) ELSE D0
OpsOf(SS, S1, S2, S3, ST) ==   UNION ({Two(f, SS, SS) : f \in {"sc_add", "sc_sub", "sc_mul"}}
   \cup {Two("sc_div", SS, {x \in SS : sc[x] # 0})}
   \cup {OneArg("sc_neg", SS), OneArg("g3_to_g1", S3)}
   \cup {FromX(f, SS) : f \in {"g2_gen", "g2_gen_vec", "g3_gen", "g3_gen_vec", "g1_gen", "gt_gen"}}
   \cup {Two("g2_exp", S2, SS), Two("g3_exp", S3, SS), Two("gt_exp", ST, SS)}
   \cup {Two(f, ST, ST) : f \in {"gt_mul", "gt_div"}}
   \cup {Two("g3_mul", S3, S3)}
   \cup {{[f |-> "pair", d |-> D, ds |-> <<a>>, es |-> <<b>>, xs |-> <<x>>] : a \in S1, b \in S2, x \in SS}}
   \cup {{[f |-> "pair", d |-> D, ds |-> <<a, a2>>, es |-> <<b, b2>>, xs |-> <<x, y>>] :
            a \in S1, a2 \in S1, b \in S2, b2 \in S2, x \in {"o", "m", "b"}, y \in {"z", "m", "t"}}})

Ops == OpsOf(Some(S), Some(DOMAIN g1), Some(DOMAIN g2), Some(DOMAIN g3), Some(DOMAIN gt))

Next == /\ Len(prog) < Depth
        /\ \E e \in Ops : \E n \in (IF e.f = "sc_div" THEN 0..(P - 1) ELSE {0}) :
             /\ Quotient(e, n)
             /\ Keep(e, Value(e, n))
             /\ prog' = Append(prog, e)
Spec == Init /\ [][Next]_vars

Programs == Len(prog) < Depth \/ PrintT("@@SEQ " \o ToJson(prog))

(* the laws of the exponents *)
Laws ==
  /\ \A a \in DOMAIN g1, b \in DOMAIN g2, x \in S, y \in S :
       \* e(d^y, e^x) = e(d, e)^(x y)
       Of("g", ZMul(ZMul(ZMul(g1[a], sc[y]), ZMul(g2[b], sc[x])), 1)) = GtScale(GtScale(Of("g", ZMul(g1[a], g2[b])), sc[x]), sc[y])
  /\ \A a \in DOMAIN gt, b \in DOMAIN gt : GtAdd(GtAdd(gt[a], GtNeg(gt[b])), gt[b]) = gt[a]
  /\ \A a \in DOMAIN gt, x \in S, y \in S : GtAdd(GtScale(gt[a], sc[x]), GtScale(gt[a], sc[y])) = GtScale(gt[a], ZAdd(sc[x], sc[y]))

(* the laws of the operations: what one gives, in terms of what others give of it *)
(* (registers are written once)                                                     *)
Pair(a, b, x) == Value([f |-> "pair", ds |-> <<a>>, es |-> <<b>>, xs |-> <<x>>], 0)
Pair1(a) == Of("g", g3[a])      \* what it would give paired with the generator
Null == [c \in Bases |-> 0]
E == prog[Len(prog)]
Steps == prog # <<>> =>
  /\ E.f = "g2_exp" => \A q \in DOMAIN g1 : Pair(q, E.d, "o") = Pair(q, E.a, E.x)
  /\ E.f = "g3_exp" => Pair1(E.d) = GtScale(Pair1(E.a), sc[E.x])
  /\ E.f = "g3_mul" /\ {E.a, E.x} \subseteq DOMAIN g1 =>
       \A b \in DOMAIN g2 : Pair(E.d, b, "o") = GtAdd(Pair(E.a, b, "o"), Pair(E.x, b, "o"))
  /\ E.f = "g3_to_g1" /\ E.a \in DOMAIN g1 => \A b \in DOMAIN g2 : Pair(E.d, b, "o") = Pair(E.a, b, "o")
  /\ E.f = "g1_gen" => \A b \in DOMAIN g2 : Pair(E.d, b, "o") = Pair("Q", b, E.x)
  /\ E.f \in {"g2_gen", "g2_gen_vec"} => Pair("Q", E.d, "o") = Pair("Q", "P", E.x)
  /\ E.f = "gt_gen" => gt[E.d] = Pair("Q", "P", E.x)
  /\ E.f = "pair" => gt[E.d] = IF Len(E.ds) = 1 THEN GtScale(Pair(E.ds[1], E.es[1], "o"), sc[E.xs[1]])
                                ELSE GtAdd(Pair(E.ds[1], E.es[1], E.xs[1]), Pair(E.ds[2], E.es[2], E.xs[2]))
  /\ E.f = "gt_div" => GtAdd(gt[E.d], gt[E.x]) = gt[E.a]
  /\ E.f = "gt_exp" => /\ sc[E.x] = 0 => gt[E.d] = Null
                       /\ sc[E.x] = 1 => gt[E.d] = gt[E.a]
                       /\ sc[E.x] = P - 1 => GtAdd(gt[E.d], gt[E.a]) = Null
                       /\ sc[E.x] = 3 => gt[E.d] = GtAdd(GtAdd(gt[E.a], gt[E.a]), gt[E.a])
  /\ E.f = "gt_mul" => GtAdd(gt[E.d], GtNeg(gt[E.x])) = gt[E.a]
  /\ E.f = "sc_sub" => ZAdd(sc[E.d], sc[E.x]) = sc[E.a]
  /\ E.f = "sc_add" => ZAdd(sc[E.d], ZNeg(sc[E.x])) = sc[E.a]
  /\ E.f = "sc_div" => ZMul(sc[E.d], sc[E.x]) = sc[E.a]
  /\ E.f = "sc_neg" => ZAdd(sc[E.d], sc[E.a]) = 0
=============================================================================
