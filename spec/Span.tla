-------------------------------- MODULE Span --------------------------------
(* Linear algebra over the field of P elements (P*P must fit 31 bits), and    *)
(* what a span program has to be: rows labelled by attributes whose linear    *)
(* combinations reach the target (1,..,1) exactly for the satisfying sets.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Mod(x, P) == x % P      \* TLC: non negative for positive P
Ones(n) == [i \in 1..n |-> 1]
IsZero(v) == \A i \in DOMAIN v : v[i] = 0
Pivot(v) == CHOOSE i \in DOMAIN v : v[i] # 0 /\ \A j \in 1..(i - 1) : v[j] = 0
ModRow(v, P) == [i \in DOMAIN v |-> Mod(v[i], P)]

(* v with the pivot column of b cancelled; no inverses needed *)
Cancel(v, b, P) ==
  LET c == Pivot(b)
  IN IF v[c] = 0 THEN v ELSE [i \in DOMAIN v |-> Mod(Mod(v[i] * b[c], P) - Mod(b[i] * v[c], P), P)]

ReduceBy(v, basis, P) == FoldLeft(LAMBDA x, b : Cancel(x, b, P), v, basis)
Extend(basis, v, P) == LET w == ReduceBy(v, basis, P) IN IF IsZero(w) THEN basis ELSE Append(basis, w)
BasisOf(rows, P) == FoldLeft(LAMBDA bs, v : Extend(bs, ModRow(v, P), P), <<>>, rows)

InSpan(rows, target, P) ==
  IsZero(ReduceBy(ModRow(target, P), BasisOf(rows, P), P))

(* the combination of the rows by the coefficients a *)
Combine(a, rows, P) ==
  [c \in DOMAIN rows[1] |->
     FoldLeft(LAMBDA s, i : Mod(s + Mod(Mod(a[i], P) * Mod(rows[i][c], P), P), P), 0, [i \in DOMAIN rows |-> i])]

----------------------------------------------------------------------------
(* formulas over leaves <<"v", x>> *)
RECURSIVE LeavesOf(_)
LeavesOf(t) == IF t[1] = "v" THEN <<t[2]>> ELSE LeavesOf(t[2]) \o LeavesOf(t[3])
LeafSet(t) == {LeavesOf(t)[i] : i \in DOMAIN LeavesOf(t)}
OnceOnly(t) == Cardinality(LeafSet(t)) = Len(LeavesOf(t))

RECURSIVE Holds(_, _)
Holds(t, S) ==
  CASE t[1] = "v"   -> t[2] \in S
    [] t[1] = "and" -> Holds(t[2], S) /\ Holds(t[3], S)
    [] t[1] = "or"  -> Holds(t[2], S) \/ Holds(t[3], S)

(* span and satisfaction both grow with the set: the boundary decides *)
MinSat(t) == LET L == LeafSet(t) IN {S \in SUBSET L : Holds(t, S) /\ \A x \in S : ~Holds(t, S \ {x})}
MaxUnsat(t) == LET L == LeafSet(t) IN {S \in SUBSET L : ~Holds(t, S) /\ \A x \in L \ S : Holds(t, S \cup {x})}

RowsOf(matrix, attrs, S) == SelectSeq([i \in DOMAIN matrix |-> <<attrs[i], matrix[i]>>], LAMBDA r : r[1] \in S)
Picked(matrix, attrs, S) == [i \in DOMAIN RowsOf(matrix, attrs, S) |-> RowsOf(matrix, attrs, S)[i][2]]

Reaches(matrix, attrs, cols, S, P) ==
  LET rows == Picked(matrix, attrs, S) IN rows # <<>> /\ InSpan(rows, Ones(cols), P)

IsSpanProgram(t, matrix, attrs, cols, P) ==
  /\ cols >= 1
  /\ Len(matrix) = Len(attrs)
  /\ Len(attrs) = Cardinality(LeafSet(t))
  /\ {attrs[i] : i \in DOMAIN attrs} = LeafSet(t)
  /\ \A i \in DOMAIN matrix : Len(matrix[i]) = cols
  /\ \A S \in MinSat(t) : Reaches(matrix, attrs, cols, S, P)
  /\ \A S \in MaxUnsat(t) : ~Reaches(matrix, attrs, cols, S, P)

----------------------------------------------------------------------------
(* The construction (Lewko-Waters), for the exhaustive check of the design.   *)
(* Gives <<attr, vector>> pairs; vectors are padded to the final width later. *)
Pad(v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE 0]
RECURSIVE Build(_, _, _)
Build(todo, done, width) ==
  IF todo = <<>> THEN [rows |-> done, cols |-> width]
  ELSE LET t == todo[1][1] v == todo[1][2] rest == Tail(todo)
       IN CASE t[1] = "v"   -> Build(rest, Append(done, <<t[2], v>>), width)
            [] t[1] = "or"  -> Build(rest \o <<<<t[2], v>>, <<t[3], v>>>>, done, width)
            [] t[1] = "and" -> Build(rest \o <<<<t[2], Append(Pad(v, width), 1)>>,
                                               <<t[3], Append([i \in 1..width |-> 0], -1)>>>>,
                                     done, width + 1)
(* from target (1,0,..,0) to target (1,..,1): add the first column to the others *)
Rebase(v) == [i \in DOMAIN v |-> IF i = 1 THEN v[1] ELSE v[i] + v[1]]
Program(t) ==
  LET b == Build(<<<<t, <<1>>>>>>, <<>>, 1)
  IN [matrix |-> [i \in DOMAIN b.rows |-> Rebase(Pad(b.rows[i][2], b.cols))],
      attrs  |-> [i \in DOMAIN b.rows |-> b.rows[i][1]],
      cols   |-> b.cols]
=============================================================================
