------------------------------ MODULE MCParseBad -----------------------------
(* Broken readers of formula texts; TLC has to find a formula or a text on      *)
(* which MCParse's invariants do not hold (configurations MCParseBad_<name>.cfg). *)
EXTENDS MCParse

Bare(chars) == SelectSeq(chars, LAMBDA c : c # Blank)

(* what follows a formula is not looked at *)
trailing(chars) == ReadE(Bare(chars), 1)

(* blanks are part of the text *)
blanks(chars) == LET r == ReadE(chars, 1) IN IF r.ok /\ r.n = Len(chars) + 1 THEN r ELSE No

(* operators are grouped from the left; And binds closer than Or *)
RECURSIVE LeftE(_, _), LeftT(_, _), More(_, _, _)
LeftT(s, i) ==
  IF i > Len(s) \/ s[i] # "(" THEN ReadT(s, i)
  ELSE LET r == LeftE(s, i + 1)
       IN IF r.ok /\ r.n <= Len(s) /\ s[r.n] = ")" THEN Yes(r.t, r.n + 1) ELSE No
More(s, t0, i) ==
  IF i > Len(s) \/ s[i] \notin {"&", "|"} THEN Yes(t0, i)
  ELSE LET r == LeftT(s, i + 1)
       IN IF r.ok THEN More(s, <<IF s[i] = "&" THEN "and" ELSE "or", t0, r.t>>, r.n) ELSE No
LeftE(s, i) == LET l == LeftT(s, i) IN IF l.ok THEN More(s, l.t, l.n) ELSE No
left(chars) == LET s == Bare(chars) r == LeftE(s, 1) IN IF r.ok /\ r.n = Len(s) + 1 THEN r ELSE No

RECURSIVE OrE(_, _), AndE(_, _), PrecT(_, _)
PrecT(s, i) ==
  IF i > Len(s) \/ s[i] # "(" THEN ReadT(s, i)
  ELSE LET r == OrE(s, i + 1)
       IN IF r.ok /\ r.n <= Len(s) /\ s[r.n] = ")" THEN Yes(r.t, r.n + 1) ELSE No
AndE(s, i) ==
  LET l == PrecT(s, i)
  IN IF l.ok /\ l.n <= Len(s) /\ s[l.n] = "&"
     THEN LET r == AndE(s, l.n + 1) IN IF r.ok THEN Yes(<<"and", l.t, r.t>>, r.n) ELSE No
     ELSE l
OrE(s, i) ==
  LET l == AndE(s, i)
  IN IF l.ok /\ l.n <= Len(s) /\ s[l.n] = "|"
     THEN LET r == OrE(s, l.n + 1) IN IF r.ok THEN Yes(<<"or", l.t, r.t>>, r.n) ELSE No
     ELSE l
closer(chars) == LET s == Bare(chars) r == OrE(s, 1) IN IF r.ok /\ r.n = Len(s) + 1 THEN r ELSE No

(* an operator at the end is forgiven; a missing parenthesis too; operands change places *)
Chop(s) == IF s # <<>> /\ s[Len(s)] \in {"&", "|"} THEN SubSeq(s, 1, Len(s) - 1) ELSE s
forgiving(chars) == LET s == Chop(Bare(chars)) r == ReadE(s, 1) IN IF r.ok /\ r.n = Len(s) + 1 THEN r ELSE No
RECURSIVE Mirror(_)
Mirror(u) == IF u[1] = "v" THEN u ELSE <<u[1], Mirror(u[3]), Mirror(u[2])>>
mirrored(chars) == LET s == Bare(chars) r == ReadE(s, 1) IN IF r.ok /\ r.n = Len(s) + 1 THEN Yes(Mirror(r.t), r.n) ELSE No
(* only one digit of a number is read *)
RECURSIVE Cut1(_)
Cut1(u) == IF u[1] = "v" THEN <<"v", <<u[2][1]>>>> ELSE <<u[1], Cut1(u[2]), Cut1(u[3])>>
digit(chars) == LET s == Bare(chars) r == ReadE(s, 1) IN IF r.ok /\ r.n = Len(s) + 1 THEN Yes(Cut1(r.t), r.n) ELSE No
=============================================================================
