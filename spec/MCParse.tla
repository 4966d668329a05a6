------------------------------ MODULE MCParse ------------------------------
(* The grammar is unambiguous in the sense that matters: every formula has a *)
(* text, that text denotes it, and redundant parentheses and blanks do not   *)
(* change it.  Also writes every text of up to L characters, with what it    *)
(* denotes, for replay in the code.                                          *)
EXTENDS Parse, TLC, Json, IOUtils
CONSTANTS N, L
VARIABLES t, txt

RECURSIVE Trees(_)
Trees(n) ==
  IF n = 1 THEN {<<"v", d>> : d \in {<<"7">>, <<"1", "0">>}}
  ELSE UNION {{<<o, a, b>> : o \in {"and", "or"}, a \in Trees(k), b \in Trees(n - k)} : k \in 1..(n - 1)}

Chars == {"1", "2", "(", ")", "&", "|", " "}
Init == t = <<"v", <<"7">>>> /\ txt = <<>>
Next ==
  \/ txt = <<>> /\ t = <<"v", <<"7">>>> /\ \E n \in 2..N : t' \in Trees(n) /\ txt' = <<>>
  \/ t = <<"v", <<"7">>>> /\ Len(txt) < L /\ \E c \in Chars : txt' = Append(txt, c) /\ t' = t
Spec == Init /\ [][Next]_<<t, txt>>

Denotes == ParseText(Text(t, FALSE)).t = t /\ ParseText(<<"(">> \o Text(t, FALSE) \o <<")">>).t = t
           /\ ParseText(<<" ">> \o Text(t, TRUE)).t = t
(* a prefix of a formula that ends in an operator or an open parenthesis is not one *)
Partial == txt # <<>> /\ txt[Len(txt)] \in {"&", "|", "("} => ~ParseText(txt).ok
Written == txt = <<>> \/ PrintT("@@TEXT " \o ToJson([c |-> txt, ok |-> ParseText(txt).ok,
                                  t |-> IF ParseText(txt).ok THEN ParseText(txt).t ELSE <<"no">>]))
=============================================================================
