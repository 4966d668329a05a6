----------------------------- MODULE MCHybridBad -----------------------------
(* Broken mechanisms of headers and blocks: each replaces one of MCHybrid's in *)
(* a configuration MCHybridBad_<name>.cfg, and TLC has to find an input on     *)
(* which Hybrid's rules are broken.                                            *)
EXTENDS MCHybrid

(* blocks: associated data left out; only the uid; no authentication *)
unbound(P, q) ==
  LET bs == {b \in Blocks : P = <<Piece(b, 0, BN)>> /\ blks[b].key = q[1]}
  IN IF bs = {} THEN {Bad} ELSE {<<"ok", b>> : b \in bs}
nonumber(P, q) ==
  LET bs == {b \in Blocks : P = <<Piece(b, 0, BN)>> /\ <<blks[b].key, blks[b].uid>> = <<q[1], q[2]>>}
  IN IF bs = {} THEN {Bad} ELSE {<<"ok", b>> : b \in bs}
(* the tag is not looked at; a longer input is cut down to a block *)
untagged(P, q) ==
  LET bs == {b \in Blocks : Cut(P, 0, BN - 1) = <<Piece(b, 0, BN - 1)>>
                            /\ <<blks[b].key, blks[b].uid, blks[b].num>> = q}
  IN IF bs = {} THEN {Bad} ELSE {<<"ok", b>> : b \in bs}

(* headers: metadata opens under any key; incomplete metadata counts as none; *)
(* metadata of another size is cut; metadata is not authenticated              *)
anykey(w, rest) ==
  IF rest = <<>> THEN {<<"ok", w, "", "">>}
  ELSE LET hs == {h \in Heads : heads[h].meta /\ rest = <<Piece(h, 3, HN)>>}
       IN IF hs = {} THEN {Bad} ELSE {<<"ok", w, heads[h].uid, heads[h].ad>> : h \in hs}
lax(w, rest) ==
  IF Size(rest) < HN - HE THEN {<<"ok", w, "", "">>}
  ELSE LET hs == {h \in Heads : heads[h].meta /\ heads[h].w = w /\ Cut(rest, 0, HN - HE) = <<Piece(h, 3, HN)>>}
       IN IF hs = {} THEN {Bad} ELSE {<<"ok", w, heads[h].uid, heads[h].ad>> : h \in hs}
forgiving(w, rest) ==
  IF rest = <<>> THEN {<<"ok", w, "", "">>}
  ELSE LET hs == {h \in Heads : heads[h].meta /\ heads[h].w = w /\ rest = <<Piece(h, 3, HN)>>}
       IN IF hs = {} THEN {<<"ok", w, "", "">>} ELSE {<<"ok", w, heads[h].uid, heads[h].ad>> : h \in hs}
swapped(w, rest) ==
  IF rest = <<>> THEN {<<"ok", w, "", "">>}
  ELSE LET hs == {h \in Heads : heads[h].meta /\ heads[h].w = w /\ Cut(rest, 0, HN - HE) = <<Piece(h, 3, HN)>>}
       IN IF hs = {} THEN {Bad} ELSE {<<"ok", w, heads[h].ad, heads[h].uid>> : h \in hs}

(* the key of a header comes out whoever asks *)
anyone(enc, k) ==
  LET hs == {h \in Heads : enc = <<Piece(h, 1, HE)>>}
  IN IF hs # {} THEN {heads[h].w : h \in hs} ELSE {"none", "unrelated"}
(* the same key for every header of the same attributes *)
shared(enc, k) ==
  LET hs == {h \in Heads : enc = <<Piece(h, 1, HE)>>}
  IN IF hs # {} THEN {IF Sat(keys[k].tree, cts[h].V) THEN (IF h = "c" THEN "wa" ELSE heads[h].w) ELSE "none" : h \in hs}
     ELSE {"none"}
=============================================================================
