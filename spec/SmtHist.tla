------------------------------- MODULE SmtHist ------------------------------
(* Long histories of writes, with reads of present and absent keys.          *)
EXTENDS Smt, Json, IOUtils
CONSTANTS Keys, Vals, MaxLen, Out
VARIABLES m, tree, hist
vars == <<m, tree, hist>>
Init == m = [k \in {} |-> 0] /\ tree = Empty /\ hist = <<>>
Upd(mm, k, v) == IF v = 0 THEN [x \in DOMAIN mm \ {k} |-> mm[x]]
                 ELSE [x \in DOMAIN mm \cup {k} |-> IF x = k THEN v ELSE mm[x]]
Next == /\ Len(hist) < MaxLen
        /\ \E k \in {RandomElement(Keys)}, c \in {RandomElement(1..8)}, v \in {RandomElement(Vals)} :
             \E kk \in {IF c <= 3 /\ DOMAIN m # {} THEN RandomElement(DOMAIN m) ELSE k} :
             \E vv \in {IF c <= 4 THEN 0 ELSE v} :
               IF c = 8 THEN /\ hist' = Append(hist, <<"get", k, Get(tree, k)>>)
                             /\ UNCHANGED <<m, tree>>
               ELSE /\ m' = Upd(m, kk, vv) /\ tree' = Set(tree, kk, vv)
                    /\ hist' = Append(hist, <<IF vv = 0 /\ c <= 2 THEN "del" ELSE "set", kk, vv>>)
IsCanonical == tree = Canon(m, 0)
Answers == \A k \in Keys : Get(tree, k) = IF k \in DOMAIN m THEN m[k] ELSE 0
Emit == Out = "" \/ Len(hist) < MaxLen \/ PrintT(ToJson([ops |-> hist, m |-> { <<k, m[k]>> : k \in DOMAIN m }]))
=============================================================================
