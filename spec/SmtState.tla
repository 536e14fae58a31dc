------------------------------ MODULE SmtState ------------------------------
(* Every map over a key set, with every write as a transition.               *)
EXTENDS Smt, Json, IOUtils
CONSTANTS Keys, Vals, Mode, Out
VARIABLES m, tree, part
vars == <<m, tree, part>>
Pairs(mm) == { <<k, mm[k]>> : k \in DOMAIN mm }
Init == m = [k \in {} |-> 0] /\ tree = Empty /\ part = Empty
Upd(mm, k, v) == IF v = 0 THEN [x \in DOMAIN mm \ {k} |-> mm[x]]
                 ELSE [x \in DOMAIN mm \cup {k} |-> IF x = k THEN v ELSE mm[x]]
Write == /\ Mode = "set"
         /\ \E k \in Keys, v \in Vals \cup {0} :
              m' = Upd(m, k, v) /\ tree' = Set(tree, k, v)
         /\ part' = tree'
(* In the other modes maps are initial, and a step hides subtrees.           *)
InitAll == \E d \in SUBSET Keys : \E mm \in [d -> Vals] :
             m = mm /\ tree = Canon(mm, 0) /\ part = tree
Hide == Mode = "hide" /\ part = tree /\ part' \in Hidings(tree) /\ UNCHANGED <<m, tree>>
Next == Write \/ Hide

IsCanonical == tree = Canon(m, 0)
Answers == \A k \in Keys : Get(tree, k) = IF k \in DOMAIN m THEN m[k] ELSE 0
SameTree == Expand(part) = tree
Visible(n) == { p[1] : p \in Leaves(n, <<>>) }
SerialRoundTrip ==
  \A keep \in SUBSET Visible(part) :
     LET r == Read(Ser(part, keep), 2)
     IN Expand(r) = tree /\ \A k \in keep : Get(r, k) = m[k]

RECURSIVE Show(_)
Show(n) ==
  CASE n.t = "E" -> <<"E">>
    [] n.t = "L" -> <<"L", n.k, n.v>>
    [] n.t = "I" -> <<"I", Show(n.l), Show(n.r)>>
    [] n.t = "H" -> <<"H", Show(n.of)>>
Word(w) == IF w[1] = "h" THEN <<"h", Show(IF w[2].t = "H" THEN w[2].of ELSE w[2])>> ELSE w
ShowSer(s) == [i \in 1..Len(s) |-> Word(s[i])]
EmitSet == Out = "" \/ PrintT(ToJson([m |-> Pairs(m), tree |-> Show(tree)]))
Keeps == { k \in SUBSET Visible(part) : Cardinality(k) <= 2 \/ k = Visible(part) }
EmitSer == Out = "" \/ PrintT(ToJson(
   [m |-> Pairs(m), tree |-> Show(tree),
    hashes |-> { <<h[1], Show(h[2])>> : h \in Hashes(part, <<>>) },
    leaves |-> Leaves(part, <<>>),
    sers |-> { <<keep, ShowSer(Ser(part, keep))>> : keep \in Keeps }]))
=============================================================================
