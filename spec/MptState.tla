------------------------------ MODULE MptState ------------------------------
(* All reachable tries over a finite key set: the trie built by any history  *)
(* of insertions and deletions is the canonical trie of the map.             *)
EXTENDS Mpt, Json, IOUtils
CONSTANTS Keys, ValIds, ValOf(_), Out
VARIABLES m, tree        \* abstract map, and the trie the operations build
vars == <<m, tree>>

Init == m = [k \in {} |-> 0] /\ tree = Empty
Put(k, v) == /\ m' = [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
             /\ tree' = Insert(tree, k, ValOf(v))
Del(k) == /\ m' = [x \in DOMAIN m \ {k} |-> m[x]]
          /\ tree' = Delete(tree, k)
Next == \E k \in Keys : (\E v \in ValIds : Put(k, v)) \/ Del(k)

Contents == [k \in DOMAIN m |-> ValOf(m[k])]
TreeIsCanonical == tree = Canon(Contents, 0)
LookupsAgree == \A k \in Keys :
   Get(tree, k) = IF k \in DOMAIN m THEN [t |-> "val", v |-> ValOf(m[k])] ELSE [t |-> "none"]
ItemsAgree == /\ { <<i.k, i.v>> : i \in {Items(tree, <<>>)[j] : j \in DOMAIN Items(tree, <<>>)} }
                 = { <<k, ValOf(m[k])>> : k \in DOMAIN m }
              /\ Len(Items(tree, <<>>)) = Cardinality(DOMAIN m)
(* No redundant node anywhere.                                              *)
RECURSIVE WellFormed(_)
WellFormed(n) ==
  CASE n.t = "B" -> Cardinality(DOMAIN n.c) >= 2 /\ \A i \in DOMAIN n.c : n.c[i].t # "E" /\ WellFormed(n.c[i])
    [] n.t = "X" -> n.n # <<>> /\ n.c.t = "B" /\ WellFormed(n.c)
    [] OTHER -> TRUE
NoRedundantNode == WellFormed(tree)
Emit == Out = "" \/
   PrintT(ToJson([m |-> {<<k, m[k]>> : k \in DOMAIN m}, tree |-> tree,
                              root |-> Enc(tree)]))
=============================================================================
