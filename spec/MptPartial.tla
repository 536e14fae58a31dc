----------------------------- MODULE MptPartial -----------------------------
(* Partial tries. `full` is the trie of map m; `part` is full with some      *)
(* subtrees replaced by their hashes. Each operation is applied to both; the *)
(* specification shows that an operation that does not fail keeps them       *)
(* related, so that partial tries never lead to a wrong root.                *)
(* A second group of states extracts subsets (create_trie_subset).           *)
EXTENDS Mpt, Json, IOUtils
CONSTANTS Keys, ValIds, ValOf(_), Absent, Requests, Out
VARIABLES m, full, part, ph
vars == <<m, full, part, ph>>

RECURSIVE Hidings(_), HideKids(_, _)
(* All ways of hiding subtrees of a node, the node itself included.          *)
Hidings(n) ==
  (IF Hideable(n) THEN {HashOf(n)} ELSE {}) \cup
  CASE n.t = "B" -> { Branch(f, n.v) : f \in HideKids(n.c, DOMAIN n.c) }
    [] n.t = "X" -> { Ext(n.n, c) : c \in Hidings(n.c) }
    [] OTHER -> {n}
HideKids(f, d) ==
  IF d = {} THEN {f}
  ELSE LET i == CHOOSE i \in d : TRUE
       IN UNION { { [g EXCEPT ![i] = c] : c \in Hidings(f[i]) } : g \in HideKids(f, d \ {i}) }

RECURSIVE Expand(_)
Expand(n) ==
  CASE n.t = "H" -> n.of
    [] n.t = "B" -> Branch([i \in DOMAIN n.c |-> Expand(n.c[i])], n.v)
    [] n.t = "X" -> Ext(n.n, Expand(n.c))
    [] OTHER -> n

Contents(mm) == [k \in DOMAIN mm |-> ValOf(mm[k])]
Init == \E d \in SUBSET Keys : \E mm \in [d -> ValIds] :
          /\ m = mm /\ full = Canon(Contents(mm), 0)
          /\ part = full /\ ph = 0
Hide == ph = 0 /\ part' \in Hidings(full) /\ ph' = 1 /\ UNCHANGED <<m, full>>
PartIns(k, v) == Insert(part, k, ValOf(v))
PartDel(k) == Delete(part, k)
Op(r, f, mm) == /\ ph = 1 /\ ~IsErr(r)
                /\ part' = r /\ full' = f /\ m' = mm /\ ph' = 2
Next == \/ Hide
        \/ \E k \in Keys : \E v \in ValIds :
             Op(PartIns(k, v), Insert(full, k, ValOf(v)), [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]])
        \/ \E k \in Keys : Op(PartDel(k), Delete(full, k), [x \in DOMAIN m \ {k} |-> m[x]])

SameRoot == Expand(part) = full /\ EncS(part) = EncS(full)
FullIsCanonical == full = Canon(Contents(m), 0)
LookupsAgree == \A k \in Keys : Get(part, k).t = "hidden" \/ Get(part, k) = Get(full, k)

(* Subsets.                                                                  *)
RECURSIVE Subset(_, _)
Subset(n, ks) ==
  IF ks = {} /\ Hideable(n) THEN (IF n.t = "H" THEN n ELSE HashOf(Expand(n)))
  ELSE CASE n.t = "B" -> Branch([i \in DOMAIN n.c |-> Subset(n.c[i], {Drop(k, 1) : k \in {q \in ks : q[1] = i}})], n.v)
         [] n.t = "X" -> Ext(n.n, Subset(n.c, {Drop(k, Len(n.n)) : k \in {q \in ks : IsPrefixOf(n.n, q)}}))
         [] OTHER -> n
(* A key may end exactly at a hidden node, which then stays as it is; a key  *)
(* that leads into one cannot be served.                                     *)
RECURSIVE Into(_, _)
Into(n, k) ==
  CASE n.t = "H" -> k # <<>>
    [] n.t = "X" -> IsPrefixOf(n.n, k) /\ Into(n.c, Drop(k, Len(n.n)))
    [] n.t = "B" -> Into(Child(n.c, k[1]), Drop(k, 1))
    [] OTHER -> FALSE
SubsetOk(n, ks) == \A k \in ks : ~Into(n, k)
SubsetKeepsAnswers == ph # 1 \/ \A ks \in Requests :
  SubsetOk(part, ks) =>
     LET s == Subset(part, ks)
     IN Expand(s) = full /\ \A k \in ks : Get(s, k) = Get(part, k)

Res(r) == IF IsErr(r) THEN r.e ELSE "ok"
(* Deletions that fail only because a hidden sibling is orphaned, where the  *)
(* sibling is a branch: an extension in front of its hash is right.          *)
RECURSIVE Delete2(_, _)
Prepend2(n, c) == IF c.t = "H" THEN (IF c.of.t = "B" THEN Ext(n, c) ELSE Err("orphan")) ELSE Prepend(n, c)
Delete2(node, k) ==
  CASE node.t = "X" ->
         IF ~IsPrefixOf(node.n, k) THEN node
         ELSE LET c == Delete2(node.c, Drop(k, Len(node.n)))
              IN IF IsErr(c) THEN c ELSE IF c = node.c THEN node ELSE Prepend2(node.n, c)
    [] node.t = "B" ->
         LET old == Child(node.c, k[1])
             c == Delete2(old, Drop(k, 1))
         IN IF IsErr(c) THEN c ELSE IF c = old THEN node
            ELSE LET f == SetChild(node.c, k[1], c)
                 IN IF c.t = "E" /\ Cardinality(DOMAIN f) = 1
                    THEN LET i == CHOOSE i \in DOMAIN f : TRUE IN Prepend2(<<i>>, f[i])
                    ELSE Branch(f, node.v)
    [] OTHER -> Delete(node, k)
CollapseModeRight == ph # 1 \/ \A k \in Keys :
  LET r == Delete2(part, k) IN IsErr(r) \/ Expand(r) = Delete(full, k)

(* The nodes a key traverses, in order. `last`: also report a final leaf or  *)
(* extension that the key does not match.                                    *)
RECURSIVE Path(_, _, _)
Path(n, k, last) ==
  CASE n.t = "E" -> << <<"empty">> >>
    [] n.t = "H" -> << <<"hash">> >>
    [] n.t = "L" -> IF k = n.n \/ last THEN << <<"leaf", n.n>> >> ELSE <<>>
    [] n.t = "X" -> IF IsPrefixOf(n.n, k) THEN << <<"ext", n.n>> >> \o Path(n.c, Drop(k, Len(n.n)), last)
                    ELSE IF last THEN << <<"ext", n.n>> >> ELSE <<>>
    [] n.t = "B" -> << <<"branch", k[1]>> >> \o Path(Child(n.c, k[1]), Drop(k, 1), last)
PathSound == ph # 1 \/ \A k \in Keys :
   LET p == Path(full, k, FALSE)
   IN k \in DOMAIN m <=> (p # <<>> /\ p[Len(p)][1] = "leaf")

RECURSIVE Show(_)
(* The same trie with hidden parts shown as the encoding that is hashed.     *)
Show(n) ==
  CASE n.t = "H" -> [t |-> "H", e |-> Enc(n.of)]
    [] n.t = "B" -> [t |-> "B", v |-> n.v, c |-> [i \in DOMAIN n.c |-> Show(n.c[i])]]
    [] n.t = "X" -> [t |-> "X", n |-> n.n, c |-> Show(n.c)]
    [] OTHER -> n
Pairs(mm) == { <<k, mm[k]>> : k \in DOMAIN mm }
EmitOps == Out = "" \/ ph # 1 \/
  PrintT(ToJson(
    [m |-> Pairs(m), part |-> Show(part),
     ops |-> { <<"ins", k, v, Res(PartIns(k, v)), "">> : k \in Keys, v \in ValIds }
             \cup { <<"del", k, 0, Res(PartDel(k)), Res(Delete2(part, k))>> : k \in Keys }
             \cup { <<"get", k, 0, Get(part, k).t, "">> : k \in Keys }]))
EmitSubsets == Out = "" \/ ph # 1 \/
  PrintT(ToJson(
    [m |-> Pairs(m), part |-> Show(part),
     subs |-> { IF SubsetOk(part, ks) THEN <<ks, "ok", Show(Subset(part, ks))>> ELSE <<ks, "err", Empty>>
                : ks \in Requests }]))
EmitPaths == Out = "" \/ ph # 1 \/
  PrintT(ToJson(
    [m |-> Pairs(m), part |-> Show(part),
     paths |-> { <<k, last, Path(part, k, last)>> : k \in Keys \cup Absent, last \in BOOLEAN }]))
=============================================================================
