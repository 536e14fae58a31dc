-------------------------------- MODULE Smt ---------------------------------
(* Sparse Merkle trees over bit-string keys of one length.                   *)
(*   [t |-> "E"]                      empty                                  *)
(*   [t |-> "L", k |-> bits, v |-> v] leaf: remaining key bits, value        *)
(*   [t |-> "I", l |-> n, r |-> n]    internal node                          *)
(*   [t |-> "H", of |-> node]         hash standing for a hidden subtree     *)
(* Values are positive integers; writing 0 removes.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [t |-> "E"]
Leaf(k, v) == [t |-> "L", k |-> k, v |-> v]
Inner(l, r) == [t |-> "I", l |-> l, r |-> r]
HashOf(n) == [t |-> "H", of |-> n]
Tail1(k) == SubSeq(k, 2, Len(k))
Side(b, x, y) == IF b = 0 THEN Inner(x, y) ELSE Inner(y, x)

RECURSIVE Split(_, _, _, _)
(* Two different remaining keys below one point.                             *)
Split(k, v, q, w) ==
  IF k[1] = q[1] THEN Side(k[1], Split(Tail1(k), v, Tail1(q), w), Empty)
  ELSE Side(k[1], Leaf(Tail1(k), v), Leaf(Tail1(q), w))
RECURSIVE Put(_, _, _)
Put(n, k, v) ==
  CASE n.t = "E" -> Leaf(k, v)
    [] n.t = "L" -> IF n.k = k THEN Leaf(k, v) ELSE Split(k, v, n.k, n.v)
    [] n.t = "I" -> IF k[1] = 0 THEN Inner(Put(n.l, Tail1(k), v), n.r)
                    ELSE Inner(n.l, Put(n.r, Tail1(k), v))
(* A leaf without sibling moves up.                                          *)
Lift(n) ==
  IF n.l.t = "E" /\ n.r.t = "L" THEN Leaf(<<1>> \o n.r.k, n.r.v)
  ELSE IF n.r.t = "E" /\ n.l.t = "L" THEN Leaf(<<0>> \o n.l.k, n.l.v)
  ELSE n
RECURSIVE Remove(_, _)
Remove(n, k) ==
  CASE n.t = "L" -> IF n.k = k THEN Empty ELSE n
    [] n.t = "I" -> Lift(IF k[1] = 0 THEN Inner(Remove(n.l, Tail1(k)), n.r)
                         ELSE Inner(n.l, Remove(n.r, Tail1(k))))
    [] OTHER -> n
Set(n, k, v) == IF v = 0 THEN Remove(n, k) ELSE Put(n, k, v)
RECURSIVE Get(_, _)
Get(n, k) ==
  CASE n.t = "E" -> 0
    [] n.t = "L" -> IF n.k = k THEN n.v ELSE 0
    [] n.t = "I" -> IF k[1] = 0 THEN Get(n.l, Tail1(k)) ELSE Get(n.r, Tail1(k))
    [] n.t = "H" -> -1

RECURSIVE Canon(_, _)
(* The tree of a map: leaves at the shallowest point that tells them apart.  *)
Canon(m, i) ==
  LET ks == DOMAIN m
  IN IF ks = {} THEN Empty
     ELSE IF Cardinality(ks) = 1
     THEN LET k == CHOOSE k \in ks : TRUE IN Leaf(SubSeq(k, i + 1, Len(k)), m[k])
     ELSE LET half(b) == [k \in {q \in ks : q[i + 1] = b} |-> m[k]]
          IN Inner(Canon(half(0), i + 1), Canon(half(1), i + 1))

(* Serialisation: a vector that begins with the empty node at 0, whose root  *)
(* is at 2 (or which says that the root is empty). `inc` holds the prefixes  *)
(* that are kept; subtrees elsewhere are replaced by their hashes.           *)
RECURSIVE SerN(_, _, _, _)
(* Serialisation of n at position ptr: the words appended.                   *)
SerN(n, pre, inc, ptr) ==
  IF n.t = "H" \/ pre \notin inc THEN << <<"n", 0>>, <<"h", n>> >>
  ELSE IF n.t = "L" THEN << <<"n", 2>>, <<"k", n.k>>, <<"v", n.v>> >>
  ELSE LET a == IF n.l.t = "E" THEN <<>> ELSE SerN(n.l, Append(pre, 0), inc, ptr + 3)
           p == ptr + 3 + Len(a)
           b == IF n.r.t = "E" THEN <<>> ELSE SerN(n.r, Append(pre, 1), inc, p)
       IN << <<"n", 1>>, <<"n", IF n.l.t = "E" THEN 0 ELSE ptr + 3>>,
             <<"n", IF n.r.t = "E" THEN 0 ELSE p>> >> \o a \o b
Prefixes(ks) == UNION { { SubSeq(k, 1, i) : i \in 0..Len(k) } : k \in ks }
Ser(n, keep) ==
  << <<"n", 0>>, <<"n", 0>> >> \o
  IF n.t = "E" THEN << <<"n", 0>>, <<"n", 0>> >> ELSE SerN(n, <<>>, Prefixes(keep), 2)

(* Reading a serialisation back.                                             *)
RECURSIVE Read(_, _)
Read(v, p) ==
  IF p = 0 THEN Empty
  ELSE CASE v[p + 1][2] = 0 -> (IF v[p + 2][1] = "h" THEN HashOf(v[p + 2][2]) ELSE Empty)
         [] v[p + 1][2] = 1 -> Inner(Read(v, v[p + 2][2]), Read(v, v[p + 3][2]))
         [] v[p + 1][2] = 2 -> Leaf(v[p + 2][2], v[p + 3][2])

RECURSIVE Expand(_)
Expand(n) ==
  CASE n.t = "H" -> Expand(n.of)
    [] n.t = "I" -> Inner(Expand(n.l), Expand(n.r))
    [] OTHER -> n
(* All ways of hiding subtrees.                                              *)
RECURSIVE Hidings(_)
Hidings(n) ==
  CASE n.t = "E" -> {n}
    [] n.t = "L" -> {n, HashOf(n)}
    [] n.t = "I" -> {HashOf(n)} \cup { Inner(a, b) : a \in Hidings(n.l), b \in Hidings(n.r) }
RECURSIVE Hashes(_, _)
(* Positions of hidden subtrees.                                             *)
Hashes(n, pre) ==
  CASE n.t = "H" -> { <<pre, n.of>> }
    [] n.t = "I" -> Hashes(n.l, Append(pre, 0)) \cup Hashes(n.r, Append(pre, 1))
    [] OTHER -> {}
RECURSIVE Leaves(_, _)
Leaves(n, pre) ==
  CASE n.t = "L" -> { <<pre \o n.k, n.v>> }
    [] n.t = "I" -> Leaves(n.l, Append(pre, 0)) \cup Leaves(n.r, Append(pre, 1))
    [] OTHER -> {}
=============================================================================
