-------------------------------- MODULE Mpt --------------------------------
(* Merkle Patricia tries: structure, operations and encoding.                *)
(* Pure operators, shared by the transition systems MptState, MptHist,       *)
(* MptPartial and MptSubset.                                                 *)
(*                                                                           *)
(* A node is one of                                                          *)
(*   [t |-> "E"]                          the empty node                     *)
(*   [t |-> "H", of |-> node]             hash of a hidden subtree `of`      *)
(*   [t |-> "B", c |-> f, v |-> bytes]    branch; f maps the nibbles with a  *)
(*                                        non-empty child to that child      *)
(*   [t |-> "X", n |-> nibbles, c |-> node]   extension                      *)
(*   [t |-> "L", n |-> nibbles, v |-> bytes]  leaf                           *)
(* Nibble strings are sequences over 0..15, values are byte sequences.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nib == 0..15
Empty == [t |-> "E"]
Leaf(n, v) == [t |-> "L", n |-> n, v |-> v]
Ext(n, c) == [t |-> "X", n |-> n, c |-> c]
Branch(c, v) == [t |-> "B", c |-> c, v |-> v]
HashOf(x) == [t |-> "H", of |-> x]
Err(e) == [t |-> "ERR", e |-> e]
IsErr(x) == x.t = "ERR"

Min2(a, b) == IF a < b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
RECURSIVE CommonLen(_, _, _)
CommonLen(a, b, i) ==
  IF i < Len(a) /\ i < Len(b) /\ a[i + 1] = b[i + 1] THEN CommonLen(a, b, i + 1) ELSE i
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ Take(b, Len(a)) = a

NoChild == [x \in {} |-> Empty]
SetChild(f, i, c) ==
  IF c.t = "E" THEN [x \in (DOMAIN f) \ {i} |-> f[x]]
  ELSE [x \in (DOMAIN f) \cup {i} |-> IF x = i THEN c ELSE f[x]]
Child(f, i) == IF i \in DOMAIN f THEN f[i] ELSE Empty

(***************************************************************************)
(* Operations, structured as the implementation's recursions.              *)
(***************************************************************************)
MkExt(n, c) == IF n = <<>> THEN c ELSE Ext(n, c)

RECURSIVE Insert(_, _, _)
Insert(node, k, v) ==
  CASE node.t = "E" -> Leaf(k, v)
    [] node.t = "H" -> Err("hash")
    [] node.t = "L" ->
         IF node.n = k THEN Leaf(k, v)
         ELSE LET p == CommonLen(node.n, k, 0)
                  old == Drop(node.n, p)
                  new == Drop(k, p)
              IN MkExt(Take(k, p),
                       Branch((old[1] :> Leaf(Drop(old, 1), node.v))
                              @@ (new[1] :> Leaf(Drop(new, 1), v)), <<>>))
    [] node.t = "X" ->
         LET p == CommonLen(node.n, k, 0)
             old == Drop(node.n, p)
             new == Drop(k, p)
         IN IF old = <<>>
            THEN LET c == Insert(node.c, new, v)
                 IN IF IsErr(c) THEN c ELSE Ext(node.n, c)
            ELSE MkExt(Take(k, p),
                       Branch((old[1] :> MkExt(Drop(old, 1), node.c))
                              @@ (new[1] :> Leaf(Drop(new, 1), v)), <<>>))
    [] node.t = "B" ->
         LET c == Insert(Child(node.c, k[1]), Drop(k, 1), v)
         IN IF IsErr(c) THEN c ELSE Branch(SetChild(node.c, k[1], c), node.v)

(* Result of putting nibbles n in front of node c. A hidden node cannot be  *)
(* absorbed: whether an extension is right depends on what is hidden.       *)
Prepend(n, c) ==
  CASE c.t = "B" -> Ext(n, c)
    [] c.t = "X" -> Ext(n \o c.n, c.c)
    [] c.t = "L" -> Leaf(n \o c.n, c.v)
    [] c.t = "H" -> Err("orphan")
    [] OTHER -> Err("bug")

(* Delete returns the new node, or Err; a key that is absent leaves the     *)
(* node as it is.                                                           *)
RECURSIVE Delete(_, _)
Delete(node, k) ==
  CASE node.t = "E" -> node
    [] node.t = "H" -> Err("hash")
    [] node.t = "L" -> IF node.n = k THEN Empty ELSE node
    [] node.t = "X" ->
         IF ~IsPrefixOf(node.n, k) THEN node
         ELSE LET c == Delete(node.c, Drop(k, Len(node.n)))
              IN IF IsErr(c) THEN c
                 ELSE IF c = node.c THEN node
                 ELSE Prepend(node.n, c)
    [] node.t = "B" ->
         LET old == Child(node.c, k[1])
             c == Delete(old, Drop(k, 1))
         IN IF IsErr(c) THEN c
            ELSE IF c = old THEN node
            ELSE LET f == SetChild(node.c, k[1], c)
                 IN IF c.t = "E" /\ Cardinality(DOMAIN f) = 1
                    THEN LET i == CHOOSE i \in DOMAIN f : TRUE
                         IN Prepend(<<i>>, f[i])
                    ELSE Branch(f, node.v)

(* Lookup: [t |-> "none"], [t |-> "val", v], or [t |-> "hidden"].           *)
RECURSIVE Get(_, _)
Get(node, k) ==
  CASE node.t = "E" -> [t |-> "none"]
    [] node.t = "H" -> [t |-> "hidden"]
    [] node.t = "L" -> IF node.n = k THEN [t |-> "val", v |-> node.v] ELSE [t |-> "none"]
    [] node.t = "X" -> IF IsPrefixOf(node.n, k) THEN Get(node.c, Drop(k, Len(node.n)))
                       ELSE [t |-> "none"]
    [] node.t = "B" -> Get(Child(node.c, k[1]), Drop(k, 1))

(* Items in lexicographic order: sequence of <<key, value>>; a hidden       *)
(* subtree shows as <<path, node>>.                                         *)
RECURSIVE Items(_, _), ItemsBranch(_, _, _)
Items(node, pre) ==
  CASE node.t = "E" -> <<>>
    [] node.t = "H" -> << [k |-> pre, h |-> TRUE] >>
    [] node.t = "L" -> << [k |-> pre \o node.n, h |-> FALSE, v |-> node.v] >>
    [] node.t = "X" -> Items(node.c, pre \o node.n)
    [] node.t = "B" -> ItemsBranch(node.c, pre, 0)
ItemsBranch(f, pre, i) ==
  IF i > 15 THEN <<>>
  ELSE (IF i \in DOMAIN f THEN Items(f[i], Append(pre, i)) ELSE <<>>)
       \o ItemsBranch(f, pre, i + 1)

(***************************************************************************)
(* The canonical trie of a map (Yellow Paper, appendix D, function c).     *)
(* m is a function from keys to values; i nibbles are already consumed.    *)
(***************************************************************************)
RECURSIVE SharedLen(_, _)
SharedLen(ks, i) ==
  IF /\ \A k \in ks : Len(k) > i
     /\ \A k, l \in ks : k[i + 1] = l[i + 1]
  THEN SharedLen(ks, i + 1) ELSE i

RECURSIVE Canon(_, _)
Canon(m, i) ==
  LET ks == DOMAIN m
  IN IF ks = {} THEN Empty
     ELSE IF Cardinality(ks) = 1
     THEN LET k == CHOOSE k \in ks : TRUE IN Leaf(Drop(k, i), m[k])
     ELSE LET j == SharedLen(ks, i)
              k0 == CHOOSE k \in ks : TRUE
          IN IF j > i THEN Ext(SubSeq(k0, i + 1, j), Canon(m, j))
             ELSE Branch([n \in {k[i + 1] : k \in ks} |->
                            Canon([k \in {q \in ks : q[i + 1] = n} |-> m[k]], i + 1)], <<>>)

(***************************************************************************)
(* Encoding (Yellow Paper, appendices B, C, D). A byte string is a record  *)
(* [n |-> length, s |-> elements], whose elements are bytes or atoms       *)
(* [k |-> e], standing for the 32 bytes of the Keccak-256 hash of the      *)
(* byte string with elements e.                                            *)
(***************************************************************************)
Str(b) == [n |-> Len(b), s |-> b]
Cat(x, y) == [n |-> x.n + y.n, s |-> x.s \o y.s]
BigEndian(n) == IF n < 256 THEN <<n>> ELSE <<n \div 256, n % 256>>
RlpStr(x) ==
  IF x.n = 1 /\ x.s[1] < 128 THEN x
  ELSE IF x.n < 56 THEN Cat(Str(<<128 + x.n>>), x)
  ELSE LET be == BigEndian(x.n) IN Cat(Str(<<183 + Len(be)>> \o be), x)
RlpListOf(x) ==
  IF x.n < 56 THEN Cat(Str(<<192 + x.n>>), x)
  ELSE LET be == BigEndian(x.n) IN Cat(Str(<<247 + Len(be)>> \o be), x)

RECURSIVE Pack(_)
Pack(n) == IF n = <<>> THEN <<>> ELSE <<16 * n[1] + n[2]>> \o Pack(Drop(n, 2))
HexPrefix(n, isLeaf) ==
  LET f == IF isLeaf THEN 2 ELSE 0
  IN IF Len(n) % 2 = 0 THEN <<16 * f>> \o Pack(n)
     ELSE <<16 * (f + 1) + n[1]>> \o Pack(Drop(n, 1))

RECURSIVE EncS(_), Ref(_), EncKids(_, _)
EncS(node) ==
  CASE node.t = "E" -> Str(<<128>>)
    [] node.t = "L" -> RlpListOf(Cat(RlpStr(Str(HexPrefix(node.n, TRUE))), RlpStr(Str(node.v))))
    [] node.t = "X" -> RlpListOf(Cat(RlpStr(Str(HexPrefix(node.n, FALSE))), Ref(node.c)))
    [] node.t = "B" -> RlpListOf(Cat(EncKids(node.c, 0), RlpStr(Str(node.v))))
    [] node.t = "H" -> EncS(node.of)
Ref(node) == LET e == EncS(node)
             IN IF e.n < 32 THEN e ELSE [n |-> 33, s |-> <<160, [k |-> e.s]>>]
EncKids(f, i) == IF i > 15 THEN Str(<<>>)
                 ELSE Cat(IF i \in DOMAIN f THEN Ref(f[i]) ELSE Str(<<128>>), EncKids(f, i + 1))
Enc(node) == EncS(node).s

(* A subtree may be hidden only if it is referred to by hash.               *)
Hideable(node) == node.t # "E" /\ EncS(node).n >= 32
=============================================================================
