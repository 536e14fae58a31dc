-------------------------------- MODULE Wire --------------------------------
(* The compact witness: a byte stream that describes a partial state. An encoder   *)
(* writes a state of which parts are hidden; streams are then damaged; a decoder,  *)
(* which takes one instruction in a step, says what each stream means, if anything.*)
(*                                                                                 *)
(* A stream is a sequence of bytes and of tokens 1000 + k, each standing for the   *)
(* 32 bytes of a hash of the original: the k-th element of `hl`, which is          *)
(*   <<"S", path>> a subtree of the state, <<"T", account, path>> a subtree of its *)
(*   storage, <<"C", account>> its code.                                           *)
(* A state maps paths (64 nibbles) to accounts [n, b, c, st]: nonce and balance as *)
(* big-endian bytes without leading zeros, code, and storage mapping paths to such *)
(* bytes.                                                                          *)
EXTENDS Mpt, Json, IOUtils, SequencesExt
CONSTANTS StateAt(_),    \* [st, z]: the state of a case and a seed for what is hidden
          FirstCase, LastCase, Damages, Out
VARIABLES id, dmg, str, d, step
vars == <<id, dmg, str, d, step>>

Seed == IF "SEED" \in DOMAIN IOEnv THEN atoi(IOEnv.SEED) ELSE 1
Z(z, j) == LET a == (z[1] * 31337 + j * 4099 + z[2] + 17) % 46337
           IN <<a, (z[2] * 30011 + j * 7919 + a + 5) % 46327>>
R(z, n) == ((z[1] + 3 * z[2]) \div 2) % n
Z0(i) == Z(Z(<<(i * 7919 + 13) % 46337, ((Seed % 40000) + i) % 46327>>, Seed % 100), i % 1000)
OneOf(z, q) == q[R(z, Len(q)) + 1]
Cat2(q) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, q)
Stripped(b) == LET k == { i \in 1..Len(b) : b[i] # 0 } IN
               IF k = {} THEN <<>> ELSE SubSeq(b, CHOOSE i \in k : \A j \in k : i <= j, Len(b))

-----------------------------------------------------------------------------
(* Constants of the harness: the path of the beacon root contract, and those of    *)
(* the two slots that a block at time 12345 writes there first.                    *)
BeaconPath == <<3, 7, 13, 6, 5, 14, 10, 10, 9, 2, 12, 6, 11, 12, 4, 12, 1, 3, 10, 5, 14, 12, 4, 5, 5, 2, 7, 15, 0, 12, 1, 8, 14, 10, 8, 9, 3, 2, 5, 8, 8, 7, 2, 8, 7, 6, 9, 14, 12, 7, 10, 14, 12, 15, 14, 6, 13, 9, 15, 3, 2, 14, 4, 2>>
SlotPaths == <<
  <<12, 5, 2, 12, 0, 11, 10, 4, 12, 4, 2, 10, 3, 6, 5, 14, 15, 15, 9, 4, 4, 9, 7, 14, 14, 13, 4, 3, 3, 6, 6, 5, 4, 10, 10, 13, 11, 9, 11, 7, 15, 5, 11, 0, 5, 11, 1, 9, 9, 15, 12, 3, 15, 5, 1, 0, 1, 0, 12, 1, 5, 0, 13, 1>>,
  <<14, 5, 4, 6, 11, 0, 10, 5, 2, 12, 2, 8, 7, 9, 7, 4, 4, 15, 6, 13, 14, 15, 0, 15, 11, 4, 8, 3, 13, 5, 8, 1, 13, 12, 6, 13, 2, 0, 5, 13, 14, 8, 3, 10, 15, 8, 4, 4, 0, 4, 5, 6, 8, 0, 4, 13, 13, 8, 11, 6, 2, 3, 8, 0>> >>
SlotValues == << <<48, 57>>, [i \in 1..32 |-> i + 64] >>

-----------------------------------------------------------------------------
(* Hiding. A hidden subtree is a node [t |-> "H", h |-> what]. Leaves of storage so *)
(* short that no hash of them is in a trie are shown.                              *)
Short(n, at) == n.t = "L" /\ "v" \in DOMAIN n.v /\ Len(at) > 8
Hid(h) == [t |-> "H", h |-> h]
Leads(at, ps) == \E p \in ps : IsPrefixOf(at, p)
RECURSIVE Hide(_, _, _, _, _, _)
Hide(n, at, mk, keep, z, rate) ==
  IF n.t # "E" /\ ~Leads(at, keep) /\ ~Short(n, at) /\ R(Z(z, 1), 100) < rate THEN Hid(Append(mk, at))
  ELSE CASE n.t = "X" -> [n EXCEPT !.c = Hide(n.c, at \o n.n, mk, keep, Z(z, 2), rate)]
         [] n.t = "B" -> [n EXCEPT !.c = [i \in DOMAIN n.c |-> Hide(n.c[i], Append(at, i), mk, keep, Z(z, 3 + i), rate)]]
         [] OTHER -> n
(* What the stream shows of an account: its code and its storage, or their hashes. *)
ShownAcc(p, a, z, rate) ==
  LET s == Canon([q \in DOMAIN a.st |-> [v |-> a.st[q]]], 0) IN
  [n |-> a.n, b |-> a.b,
   c |-> IF a.c = <<>> THEN <<>> ELSE IF R(Z(z, 20), 100) < rate THEN <<Hid(<<"C", p>>)>> ELSE <<[t |-> "C", v |-> a.c]>>,
   s |-> IF s.t = "E" THEN <<>> ELSE <<Hide(s, <<>>, <<"T", p>>, IF p = BeaconPath THEN {SlotPaths[1], SlotPaths[2]} ELSE {}, Z(z, 21), rate)>>]
Shown(st, z, rate) ==
  LET w == [p \in DOMAIN st |-> ShownAcc(p, st[p], Z(z, 1 + p[1] + 16 * p[2]), rate)]
  IN Hide(Canon(w, 0), <<>>, <<"S">>, {BeaconPath}, Z(z, 9), rate)
RECURSIVE Hashes(_)
Hashes(n) ==
  CASE n.t = "H" -> <<n.h>>
    [] n.t = "X" -> Hashes(n.c)
    [] n.t = "B" -> LET q == SetToSeq(DOMAIN n.c) IN Cat2([i \in 1..Len(q) |-> Hashes(n.c[q[i]])])
    [] n.t = "L" /\ "s" \in DOMAIN n.v -> (IF n.v.c = <<>> THEN <<>> ELSE Hashes(n.v.c[1])) \o (IF n.v.s = <<>> THEN <<>> ELSE Hashes(n.v.s[1]))
    [] OTHER -> <<>>

(* Instructions of a shown tree, each a sequence of bytes and tokens.              *)
CborHead(major, b) ==
  LET m == 32 * major
      pad(k) == [i \in 1..k |-> IF i <= k - Len(b) THEN 0 ELSE b[i - (k - Len(b))]]
  IN CASE Len(b) = 0 -> <<m>> [] Len(b) = 1 /\ b[1] < 24 -> <<m + b[1]>> [] Len(b) = 1 -> <<m + 24>> \o b
       [] Len(b) = 2 -> <<m + 25>> \o b [] Len(b) \in 3..4 -> <<m + 26>> \o pad(4) [] OTHER -> <<m + 27>> \o pad(8)
NatBytes(n) == Stripped(<<n \div 65536, (n \div 256) % 256, n % 256>>)
CborBytes(b) == CborHead(2, NatBytes(Len(b))) \o b
KeyBytes(n, term) ==
  IF Len(n) = 1 THEN CborBytes(n)
  ELSE CborBytes(<<(Len(n) % 2) + (IF term THEN 2 ELSE 0)>> \o Pack(IF Len(n) % 2 = 1 THEN Append(n, 0) ELSE n))
RECURSIVE PowSum(_)
PowSum(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN 2^i + PowSum(S \ {i})
RECURSIVE Instrs(_, _, _)
Instrs(n, hl, term) ==
  LET tok(h) == 1000 + (CHOOSE k \in 1..Len(hl) : hl[k] = h) IN
  CASE n.t = "E" -> << <<6>> >>
    [] n.t = "H" -> << <<3, tok(n.h)>> >>
    [] n.t = "C" -> << <<4>> \o CborBytes(n.v) >>
    [] n.t = "X" -> Append(Instrs(n.c, hl, term), <<1>> \o KeyBytes(n.n, FALSE))
    [] n.t = "B" -> Append(Cat2([i \in 1..16 |-> IF i - 1 \in DOMAIN n.c THEN Instrs(n.c[i - 1], hl, term) ELSE <<>>]),
                           <<2>> \o CborHead(0, NatBytes(PowSum(DOMAIN n.c))))
    [] n.t = "L" /\ "s" \notin DOMAIN n.v -> << <<0>> \o KeyBytes(n.n, term) \o CborBytes(n.v.v) >>
    [] n.t = "L" -> LET a == n.v IN
         (IF a.c = <<>> THEN <<>> ELSE Instrs(a.c[1], hl, term)) \o (IF a.s = <<>> THEN <<>> ELSE Instrs(a.s[1], hl, term))
         \o << <<5>> \o KeyBytes(n.n, term)
                \o <<(IF a.c # <<>> THEN 1 ELSE 0) + (IF a.s # <<>> THEN 2 ELSE 0) + (IF a.n # <<>> THEN 4 ELSE 0) + (IF a.b # <<>> THEN 8 ELSE 0)>>
                \o (IF a.n # <<>> THEN CborHead(0, a.n) ELSE <<>>) \o (IF a.b # <<>> THEN CborBytes(a.b) ELSE <<>>)
                \o (IF a.c # <<>> THEN CborHead(0, NatBytes(IF a.c[1].t = "C" THEN Len(a.c[1].v) ELSE 0)) ELSE <<>>) >>

Original(i) ==
  LET c == StateAt(i)
      tree == Shown(c.st, c.z, c.rate)
      hl == Hashes(tree)
  IN [st |-> c.st, tree |-> tree, hl |-> hl, ins |-> Instrs(tree, hl, c.term)]

-----------------------------------------------------------------------------
(* The decoder. `d` has the position of the next instruction, the stack, whether   *)
(* anything was unusual (then the stream may also be refused), and the outcome:    *)
(* "" still running, "no" refused, "any" not specified, "yes" with what it means.  *)
No == [r |-> "no", p |-> 0, v |-> <<>>, l |-> FALSE]
Unclear == [No EXCEPT !.r = "any"]
Got(p, v, l) == [r |-> "", p |-> p, v |-> v, l |-> l]
Token(x) == x >= 1000
(* k bytes from position p. *)
Bytes(q, p, k) ==
  IF \E i \in p..(IF p + k - 1 < Len(q) THEN p + k - 1 ELSE Len(q)) : Token(q[i]) THEN Unclear
  ELSE IF p + k - 1 > Len(q) THEN No ELSE Got(p + k, SubSeq(q, p, p + k - 1), FALSE)
(* The head of a CBOR item: its number as bytes, for one of the major types given. *)
CHead(q, p, major, odd) ==
  IF p > Len(q) THEN No ELSE IF Token(q[p]) THEN Unclear
  ELSE LET mj == q[p] \div 32 inf == q[p] % 32 IN
       IF mj \in odd \/ (mj = major /\ inf = 31) THEN Unclear
       ELSE IF mj # major \/ inf > 27 THEN No
       ELSE IF inf < 24 THEN Got(p + 1, Stripped(<<inf>>), FALSE)
       ELSE LET k == 2^(inf - 24) b == Bytes(q, p + 1, k) IN
            IF b.r # "" THEN b
            ELSE LET v == Stripped(b.v) IN
                 Got(b.p, v, Tail(CborHead(0, v)) # b.v)
Uint(q, p) == CHead(q, p, 0, {6, 7})
ByteStr(q, p) ==
  LET hd == CHead(q, p, 2, {4, 6}) IN
  IF hd.r # "" THEN hd
  ELSE IF Len(hd.v) > 2 THEN (IF \E i \in hd.p..Len(q) : Token(q[i]) THEN Unclear ELSE No)
  ELSE LET n == IF hd.v = <<>> THEN 0 ELSE IF Len(hd.v) = 1 THEN hd.v[1] ELSE 256 * hd.v[1] + hd.v[2]
           b == Bytes(q, hd.p, n)
       IN IF b.r # "" THEN b ELSE [b EXCEPT !.l = hd.l]
NonEmptyStr(q, p) == LET b == ByteStr(q, p) IN IF b.r = "" /\ b.v = <<>> THEN No ELSE b
RECURSIVE Unpack(_)
Unpack(b) == IF b = <<>> THEN <<>> ELSE <<b[1] \div 16, b[1] % 16>> \o Unpack(Tail(b))
KeyAt(q, p) ==
  LET b == NonEmptyStr(q, p) IN
  IF b.r # "" THEN b
  ELSE IF Len(b.v) = 1 THEN (IF b.v[1] > 15 THEN No ELSE b)
  ELSE IF b.v[1] > 3 THEN No
  ELSE LET u == Unpack(Tail(b.v)) IN
       IF b.v[1] % 2 = 0 THEN [b EXCEPT !.v = u]
       ELSE IF u[Len(u)] # 0 THEN No ELSE [b EXCEPT !.v = Front(u)]

Stop(r) == [d EXCEPT !.o = r]
Push(x, n, l) == [d EXCEPT !.p = n, !.stk = Append(@, x), !.l = @ \/ l]
DropTop(k) == SubSeq(d.stk, 1, Len(d.stk) - k)
DoLeaf(q, p) ==
  LET k == KeyAt(q, p) IN IF k.r # "" THEN Stop(k.r)
  ELSE LET v == NonEmptyStr(q, k.p) IN IF v.r # "" THEN Stop(v.r)
  ELSE Push([t |-> "L", n |-> k.v, v |-> [v |-> v.v]], v.p, k.l \/ v.l)
DoExt(q, p) ==
  LET k == KeyAt(q, p) IN IF k.r # "" THEN Stop(k.r)
  ELSE IF d.stk = <<>> THEN Stop("no")
  ELSE [d EXCEPT !.p = k.p, !.l = @ \/ k.l, !.stk = Append(Front(@), [t |-> "X", n |-> k.v, c |-> Last(@)])]
DoBranch(q, p) ==
  LET m == Uint(q, p) IN IF m.r # "" THEN Stop(m.r)
  ELSE IF Len(m.v) > 2 THEN Stop("no")
  ELSE LET n == IF m.v = <<>> THEN 0 ELSE IF Len(m.v) = 1 THEN m.v[1] ELSE 256 * m.v[1] + m.v[2]
           S == { i \in 0..15 : (n \div 2^i) % 2 = 1 }
           c == Cardinality(S)
           base == Len(d.stk) - c
       IN IF base < 0 THEN Stop("no")
          ELSE [d EXCEPT !.p = m.p, !.l = @ \/ m.l,
                 !.stk = Append(DropTop(c), [t |-> "B", c |-> [i \in S |-> d.stk[base + Cardinality({ j \in S : j <= i })]], v |-> <<>>])]
DoHash(q, p) ==
  IF p <= Len(q) /\ Token(q[p]) THEN Push([t |-> "H", h |-> <<q[p]>>], p + 1, FALSE)
  ELSE LET b == Bytes(q, p, 32) IN IF b.r # "" THEN Stop(b.r) ELSE Push([t |-> "H", h |-> b.v], b.p, FALSE)
DoCode(q, p) == LET b == NonEmptyStr(q, p) IN IF b.r # "" THEN Stop(b.r) ELSE Push([t |-> "C", v |-> b.v], b.p, b.l)
DoAccount(q, p) ==
  LET k == KeyAt(q, p)
      f == Bytes(q, k.p, 1)
      fl == f.v[1]
      none(x) == Got(x, <<>>, FALSE)
      n == IF (fl \div 4) % 2 = 1 THEN Uint(q, f.p) ELSE none(f.p)
      b == IF (fl \div 8) % 2 = 1 THEN ByteStr(q, n.p) ELSE none(n.p)
      l == IF fl % 2 = 1 THEN Uint(q, b.p) ELSE none(b.p)
      code == fl % 2 = 1
      stor == (fl \div 2) % 2 = 1
      need == (IF code THEN 1 ELSE 0) + (IF stor THEN 1 ELSE 0)
  IN IF k.r # "" THEN Stop(k.r) ELSE IF f.r # "" THEN Stop(f.r)
     ELSE IF fl > 15 THEN Stop("no")
     ELSE IF n.r # "" THEN Stop(n.r) ELSE IF b.r # "" THEN Stop(b.r) ELSE IF l.r # "" THEN Stop(l.r)
     ELSE IF Len(b.v) > 32 THEN Stop("no")
     ELSE IF Len(d.stk) < need THEN Stop("no")
     ELSE LET base == Len(d.stk) - need
              c == IF code THEN <<d.stk[base + 1]>> ELSE <<>>
              s == IF stor THEN <<d.stk[Len(d.stk)]>> ELSE <<>>
              odd == \/ (fl \div 4) % 2 = 1 /\ n.v = <<>>
                     \/ (fl \div 8) % 2 = 1 /\ (b.v = <<>> \/ b.v[1] = 0)
                     \/ code /\ c[1].t = "C" /\ l.v # NatBytes(Len(c[1].v))
          IN IF code /\ c[1].t \notin {"C", "H"} THEN Stop("no")
             ELSE [d EXCEPT !.p = l.p, !.l = @ \/ k.l \/ n.l \/ b.l \/ l.l \/ odd,
                    !.stk = Append(DropTop(need), [t |-> "L", n |-> k.v, v |-> [n |-> n.v, b |-> Stripped(b.v), c |-> c, s |-> s]])]

(* What a decoded tree means: its entries, each [p, k, ...], sets of unusual and   *)
(* of unacceptable things found on the way.                                        *)
Nothing == [e |-> {}, f |-> {}]
One1(e) == [e |-> {e}, f |-> {}]
Flag(x, fs) == [x EXCEPT !.f = @ \cup fs]
Both(x, y) == [e |-> x.e \cup y.e, f |-> x.f \cup y.f]
RECURSIVE Slots(_, _), Entries(_, _)
Slots(n, at) ==
  CASE n.t = "E" -> Flag(Nothing, {"odd"})
    [] n.t = "C" -> Flag(Nothing, {"no"})
    [] n.t = "H" -> IF Len(at) > 64 THEN Flag(Nothing, {"no"}) ELSE Flag(One1([p |-> at, k |-> "H", h |-> n.h]), IF Len(at) = 64 THEN {"odd"} ELSE {})
    [] n.t = "L" -> IF "s" \in DOMAIN n.v \/ Len(at) + Len(n.n) > 64 THEN Flag(Nothing, {"no"})
                    ELSE Flag(One1([p |-> at \o n.n, k |-> "V", v |-> n.v.v]),
                              IF Len(at) + Len(n.n) # 64 \/ n.v.v[1] = 0 \/ Len(n.v.v) > 32 THEN {"odd"} ELSE {})
    [] n.t = "X" -> Flag(Slots(n.c, at \o n.n), IF n.c.t \in {"B", "H"} THEN {} ELSE {"odd"})
    [] n.t = "B" -> LET q == SetToSeq(DOMAIN n.c) IN
                    FoldLeft(LAMBDA acc, i : Both(acc, Slots(n.c[i], Append(at, i))), Flag(Nothing, IF Len(q) < 2 THEN {"odd"} ELSE {}), q)
Entries(n, at) ==
  CASE n.t = "E" -> Flag(Nothing, {"odd"})
    [] n.t = "C" -> Flag(Nothing, {"any"})
    [] n.t = "H" -> IF Len(at) > 64 THEN Flag(Nothing, {"no"}) ELSE Flag(One1([p |-> at, k |-> "H", h |-> n.h]), IF Len(at) = 64 THEN {"odd"} ELSE {})
    [] n.t = "L" -> IF "s" \notin DOMAIN n.v \/ Len(at) + Len(n.n) # 64 THEN Flag(Nothing, {"no"})
                    ELSE LET a == n.v
                             s == IF a.s = <<>> THEN Nothing ELSE Slots(a.s[1], <<>>)
                         IN [e |-> {[p |-> at \o n.n, k |-> "A", n |-> a.n, b |-> a.b, c |-> a.c, s |-> s.e]}, f |-> s.f]
    [] n.t = "X" -> Flag(Entries(n.c, at \o n.n), IF n.c.t \in {"B", "H"} THEN {} ELSE {"odd"})
    [] n.t = "B" -> LET q == SetToSeq(DOMAIN n.c) IN
                    FoldLeft(LAMBDA acc, i : Both(acc, Entries(n.c[i], Append(at, i))), Flag(Nothing, IF Len(q) < 2 THEN {"odd"} ELSE {}), q)

(* Code can be written at the beacon contract's slots only if they are not hidden. *)
Usable(e) == \E x \in e : /\ x.k = "A" /\ x.p = BeaconPath
                          /\ \A y \in x.s, i \in 1..2 : ~IsPrefixOf(y.p, SlotPaths[i]) \/ (y.p = SlotPaths[i] /\ y.k = "V")
Finish ==
  IF Len(d.stk) # 1 \/ d.stk[1].t \notin {"L", "X", "B", "E"} THEN Stop("no")
  ELSE LET m == Entries(d.stk[1], <<>>) IN
       IF "no" \in m.f THEN Stop("no")
       ELSE IF "any" \in m.f \/ ~Usable(m.e) THEN Stop("any")
       ELSE [d EXCEPT !.o = "yes", !.l = @ \/ "odd" \in m.f, !.e = m.e]
Decode ==
  /\ d.o = ""
  /\ UNCHANGED <<id, dmg, str>> /\ step' = step + 1
  /\ d' = IF d.p = 0 THEN (IF str = <<>> THEN Stop("no") ELSE IF Token(str[1]) THEN Stop("any")
                           ELSE IF str[1] \notin {0, 1} \/ Len(str) = 1 THEN Stop("no") ELSE [d EXCEPT !.p = 2])
          ELSE IF d.p > Len(str) THEN (IF d.new THEN Stop("no") ELSE Finish)
          ELSE IF Token(str[d.p]) THEN Stop("any")
          ELSE LET q == str p == d.p + 1 op == str[d.p] IN
               CASE op = 0 -> DoLeaf(q, p) [] op = 1 -> DoExt(q, p) [] op = 2 -> DoBranch(q, p) [] op = 3 -> DoHash(q, p)
                 [] op = 4 -> DoCode(q, p) [] op = 5 -> DoAccount(q, p) [] op = 6 -> Push(Empty, p, FALSE)
                 [] op = 187 -> IF Len(d.stk) = 1 THEN [d EXCEPT !.p = p, !.stk = <<>>, !.new = TRUE] ELSE Stop("no")
                 [] OTHER -> Stop("no")

-----------------------------------------------------------------------------
(* Damage number k of a stream.                                                    *)
Flat(ins, hdr) == <<hdr>> \o Cat2(ins)
Opcodes == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 187, 255>>
Put(q, i, x) == [q EXCEPT ![i] = x]
DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsAt(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
NewByte(z, x) == OneOf(Z(z, 1), <<x + 1, x - 1, x + 16, 255 - x, R(Z(z, 2), 256), 0, 255, 128, x + 32, OneOf(Z(z, 3), Opcodes)>>) % 256
SomeInstr(z) == OneOf(z, << <<6>>, <<187>>, <<2, 0>>, <<2, 1>>, <<2, 3>>, <<2, 25, 128, 1>>, <<1, 65, 5>>, <<1, 67, 1, 18, 48>>, <<0, 65, 3, 65, 9>>,
                            <<4, 65, 96>>, <<3>> \o [i \in 1..32 |-> i], <<7, 0, 65, 1, 65, 1>>, <<5, 65, 1, 0>>, <<5, 65, 1, 1, 1>>, <<5, 65, 1, 2>>, <<0, 65, 3, 64>>, <<8>>, <<>> >>)
OnBytes(z, kind, q) ==
  LET i == R(Z(z, 1), Len(q)) + 1 IN
  CASE kind = 0 -> SubSeq(q, 1, i - 1)
    [] kind = 1 -> DropAt(q, i)
    [] kind = 2 -> InsAt(q, i, q[i])
    [] kind = 3 -> IF Token(q[i]) THEN q ELSE Put(q, i, NewByte(z, q[i]))
    [] kind = 4 -> InsAt(q, i, R(Z(z, 2), 256))
    [] kind = 5 -> Append(q, OneOf(Z(z, 2), Opcodes))
    [] kind = 6 -> Put(q, 1, OneOf(Z(z, 2), <<0, 2, 3, 255>>))
OnInstrs(z, kind, ins) ==
  LET i == R(Z(z, 1), Len(ins)) + 1
      j == R(Z(z, 2), Len(ins)) + 1
      x == ins[i]
      o == R(Z(z, 3), IF Len(x) < 8 THEN Len(x) ELSE 8) + 1
  IN CASE kind = 0 -> DropAt(ins, i)
       [] kind = 1 -> InsAt(ins, i, x)
       [] kind = 2 -> Put(Put(ins, i, ins[j]), j, x)
       [] kind = 3 -> InsAt(ins, i, SomeInstr(Z(z, 4)))
       [] kind = 4 -> Put(ins, i, SomeInstr(Z(z, 4)))
       [] kind = 5 -> SubSeq(ins, 1, i)
       [] kind = 6 -> InsAt(DropAt(ins, i), R(Z(z, 5), Len(ins)) + 1, x)
       \* within the head of one instruction
       [] kind = 7 -> IF Token(x[o]) THEN ins ELSE Put(ins, i, Put(x, o, NewByte(z, x[o])))
       \* two instructions in one's place, the number of children fitting
       [] kind = 8 -> IF x[1] = 2 THEN Put(ins, i, OneOf(Z(z, 4), << <<2, 24, 255>>, <<2, 26, 0, 1, 0, 0>>, <<2, 1>>, <<2, 27, 0, 0, 0, 0, 0, 0, 0, 3>>, <<2, 3>>, <<2, 25, 192, 0>> >>)) ELSE Put(ins, i, x \o <<2, 1>>)
       [] kind = 9 -> Put(ins, i, x \o <<1, 65, R(Z(z, 4), 18)>>)
       [] kind = 10 -> Append(ins, SomeInstr(Z(z, 4)))
       \* account leaves: other flags, long balances
       [] kind = 11 -> LET as == { k \in 1..Len(ins) : ins[k][1] = 5 } IN
                       IF as = {} THEN ins
                       ELSE LET k == SetToSeq(as)[R(Z(z, 4), Cardinality(as)) + 1]
                                kl == 1 + Len(ins[k]) - Len(Tail(ins[k]))
                                n == IF ins[k][2] >= 88 THEN 3 + ins[k][3] ELSE 2 + (ins[k][2] - 64)
                            IN Put(ins, k, SubSeq(ins[k], 1, n) \o OneOf(Z(z, 5), << <<8, 88, 33>> \o [m \in 1..33 |-> m], <<8, 88, 32>> \o [m \in 1..32 |-> 255],
                                   <<4, 27, 255, 255, 255, 255, 255, 255, 255, 255>>, <<4, 24, 3>>, <<4, 0>>, <<8, 64>>, <<8, 66, 0, 1>>, <<0>>, <<16>>, <<128>>, <<15>>, <<12, 1, 65, 1>>,
                                   <<4, 32>>, <<8, 1>>, <<8, 97, 65>>, <<4, 65, 1>> >>))
MaxDamage == 19
Damaged(i, k) ==
  LET o == Original(i)
      z == Z(Z(Z0(i), 900), k)
      kind == (k - 1) % MaxDamage
      f == Flat(o.ins, 1)
  IN IF k = 0 THEN f
     ELSE IF kind < 7 THEN OnBytes(z, kind, f)
     ELSE IF k > 3 * MaxDamage THEN LET once == SelectSeq(OnInstrs(z, kind - 7, o.ins), LAMBDA x : x # <<>>) IN
          Flat(IF once = <<>> THEN once ELSE OnInstrs(Z(z, 77), R(Z(z, 78), 12), once), 1)
     ELSE Flat(OnInstrs(z, kind - 7, o.ins), 1)

Fresh(q) == [p |-> 0, stk |-> <<>>, l |-> FALSE, o |-> "", new |-> FALSE, e |-> {}]
Init == /\ id \in FirstCase..LastCase /\ dmg = -1 /\ str = <<>> /\ d = Fresh(<<>>) /\ step = 0
Choose == /\ dmg = -1
          /\ \E k \in 0..Damages : dmg' = k /\ str' = Damaged(id, k)
          /\ d' = Fresh(<<>>) /\ step' = step + 1 /\ UNCHANGED id
Next == Choose \/ (dmg >= 0 /\ Decode)
View == <<id, dmg, step>>

-----------------------------------------------------------------------------
Done == d.o # ""
(* An undamaged stream means the state that it was made from, as far as shown.     *)
RECURSIVE Tokened(_, _)
Tokened(n, hl) ==
  LET tok(h) == <<1000 + (CHOOSE k \in 1..Len(hl) : hl[k] = h)>> IN
  CASE n.t = "H" -> [n EXCEPT !.h = tok(n.h)]
    [] n.t = "X" -> [n EXCEPT !.c = Tokened(n.c, hl)]
    [] n.t = "B" -> [n EXCEPT !.c = [i \in DOMAIN n.c |-> Tokened(n.c[i], hl)]]
    [] n.t = "L" /\ "s" \in DOMAIN n.v ->
         [n EXCEPT !.v = [@ EXCEPT !.c = IF @ = <<>> THEN @ ELSE <<Tokened(@[1], hl)>>, !.s = IF @ = <<>> THEN @ ELSE <<Tokened(@[1], hl)>>]]
    [] OTHER -> n
Roundtrip == Done /\ dmg = 0 =>
  LET o == Original(id) IN
  /\ d.o = "yes" /\ ~d.l
  /\ d.stk = <<Tokened(o.tree, o.hl)>>
  /\ \A x \in d.e : x.k = "A" =>
       LET a == o.st[x.p] IN
       /\ x.n = a.n /\ x.b = a.b
       /\ (x.c = <<>>) = (a.c = <<>>)
       /\ (x.c # <<>> /\ x.c[1].t = "C" => x.c[1].v = a.c)
       /\ \A y \in x.s : y.k = "V" => a.st[y.p] = y.v
  /\ \A p \in DOMAIN o.st : \E x \in d.e : IsPrefixOf(x.p, p)
(* No proper part of the beginning of a stream is a stream. *)
NoPrefix == Done /\ dmg > 0 /\ d.o = "yes" => LET f == Flat(Original(id).ins, 1) IN str = f \/ ~IsPrefixOf(str, f)

StoreSeq(m) == LET q == SetToSeq(DOMAIN m) IN [i \in 1..Len(q) |-> <<q[i], m[q[i]]>>]
AccSeq(st) == LET q == SetToSeq(DOMAIN st) IN [i \in 1..Len(q) |-> <<q[i], st[q[i]].n, st[q[i]].b, st[q[i]].c, StoreSeq(st[q[i]].st)>>]
SlotSeq(e) == LET q == SetToSeq(e) IN [i \in 1..Len(q) |-> <<q[i].p, q[i].k, IF q[i].k = "H" THEN q[i].h ELSE q[i].v>>]
EntrySeq(e) == LET q == SetToSeq(e) IN
  [i \in 1..Len(q) |-> IF q[i].k = "H" THEN <<q[i].p, "H", q[i].h>>
                       ELSE <<q[i].p, "A", q[i].n, q[i].b, IF q[i].c = <<>> THEN <<"none">> ELSE IF q[i].c[1].t = "H" THEN <<"hash", q[i].c[1].h>> ELSE <<"code", q[i].c[1].v>>, SlotSeq(q[i].s)>>]
Emit == Done => (Out = "" \/ PrintT(ToJson(
  LET o == Original(id) IN
  [id |-> id, dmg |-> dmg, str |-> str, hl |-> o.hl, st |-> AccSeq(o.st), o |-> d.o, l |-> d.l, e |-> EntrySeq(d.e)])))
=============================================================================
