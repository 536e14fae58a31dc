------------------------------- MODULE MC_E16 -------------------------------
(* E16: every precompiled contract on valid inputs, on inputs that are almost valid, cut  *)
(* short or too long, with exactly enough gas or one too little, called in every way and   *)
(* directly by transactions.                                                               *)
EXTENDS EvmProg
MCOut == OutEnv
Be(w) == Bytes32(w)
Cut(z, in, max) ==   \* sometimes shorter (up to max bytes) or longer
  LET r == R(Z(z, 1), 8) IN
  IF r = 0 THEN SubSeq(in, 1, R(Z(z, 2), Min2(max, Len(in)) + 1)) ELSE IF r = 1 THEN in \o RandB(Z(z, 3), 1 + R(Z(z, 4), 40)) ELSE in

(* ecrecover: a signature by the key d (or its negative) of z *)
EcIn(z) ==
  LET k == 1 + R(Z(z, 1), 6)
      d == 1 + R(Z(z, 2), 6)
      odd == R(Z(z, 3), 2)
      neg == R(Z(z, 4), 2) = 0
      zh == OneOf(Z(z, 5), <<HashWord(R(Z(z, 6), 200)), Zero, SecpN, AllOnes, One, AddN(SecpN, W(5))>>)
      r == Secp[k].x
      plus == odd = Secp[k].odd
      inv == IF plus THEN Secp[k].inv ELSE SubN(SecpN, Secp[k].inv)
      rd == LET t == MulMod(r, W(d), SecpN) IN IF neg THEN SubN(SecpN, t) ELSE t
      m == R(Z(z, 7), 24)
      key == IF m = 0 THEN Zero ELSE rd
      sg == MulMod(Mod(AddN(zh, key), SecpN), inv, SecpN)
      v == CASE m = 1 -> W(29) [] m = 2 -> Zero [] m = 3 -> One [] m = 4 -> WOr(W(27 + odd), <<0, 1>>) [] m = 5 -> WOr(W(27 + odd), Zeros(31) \o <<1>>) [] OTHER -> W(27 + odd)
      r2 == CASE m = 6 -> Zero [] m = 7 -> SecpN [] m = 8 -> OneOf(Z(z, 8), SecpOff) [] m = 9 -> AllOnes [] m = 10 -> AddN(SecpN, One) [] OTHER -> r
      s2 == CASE m = 11 -> Zero [] m = 12 -> SecpN [] m = 13 -> AllOnes [] OTHER -> sg
  IN Be(zh) \o Be(v) \o Be(r2) \o Be(s2)

(* modular exponentiation *)
LensM == <<0, 1, 1, 2, 3, 8, 16, 17, 31, 32, 33, 40>>
ExpIn(z) ==
  LET bl == OneOf(Z(z, 1), LensM)
      el == OneOf(Z(z, 2), <<0, 1, 1, 2, 3, 8, 32, 33, 40, 70>>)
      ml == OneOf(Z(z, 3), LensM)
      m == R(Z(z, 4), 16)
      b == IF m = 0 THEN Zeros(bl) ELSE RandB(Z(z, 5), bl)
      eTail == Min2(el, 1 + R(Z(z, 6), 2))
      e == IF m = 1 /\ el > 32 THEN <<R(Z(z, 7), 4)>> \o Zeros(el - 1)     \* few bits set, many squarings (of a small modulus)
           ELSE Zeros(el - eTail) \o RandB(Z(z, 7), eTail)
      ml2 == IF m = 1 THEN Min2(ml, 2) ELSE ml
      mo == CASE m = 2 -> Zeros(ml2) [] m = 3 /\ ml2 > 0 -> Zeros(ml2 - 1) \o <<1>> [] m = 4 /\ ml2 > 1 -> <<1>> \o Zeros(ml2 - 1)
              [] m = 5 -> Rep(255, ml2) [] OTHER -> RandB(Z(z, 8), ml2)
      big == OneOf(Z(z, 9), <<W(65536), W(2000000), Rep(255, 4), Zeros(4) \o <<1>>, Zeros(16) \o <<1>>, AllOnes, Zeros(31) \o <<128>>, Rep(255, 31)>>)
      L1 == IF m = 6 THEN big ELSE W(bl)
      L2 == IF m \in {7, 8} THEN big ELSE W(el)
      L3 == IF m = 9 THEN big ELSE W(ml2)
  IN IF m = 8 THEN Be(Zero) \o Be(L2) \o Be(Zero) \o RandB(Z(z, 10), 3)
     ELSE IF m = 10 THEN Be(W(Len(b))) \o Be(W(1)) \o Be(W(32)) \o b \o <<3>>     \* the modulus is beyond the input: zero
     ELSE Be(L1) \o Be(L2) \o Be(L3) \o b \o e \o mo

(* points *)
P1(m) == IF m = 0 THEN <<Zero, Zero>> ELSE IF m > 0 THEN <<BnG[m][1], BnG[m][2]>> ELSE <<BnG[-m][1], SubN(BnP, BnG[-m][2])>>
P2x(m) == IF m = 0 THEN <<Zero, Zero, Zero, Zero>>
          ELSE IF m > 0 THEN BnG2[m] ELSE <<BnG2[-m][1], BnG2[-m][2], NegMod(BnG2[-m][3], BnP), NegMod(BnG2[-m][4], BnP)>>
(* once in a while not a point *)
Spoil(z, p) ==
  LET r == R(Z(z, 1), 40) IN
  CASE r = 0 -> <<AddN(p[1], BnP), p[2]>> [] r = 1 -> <<p[1], AddN(p[2], BnP)>> [] r = 2 -> <<p[1], Add(p[2], One)>> [] r = 3 -> <<p[2], p[1]>>
    [] r = 4 -> <<BnP, Zero>> [] r = 5 -> <<Zero, BnP>> [] r = 6 -> <<AllOnes, p[2]>> [] r = 7 -> <<Zero, One>> [] r = 8 -> <<One, Zero>> [] OTHER -> p
Spoil2(z, p) ==
  LET r == R(Z(z, 1), 30) IN
  CASE r = 0 -> <<AddN(p[1], BnP), p[2], p[3], p[4]>> [] r = 1 -> <<p[1], p[2], p[3], AddN(p[4], BnP)>> [] r = 2 -> <<p[1], p[2], Add(p[3], One), p[4]>>
    [] r = 3 -> BnOutside [] r = 4 -> <<p[2], p[1], p[4], p[3]>> [] r = 5 -> <<p[1], AddN(p[2], BnP), p[3], p[4]>> [] r = 6 -> <<p[1], p[2], AddN(p[3], BnP), p[4]>>
    [] r = 7 -> <<Zero, Zero, Zero, One>> [] OTHER -> p
Be2(p) == Be(p[1]) \o Be(p[2])
Be4(p) == Be(p[1]) \o Be(p[2]) \o Be(p[3]) \o Be(p[4])
AddIn(z) ==
  LET a == R(Z(z, 1), 17) - 8
      k == R(Z(z, 2), 6)
      b == IF k = 0 THEN a ELSE IF k = 1 THEN -a ELSE R(Z(z, 3), 17) - 8
  IN Be2(Spoil(Z(z, 4), P1(a))) \o Be2(Spoil(Z(z, 5), P1(b)))
MulIn(z) ==
  LET a == 1 + R(Z(z, 1), 16)
      j == R(Z(z, 2), 33) - 16
      jm == IF j < 0 THEN SubN(BnN, W(-j)) ELSE W(j)
      s0 == MulMod(jm, BnG[a][3], BnN)
      sc == LET t == AddN(s0, MulInt(BnN, R(Z(z, 3), 5))) IN IF Len(t) > 32 THEN s0 ELSE t
      inf == R(Z(z, 4), 12) = 0
  IN IF inf THEN Be2(<<Zero, Zero>>) \o Be(OneOf(Z(z, 5), <<Zero, One, AllOnes, BnN, HashWord(7)>>))
     ELSE Be2(Spoil(Z(z, 6), P1(IF R(Z(z, 7), 2) = 0 THEN a ELSE -a))) \o Be(sc)
PairIn(z) ==
  LET n == OneOf(Z(z, 1), <<0, 1, 1, 2, 2, 2, 2, 2, 3, 3>>)
      a(i) == R(Z(z, 10 + i), 13) - 6
      b(i) == R(Z(z, 20 + i), 13) - 6
      bal == R(Z(z, 2), 3) > 0    \* make it 1
      pair(x, y, i) == Be2(Spoil(Z(z, 30 + i), P1(x))) \o Be4(Spoil2(Z(z, 40 + i), P2x(y)))
      len == IF R(Z(z, 3), 12) = 0 THEN 1 ELSE 0
      body == CASE n = 0 -> <<>>
                [] n = 1 -> IF bal THEN pair(IF a(2) > 0 THEN 0 ELSE a(1), IF a(2) > 0 THEN b(1) ELSE 0, 1) ELSE pair(a(1), b(1), 1)
                [] n = 2 -> IF bal THEN pair(a(1), b(1), 1) \o (IF R(Z(z, 4), 2) = 0 \/ a(1) * b(1) > 16 \/ a(1) * b(1) < -16 THEN pair(-a(1), b(1), 2) ELSE pair(-a(1) * b(1), 1, 2))
                            ELSE pair(a(1), b(1), 1) \o pair(a(2), b(2), 2)
                [] OTHER -> IF bal THEN pair(a(1), b(1), 1) \o pair(a(1), b(2), 2) \o (IF b(1) + b(2) \in -6..6 THEN pair(a(1), -b(1) - b(2), 3) ELSE pair(a(3), b(3), 3))
                            ELSE pair(a(1), b(1), 1) \o pair(a(2), b(2), 2) \o pair(a(3), b(3), 3)
  IN IF len = 1 THEN (IF R(Z(z, 5), 2) = 0 \/ body = <<>> THEN body \o <<0>> ELSE SubSeq(body, 1, Len(body) - 1 - R(Z(z, 6), 64))) ELSE body

BlakeIn(z) ==
  LET m == R(Z(z, 1), 16)
      rounds == OneOf(Z(z, 2), <<0, 1, 2, 9, 10, 11, 12, 21>>)
      rb == IF m = 0 THEN <<255, 255, 255, 255>> ELSE IF m = 1 THEN <<1, 0, 0, 0>> ELSE <<0, 0, 0, rounds>>
      f == CASE m = 2 -> 2 [] m = 3 -> 255 [] OTHER -> R(Z(z, 3), 2)
      in == rb \o (IF m = 4 THEN Rep(255, 208) ELSE RandB(Z(z, 4), 208)) \o <<f>>
  IN CASE m = 5 -> SubSeq(in, 1, 212) [] m = 6 -> in \o <<1>> [] m = 7 -> <<>> [] m = 8 -> <<0, 0, 0, 0>> [] OTHER -> in

KzgInput(c, m, z) ==
  LET com == CASE m = 0 -> <<0>> \o SubSeq(BlsG[c + 1], 2, 48) [] m = 1 -> BlsG[1 + ((c + 1) % 6)] [] m = 2 -> SubSeq(BlsG[c + 1], 1, 47) \o <<77>> [] m = 3 -> <<224>> \o SubSeq(BlsG[c + 1], 2, 48) [] m = 15 -> Zeros(48) [] OTHER -> BlsG[c + 1]
      vh0 == <<1>> \o SubSeq(Sha256(com), 2, 32)
      vh == CASE m = 4 -> <<2>> \o SubSeq(vh0, 2, 32) [] m = 5 -> SubSeq(vh0, 1, 31) \o <<(vh0[32] + 1) % 256>> [] m = 6 -> Sha256(com) [] OTHER -> vh0
      zz == CASE m = 7 -> BlsR [] m = 8 -> AllOnes [] m = 9 -> SubN(BlsR, One) [] m = 10 -> Zero [] OTHER -> Mod(HashWord(R(Z(z, 3), 100)), BlsR)
      y == CASE m = 11 -> W(c + 1) [] m = 12 -> AddN(W(c), BlsR) [] m = 13 -> BlsR [] OTHER -> W(c)
      proof == CASE m = 14 -> BlsG[2] [] m = 16 -> Zeros(48) [] m = 17 -> <<224>> \o Zeros(47) [] m = 18 -> <<192>> \o Zeros(46) \o <<1>> [] m = 22 -> <<64>> \o Zeros(47) [] OTHER -> BlsG[1]
      in == vh \o Be(zz) \o Be(y) \o com \o proof
  IN CASE m = 19 -> in \o <<0>> [] m = 20 -> SubSeq(in, 1, 191) [] m = 21 -> SubSeq(in, 1, 145) [] OTHER -> in

KzgIn(z) == KzgInput(R(Z(z, 1), 6), R(Z(z, 2), 28), z)

LensH == <<0, 1, 3, 31, 32, 33, 55, 56, 57, 63, 64, 65, 119, 120, 128, 150>>
Input(a, z) ==
  CASE a = 1 -> Cut(Z(z, 9), EcIn(z), 96)
    [] a \in {2, 3, 4} -> RandB(z, OneOf(Z(z, 99), LensH))
    [] a = 5 -> Cut(Z(z, 99), ExpIn(z), 999)
    [] a = 6 -> Cut(Z(z, 9), AddIn(z), 999)
    [] a = 7 -> Cut(Z(z, 99), MulIn(z), 64)
    [] a = 8 -> PairIn(z)
    [] a = 9 -> BlakeIn(z)
    [] OTHER -> KzgIn(z)
CostOf(a, in) == LET r == Precompile(a, in, 3000000) IN IF r.ok THEN r.gas ELSE 60000

(* One call: input to memory, call, then log success, size of the return data and all of it, and the output area. *)
CallP(a, in, z) ==
  LET op == OneOf(Z(z, 1), <<"CALL", "CALL", "STATICCALL", "DELEGATECALL", "CALLCODE">>)
      c == CostOf(a, in)
      gas == OneOf(Z(z, 2), <<O("GAS"), O("GAS"), PushI(c), PushI(c), PushI(IF c = 0 THEN 0 ELSE c - 1), PushI(c + 1)>>)
      val == IF op \in {"CALL", "CALLCODE"} THEN OneOf(Z(z, 3), <<<<95>>, <<95>>, <<95>>, PushI(1), PushI(100)>>) ELSE <<>>
      ro == 1024
      rl == OneOf(Z(z, 4), <<0, 20, 32, 64, 96>>)
  IN Mem(in) \o PushI(rl) \o PushI(ro) \o PushI(Len(in)) \o PushI(0) \o val \o Push(a) \o gas \o O(op)
     \o PushI(1152) \o O("MSTORE") \o O("RETURNDATASIZE") \o PushI(1184) \o O("MSTORE")
     \o O("RETURNDATASIZE") \o PushI(0) \o PushI(1216) \o O("RETURNDATACOPY")
     \o O("RETURNDATASIZE") \o PushI(192) \o O("ADD") \o PushI(ro) \o O("LOG0")
     \o PushI(64) \o PushI(0) \o PushI(1024) \o O("CALLDATACOPY") \o PushI(0) \o PushI(1088) \o O("MSTORE")
Per(a) == CASE a = 8 -> 2 [] a = 5 -> 4 [] OTHER -> 4
MCCase(i) ==
  LET z == Z0(i)
      a == ((i - 1) % 10) + 1
      code == Cat([j \in 1..Per(a) |-> CallP(W(a), Input(a, Z(Z(z, 1), j)), Z(Z(z, 2), j))])
      direct == Input(a, Z(z, 3))
      intr == Intrinsic(Tx(Key(1), 1, 0, W(a), Zero, direct))
      c == CostOf(W(a), direct)
      g == OneOf(Z(z, 4), <<intr + c, intr + c + 5000, intr + c - 1, intr + c>>)
      w == (Ct(1) :> ContractB(code, W(20))) @@ Users
  IN Case(w, Block0, <<Tx(Key(1), 0, 3000000, Ct(1), Zero, <<>>), Tx(Key(1), 1, Max2(intr, g), W(a), OneOf(Z(z, 5), <<Zero, Zero, W(3)>>), direct)>>)
=============================================================================
