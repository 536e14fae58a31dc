----------------------------- MODULE Precompiles -----------------------------
(* The precompiled contracts at addresses 1 to 10.                                 *)
(* Curve points are known by their logarithm in the base of the group's generator: *)
(* a point outside the tables of module Curves is taken for one that is not on the *)
(* curve (or not in the subgroup); behaviours use no others.                       *)
EXTENDS Hashes
LOCAL Pad0(in, n) == IF Len(in) >= n THEN in ELSE in \o Zeros(n - Len(in))
(* The word at byte offset o (from 0) of the input extended by zeros. *)
LOCAL WAt(in, o, n) == OfBytes(SubSeq(Pad0(in, o + n), o + 1, o + n))
LOCAL Words32(n) == (n + 31) \div 32
LOCAL R0(ok, out, cost) == [ok |-> ok, out |-> out, cost |-> cost]
LOCAL Top == 1073741823
LOCAL IdxOf(q, T(_)) == SelectInSeq(q, T)

(* ---- 1: ecrecover ---- *)
NegMod(a, n) == IF a = Zero THEN Zero ELSE SubN(n, a)
LOCAL EcRec(in) ==
  LET z == Mod(WAt(in, 0, 32), SecpN)
      v == WAt(in, 32, 32)
      r == WAt(in, 64, 32)
      s == WAt(in, 96, 32)
      k == IdxOf(Secp, LAMBDA e : e.x = r)
      rho == IF (v = W(28)) = (Secp[k].odd = 1) THEN W(k) ELSE SubN(SecpN, W(k))
      \* d with r * d = s * rho - z, among the known multiples
      t == Mod(AddN(MulMod(s, rho, SecpN), NegMod(z, SecpN)), SecpN)
      d == IdxOf(Secp, LAMBDA e : \E m \in 1..6 : e = Secp[m] /\ MulMod(r, W(m), SecpN) = t)
      nd == IdxOf(Secp, LAMBDA e : \E m \in 1..6 : e = Secp[m] /\ NegMod(MulMod(r, W(m), SecpN), SecpN) = t)
  IN IF v \notin {W(27), W(28)} \/ r = Zero \/ s = Zero \/ Le(SecpN, r) \/ Le(SecpN, s) \/ k = 0 \/ t = Zero THEN <<>>
     ELSE IF d > 0 THEN Bytes32(Secp[d].a) ELSE IF nd > 0 THEN Bytes32(Secp[nd].na) ELSE <<-1>>

(* ---- 5: modexp, EIP-2565 ---- *)
LOCAL BitLen(w) == IF w = Zero THEN 0 ELSE 8 * (Len(w) - 1) + (CHOOSE k \in 1..8 : (w[Len(w)] \div P2(k - 1)) = 1)
LOCAL ModPow(b, e, m) ==
  IF m = Zero \/ m = One THEN Zero
  ELSE LET bm == Mod(b, m) IN
       FoldLeft(LAMBDA acc, bit : LET q == IF acc = One THEN acc ELSE MulMod(acc, acc, m)
                                  IN IF bit = 1 THEN MulMod(q, bm, m) ELSE q, One, BitsDown(e))
LOCAL ModExp(in, gas) ==
  LET bl == Small(WAt(in, 0, 32))
      el == Small(WAt(in, 32, 32))
      ml == Small(WAt(in, 64, 32))
      mx == Max2(bl, ml)
      head == WAt(in, 96 + bl, Min2(el, 32))
      lead == IF BitLen(head) = 0 THEN 0 ELSE BitLen(head) - 1
      iter == IF el <= 32 THEN lead ELSE IF el >= 8388608 THEN Top ELSE 8 * (el - 32) + lead
      w8 == (mx + 7) \div 8
      cost == IF mx = 0 THEN 200 ELSE IF w8 > 30000 THEN Top
              ELSE LET c == Div(MulN(W(w8 * w8), W(Max2(iter, 1))), W(3)) IN IF Len(c) > 3 THEN Top ELSE Max2(200, Small(c))
      out == LET m == WAt(in, 96 + bl + el, ml)
                 p == ModPow(WAt(in, 96, bl), WAt(in, 96 + bl, el), m)
             IN [i \in 1..ml |-> At(p, ml + 1 - i)]
  IN R0(TRUE, IF ml = 0 \/ gas < cost THEN <<>> ELSE out, cost)

(* ---- 6, 7, 8: alt_bn128 ---- *)
LOCAL None == 99999
(* The logarithm of an affine point of the first group, None if it is no point. *)
LOCAL BnLog(x, y) ==
  LET k == IdxOf(BnG, LAMBDA e : e[1] = x) IN
  IF x = Zero /\ y = Zero THEN 0
  ELSE IF k = 0 THEN None
  ELSE IF BnG[k][2] = y THEN k ELSE IF Lt(y, BnP) /\ SubN(BnP, y) = BnG[k][2] THEN -k ELSE None
LOCAL BnOut(m) ==
  IF m = 0 THEN Zeros(64)
  ELSE LET a == IF m < 0 THEN -m ELSE m IN Bytes32(BnG[a][1]) \o Bytes32(IF m < 0 THEN SubN(BnP, BnG[a][2]) ELSE BnG[a][2])
LOCAL Bn2Log(xi, xr, yi, yr) ==
  LET k == IdxOf(BnG2, LAMBDA e : e[1] = xi /\ e[2] = xr)
      ng(v) == NegMod(v, BnP)
  IN IF xi = Zero /\ xr = Zero /\ yi = Zero /\ yr = Zero THEN 0
     ELSE IF k = 0 THEN None
     ELSE IF BnG2[k][3] = yi /\ BnG2[k][4] = yr THEN k
     ELSE IF ng(BnG2[k][3]) = yi /\ ng(BnG2[k][4]) = yr THEN -k ELSE None
LOCAL BnAdd(in) ==
  LET a == BnLog(WAt(in, 0, 32), WAt(in, 32, 32))
      b == BnLog(WAt(in, 64, 32), WAt(in, 96, 32))
  IN R0(a # None /\ b # None, IF a # None /\ b # None THEN BnOut(a + b) ELSE <<>>, 150)
LOCAL BnMul(in) ==
  LET a == BnLog(WAt(in, 0, 32), WAt(in, 32, 32))
      m == IF a < 0 THEN SubN(BnN, W(-a)) ELSE W(a)
      p == MulMod(m, WAt(in, 64, 32), BnN)
      k == CHOOSE k \in -16..16 : (IF k < 0 THEN SubN(BnN, W(-k)) ELSE W(k)) = p
  IN R0(a # None, IF a # None THEN BnOut(k) ELSE <<>>, 6000)
LOCAL BnPairing(in) ==
  LET n == Len(in) \div 192
      a(i) == BnLog(WAt(in, 192 * i, 32), WAt(in, 192 * i + 32, 32))
      b(i) == Bn2Log(WAt(in, 192 * i + 64, 32), WAt(in, 192 * i + 96, 32), WAt(in, 192 * i + 128, 32), WAt(in, 192 * i + 160, 32))
      ok == (Len(in) % 192) = 0 /\ \A i \in 0..(n - 1) : a(i) # None /\ b(i) # None
      sum == FoldLeft(LAMBDA acc, i : acc + a(i - 1) * b(i - 1), 0, [i \in 1..n |-> i])
  IN R0(ok, IF ok THEN Bytes32(W(IF sum = 0 THEN 1 ELSE 0)) ELSE <<>>, 45000 + 34000 * n)

(* ---- 9: the compression function of BLAKE2b ---- *)
LOCAL Lane(in, o) == [k \in 1..4 |-> in[o + 2 * k - 1] + 256 * in[o + 2 * k]]
LOCAL Blake(in, gas) ==
  LET rounds == IF Len(in) # 213 THEN 0 ELSE Small(WAt(in, 0, 4))
      ok == Len(in) = 213 /\ in[213] \in {0, 1}
      \* that many rounds are only computed when they are paid for
      out == LET h == Blake2F(rounds, [i \in 1..8 |-> Lane(in, 4 + 8 * (i - 1))], [i \in 1..16 |-> Lane(in, 68 + 8 * (i - 1))],
                              <<Lane(in, 196), Lane(in, 204)>>, in[213] = 1)
             IN [i \in 1..64 |-> LET l == h[(i - 1) \div 8 + 1][((i - 1) % 8) \div 2 + 1] IN IF i % 2 = 1 THEN l % 256 ELSE l \div 256]
  IN R0(ok, IF ok /\ gas >= rounds THEN out ELSE <<>>, rounds)

(* ---- 10: point evaluation, EIP-4844.  Commitments to constant polynomials open to ---- *)
(* their value everywhere, with the point at infinity as proof.                           *)
LOCAL KzgResult == Zeros(30) \o <<16, 0>> \o Bytes32(BlsR)
LOCAL Kzg(in) ==
  LET ok == /\ Len(in) = 192
            /\ LET com == SubSeq(in, 97, 144)
                   c == IdxOf(BlsG, LAMBDA e : e = com)
                   y == WAt(in, 64, 32)
               IN /\ SubSeq(in, 1, 32) = <<1>> \o SubSeq(Sha256(com), 2, 32)
                  /\ Lt(WAt(in, 32, 32), BlsR) /\ Lt(y, BlsR)
                  /\ c > 0 /\ y = W(c - 1)
                  /\ SubSeq(in, 145, 192) = BlsG[1]
  IN R0(ok, IF ok THEN KzgResult ELSE <<>>, 50000)

LOCAL Apply(a, in, gas) ==
  CASE a = 1 -> R0(TRUE, EcRec(in), 3000)
    [] a = 2 -> R0(TRUE, Sha256(in), 60 + 12 * Words32(Len(in)))
    [] a = 3 -> R0(TRUE, Zeros(12) \o Ripemd160(in), 600 + 120 * Words32(Len(in)))
    [] a = 4 -> R0(TRUE, in, 15 + 3 * Words32(Len(in)))
    [] a = 5 -> ModExp(in, gas)
    [] a = 6 -> BnAdd(in)
    [] a = 7 -> BnMul(in)
    [] a = 8 -> BnPairing(in)
    [] a = 9 -> Blake(in, gas)
    [] OTHER -> Kzg(in)
(* What a call with that much gas returns; one that fails uses all of it. *)
Precompile(a, in, gas) ==
  LET r == Apply(Small(a), in, gas)
      c == r.cost
  IN IF gas < c THEN [ok |-> FALSE, out |-> <<>>, gas |-> gas]
     ELSE IF r.ok THEN [ok |-> TRUE, out |-> r.out, gas |-> c] ELSE [ok |-> FALSE, out |-> <<>>, gas |-> gas]
=============================================================================
