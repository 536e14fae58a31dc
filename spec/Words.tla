-------------------------------- MODULE Words --------------------------------
(* 256-bit words as normal-form byte sequences, least significant byte first:  *)
(* zero is <<>>, no sequence ends in 0.  Also plain byte strings (big endian    *)
(* order of the EVM's memory) and conversions between the two.                  *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Zero == <<>>
One == <<1>>
At(w, i) == IF i <= Len(w) THEN w[i] ELSE 0
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
(* Drop the high zeros. *)
RECURSIVE TopAt(_, _)
TopAt(x, n) == IF n = 0 THEN 0 ELSE IF x[n] # 0 THEN n ELSE TopAt(x, n - 1)
Norm(x) == LET t == TopAt(x, Len(x)) IN IF t = Len(x) THEN x ELSE SubSeq(x, 1, t)
Trunc(x) == Norm(IF Len(x) > 32 THEN SubSeq(x, 1, 32) ELSE x)
W(n) == Norm(<<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>)
(* The value if below 2^24, otherwise Huge. *)
Huge == 1073741824
Small(w) == IF Len(w) > 3 THEN Huge ELSE At(w, 1) + 256 * At(w, 2) + 65536 * At(w, 3)
Int31(w) == At(w, 1) + 256 * At(w, 2) + 65536 * At(w, 3) + 16777216 * At(w, 4)
(* The value, or the greatest integer here. *)
I31(w) == IF Len(w) > 4 \/ At(w, 4) >= 128 THEN 2147483647 ELSE Int31(w)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> 0]
(* Big-endian bytes. *)
Bytes32(w) == [i \in 1..32 |-> At(w, 33 - i)]
Bytes20(w) == [i \in 1..20 |-> At(w, 21 - i)]
OfBytes(b) == Norm(Rev(b))
BytesMin(w) == Rev(w)

(* Carry a sequence of column sums into base 256 digits. *)
Carry(cols) ==
  LET r == FoldLeft(LAMBDA acc, c : LET t == c + acc[2] IN <<Append(acc[1], t % 256), t \div 256>>,
                    <<<<>>, 0>>, cols)
      RECURSIVE Rest(_)
      Rest(c) == IF c = 0 THEN <<>> ELSE <<c % 256>> \o Rest(c \div 256)
  IN r[1] \o Rest(r[2])
AddN(a, b) == Norm(Carry([i \in 1..Max2(Len(a), Len(b)) |-> At(a, i) + At(b, i)]))
Add(a, b) == Trunc(AddN(a, b))
(* Two's complement of x on n bytes. *)
NegN(x, n) == Norm(SubSeq(Carry([i \in 1..n |-> 255 - At(x, i) + (IF i = 1 THEN 1 ELSE 0)]), 1, n))
Neg(x) == NegN(x, 32)
Sub(a, b) == Add(a, Neg(b))
RECURSIVE LtAt(_, _, _)
LtAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtAt(a, b, i - 1)
Lt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LtAt(a, b, Len(a))
Le(a, b) == ~Lt(b, a)
(* a >= b required *)
SubN(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == a[i] - At(b, i) - acc[2]
                                    IN IF t < 0 THEN <<Append(acc[1], t + 256), 1>> ELSE <<Append(acc[1], t), 0>>,
                    <<<<>>, 0>>, [i \in 1..Len(a) |-> i])
  IN Norm(r[1])
MulN(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Norm(Carry([k \in 1..(Len(a) + Len(b) - 1) |->
         LET lo == Max2(1, k + 1 - Len(b))
             hi == Min2(Len(a), k)
         IN FoldLeft(LAMBDA acc, i : acc + a[i] * b[k + 1 - i], 0, [j \in 1..(hi - lo + 1) |-> lo + j - 1])]))
Mul(a, b) == Trunc(MulN(a, b))
MulInt(a, n) == MulN(a, W(n))
(* Long division in base 256: quotient digits by estimate and correction. *)
DivModN(a, b) ==
  LET digit(r) ==       \* the largest q in 0..255 with q * b <= r, where r < 256 * b
        LET RECURSIVE bs(_, _)
            bs(lo, hi) == IF lo = hi THEN lo
                          ELSE LET mid == (lo + hi + 1) \div 2
                               IN IF Le(MulInt(b, mid), r) THEN bs(mid, hi) ELSE bs(lo, mid - 1)
            n == Len(b)
            top(x) == At(x, n + 1) * 65536 + At(x, n) * 256 + (IF n > 1 THEN At(x, n - 1) ELSE 0)
            bt == b[n] * 256 + (IF n > 1 THEN b[n - 1] ELSE 0)
            est == top(r) \div bt
        IN IF Len(r) < n THEN 0 ELSE bs(Max2(0, Min2(255, est) - 2), Min2(255, est))
      step(acc, d) ==
        LET r == Norm(<<d>> \o acc[2])
            q == digit(r)
        IN <<Append(acc[1], q), IF q = 0 THEN r ELSE SubN(r, MulInt(b, q))>>
      res == FoldLeft(step, <<<<>>, <<>>>>, Rev(a))
  IN <<Norm(Rev(res[1])), res[2]>>
Div(a, b) == IF b = <<>> THEN <<>> ELSE IF Lt(a, b) THEN <<>> ELSE DivModN(a, b)[1]
Mod(a, b) == IF b = <<>> THEN <<>> ELSE IF Lt(a, b) THEN a ELSE DivModN(a, b)[2]
IsNeg(a) == Len(a) = 32 /\ a[32] >= 128
Abs(a) == IF IsNeg(a) THEN Neg(a) ELSE a
SDiv(a, b) == LET q == Div(Abs(a), Abs(b)) IN IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q
SMod(a, b) == LET r == Mod(Abs(a), Abs(b)) IN IF IsNeg(a) THEN Neg(r) ELSE r
AddMod(a, b, m) == Mod(AddN(a, b), m)
MulMod(a, b, m) == Mod(MulN(a, b), m)
(* Square and multiply, from the high bit down. *)
BitsDown(e) == [i \in 1..(8 * Len(e)) |->
                 LET j == 8 * Len(e) - i IN (e[j \div 8 + 1] \div <<1, 2, 4, 8, 16, 32, 64, 128>>[(j % 8) + 1]) % 2]
Exp(a, e) == FoldLeft(LAMBDA acc, bit : LET q == IF acc = One THEN acc ELSE Mul(acc, acc)
                                        IN IF bit = 1 THEN Mul(q, a) ELSE q, One, BitsDown(e))
SLt(a, b) == IF IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE Lt(a, b)
SignExt(k, x) ==
  LET n == Small(k) IN
  IF n >= 31 THEN x
  ELSE IF At(x, n + 1) >= 128 THEN [i \in 1..32 |-> IF i <= n + 1 THEN At(x, i) ELSE 255]
  ELSE Norm([i \in 1..(n + 1) |-> At(x, i)])
WAnd(a, b) == Norm([i \in 1..Min2(Len(a), Len(b)) |-> a[i] & b[i]])
WOr(a, b) == [i \in 1..Max2(Len(a), Len(b)) |-> At(a, i) | At(b, i)]
WXor(a, b) == Norm([i \in 1..Max2(Len(a), Len(b)) |-> At(a, i) ^^ At(b, i)])
WNot(a) == Norm([i \in 1..32 |-> 255 - At(a, i)])
ByteOf(n, x) == LET k == Small(n) IN IF k >= 32 THEN <<>> ELSE Norm(<<At(x, 32 - k)>>)
P2(n) == <<1, 2, 4, 8, 16, 32, 64, 128>>[n + 1]
Shl(n, x) ==
  LET k == Small(n) IN
  IF k >= 256 \/ x = <<>> THEN <<>>
  ELSE Trunc(Zeros(k \div 8) \o Carry([i \in 1..Len(x) |-> x[i] * P2(k % 8)]))
Shr(n, x) ==
  LET k == Small(n)
      d == k \div 8
      p == P2(k % 8)
  IN IF k >= 256 \/ d >= Len(x) THEN <<>>
     ELSE Norm([i \in 1..(Len(x) - d) |-> x[i + d] \div p + ((At(x, i + d + 1) * (256 \div p)) % 256)])
Sar(n, x) ==
  LET k == Small(n)
      s == Shr(n, x)
  IN IF ~IsNeg(x) THEN s
     ELSE IF k >= 256 THEN WNot(<<>>)
     ELSE WOr(s, Shl(W(256 - k), WNot(<<>>)))
Bool(b) == IF b THEN One ELSE Zero
=============================================================================
