------------------------------- MODULE Keccak -------------------------------
(* Keccak-256 on byte sequences.  A lane is four 16-bit limbs, low limb first. *)
EXTENDS Words
LOCAL RC == << <<1,0,0,0>>, <<32898,0,0,0>>, <<32906,0,0,32768>>, <<32768,32768,0,32768>>,
  <<32907,0,0,0>>, <<1,32768,0,0>>, <<32897,32768,0,32768>>, <<32777,0,0,32768>>,
  <<138,0,0,0>>, <<136,0,0,0>>, <<32777,32768,0,0>>, <<10,32768,0,0>>,
  <<32907,32768,0,0>>, <<139,0,0,32768>>, <<32905,0,0,32768>>, <<32771,0,0,32768>>,
  <<32770,0,0,32768>>, <<128,0,0,32768>>, <<32778,0,0,0>>, <<10,32768,0,32768>>,
  <<32897,32768,0,32768>>, <<32896,0,0,32768>>, <<1,32768,0,0>>, <<32776,32768,0,32768>> >>
LOCAL ROT == <<0,1,62,28,27, 36,44,6,55,20, 3,10,43,25,39, 41,45,15,21,8, 18,2,61,56,14>>
LOCAL PW == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768>>
LOCAL X(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
LOCAL Rot(a, n) ==
  LET q == n \div 16
      p == PW[(n % 16) + 1]
      g(i) == a[((i - 1 - q + 8) % 4) + 1]
      l(i) == ((g(i) * p) % 65536) + (g(IF i = 1 THEN 4 ELSE i - 1) * p) \div 65536
  IN <<l(1), l(2), l(3), l(4)>>
(* lane (x, y) is element 5 * y + x + 1 *)
LOCAL Round(A, rc) ==
  LET c == [x \in 1..5 |-> X(X(X(A[x], A[x+5]), X(A[x+10], A[x+15])), A[x+20])]
      d == [x \in 1..5 |-> X(c[((x + 3) % 5) + 1], Rot(c[(x % 5) + 1], 1))]
      \* B[y, 2x+3y] = rot(A[x, y] ^ D[x])
      b == [k \in 1..25 |->
             LET nx == (k - 1) % 5    \* = y
                 ny == (k - 1) \div 5 \* = 2x + 3y
                 x == (nx + 3 * ny) % 5
                 src == 5 * nx + x + 1
             IN Rot(X(A[src], d[x + 1]), ROT[src])]
      n == [k \in 1..25 |->
             LET x == (k - 1) % 5
                 r == k - x
                 u == b[r + ((x + 1) % 5)]
                 v == b[r + ((x + 2) % 5)]
                 w == b[k]
             IN <<w[1] ^^ ((65535 - u[1]) & v[1]), w[2] ^^ ((65535 - u[2]) & v[2]),
                  w[3] ^^ ((65535 - u[3]) & v[3]), w[4] ^^ ((65535 - u[4]) & v[4])>>]
  IN [k \in 1..25 |-> IF k = 1 THEN X(n[1], rc) ELSE n[k]]
LOCAL Perm(A) == FoldLeft(LAMBDA s, rc : Round(s, rc), A, RC)
LOCAL Pad(m) ==
  LET n == 136 - (Len(m) % 136)
  IN m \o [i \in 1..n |-> IF n = 1 THEN 129 ELSE IF i = 1 THEN 1 ELSE IF i = n THEN 128 ELSE 0]
LOCAL Absorb(A, blk) ==
  Perm([k \in 1..25 |-> IF k > 17 THEN A[k]
        ELSE LET o == 8 * (k - 1) IN
             X(A[k], <<blk[o+1] + 256 * blk[o+2], blk[o+3] + 256 * blk[o+4],
                       blk[o+5] + 256 * blk[o+6], blk[o+7] + 256 * blk[o+8]>>)])
Keccak256(m) ==
  LET p == Pad(m)
      s == FoldLeft(LAMBDA A, i : Absorb(A, SubSeq(p, 136 * (i - 1) + 1, 136 * i)),
                    [k \in 1..25 |-> <<0,0,0,0>>], [i \in 1..(Len(p) \div 136) |-> i])
  IN [i \in 1..32 |-> LET lane == s[(i - 1) \div 8 + 1]
                          limb == lane[((i - 1) % 8) \div 2 + 1]
                      IN IF i % 2 = 1 THEN limb % 256 ELSE limb \div 256]
KeccakW(m) == OfBytes(Keccak256(m))
=============================================================================
