------------------------------- MODULE Hashes -------------------------------
(* SHA-256, RIPEMD-160 and the compression function of BLAKE2b.                     *)
(* A 32-bit word is <<high, low>> (16 bits each); a 64-bit word four 16-bit limbs,   *)
(* low limb first.                                                                  *)
EXTENDS Keccak, Curves
LOCAL T2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>
LOCAL Rr(w, n) ==
  LET h == IF n >= 16 THEN w[2] ELSE w[1]
      l == IF n >= 16 THEN w[1] ELSE w[2]
      p == T2[(n % 16) + 1]
      q == 65536 \div p
  IN <<(h \div p) + ((l % p) * q), (l \div p) + ((h % p) * q)>>
LOCAL Sr(w, n) ==          \* n < 16
  LET p == T2[n + 1] IN <<w[1] \div p, (w[2] \div p) + ((w[1] % p) * (65536 \div p))>>
LOCAL X2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
LOCAL Plus(ws) ==
  LET l == FoldLeft(LAMBDA s, w : s + w[2], 0, ws)
      h == FoldLeft(LAMBDA s, w : s + w[1], l \div 65536, ws)
  IN <<h % 65536, l % 65536>>
LOCAL An2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
LOCAL Or2(a, b) == <<a[1] | b[1], a[2] | b[2]>>
LOCAL Nt2(a) == <<65535 - a[1], 65535 - a[2]>>
LOCAL Ints(n) == [i \in 1..n |-> i]
(* Both hashes pad to 64-byte blocks and differ in the order of the length's bytes. *)
LOCAL PadMD(m, big) ==
  LET z == (119 - (Len(m) % 64)) % 64
      bits == <<(Len(m) * 8) % 256, (Len(m) \div 32) % 256, Len(m) \div 8192, 0, 0, 0, 0, 0>>
  IN m \o <<128>> \o Zeros(z) \o (IF big THEN Rev(bits) ELSE bits)
LOCAL Blocks(p) == [i \in 1..(Len(p) \div 64) |-> SubSeq(p, 64 * (i - 1) + 1, 64 * i)]
LOCAL OutBE(s) == [i \in 1..(4 * Len(s)) |-> LET w == s[(i - 1) \div 4 + 1] IN
                     CASE i % 4 = 1 -> w[1] \div 256 [] i % 4 = 2 -> w[1] % 256
                       [] i % 4 = 3 -> w[2] \div 256 [] OTHER -> w[2] % 256]
LOCAL OutLE(s) == [i \in 1..(4 * Len(s)) |-> LET w == s[(i - 1) \div 4 + 1] IN
                     CASE i % 4 = 1 -> w[2] % 256 [] i % 4 = 2 -> w[2] \div 256
                       [] i % 4 = 3 -> w[1] % 256 [] OTHER -> w[1] \div 256]

LOCAL ShaBlock(H, b) ==
  LET w16 == [i \in 1..16 |-> <<(256 * b[4*i - 3]) + b[4*i - 2], (256 * b[4*i - 1]) + b[4*i]>>]
      ext(w, i) ==
        LET x == w[i - 15]
            y == w[i - 2]
            s0 == X2(X2(Rr(x, 7), Rr(x, 18)), Sr(x, 3))
            s1 == X2(X2(Rr(y, 17), Rr(y, 19)), Sr(y, 10))
        IN Append(w, Plus(<<w[i - 16], s0, w[i - 7], s1>>))
      ws == FoldLeft(LAMBDA w, i : ext(w, i + 16), w16, Ints(48))
      step(v, i) ==
        LET e == v[5]
            a == v[1]
            S1 == X2(X2(Rr(e, 6), Rr(e, 11)), Rr(e, 25))
            ch == X2(An2(e, v[6]), An2(Nt2(e), v[7]))
            t1 == Plus(<<v[8], S1, ch, ShaK[i], ws[i]>>)
            S0 == X2(X2(Rr(a, 2), Rr(a, 13)), Rr(a, 22))
            mj == X2(X2(An2(a, v[2]), An2(a, v[3])), An2(v[2], v[3]))
        IN <<Plus(<<t1, S0, mj>>), a, v[2], v[3], Plus(<<v[4], t1>>), e, v[6], v[7]>>
      r == FoldLeft(step, H, Ints(64))
  IN [i \in 1..8 |-> Plus(<<H[i], r[i]>>)]
Sha256(m) == OutBE(FoldLeft(ShaBlock, ShaH, Blocks(PadMD(m, TRUE))))

LOCAL RmdR == << 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
  3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2,
  4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13 >>
LOCAL RmdRR == << 5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
  15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14,
  12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11 >>
LOCAL RmdS == << 11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
  11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12,
  9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6 >>
LOCAL RmdSS == << 8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
  9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8,
  8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11 >>
LOCAL RmdK == << <<0,0>>, <<23170,31129>>, <<28377,60321>>, <<36635,48348>>, <<43347,64846>> >>
LOCAL RmdKK == << <<20642,35814>>, <<23629,53540>>, <<28016,16115>>, <<31341,30441>>, <<0,0>> >>
LOCAL RmdH == << <<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>>, <<50130,57840>> >>
LOCAL RmdF(j, x, y, z) ==
  CASE j = 1 -> X2(X2(x, y), z)
    [] j = 2 -> Or2(An2(x, y), An2(Nt2(x), z))
    [] j = 3 -> X2(Or2(x, Nt2(y)), z)
    [] j = 4 -> Or2(An2(x, z), An2(y, Nt2(z)))
    [] OTHER -> X2(x, Or2(y, Nt2(z)))
LOCAL RmdBlock(H, b) ==
  LET w == [i \in 1..16 |-> <<(256 * b[4*i]) + b[4*i - 1], (256 * b[4*i - 2]) + b[4*i - 3]>>]
      line(v, i, r, s, f, k) ==
        LET t == Plus(<<Rr(Plus(<<v[1], RmdF(f, v[2], v[3], v[4]), w[r[i] + 1], k>>), 32 - s[i]), v[5]>>)
        IN <<v[5], t, v[2], Rr(v[3], 22), v[4]>>
      j(i) == (i - 1) \div 16 + 1
      A == FoldLeft(LAMBDA v, i : line(v, i, RmdR, RmdS, j(i), RmdK[j(i)]), H, Ints(80))
      B == FoldLeft(LAMBDA v, i : line(v, i, RmdRR, RmdSS, 6 - j(i), RmdKK[j(i)]), H, Ints(80))
  IN <<Plus(<<H[2], A[3], B[4]>>), Plus(<<H[3], A[4], B[5]>>), Plus(<<H[4], A[5], B[1]>>),
       Plus(<<H[5], A[1], B[2]>>), Plus(<<H[1], A[2], B[3]>>)>>
Ripemd160(m) == OutLE(FoldLeft(RmdBlock, RmdH, Blocks(PadMD(m, FALSE))))

LOCAL X4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
LOCAL Plus4(ws) ==
  LET s(i) == FoldLeft(LAMBDA t, w : t + w[i], 0, ws)
      a == s(1)
      b == s(2) + (a \div 65536)
      c == s(3) + (b \div 65536)
      d == s(4) + (c \div 65536)
  IN <<a % 65536, b % 65536, c % 65536, d % 65536>>
LOCAL LimbR(a, n) == [i \in 1..4 |-> a[((i - 1 + n) % 4) + 1]]
LOCAL BitR(a, n) ==
  LET p == T2[n + 1] IN [i \in 1..4 |-> (a[i] \div p) + ((a[(i % 4) + 1] % p) * (65536 \div p))]
LOCAL Sigma == <<
  <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>, <<14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3>>,
  <<11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4>>, <<7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8>>,
  <<9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13>>, <<2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9>>,
  <<12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11>>, <<13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10>>,
  <<6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5>>, <<10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0>> >>
LOCAL MixG(v, ix, x, y) ==
  LET a == Plus4(<<v[ix[1]], v[ix[2]], x>>)
      d == LimbR(X4(v[ix[4]], a), 2)
      c == Plus4(<<v[ix[3]], d>>)
      b == BitR(LimbR(X4(v[ix[2]], c), 1), 8)
      a2 == Plus4(<<a, b, y>>)
      d2 == LimbR(X4(d, a2), 1)
      c2 == Plus4(<<c, d2>>)
      b2 == BitR(LimbR(X4(b, c2), 3), 15)
  IN [v EXCEPT ![ix[1]] = a2, ![ix[2]] = b2, ![ix[3]] = c2, ![ix[4]] = d2]
LOCAL Quads == << <<1,5,9,13>>, <<2,6,10,14>>, <<3,7,11,15>>, <<4,8,12,16>>,
                  <<1,6,11,16>>, <<2,7,12,13>>, <<3,8,9,14>>, <<4,5,10,15>> >>
Blake2F(rounds, h, m, t, final) ==
  LET iv == [i \in 1..8 |-> CASE i = 5 -> X4(BlakeIV[5], t[1]) [] i = 6 -> X4(BlakeIV[6], t[2])
                              [] i = 7 /\ final -> X4(BlakeIV[7], <<65535, 65535, 65535, 65535>>)
                              [] OTHER -> BlakeIV[i]]
      round(v, r) == LET s == Sigma[((r - 1) % 10) + 1]
                     IN FoldLeft(LAMBDA u, q : MixG(u, Quads[q], m[s[2*q - 1] + 1], m[s[2*q] + 1]), v, Ints(8))
      v2 == FoldLeft(round, h \o iv, Ints(rounds))
  IN [i \in 1..8 |-> X4(h[i], X4(v2[i], v2[i + 8]))]
=============================================================================
