-------------------------------- MODULE MC_Alu --------------------------------
EXTENDS Alu
MCOut == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE ""
EnvInt(name, d) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE d
Seed == EnvInt("SEED", 1)
FirstEnv == EnvInt("FIRST", 1)
LastEnv == EnvInt("LAST", 20)
Z(z, j) == LET a == (z[1] * 31337 + j * 4099 + z[2] + 17) % 46337
               b == (z[2] * 27183 + a * 7 + j + 5) % 46327
           IN <<a, b>>
R(z, n) == ((z[1] + 3 * z[2]) \div 2) % n
Z0(i) == Z(Z(<<(i * 7919 + 13) % 46337, ((Seed % 40000) + i) % 46327>>, Seed % 100), i % 1000)
OneOf(z, q) == q[R(z, Len(q)) + 1]
RandB(z, n) == [i \in 1..n |-> R(Z(z, i), 256)]
Rep(b, n) == [i \in 1..n |-> b]
AllOnes == Rep(255, 32)
SMin == Zeros(31) \o <<128>>
Edge == <<Zero, One, W(2), W(3), W(31), W(32), W(128), W(255), W(256), W(257), W(65535), W(65536), AllOnes, SMin, Rep(255, 31) \o <<127>>,
          Rep(255, 16), Zeros(16) \o <<1>>, Rep(255, 8), Zeros(31) \o <<1>>, [i \in 1..32 |-> 17 * ((i % 15) + 1)],
          <<254>> \o Rep(255, 31), Zeros(30) \o <<1, 192>>, BnP, SubN(BnP, One), AddN(BnP, One), Zeros(15) \o <<128>>>>
Word(z) == Norm(RandB(Z(z, 41), R(Z(z, 40), 33)))
Operand(z) == IF R(Z(z, 1), 3) = 0 THEN OneOf(Z(z, 2), Edge) ELSE Word(Z(z, 3))
Near(z, a) == LET r == R(z, 9) IN
  CASE r = 0 -> a [] r = 1 -> Add(a, One) [] r = 2 -> Sub(a, One) [] r = 3 -> Neg(a) [] r = 4 -> Mul(a, W(3))
    [] r = 5 -> Norm(SubSeq(a, 1, Len(a) \div 2)) [] OTHER -> Operand(Z(z, 4))
(* The first cases go through pairs of boundary values, the others are pseudo-random. *)
MCOperands(i) ==
  LET z == Z0(i)
      n == Len(Edge)
      p == ((i - 1) * 229 + 37 * Seed) % (n * n)
      a == IF i % 3 = 0 THEN Edge[(p % n) + 1] ELSE Operand(Z(z, 1))
      b == IF i % 3 = 0 THEN Edge[(p \div n) + 1] ELSE Near(Z(z, 2), a)
      sh == IF R(Z(z, 4), 6) = 0 THEN Operand(Z(z, 5)) ELSE IF R(Z(z, 6), 3) = 0 THEN W(R(Z(z, 7), 33)) ELSE W(R(Z(z, 8), 258))
  IN [a |-> a, b |-> b, m |-> Near(Z(z, 3), OneOf(Z(z, 9), <<a, b, Operand(Z(z, 10))>>)), sh |-> sh, z |-> Z(z, 11)]
MCPack(z, j) ==
  LET y == Z(z, j)
      n == OneOf(Z(y, 1), <<1, 1, 2, 3, 8, 20, 31, 32, 1 + R(Z(y, 2), 32)>>)
      t == R(Z(y, 3), 4)
  IN [read |-> R(Z(y, 4), 2) = 0, ctx |-> R(Z(y, 5), 3), seg |-> R(Z(y, 6), 30), virt |-> OneOf(Z(y, 7), <<0, 1, 31, 32, 1000, 65535>>),
      time |-> 1 + R(Z(y, 8), 1000), bytes |-> IF t = 0 THEN Rep(255, n) ELSE IF t = 1 THEN [i \in 1..n |-> IF i = n THEN 1 ELSE 0] ELSE RandB(Z(y, 9), n)]
===============================================================================
