------------------------------- MODULE MC_E09 -------------------------------
(* E09: every word operation on boundary and pseudo-random operands, with its gas.  *)
EXTENDS EvmProg
MCOut == OutEnv
Bin == <<"ADD", "MUL", "SUB", "DIV", "SDIV", "MOD", "SMOD", "EXP", "SIGNEXTEND", "LT", "GT", "SLT", "SGT", "EQ",
         "AND", "OR", "XOR", "BYTE", "SHL", "SHR", "SAR">>
Un == <<"ISZERO", "NOT">>
Tri == <<"ADDMOD", "MULMOD">>
SMin == Zeros(31) \o <<128>>
SMax == Rep(255, 31) \o <<127>>
Edge == <<Zero, One, W(2), W(3), W(31), W(32), W(128), W(255), W(256), W(257), AllOnes, SMin, SMax,
          Rep(255, 16), Zeros(16) \o <<1>>, Rep(255, 8), Zeros(31) \o <<1>>, [i \in 1..32 |-> 17 * ((i % 15) + 1)],
          <<254>> \o Rep(255, 31), Zeros(30) \o <<1, 192>>>>
NE == Len(Edge)
Word(z) == LET n == R(Z(z, 40), 33) IN Norm(RandB(Z(z, 41), n))
Operand(z) == IF R(Z(z, 1), 4) = 0 THEN OneOf(Z(z, 2), Edge) ELSE Word(Z(z, 3))
Near(z, a) == LET r == R(z, 6) IN IF r = 0 THEN a ELSE IF r = 1 THEN Add(a, One) ELSE IF r = 2 THEN Sub(a, One) ELSE IF r = 3 THEN Neg(a) ELSE Operand(Z(z, 4))
RandOp(z) ==
  LET k == R(Z(z, 1), 12)
      op == OneOf(Z(z, 2), Bin)
      a == Operand(Z(z, 3))
      b == Near(Z(z, 4), a)
      sh == IF op \in {"BYTE", "SHL", "SHR", "SAR", "SIGNEXTEND"} /\ R(Z(z, 5), 6) > 0 THEN W(R(Z(z, 6), 301) \div (IF op \in {"BYTE", "SIGNEXTEND"} THEN 8 ELSE 1)) ELSE a
      e == IF op = "EXP" /\ R(Z(z, 7), 3) > 0 THEN W(R(Z(z, 8), 300)) ELSE b
  IN IF k = 0 THEN Push(a) \o O(OneOf(Z(z, 9), Un))
     ELSE IF k <= 2 THEN Push(Operand(Z(z, 10))) \o Push(b) \o Push(a) \o O(OneOf(Z(z, 11), Tri))
     ELSE Push(e) \o Push(sh) \o O(op)
(* Edge pairs: block i takes the next ones in the order of all of them. *)
NPairs == Len(Bin) * NE * NE
Pair(x) == LET op == Bin[(x % Len(Bin)) + 1]
               y == x \div Len(Bin)
           IN Push(Edge[(y % NE) + 1]) \o Push(Edge[((y \div NE) % NE) + 1]) \o O(op)
Triple(x) == LET op == Tri[(x % 2) + 1]
                 y == x \div 2
             IN Push(Edge[(y % NE) + 1]) \o Push(Edge[((y \div NE) % NE) + 1]) \o Push(Edge[((y \div (NE * NE)) % NE) + 1]) \o O(op)
Per == 20
(* Walks over all pairs with a stride that is coprime to their number. *)
MCCase(i) ==
  LET z == Z0(i)
      at(j) == (((i - 1) * Per + j + 100 * Seed) * 1009) % NPairs
      tr(j) == (((i - 1) * 5 + j + 100 * Seed) * 1009) % (2 * NE * NE * NE)
      ops == [j \in 1..Per |-> Pair(at(j))] \o [j \in 1..5 |-> Triple(tr(j))] \o [j \in 1..Per |-> RandOp(Z(z, j))] \o <<Push(Edge[(i % NE) + 1]) \o O("NOT"), Push(Edge[(i % NE) + 1]) \o O("ISZERO")>>
  IN Case(Users @@ (Ct(1) :> Contract(Collect(ops))), Block0, <<Tx(Key(1), 0, 600000, Ct(1), Zero, <<>>)>>)
=============================================================================
