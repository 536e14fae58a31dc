------------------------------- MODULE MC_E11 -------------------------------
(* E11: arbitrary bytes as code; every opcode around the stack height it needs and at  *)
(* the limit of 1024; jumps into push data, past the end, to every position.             *)
EXTENDS EvmProg
MCOut == OutEnv
Main == Ct(1)
(* Runs code in a frame of its own (the driver creates nothing: the code is already there). *)
Run1(to, gas, j) ==
  PushI(32) \o PushI(512) \o PushI(4) \o PushI(0) \o PushI(0) \o Push(to) \o PushI(gas) \o O("CALL") \o SaveAt(2 * j) \o O("GAS") \o SaveAt(2 * j + 1)
RunAll(n, gas) == Cat([j \in 1..n |-> Run1(Ct(1 + j), gas, j)]) \o PushI(64 * (n + 1)) \o PushI(0) \o O("LOG0")
World(codes) == [a \in { Ct(1 + j) : j \in 1..Len(codes) } |-> Contract(codes[CHOOSE j \in 1..Len(codes) : Ct(1 + j) = a])]
(* Kind 1: opcode 8b..8b+7, with one item too few, just enough, and some more. *)
Height(op) == IF op \in 128..143 THEN op - 127 ELSE IF op \in 144..159 THEN op - 142 ELSE IF Arity(op)[1] < 0 THEN 2 ELSE Arity(op)[1]
Items(n) == Cat([k \in 1..n |-> PushI((n - k) % 3)])
OpCode1(op, n) == Items(n) \o <<op>> \o (IF op \in 96..127 THEN [k \in 1..(op - 95) |-> k] ELSE <<>>) \o SaveAt(0) \o PushI(32) \o PushI(0) \o O("RETURN")
OpBlock(b) == [x \in 1..24 |-> LET op == 8 * b + ((x - 1) % 8)
                                   h == Height(op)
                                   n == CASE (x - 1) \div 8 = 0 -> Max2(0, h - 1) [] (x - 1) \div 8 = 1 -> h [] OTHER -> h + 1
                               IN OpCode1(op, n)]
(* Kind 2: the stack at its limit. *)
Full(n) == Rep(95, n)
Limits == <<Full(1024) \o O("STOP"), Full(1025) \o O("STOP"), Full(1024) \o O("ADD") \o O("PC") \o O("STOP"), Full(1023) \o Dup(1) \o O("STOP"), Full(1024) \o Dup(16) \o O("STOP"),
            Full(1024) \o Swap(16) \o O("STOP"), Full(1024) \o O("GAS") \o O("STOP"), Full(1024) \o O("ISZERO") \o O("STOP"), Full(1024) \o PushI(1), Full(1024) \o O("MLOAD") \o O("POP") \o O("CALLDATASIZE"),
            Full(1024) \o O("JUMPDEST") \o O("STOP"), Full(1024) \o O("CALL") \o O("STOP"), Full(1023) \o O("ADDRESS") \o O("SELFBALANCE"), Full(1024) \o O("CREATE") \o O("STOP"), Full(1024) \o O("POP") \o PushI(300) \o O("STOP"), Full(1024) \o O("SLOAD") \o O("STOP")>>
(* Kind 3: jumps to position p of a code with traps everywhere. *)
Traps == <<91, 96, 91, 91, 97, 91, 91, 91, 127>> \o Rep(91, 31) \o <<91, 91, 95, 91, 90, 80, 0, 96, 91, 91, 91, 105, 91, 91>>
JumpTo(p, cond) ==
  LET pre == IF cond THEN PushI(1) \o PushN(2, W(p)) \o O("JUMPI") \o O("STOP") ELSE PushN(2, W(p)) \o O("JUMP") IN pre \o Traps
JumpBlock(b) == [x \in 1..16 |-> JumpTo(4 + 16 * b + x - 4, x % 2 = 0)]
OddJumps == <<Push(AllOnes) \o O("JUMP"), Push(Zeros(31) \o <<1>>) \o O("JUMP"), PushI(0) \o O("JUMP"), O("JUMPDEST") \o PushI(0) \o O("JUMP"), Push(Zeros(4) \o <<1>>) \o O("JUMP"), PushI(1) \o Push(AllOnes) \o O("JUMPI"),
              PushI(0) \o Push(AllOnes) \o O("JUMPI") \o O("STOP"), Push(AllOnes) \o PushI(35) \o O("JUMPI") \o <<91, 0>>, <<96>>, <<127, 1, 2>>, <<91>>, <<>>, <<86>>, <<87>>, PushI(3) \o O("JUMP") \o <<96>>, PushI(4) \o O("JUMP") \o <<96, 91>>>>
(* Kind 4: random bytes with sensible frequencies. *)
Byte(z) ==
  LET k == R(Z(z, 1), 20) IN
  CASE k < 5 -> <<96, R(Z(z, 2), 40)>>
    [] k < 7 -> <<91>>
    [] k = 7 -> <<96, R(Z(z, 2), 60), 86>>
    [] k = 8 -> <<96, R(Z(z, 2), 60), 87>>
    [] k < 11 -> <<128 + R(Z(z, 2), 8)>>
    [] k < 13 -> <<144 + R(Z(z, 2), 6)>>
    [] k < 15 -> <<1 + R(Z(z, 2), 11)>>
    [] k < 17 -> <<16 + R(Z(z, 2), 14)>>
    [] k = 17 -> <<48 + R(Z(z, 2), 26)>>
    [] k = 18 -> <<80 + R(Z(z, 2), 16)>>
    [] OTHER -> <<R(Z(z, 2), 256)>>
RandCode(z) == Cat([j \in 1..(20 + R(Z(z, 0), 30)) |-> Byte(Z(z, j))])
(* ----- *)
Blk(codes, gas, total) == Case((Main :> Contract(RunAll(Len(codes), gas))) @@ World(codes) @@ Users, Block0, <<Tx(Key(1), 0, total, Main, Zero, <<>>)>>)
MCCase(i) ==
  IF i <= 32 THEN Blk(OpBlock(i - 1), 9000, 1500000)
  ELSE IF i <= 36 THEN Blk(SubSeq(Limits, 4 * (i - 33) + 1, 4 * (i - 33) + 4), 40000, 700000)
  ELSE IF i <= 40 THEN Blk(JumpBlock(i - 37), 500, 400000)
  ELSE IF i = 41 THEN Blk(OddJumps, 500, 400000)
  ELSE Blk([x \in 1..24 |-> RandCode(Z(Z0(i), x))], 1200, 500000)
=============================================================================
