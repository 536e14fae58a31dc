------------------------------- MODULE EvmProg -------------------------------
(* Programs and blocks determined by a number: pseudo-random choices are functions *)
(* of a seed, so that block i is the same in every run with the same SEED.          *)
EXTENDS EvmGen

EnvInt(name, d) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE d
Seed == EnvInt("SEED", 1)
(* A seed is a pair; Z(z, j) is its j-th child, R(z, n) a number below n. *)
Z(z, j) == LET a == (z[1] * 31337 + j * 4099 + z[2] + 17) % 46337
               b == (z[2] * 27183 + a * 7 + j + 5) % 46327
           IN <<a, b>>
R(z, n) == ((z[1] + 3 * z[2]) \div 2) % n
Z0(i) == Z(Z(<<(i * 7919 + 13) % 46337, ((Seed % 40000) + i) % 46327>>, Seed % 100), i % 1000)
OneOf(z, q) == q[R(z, Len(q)) + 1]
(* q: sequence of <<weight, item>> *)
Weighted(z, q) ==
  LET total == FoldLeft(LAMBDA acc, x : acc + x[1], 0, q)
      RECURSIVE at(_, _)
      at(r, i) == IF r < q[i][1] THEN q[i][2] ELSE at(r - q[i][1], i + 1)
  IN at(R(z, total), 1)
RandB(z, n) == [i \in 1..n |-> R(Z(z, i), 256)]
Rep(b, n) == [i \in 1..n |-> b]
AllOnes == Rep(255, 32)

-----------------------------------------------------------------------------
(* Statements: balanced pieces of code; each leaves its result in memory word j.  *)
Targets == <<Ct(1), Ct(2), Ct(3), Ct(4), Ct(1), Ct(2), Fresh(1), W(4), Key(2), Coin, Fresh(2), W(2), W(3)>>
Slots == <<Zero, One, W(2), AllOnes>>
Vals == <<Zero, One, W(2), Zero, One, AllOnes, W(512)>>
SaveAt(j) == PushI(32 * j) \o O("MSTORE")
Gases == <<O("GAS"), PushI(0), PushI(2300), PushI(5000), PushI(12000), PushI(30000), PushI(60000), Push(AllOnes)>>
Amounts == <<Zero, Zero, One, W(5), Zero, MulInt(Ether, 2)>>
Offs == <<0, 0, 0, 1, 31, 32, 33, 64, 96, 200>>
Lens == <<0, 0, 1, 4, 31, 32, 33, 64, 100>>
Inits(z) ==   \* init codes
  OneOf(Z(z, 1), <<
       Deploy(<<0>>), Deploy(<<>>), <<>>, O("INVALID"), PushI(0) \o Dup(1) \o O("REVERT"),
       PushI(32) \o PushI(0) \o O("REVERT"),
       SStoreI(1, 7) \o Deploy(SStoreI(2, 5) \o O("CALLER") \o O("SELFDESTRUCT")),
       O("CALLER") \o O("SELFDESTRUCT"), SStoreI(0, 1) \o O("ADDRESS") \o O("SELFDESTRUCT"),
       Deploy(<<239, 1>>), PushI(1) \o PushI(0) \o O("TSTORE") \o SStoreI(3, 1) \o Deploy(O("ADDRESS") \o O("SELFDESTRUCT")),
       CallI(O("GAS"), Ct(2), 0, 0, 0, 0) \o O("POP") \o Deploy(<<91, 0>>),
       PushI(5000000) \o O("MLOAD")>>)
CallCode(op, z) ==
  LET il == OneOf(Z(z, 1), Lens) io == OneOf(Z(z, 2), Offs) ol == OneOf(Z(z, 3), Lens) oo == OneOf(Z(z, 4), Offs)
  IN PushI(ol) \o PushI(oo) \o PushI(il) \o PushI(io)
     \o (IF op \in {"CALL", "CALLCODE"} THEN Push(OneOf(Z(z, 5), Amounts)) ELSE <<>>)
     \o Push(OneOf(Z(z, 6), Targets)) \o OneOf(Z(z, 7), Gases) \o O(op)
CreateCode(z, two) ==
  LET init == Inits(Z(z, 1)) IN
  Mem(init) \o (IF two THEN PushI(R(Z(z, 2), 2)) ELSE <<>>) \o PushI(Len(init)) \o PushI(0) \o Push(OneOf(Z(z, 3), <<Zero, Zero, One, W(3), MulInt(Ether, 50)>>))
  \o O(IF two THEN "CREATE2" ELSE "CREATE")
Stmt(kind, z, j) ==
  CASE kind = "sstore" -> Push(OneOf(Z(z, 1), Vals)) \o Push(OneOf(Z(z, 2), Slots)) \o O("SSTORE")
    [] kind = "sload" -> Push(OneOf(Z(z, 1), Slots)) \o O("SLOAD") \o SaveAt(j)
    [] kind = "tstore" -> Push(OneOf(Z(z, 1), Vals)) \o Push(OneOf(Z(z, 2), Slots)) \o O("TSTORE")
    [] kind = "tload" -> Push(OneOf(Z(z, 1), Slots)) \o O("TLOAD") \o SaveAt(j)
    [] kind = "call" -> CallCode("CALL", z) \o SaveAt(j)
    [] kind = "callcode" -> CallCode("CALLCODE", z) \o SaveAt(j)
    [] kind = "delegate" -> CallCode("DELEGATECALL", z) \o SaveAt(j)
    [] kind = "static" -> CallCode("STATICCALL", z) \o SaveAt(j)
    [] kind = "create" -> CreateCode(z, FALSE) \o SaveAt(j)
    [] kind = "create2" -> CreateCode(z, TRUE) \o SaveAt(j)
    [] kind = "createcall" ->   \* create, then call what was created
         CreateCode(z, R(Z(z, 4), 2) = 1) \o PushI(0) \o PushI(0) \o PushI(0) \o PushI(0)
         \o PushI(R(Z(z, 6), 2)) \o Dup(6) \o O("GAS") \o O("CALL") \o O("ADD") \o SaveAt(j)
    [] kind = "log" -> LET n == R(Z(z, 1), 5) IN
         Cat([i \in 1..n |-> Push(OneOf(Z(z, 1 + i), Vals))]) \o PushI(OneOf(Z(z, 8), Lens)) \o PushI(OneOf(Z(z, 9), Offs)) \o O(<<"LOG0", "LOG1", "LOG2", "LOG3", "LOG4">>[n + 1])
    [] kind = "account" -> Push(OneOf(Z(z, 1), Targets)) \o O(OneOf(Z(z, 2), <<"BALANCE", "EXTCODESIZE", "EXTCODEHASH">>)) \o SaveAt(j)
    [] kind = "extcopy" -> PushI(OneOf(Z(z, 1), Lens)) \o PushI(OneOf(Z(z, 2), Offs)) \o PushI(OneOf(Z(z, 3), Offs)) \o Push(OneOf(Z(z, 4), Targets)) \o O("EXTCODECOPY")
    [] kind = "env" -> O(OneOf(Z(z, 1), <<"ADDRESS", "ORIGIN", "CALLER", "CALLVALUE", "CALLDATASIZE", "CODESIZE", "GASPRICE",
         "RETURNDATASIZE", "COINBASE", "TIMESTAMP", "NUMBER", "PREVRANDAO", "GASLIMIT", "CHAINID", "SELFBALANCE", "BASEFEE",
         "BLOBBASEFEE", "PC", "MSIZE", "GAS", "SELFBALANCE", "CALLER", "ADDRESS">>)) \o SaveAt(j)
    [] kind = "gas" -> O("GAS") \o SaveAt(j)
    [] kind = "msize" -> O("MSIZE") \o SaveAt(j)
    [] kind = "copy" -> PushI(OneOf(Z(z, 1), Lens)) \o PushI(OneOf(Z(z, 2), Offs)) \o PushI(OneOf(Z(z, 3), Offs)) \o O(OneOf(Z(z, 4), <<"CALLDATACOPY", "CODECOPY", "MCOPY", "MCOPY">>))
    [] kind = "retcopy" -> PushI(OneOf(Z(z, 1), <<0, 0, 1, 4, 32>>)) \o PushI(OneOf(Z(z, 2), <<0, 0, 0, 1, 32>>)) \o PushI(OneOf(Z(z, 3), Offs)) \o O("RETURNDATACOPY")
    [] kind = "mstore" -> Push(OneOf(Z(z, 1), <<One, AllOnes, W(65535), HashWord(3)>>)) \o PushI(OneOf(Z(z, 2), Offs)) \o O(OneOf(Z(z, 3), <<"MSTORE", "MSTORE8">>))
    [] kind = "mload" -> PushI(OneOf(Z(z, 2), Offs)) \o O("MLOAD") \o SaveAt(j)
    [] kind = "keccak" -> PushI(OneOf(Z(z, 1), Lens)) \o PushI(OneOf(Z(z, 2), Offs)) \o O("SHA3") \o SaveAt(j)
    [] kind = "die" -> \* sometimes, depending on what was stored
         Push(OneOf(Z(z, 1), Slots)) \o O("SLOAD") \o PushI(0) \o O("JUMPI")
    [] kind = "destruct" -> Push(OneOf(Z(z, 1), Targets)) \o O("SELFDESTRUCT")
    [] OTHER -> <<>>
Ends(z, j) ==
  OneOf(z, <<O("STOP"), <<>>, PushI(32 * j) \o PushI(0) \o O("RETURN"), PushI(32 * j) \o PushI(0) \o O("RETURN"),
             PushI(0) \o PushI(0) \o O("REVERT"), PushI(32 * j) \o PushI(0) \o O("REVERT"), O("INVALID"),
             PushI(32 * j) \o PushI(0) \o O("LOG0"), PushI(32 * j) \o PushI(0) \o O("LOG0"), PushI(32 * j) \o PushI(0) \o O("LOG1")>>)
Program(z, menu, n) ==
  Cat([j \in 1..n |-> LET y == Z(z, j) IN Stmt(Weighted(y, menu), Z(y, 1), j - 1)]) \o Ends(Z(z, 99), n)

(* A world of four contracts with random programs, and transactions to them. *)
SomeStore(z) == [k \in { OneOf(Z(z, i), Slots) : i \in 1..R(Z(z, 7), 4) } |-> OneOf(Z(z, 8 + Len(k)), <<One, W(2), AllOnes>>)]
RandWorld(z, menu, n) ==
  [a \in { Ct(i) : i \in 1..4 } |->
     LET i == CHOOSE k \in 1..4 : Ct(k) = a
         y == Z(z, i)
     IN ContractS(Program(Z(y, 1), menu, 2 + R(Z(y, 2), n)), OneOf(Z(y, 3), <<Zero, W(3), MulInt(Ether, 3)>>), SomeStore(Z(y, 4)))]
  @@ (Coin :> User(0, One)) @@ Users
RandAl(z) ==
  [i \in 1..R(z, 3) |-> <<OneOf(Z(z, i), Targets), [k \in 1..R(Z(z, 5 + i), 3) |-> Slots[k]]>>]
RandTx(z, i) ==
  LET ty == R(Z(z, 1), 3)
      base == [Tx(Key(1 + (i % 2)), (i - 1) \div 2, OneOf(Z(z, 2), <<45000, 90000, 150000, 220000>>), OneOf(Z(z, 3), <<Ct(1), Ct(2), Ct(3), Ct(4)>>),
                  OneOf(Z(z, 4), <<Zero, Zero, One, W(9)>>), RandB(Z(z, 5), OneOf(Z(z, 6), <<0, 4, 32, 40>>))) EXCEPT !.type = ty]
  IN IF ty = 0 THEN base
     ELSE [base EXCEPT !.al = RandAl(Z(z, 7)), !.tip = IF ty = 2 THEN OneOf(Z(z, 8), <<Zero, One, W(5)>>) ELSE Zero]
RandCreateTx(z, i, menu) ==
  [RandTx(z, i) EXCEPT !.create = TRUE, !.data = IF R(Z(z, 11), 3) = 0 THEN Inits(Z(z, 12)) ELSE Program(Z(z, 12), menu, 4), !.gas = 300000]
RandBlock(i, menu, n, creates) ==
  LET z == Z0(i) IN
  Case(RandWorld(Z(z, 1), menu, n), Block0,
       [k \in 1..4 |-> IF R(Z(z, 20 + k), 10) < creates THEN RandCreateTx(Z(z, 10 + k), k, menu) ELSE RandTx(Z(z, 10 + k), k)])
LastEnv == EnvInt("LAST", 20)
FirstEnv == EnvInt("FIRST", 1)
=============================================================================
