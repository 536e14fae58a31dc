------------------------------- MODULE MC_E05 -------------------------------
(* E05: creations by CREATE, CREATE2 and transactions: every kind of init code,    *)
(* endowment, state of the new address before, twice at one address, after return   *)
(* data of an earlier call, nonces, gas around the cost of the deposit.             *)
EXTENDS EvmProg
MCOut == OutEnv
Maker == Ct(1)
EchoEF == Ct(2)   \* returns 0xEF...
Dest == Ct(3)
EFCode == PushN(32, OfBytes(<<239>> \o Rep(1, 31))) \o PushI(0) \o O("MSTORE") \o PushI(33) \o PushI(0) \o O("RETURN")
RevEF == PushN(32, OfBytes(<<239>> \o Rep(1, 31))) \o PushI(0) \o O("MSTORE") \o PushI(33) \o PushI(0) \o O("REVERT")
InitsAll == <<
  <<>>, O("STOP"), Deploy(<<0>>), Deploy(Rep(91, 40)), Deploy(<<239>>), Deploy(<<238>>), EFCode, RevEF,
  O("INVALID"), PushI(0) \o Dup(1) \o O("REVERT"),
  PushI(24576) \o PushI(0) \o O("RETURN"), PushI(24577) \o PushI(0) \o O("RETURN"), PushI(1) \o PushI(0) \o O("RETURN"),
  SStoreI(1, 7) \o Deploy(SStoreI(2, 5) \o O("CALLER") \o O("SELFDESTRUCT")),
  O("CALLER") \o O("SELFDESTRUCT"), O("ADDRESS") \o O("SELFDESTRUCT"),
  \* looks at itself while it is built
  O("ADDRESS") \o O("EXTCODESIZE") \o PushI(0) \o O("SSTORE") \o O("ADDRESS") \o O("EXTCODEHASH") \o PushI(1) \o O("SSTORE") \o O("SELFBALANCE") \o PushI(2) \o O("SSTORE") \o O("CALLDATASIZE") \o PushI(3) \o O("SSTORE") \o O("CODESIZE") \o PushI(4) \o O("SSTORE") \o Deploy(<<96, 0>>),
  \* calls, and is called while it is built
  CallI(O("GAS"), EchoEF, 0, 0, 0, 0) \o O("POP") \o O("STOP"),
  PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o Dup(1) \o O("ADDRESS") \o O("GAS") \o O("CALL") \o PushI(9) \o O("SSTORE") \o Deploy(<<1, 2>>),
  \* creates another
  Mem(Deploy(<<1>>)) \o PushI(Len(Deploy(<<1>>))) \o PushI(0) \o PushI(0) \o O("CREATE") \o PushI(5) \o O("SSTORE") \o Deploy(<<3>>),
  PushI(0) \o PushI(0) \o O("LOG0") \o PushI(1) \o PushI(1) \o O("TSTORE") \o Deploy(PushI(1) \o O("TLOAD") \o PushI(6) \o O("SSTORE")),
  PushI(5000000) \o O("MLOAD")>>
NI == Len(InitsAll)
EndowA == <<Zero, Zero, One, W(50), MulInt(Ether, 2)>>
Before == <<"none", "none", "funded", "nonce", "code", "full">>
PreAcc(k) == CASE k = "funded" -> User(0, W(77)) [] k = "nonce" -> User(1, Zero) [] k = "code" -> [User(0, Zero) EXCEPT !.c = <<0>>]
               [] k = "full" -> ContractS(Push(Fresh(3)) \o O("SELFDESTRUCT"), W(9), [x \in {One} |-> One]) [] OTHER -> EmptyAcc
After(n) == O("RETURNDATASIZE") \o PushI(100 + n) \o O("SSTORE") \o PushI(110 + n) \o O("SSTORE") \o O("GAS") \o PushI(120 + n) \o O("SSTORE")
Prior(k) == IF k = 0 THEN <<>> ELSE CallI(O("GAS"), IF k = 1 THEN EchoEF ELSE Dest, 0, 0, 0, 0) \o O("POP")
CreX(init, val, two, salt) == Mem(init) \o (IF two THEN PushI(salt) ELSE <<>>) \o PushI(Len(init)) \o PushI(0) \o Push(val) \o O(IF two THEN "CREATE2" ELSE "CREATE")
CallTop == \* calls the address on the stack
  PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o Dup(1) \o Dup(6) \o O("GAS") \o O("CALL") \o PushI(130) \o O("SSTORE")
MCCase(i) ==
  LET z == Z0(i)
      init == InitsAll[1 + ((i - 1) % NI)]
      val == OneOf(Z(z, 1), EndowA)
      two == R(Z(z, 2), 2) = 1
      before == OneOf(Z(z, 3), Before)
      addr == IF two THEN Create2Addr(Maker, W(7), init) ELSE CreateAddr(Maker, 1)
      twice == R(Z(z, 4), 3) = 0
      call == R(Z(z, 5), 2) = 0
      maxed == R(Z(z, 6), 12) = 0   \* the maker's nonce is at its limit
      inner == Prior(R(Z(z, 7), 3)) \o CreX(init, val, two, 7) \o (IF call THEN Dup(1) ELSE <<>>) \o After(0) \o (IF call THEN CallTop ELSE <<>>)
               \o (IF twice THEN CreX(init, val, two, 7) \o After(1) ELSE <<>>)
               \o (IF call THEN CallI(O("GAS"), addr, 1, 0, 0, 0) \o PushI(131) \o O("SSTORE") ELSE <<>>)
               \o PushI(140) \o O("SLOAD") \o PushI(1) \o O("ADD") \o PushI(140) \o O("SSTORE")
      \* the creation inside a frame that may be undone
      wrapEnd == OneOf(Z(z, 8), <<"plain", "plain", "plain", "revert", "static", "delegate">>)
      code == CASE wrapEnd = "plain" -> inner \o O("STOP")
                [] wrapEnd = "revert" -> PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o Push(Ct(4)) \o O("GAS") \o O("DELEGATECALL") \o PushI(150) \o O("SSTORE") \o Push(addr) \o O("EXTCODEHASH") \o PushI(151) \o O("SSTORE")
                                         \o CreX(init, Zero, two, 7) \o PushI(152) \o O("SSTORE")
                [] wrapEnd = "static" -> PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o Push(Ct(4)) \o PushI(500000) \o O("STATICCALL") \o PushI(150) \o O("SSTORE")
                [] wrapEnd = "delegate" -> PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o Push(Ct(4)) \o O("GAS") \o O("DELEGATECALL") \o PushI(150) \o O("SSTORE")
      four == IF wrapEnd = "revert" THEN inner \o PushI(0) \o Dup(1) \o O("REVERT") ELSE inner
      txAddr == CreateAddr(Key(2), 0)
      txBefore == OneOf(Z(z, 9), Before)
      deposit == 21000 + 32000 + 16 * Len(init) + 2 * Words32(Len(init))
      txg == OneOf(Z(z, 10), <<deposit + 0, deposit + 100, deposit + 199, deposit + 230, deposit + 30000, 400000, 6000000>>)
      mk == ContractB(code, W(60))
      pre0 == (Maker :> IF maxed THEN [mk EXCEPT !.n = MaxNonce] ELSE mk) @@ (EchoEF :> Contract(EFCode)) @@ (Dest :> Contract(RevEF)) @@ (Ct(4) :> Contract(four)) @@ Users
      pre1 == IF before = "none" \/ maxed THEN pre0 ELSE (addr :> PreAcc(before)) @@ pre0
      pre2 == IF txBefore = "none" THEN pre1 ELSE (txAddr :> PreAcc(txBefore)) @@ pre1
      t1 == Tx(Key(1), 0, 13000000, Maker, Zero, <<>>)
      t2 == TxNew(Key(2), 0, txg, OneOf(Z(z, 11), <<Zero, One, Ether>>), init)
      t3 == Tx(Key(1), 1, OneOf(Z(z, 12), <<400000, 700000, 13000000>>), Maker, Zero, <<>>)
      t4 == Tx(Key(2), 1, 200000, txAddr, One, <<>>)
  IN Case(pre2, Block0, <<t1, [t2 EXCEPT !.type = 1, !.al = IF R(Z(z, 13), 3) = 0 THEN <<<<txAddr, <<One>>>>>> ELSE <<>>], t3, t4>>)
=============================================================================
