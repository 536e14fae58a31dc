------------------------------- MODULE MC_E04 -------------------------------
(* E04: calls of every kind, gas request, value, target, input and output window,  *)
(* from plain, static and delegated frames.  The callee reports everything it sees. *)
EXTENDS EvmProg
MCOut == OutEnv
Kinds == <<"CALL", "CALLCODE", "DELEGATECALL", "STATICCALL">>
Report == Ct(1)   \* returns its view of the world, 8 words
Drain == Ct(2)    \* uses as much gas as it gets, returns what is left
Fails == Ct(3)
Writer == Ct(4)   \* stores, then returns its context
Me == Ct(5)
Via == Ct(6)      \* makes the calls for Me: by delegation, or in a static frame

ReportCode ==
  O("GAS") \o SaveAt(0) \o O("ADDRESS") \o SaveAt(1) \o O("CALLER") \o SaveAt(2) \o O("CALLVALUE") \o SaveAt(3)
  \o O("ORIGIN") \o SaveAt(4) \o O("CALLDATASIZE") \o SaveAt(5) \o PushI(0) \o O("CALLDATALOAD") \o SaveAt(6)
  \o O("SELFBALANCE") \o SaveAt(7) \o O("CODESIZE") \o SaveAt(8) \o PushI(288) \o PushI(0) \o O("RETURN")
DrainCode == PushI(1) \o PushI(40) \o O("MSTORE8") \o O("GAS") \o PushI(0) \o O("MSTORE") \o PushI(33) \o PushI(0) \o O("RETURN")
FailsCode == PushI(7) \o PushI(0) \o O("MSTORE") \o O("CALLVALUE") \o PushI(0) \o O("JUMPI") \o PushI(31) \o PushI(1) \o O("REVERT")
WriterCode == O("CALLER") \o O("ADDRESS") \o O("SSTORE") \o O("GAS") \o PushI(0) \o O("MSTORE") \o PushI(32) \o PushI(0) \o O("RETURN")
Tgts == <<Report, Report, Drain, Fails, Writer, Fresh(1), Key(2), W(4), W(0), Me, Fresh(2), WOr(Report, [k \in 1..32 |-> IF k > 20 THEN 255 ELSE 0])>>
GasReq == <<O("GAS"), PushI(0), PushI(100), PushI(2301), PushI(21000), PushI(25000), Push(AllOnes), Push([k \in 1..9 |-> IF k = 9 THEN 1 ELSE 0]), PushI(90000)>>
Values == <<Zero, Zero, One, W(30), W(31), AllOnes>>
Wins == <<<<0, 0>>, <<0, 32>>, <<0, 288>>, <<5, 31>>, <<300, 10>>, <<0, 400>>, <<64, 0>>>>
InWins == <<<<0, 0>>, <<0, 4>>, <<1, 32>>, <<320, 64>>, <<0, 3>>>>
NAll == 4 * Len(GasReq) * Len(Values) * Len(Tgts) * Len(Wins) * Len(InWins)
(* One call and a log of all that the caller can see afterwards. *)
One1(x) ==
  LET kind == Kinds[(x % 4) + 1]
      a == x \div 4
      gas == GasReq[(a % Len(GasReq)) + 1]
      b == a \div Len(GasReq)
      val == Values[(b % Len(Values)) + 1]
      c == b \div Len(Values)
      to == Tgts[(c % Len(Tgts)) + 1]
      d == c \div Len(Tgts)
      win == Wins[(d % Len(Wins)) + 1]
      e == d \div Len(Wins)
      inw == InWins[(e % Len(InWins)) + 1]
  IN Mem(Rep(170, 64)) 
     \o PushI(win[2]) \o PushI(win[1]) \o PushI(inw[2]) \o PushI(inw[1])
     \o (IF kind \in {"CALL", "CALLCODE"} THEN Push(val) ELSE <<>>) \o Push(to) \o gas \o O(kind)
     \o PushI(512) \o O("MSTORE") \o O("RETURNDATASIZE") \o PushI(544) \o O("MSTORE") \o O("GAS") \o PushI(576) \o O("MSTORE")
     \o O("MSIZE") \o PushI(608) \o O("MSTORE") \o O("SELFBALANCE") \o PushI(640) \o O("MSTORE")
Logged(x) == One1(x) \o PushI(672) \o PushI(0) \o O("LOG0")
(* In a static frame nothing can be logged: return a digest of memory instead. *)
Digest(xs) == Cat([k \in 1..Len(xs) |-> One1(xs[k]) \o PushI(672) \o PushI(0) \o O("SHA3") \o PushI(900 + 32 * k) \o O("MSTORE")])
              \o PushI(32 * Len(xs)) \o PushI(932) \o O("RETURN")
Per == 6
World4(code, via) ==
  (Report :> ContractB(ReportCode, W(3))) @@ (Drain :> Contract(DrainCode)) @@ (Fails :> Contract(FailsCode)) @@ (Writer :> ContractB(WriterCode, W(1)))
  @@ (Me :> ContractB(O("CALLER") \o O("ORIGIN") \o O("EQ") \o PushI(7) \o O("JUMPI") \o O("STOP") \o <<91>> \o code, W(30))) @@ (Via :> ContractB(via, W(60))) @@ Users
MCCase(i) ==
  LET z == Z0(i)
      xs == [k \in 1..Per |-> (R(Z(z, k), 30000) * 30011 + R(Z(z, 10 + k), 30000)) % NAll]
      mode == R(Z(z, 30), 4)
      code == Cat([k \in 1..Per |-> Logged(xs[k])]) \o O("STOP")
      dig == Digest(xs)
      pass == O("RETURNDATASIZE") \o PushI(0) \o PushI(0) \o O("RETURNDATACOPY") \o SaveAt(40) \o O("RETURNDATASIZE") \o PushI(32) \o O("ADD") \o PushI(0) \o O("LOG0")
      wrap == IF mode = 1 THEN PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o Push(Via) \o O("GAS") \o O("DELEGATECALL") \o O("POP")
              ELSE IF mode = 2 THEN PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o Push(Via) \o O("GAS") \o O("STATICCALL") \o pass
              ELSE IF mode = 3 THEN PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o PushI(9) \o Push(Via) \o O("GAS") \o O("CALLCODE") \o O("POP")
              ELSE code
  IN Case(World4(wrap, IF mode = 2 THEN dig ELSE code), Block0,
       <<Tx(Key(1), 0, 1000000, Me, W(2), <<1>>), Tx(Key(1), 1, 160000 + 7001 * R(Z(z, 31), 20), Me, Zero, <<1, 2, 3, 4>>)>>)
=============================================================================
