------------------------------- MODULE MC_E08 -------------------------------
(* E08: every way to reach an account or a slot, measured, in the outer frame and in *)
(* inner ones that survive or not, with access lists, and again in later transactions. *)
EXTENDS EvmProg
MCOut == OutEnv
Me == Ct(1)
KidA == Ct(2)
KidB == Ct(3)
Listed == Ct(4)
Plain == Ct(5)
Killer == Ct(6)   \* destroys itself to the given address
Victim == Ct(7)
Meas(expr, j) == O("GAS") \o expr \o O("POP") \o O("GAS") \o Swap(1) \o O("SUB") \o SaveAt(j)
AccOps == <<"BALANCE", "EXTCODESIZE", "EXTCODEHASH", "EXTCODECOPY", "CALL", "CALLCODE", "DELEGATECALL", "STATICCALL", "CALLVALUE", "DESTROY">>
MadeAddr == CreateAddr(Me, 1)
Tgts == <<Key(1), Key(2), Me, Coin, W(1), W(2), W(4), W(9), W(10), W(11), Listed, Plain, MadeAddr, Fresh(1), Fresh(2), KidA, KidB, Zero,
          WOr(Plain, [k \in 1..31 |-> IF k > 20 THEN 7 ELSE 0])>>
AccOp(k, t) ==
  CASE k \in {"BALANCE", "EXTCODESIZE", "EXTCODEHASH"} -> Push(t) \o O(k)
    [] k = "EXTCODECOPY" -> PushI(1) \o PushI(0) \o PushI(900) \o Push(t) \o O(k) \o PushI(0)
    [] k = "CALLVALUE" -> PushI(0) \o PushI(0) \o PushI(0) \o PushI(0) \o PushI(1) \o Push(t) \o PushI(0) \o O("CALL")
    [] k = "DESTROY" -> Push(t) \o PushI(928) \o O("MSTORE") \o PushI(0) \o PushI(0) \o PushI(32) \o PushI(928) \o PushI(0) \o Push(Killer) \o PushI(60000) \o O("CALL")
    [] OTHER -> PushI(0) \o PushI(0) \o PushI(0) \o PushI(0) \o (IF k \in {"CALL", "CALLCODE"} THEN PushI(0) ELSE <<>>) \o Push(t) \o PushI(0) \o O(k)
SlotKs == <<Zero, One, W(5), AllOnes, HashWord(3)>>
SlotOp(z) ==
  LET k == OneOf(Z(z, 1), SlotKs) IN
  IF R(Z(z, 2), 2) = 0 THEN Push(k) \o O("SLOAD") ELSE Push(OneOf(Z(z, 3), <<Zero, One, W(2)>>)) \o Push(k) \o O("SSTORE") \o PushI(0)
Access(z) == IF R(Z(z, 1), 5) < 2 THEN SlotOp(Z(z, 2)) ELSE AccOp(OneOf(Z(z, 3), AccOps), OneOf(Z(z, 4), Tgts))
Kid(z) == Cat([j \in 1..3 |-> Meas(Access(Z(z, j)), j)]) \o PushI(128) \o PushI(0)
          \o OneOf(Z(z, 9), <<O("RETURN"), O("RETURN"), O("REVERT"), O("REVERT"), O("INVALID")>>)
CallKid(z, j) ==
  LET k == OneOf(Z(z, 1), <<"CALL", "DELEGATECALL", "STATICCALL", "CALLCODE">>) IN
  PushI(128) \o PushI(1024 + 128 * j) \o PushI(0) \o PushI(0) \o (IF k \in {"CALL", "CALLCODE"} THEN PushI(0) ELSE <<>>)
  \o Push(OneOf(Z(z, 2), <<KidA, KidB>>)) \o PushI(150000) \o O(k)
Create(z) == Mem(O("STOP")) \o PushI(1) \o PushI(0) \o PushI(0) \o O("CREATE")
Step(z, j) == LET r == R(Z(z, 1), 10) IN IF r < 3 THEN Meas(CallKid(Z(z, 2), j), j) ELSE IF r = 3 THEN Meas(Create(z), j) ELSE Meas(Access(Z(z, 2)), j)
Main(z, n) == Cat([j \in 1..n |-> Step(Z(z, j), j)]) \o PushI(1024 + 128 * (n + 1)) \o PushI(0) \o O("LOG0")
Al(z) == [i \in 1..R(Z(z, 1), 4) |-> <<OneOf(Z(z, 10 + i), <<Listed, Me, Plain, Fresh(1), KidA, MadeAddr, Key(2)>>), [k \in 1..R(Z(z, 20 + i), 3) |-> OneOf(Z(z, 30 + 5 * i + k), SlotKs)]>>]
MCCase(i) ==
  LET z == Z0(i)
      w == (Me :> ContractS(Main(Z(z, 1), 8), W(50), [k \in {One} |-> W(4)])) @@ (KidA :> ContractS(Kid(Z(z, 2)), W(50), [k \in {Zero, W(5)} |-> One]))
           @@ (KidB :> ContractB(Kid(Z(z, 3)), W(50))) @@ (Listed :> Contract(<<0>>)) @@ (Plain :> Contract(<<0>>))
           @@ (Killer :> Contract(PushI(0) \o O("CALLDATALOAD") \o O("SELFDESTRUCT"))) @@ Users
      t(k, to) == LET a == Al(Z(z, 50 + k)) IN [Tx(Key(1 + (k % 2)), (k - 1) \div 2, 1500000, to, Zero, <<>>) EXCEPT !.type = IF a = <<>> THEN 0 ELSE 1 + (k % 2), !.al = a]
  IN Case(w, [Block0 EXCEPT !.coinbase = OneOf(Z(z, 60), <<Coin, Coin, Fresh(2), KidB>>)], <<t(1, Me), t(2, Me), t(3, KidA), t(4, Me)>>)
=============================================================================
