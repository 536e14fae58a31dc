------------------------------- MODULE MC_E02 -------------------------------
(* E02: all call trees of three frames.  Each frame has every kind of effect      *)
(* before and after the call it makes; each frame may end well, revert or fail.   *)
EXTENDS EvmProg
MCOut == OutEnv
Kinds == <<"CALL", "CALLCODE", "DELEGATECALL", "CREATE", "CREATE2", "STATICCALL">>
EndCode == <<O("STOP"), PushI(0) \o PushI(0) \o O("REVERT"), O("INVALID"), PushI(5000000) \o O("MLOAD")>>
NK == Len(Kinds)
NE == Len(EndCode)
(* Storage, transient storage, log, warming, value, creation: distinct per frame and place. *)
Effects(n) ==
  SStoreI(n, n + 1) \o SStoreI(100, 0) \o PushI(n) \o PushI(n) \o O("TSTORE") \o PushI(n) \o PushI(0) \o PushI(0) \o O("LOG1")
  \o Push(Fresh(n)) \o O("BALANCE") \o O("POP") \o CallI(PushI(0), Fresh(20 + n), 1, 0, 0, 0) \o O("POP")
(* What is left to see: warmth by gas, transient values. *)
Probe(n) ==
  O("GAS") \o Push(Fresh(n)) \o O("BALANCE") \o O("POP") \o PushI(n) \o O("SLOAD") \o O("POP") \o O("GAS") \o Swap(1) \o O("SUB")
  \o PushI(n) \o O("TLOAD") \o O("ADD") \o PushI(200 + n) \o O("SSTORE")
Invoke(kind, target, init, light) ==
  IF kind \in {"CREATE", "CREATE2"}
  THEN Mem(init) \o (IF kind = "CREATE2" THEN PushI(3) ELSE <<>>) \o PushI(Len(init)) \o PushI(0) \o PushI(1) \o O(kind) \o O("POP")
  ELSE PushI(0) \o PushI(0) \o PushI(0) \o PushI(0) \o (IF kind \in {"CALL", "CALLCODE"} THEN PushI(2) ELSE <<>>)
       \o Push(target) \o PushI(light) \o O(kind) \o O("POP")
(* Frame 3 is a leaf; frame 2 invokes it; frame 1 (the transaction's) invokes frame 2. *)
Code3(e) == Effects(3) \o EndCode[e]
Code2(k, e, e3) == Effects(4) \o Invoke(k, Ct(3), Code3(e3), 220000) \o Effects(5) \o Probe(3) \o EndCode[e]
Code1(k1, k2, e1, e2, e3) ==
  Effects(1) \o Invoke(k1, Ct(2), Code2(k2, e2, e3), 600000) \o Effects(2) \o Probe(3) \o Probe(4) \o Probe(5) \o Probe(13) \o EndCode[e1]
NAll == NK * NK * NE * NE * 2
Ctx(c, slot) == ContractS(c, W(90), [k \in {W(100)} |-> One])
One1(i) ==
  LET a == (i - 1) % NK
      b == ((i - 1) \div NK) % NK
      c == ((i - 1) \div (NK * NK)) % NE
      d == ((i - 1) \div (NK * NK * NE)) % NE
      e == ((i - 1) \div (NK * NK * NE * NE)) % 2
  IN <<Kinds[a + 1], Kinds[b + 1], e + 1, c + 1, d + 1>>
MCCase(i) ==
  LET j == 1 + (((i - 1) * 101 + Seed * 31) % NAll)
      x == One1(j)
  IN Case((Ct(1) :> Ctx(Code1(x[1], x[2], x[3], x[4], x[5]), 1)) @@ (Ct(2) :> Ctx(Code2(x[2], x[4], x[5]), 2)) @@ (Ct(3) :> Ctx(Code3(x[5]), 3)) @@ Users,
          Block0, <<Tx(Key(1), 0, 2000000, Ct(1), W(5), <<>>), Tx(Key(1), 1, 2000000, Ct(1), W(5), <<>>)>>)
=============================================================================
