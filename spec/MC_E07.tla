------------------------------- MODULE MC_E07 -------------------------------
(* E07: transient storage: every pair of frames (kind of call, ways to end), with   *)
(* writes before, in and after the inner frame, read by the outer, by a third        *)
(* contract, in a static frame, and in the next transaction.                          *)
EXTENDS EvmProg
MCOut == OutEnv
Kinds == <<"CALL", "CALLCODE", "DELEGATECALL", "STATICCALL", "CREATE">>
EndC == <<O("STOP"), PushI(0) \o Dup(1) \o O("REVERT"), O("INVALID")>>
TS(k, v) == Push(v) \o Push(k) \o O("TSTORE")
TKeys == <<Zero, One, AllOnes, W(2)>>
TVals == <<Zero, One, W(9), AllOnes>>
TOp(z, j) ==
  CASE R(Z(z, 1), 5) < 2 -> TS(OneOf(Z(z, 2), TKeys), OneOf(Z(z, 3), TVals))
    [] R(Z(z, 1), 5) = 2 -> Push(OneOf(Z(z, 2), TKeys)) \o O("TLOAD") \o SaveAt(j)
    [] R(Z(z, 1), 5) = 3 -> Push(OneOf(Z(z, 2), TKeys)) \o O("TLOAD") \o PushI(1) \o O("ADD") \o Push(OneOf(Z(z, 2), TKeys)) \o O("TSTORE")
    [] OTHER -> Push(OneOf(Z(z, 2), TVals)) \o Push(OneOf(Z(z, 3), TKeys)) \o O("SSTORE")
TOps(z, n) == Cat([j \in 1..n |-> TOp(Z(z, j), j)])
All4 == Cat([j \in 1..4 |-> Push(TKeys[j]) \o O("TLOAD") \o SaveAt(j)]) \o O("GAS") \o SaveAt(5)
Inv(z, to, depth) ==
  LET k == OneOf(Z(z, 1), Kinds) init == TOps(Z(z, 2), 2) \o OneOf(Z(z, 3), EndC) IN
  IF k = "CREATE" THEN Mem(init) \o PushI(Len(init)) \o PushI(0) \o PushI(0) \o O("CREATE") \o O("POP")
  ELSE PushI(0) \o PushI(0) \o PushI(0) \o PushI(0) \o (IF k \in {"CALL", "CALLCODE"} THEN PushI(0) ELSE <<>>) \o Push(to) \o PushI(depth) \o O(k) \o O("POP")
MCCase(i) ==
  LET z == Z0(i)
      c3 == TOps(Z(z, 1), 3) \o OneOf(Z(z, 2), EndC)
      c2 == TOps(Z(z, 3), 2) \o Inv(Z(z, 4), Ct(3), 120000) \o TOps(Z(z, 5), 2) \o OneOf(Z(z, 6), EndC)
      \* called back: the outer contract writes again from an inner frame
      c4 == PushI(0) \o PushI(0) \o PushI(1) \o PushI(0) \o PushI(0) \o Push(Ct(1)) \o PushI(100000) \o O("CALL") \o O("POP") \o OneOf(Z(z, 7), EndC)
      back == TOps(Z(z, 8), 3) \o OneOf(Z(z, 9), EndC)
      main == TOps(Z(z, 10), 3) \o Inv(Z(z, 11), OneOf(Z(z, 12), <<Ct(2), Ct(2), Ct(4)>>), 400000) \o TOps(Z(z, 13), 2)
              \o Inv(Z(z, 14), OneOf(Z(z, 15), <<Ct(2), Ct(3), Ct(4)>>), 400000) \o All4 \o PushI(192) \o PushI(0) \o O("LOG0")
      c1 == O("CALLDATASIZE") \o PushI(Len(main) + 6) \o O("JUMPI") \o main \o <<0, 91>> \o back
      fix == IF Len(main) + 6 > 255 THEN O("CALLDATASIZE") \o PushI(Len(main) + 7) \o O("JUMPI") \o main \o <<0, 91>> \o back ELSE c1
  IN Case((Ct(1) :> Contract(fix)) @@ (Ct(2) :> Contract(c2)) @@ (Ct(3) :> Contract(c3)) @@ (Ct(4) :> Contract(c4)) @@ Users, Block0,
          <<Tx(Key(1), 0, 2000000, Ct(1), Zero, <<>>), Tx(Key(1), 1, 2000000, Ct(1), Zero, <<>>), Tx(Key(1), 2, 2000000, Ct(2), Zero, <<>>)>>)
=============================================================================
