------------------------------- MODULE MC_E12 -------------------------------
(* E12: logs from trees of frames, with all topic counts and data lengths; blocks of    *)
(* mixed transaction types and outcomes; one block with more than 128 transactions.      *)
EXTENDS EvmProg
MCOut == OutEnv
Topics == <<Zero, One, W(255), AllOnes, HashWord(1), HashWord(2), Zeros(31) \o <<1>>, Key(1)>>
DLens == <<0, 0, 1, 20, 31, 32, 33, 55, 56, 57, 64, 120, 255, 256, 257>>
LogOp(z) ==
  LET n == R(Z(z, 1), 5) IN
  Cat([i \in 1..n |-> Push(OneOf(Z(z, 1 + i), Topics))]) \o PushI(OneOf(Z(z, 8), DLens)) \o PushI(OneOf(Z(z, 9), <<0, 0, 1, 17, 32, 100>>)) \o <<160 + n>>
Ends12 == <<O("STOP"), O("STOP"), O("STOP"), PushI(0) \o Dup(1) \o O("REVERT"), O("INVALID")>>
Call12(z, to) ==
  LET k == OneOf(Z(z, 1), <<"CALL", "CALL", "DELEGATECALL", "CALLCODE", "STATICCALL">>) IN
  PushI(0) \o PushI(0) \o PushI(0) \o PushI(0) \o (IF k \in {"CALL", "CALLCODE"} THEN PushI(0) ELSE <<>>) \o Push(to) \o PushI(120000) \o O(k) \o O("POP")
NewLog(z) == LET c == Push(HashWord(7)) \o PushI(0) \o O("MSTORE") \o LogOp(Z(z, 1)) \o OneOf(Z(z, 2), <<O("STOP"), O("STOP"), O("INVALID")>>) IN Mem(c) \o PushI(Len(c)) \o PushI(0) \o PushI(0) \o O("CREATE") \o O("POP")
Body(z, n, inner) == Push(HashWord(11)) \o PushI(0) \o O("MSTORE") \o Push(HashWord(12)) \o PushI(32) \o O("MSTORE")
   \o Cat([j \in 1..n |-> LET r == R(Z(z, j), 4) IN IF r < 3 THEN LogOp(Z(z, 20 + j)) ELSE IF inner = <<>> THEN NewLog(Z(z, 40 + j)) ELSE Call12(Z(z, 60 + j), OneOf(Z(z, 80 + j), inner))])
   \o OneOf(Z(z, 99), Ends12)
Many == Case((Ct(1) :> Contract(PushI(0) \o O("CALLDATALOAD") \o PushI(0) \o PushI(0) \o <<161>>)) @@ Users, Block0,
            [k \in 1..131 |-> [Tx(Key(1 + (k % 3)), (k - 1) \div 3, 40000, IF k % 16 = 0 THEN Ct(1) ELSE Key(4), IF k % 16 = 0 THEN Zero ELSE W(k), IF k % 16 = 0 THEN Bytes32(W(k)) ELSE <<>>)
                               EXCEPT !.type = k % 3]])
MCCase(i) ==
  IF i = 1 THEN Many ELSE
  LET z == Z0(i)
      w == (Ct(1) :> Contract(Body(Z(z, 1), 4, <<Ct(2), Ct(3)>>))) @@ (Ct(2) :> Contract(Body(Z(z, 2), 3, <<Ct(3), Ct(4)>>))) @@ (Ct(3) :> Contract(Body(Z(z, 3), 3, <<>>)))
           @@ (Ct(4) :> Contract(Body(Z(z, 4), 2, <<>>))) @@ Users
      t(k) == LET y == Z(z, 10 + k) IN
              IF R(Z(y, 1), 5) = 0 THEN TxNew(Key(1 + (k % 2)), (k - 1) \div 2, 200000, Zero, LogOp(Z(y, 2)) \o Deploy(<<0>>))
              ELSE [Tx(Key(1 + (k % 2)), (k - 1) \div 2, OneOf(Z(y, 3), <<60000, 150000, 400000, 400000>>), OneOf(Z(y, 4), <<Ct(1), Ct(1), Ct(2), Ct(3), Key(4)>>), W(R(Z(y, 5), 2)), <<>>)
                    EXCEPT !.type = R(Z(y, 6), 3)]
  IN Case(w, Block0, [k \in 1..5 |-> t(k)])
=============================================================================
