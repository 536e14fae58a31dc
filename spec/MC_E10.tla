------------------------------- MODULE MC_E10 -------------------------------
(* E10: programs of memory reads, writes and copies; each runs in a frame of its own  *)
(* with input, code and return data of awkward lengths, and ends by logging its memory. *)
EXTENDS EvmProg
MCOut == OutEnv
Main == Ct(1)
Echo == Ct(2)   \* returns its input, or with value reverts with it
Other == Ct(7)  \* code to look at
Offs10 == <<0, 0, 1, 2, 31, 32, 33, 63, 64, 65, 95, 100, 127, 128, 160, 200>>
Lens10 == <<0, 0, 1, 2, 5, 31, 32, 33, 63, 64, 65, 100, 129>>
Far == <<PushI(1023), PushI(4096), PushI(8191), PushI(1000000), Push(Rep(255, 4)), Push(Zeros(4) \o <<1>>), Push(Zeros(8) \o <<1>>), Push(AllOnes), Push(Norm(Zeros(31) \o <<128>>)), Push(<<224>> \o Rep(255, 31))>>
Off(z) == IF R(Z(z, 1), 24) = 0 THEN OneOf(Z(z, 2), Far) ELSE PushI(OneOf(Z(z, 3), Offs10))
LenP(z) == IF R(Z(z, 1), 60) = 0 THEN OneOf(Z(z, 2), Far) ELSE PushI(OneOf(Z(z, 3), Lens10))
SrcOff(z) == IF R(Z(z, 1), 8) = 0 THEN OneOf(Z(z, 2), Far) ELSE PushI(OneOf(Z(z, 3), Offs10))
Val(z) == OneOf(z, <<Push(AllOnes), Push(HashWord(3)), Push(HashWord(5)), PushI(171), Push(Rep(1, 20)), PushI(0)>>)
Acc2 == PushI(992) \o O("MLOAD") \o PushI(3) \o O("MUL") \o O("ADD") \o PushI(992) \o O("MSTORE")
MemOp(z) ==
  LET k == R(Z(z, 1), 16) IN
  CASE k \in {0, 1} -> Val(Z(z, 2)) \o Off(Z(z, 3)) \o O("MSTORE")
    [] k = 2 -> Val(Z(z, 2)) \o Off(Z(z, 3)) \o O("MSTORE8")
    [] k = 3 -> Off(Z(z, 3)) \o O("MLOAD") \o Acc2
    [] k \in {4, 5, 6} -> LenP(Z(z, 2)) \o Off(Z(z, 3)) \o Off(Z(z, 4)) \o O("MCOPY")
    [] k \in {7, 8} -> LenP(Z(z, 2)) \o SrcOff(Z(z, 3)) \o Off(Z(z, 4)) \o O("CALLDATACOPY")
    [] k = 9 -> LenP(Z(z, 2)) \o SrcOff(Z(z, 3)) \o Off(Z(z, 4)) \o O("CODECOPY")
    [] k = 10 -> LenP(Z(z, 2)) \o SrcOff(Z(z, 3)) \o Off(Z(z, 4)) \o Push(OneOf(Z(z, 5), <<Other, Echo, Key(2), Fresh(1), W(4)>>)) \o O("EXTCODECOPY")
    [] k = 11 -> LenP(Z(z, 2)) \o Off(Z(z, 3)) \o O("SHA3") \o Acc2
    [] k = 12 -> SrcOff(Z(z, 3)) \o O("CALLDATALOAD") \o Acc2
    [] k = 13 -> O("MSIZE") \o Acc2
    [] k = 14 -> \* get return data, then copy some of it
         PushI(OneOf(Z(z, 2), Lens10)) \o PushI(OneOf(Z(z, 3), Offs10)) \o PushI(OneOf(Z(z, 4), Lens10)) \o PushI(OneOf(Z(z, 5), Offs10))
         \o PushI(R(Z(z, 6), 2)) \o Push(OneOf(Z(z, 8), <<Echo, Echo, Echo, W(4), Fresh(1), Other>>)) \o PushI(OneOf(Z(z, 7), <<3000, 3000, 20>>)) \o O("CALL") \o Acc2
         \o PushI(OneOf(Z(z, 9), <<0, 0, 1, 2, 31, 32, 33>>)) \o PushI(OneOf(Z(z, 10), <<0, 0, 0, 1, 31, 32>>)) \o PushI(OneOf(Z(z, 11), Offs10)) \o O("RETURNDATACOPY")
    [] OTHER -> O("RETURNDATASIZE") \o Acc2 \o O("CALLDATASIZE") \o Acc2 \o O("CODESIZE") \o Acc2
Prog(z, n) == Cat([j \in 1..n |-> MemOp(Z(z, j))]) \o O("MSIZE") \o PushI(0) \o OneOf(Z(z, 99), <<O("LOG0"), O("LOG0"), O("LOG0"), O("RETURN"), O("REVERT")>>)
EchoCode == O("CALLDATASIZE") \o PushI(0) \o PushI(0) \o O("CALLDATACOPY") \o O("CALLDATASIZE") \o PushI(0) \o O("CALLVALUE") \o PushI(15) \o O("JUMPI") \o O("RETURN") \o <<91>> \o O("REVERT")
(* Runs the given contract with some of the input and keeps what can be seen of it. *)
RunKid(z, j, to) ==
  LET il == OneOf(Z(z, 1), <<0, 1, 31, 32, 33, 70, 100>>) IN
  PushI(OneOf(Z(z, 2), <<0, 32, 64>>)) \o PushI(256) \o PushI(il) \o PushI(OneOf(Z(z, 3), <<0, 3>>)) \o PushI(1) \o Push(to)
  \o PushI(OneOf(Z(z, 4), <<90000, 90000, 25000>>)) \o O("CALL") \o SaveAt(16 + j)
MCCase(i) ==
  LET z == Z0(i)
      kids == [a \in {Ct(3), Ct(4), Ct(5), Ct(6)} |-> ContractB(Prog(Z(z, CHOOSE k \in 3..6 : a = Ct(k)), 5 + R(Z(z, 20), 4)), W(9))]
      main == Mem(RandB(Z(z, 10), 100)) \o Cat([j \in 1..6 |-> RunKid(Z(z, 30 + j), j, Ct(3 + (j % 4)))]) \o PushI(768) \o PushI(0) \o O("LOG0")
  IN Case((Main :> ContractB(main, W(99))) @@ (Echo :> Contract(EchoCode)) @@ (Other :> Contract(RandB(Z(z, 11), OneOf(Z(z, 12), <<1, 31, 32, 33, 90>>)))) @@ kids @@ Users, Block0,
          <<Tx(Key(1), 0, 900000, Main, Zero, RandB(Z(z, 13), 5)), Tx(Key(1), 1, 200000, Ct(3), One, RandB(Z(z, 14), OneOf(Z(z, 15), <<0, 1, 32, 33, 77>>)))>>)
=============================================================================
