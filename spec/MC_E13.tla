------------------------------- MODULE MC_E13 -------------------------------
(* E13: blocks to be cut into payloads: few or no transactions, withdrawals to known,     *)
(* new, repeated and destroyed accounts and of zero, beacon roots at the ends of the ring. *)
EXTENDS EvmProg
MCOut == OutEnv
Menu == <<<<6, "sstore">>, <<2, "sload">>, <<1, "tstore">>, <<2, "tload">>, <<4, "call">>, <<1, "delegate">>,
  <<2, "create">>, <<2, "create2">>, <<2, "createcall">>, <<3, "log">>, <<2, "account">>, <<2, "env">>, <<2, "destruct">>, <<1, "die">>>>
WdTo == <<Key(2), Key(3), Ct(1), Ct(2), Fresh(1), Fresh(1), Fresh(5), Coin, Beacon, W(4), CreateAddr(Key(1), 0), Zero>>
WdOf == <<Zero, One, Gwei, MulInt(Gwei, 17), MulInt(Ether, 32)>>
MCCase(i) ==
  LET z == Z0(i)
      c == RandBlock(i, Menu, 4, 2)
      n == OneOf(Z(z, 1), <<0, 1, 2, 2, 3, 3, 4>>)
      m == OneOf(Z(z, 2), <<0, 1, 2, 3, 5>>)
  IN [c EXCEPT !.txs = SubSeq(@, 1, n),
               !.wds = [k \in 1..m |-> <<OneOf(Z(z, 10 + k), WdTo), OneOf(Z(z, 20 + k), WdOf)>>],
               !.blk = [@ EXCEPT !.time = OneOf(Z(z, 3), <<1, 8190, 8191, 8192, 16382, 1700000000>>), !.beaconroot = OneOf(Z(z, 4), <<HashWord(1), HashWord(901), One, Zero>>)]]
=============================================================================
