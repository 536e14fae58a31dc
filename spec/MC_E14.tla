------------------------------- MODULE MC_E14 -------------------------------
(* E14: blocks of few transactions, their parts, and everything falsified in each. *)
EXTENDS Claims
MCOut == OutEnv
Menu == <<<<6, "sstore">>, <<2, "sload">>, <<2, "tstore">>, <<4, "call">>, <<2, "create">>, <<4, "log">>, <<2, "env">>, <<1, "destruct">>>>
(* One contract reports what it sees of its surroundings. *)
Watch == O("NUMBER") \o SaveAt(0) \o O("PREVRANDAO") \o SaveAt(1) \o O("GASLIMIT") \o SaveAt(2) \o O("COINBASE") \o SaveAt(3)
  \o PushI(1) \o O("NUMBER") \o O("SUB") \o O("BLOCKHASH") \o SaveAt(4) \o O("TIMESTAMP") \o SaveAt(5) \o O("BASEFEE") \o SaveAt(6)
  \o PushI(0) \o O("BLOBHASH") \o SaveAt(7) \o PushI(256) \o PushI(0) \o O("LOG0") \o PushI(96) \o O("MLOAD") \o PushI(0) \o O("SSTORE")
MCCase(i) ==
  LET z == Z0(i)
      c == RandBlock(i, Menu, 4, 2)
      n == OneOf(Z(z, 1), <<0, 1, 2, 2, 3, 3>>)
      m == OneOf(Z(z, 2), <<0, 1, 2, 3>>)
      bad == R(Z(z, 3), 4)
      t0 == SubSeq(c.txs, 1, n)
      t1 == IF n > 0 /\ R(Z(z, 4), 2) = 0 THEN [t0 EXCEPT ![1].to = Ct(2), ![1].create = FALSE] ELSE t0
      txs == IF n > 0 /\ R(Z(z, 5), 4) = 0 /\ ~t1[1].create
             THEN [t1 EXCEPT ![1].type = 3, ![1].blobs = <<SubSeq(HashWord(7), 1, 31) \o <<1>>>>] ELSE t1
  IN [c EXCEPT !.pre = [@ EXCEPT ![Ct(2)].c = Watch], !.txs = IF bad = 0 /\ n > 1 THEN [txs EXCEPT ![n].nonce = @ + 5] ELSE txs,
               !.wds = [k \in 1..m |-> <<OneOf(Z(z, 10 + k), <<Key(2), Ct(1), Fresh(1), Coin>>), OneOf(Z(z, 20 + k), <<One, Gwei>>)>>]]
MCPart(i, st) ==
  LET n == Len(st.case.txs)
      z == Z0(i)
      lo == R(Z(z, 31), n + 1)
  IN {<<lo, lo + R(Z(z, 32), n - lo + 1), FALSE>>, <<IF i % 2 = 0 THEN 0 ELSE lo, n, TRUE>>}
=============================================================================
