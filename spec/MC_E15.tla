------------------------------- MODULE MC_E15 -------------------------------
(* E15: everything a program can ask about its surroundings, in blocks with varied      *)
(* headers, from outer, inner, delegated and init frames, before and after transfers.     *)
EXTENDS EvmProg
MCOut == OutEnv
Simple == <<"ADDRESS", "ORIGIN", "CALLER", "CALLVALUE", "CALLDATASIZE", "CODESIZE", "GASPRICE", "RETURNDATASIZE", "COINBASE", "TIMESTAMP",
            "NUMBER", "PREVRANDAO", "GASLIMIT", "CHAINID", "SELFBALANCE", "BASEFEE", "BLOBBASEFEE", "PC", "MSIZE", "GAS">>
All15 == Cat([j \in 1..Len(Simple) |-> O(Simple[j]) \o SaveAt(j - 1)])
About(a, j) == Push(a) \o O("BALANCE") \o SaveAt(j) \o Push(a) \o O("EXTCODESIZE") \o SaveAt(j + 1) \o Push(a) \o O("EXTCODEHASH") \o SaveAt(j + 2)
Hashes(ns, j) == Cat([k \in 1..Len(ns) |-> Push(ns[k]) \o O("BLOCKHASH") \o SaveAt(j + k - 1)])
Blobs == Cat([k \in 1..4 |-> Push(<<Zero, One, W(2), AllOnes>>[k]) \o O("BLOBHASH") \o SaveAt(39 + k)])
Done == PushI(44 * 32) \o PushI(0) \o O("LOG0")
VersHash(i) == [k \in 1..32 |-> IF k = 32 THEN 1 ELSE (i * 13 + k) % 256]
Numbers == <<1, 2, 255, 256, 257, 300, 1000, 19000000>>
MCCase(i) ==
  LET z == Z0(i)
      num == OneOf(Z(z, 1), Numbers)
      excess == OneOf(Z(z, 2), <<0, 131072, 3338477, 10000000, 60000000>>)
      blk == [Block0 EXCEPT !.number = num, !.time = OneOf(Z(z, 3), <<1, 8190, 8191, 16382, 1700000000, 2147480000>>),
                            !.coinbase = OneOf(Z(z, 4), <<Coin, Ct(1), Key(2), Fresh(4), Zero>>), !.random = OneOf(Z(z, 5), <<HashWord(900), AllOnes, One>>),
                            !.limit = OneOf(Z(z, 6), <<30000000, 5000000, 1073741824>>), !.chain = OneOf(Z(z, 7), <<1, 5, 137, 31337, 2000000000>>),
                            !.base = OneOf(Z(z, 8), <<One, W(7), Gwei, MulInt(Gwei, 77)>>), !.excess = excess, !.blobbase = BlobBase(excess)]
      rel(k) == IF num >= k THEN W(num - k) ELSE W(k)
      ns == <<rel(0), rel(1), rel(2), rel(255), rel(256), rel(257), Zero, One, W(num + 1), AllOnes, WOr(rel(1), Zeros(8) \o <<1>>), W(R(Z(z, 9), num + 10))>>
      who == <<Ct(1), Ct(2), Key(1), Fresh(1), W(4), Ct(3), CreateAddr(Ct(1), 1), Zero>>
      code == All15 \o About(OneOf(Z(z, 10), who), 20) \o About(OneOf(Z(z, 11), who), 23) \o Hashes([k \in 1..6 |-> OneOf(Z(z, 30 + k), ns)], 26) \o About(OneOf(Z(z, 12), who), 32) \o Blobs \o Done
      kid == code \o PushI(OneOf(Z(z, 13), <<0, 5, 64>>)) \o PushI(0) \o O("RETURN")
      kind == OneOf(Z(z, 14), <<"CALL", "CALLCODE", "DELEGATECALL">>)
      main == code \o PushI(0) \o PushI(0) \o PushI(3) \o PushI(0) \o (IF kind = "DELEGATECALL" THEN <<>> ELSE PushI(R(Z(z, 15), 5))) \o Push(Ct(2)) \o PushI(300000) \o O(kind) \o O("POP") \o code
              \o Mem(code) \o PushI(Len(code)) \o PushI(0) \o PushI(1) \o O("CREATE") \o PushI(0) \o O("MSTORE") \o code
      w == (Ct(1) :> ContractB(main, W(20))) @@ (Ct(2) :> ContractB(kid, W(3))) @@ (Ct(3) :> Contract(<<>>)) @@ Users
      t(k, ty, price, tip) == [Tx(Key(k), 0, 900000, Ct(1), W(R(Z(z, 16), 3)), RandB(Z(z, 17), R(Z(z, 18), 40))) EXCEPT !.type = ty, !.price = AddN(blk.base, price), !.tip = tip, !.chain = IF ty = 0 /\ k = 2 THEN -1 ELSE blk.chain]
      nb == 1 + R(Z(z, 19), 3)
  IN Case(w, blk, <<t(1, OneOf(Z(z, 20), <<0, 1>>), W(3), Zero), t(2, OneOf(Z(z, 21), <<0, 2>>), W(9), OneOf(Z(z, 22), <<Zero, W(4), W(9)>>)),
                    [t(3, 3, W(5), W(2)) EXCEPT !.blobs = [k \in 1..nb |-> VersHash(k)]]>>)
=============================================================================
