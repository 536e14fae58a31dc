-------------------------------- MODULE MC_D --------------------------------
(* D01-D03: blocks of up to six transactions in worlds with many neighbours:      *)
(* contracts whose slots come and go from one transaction to the next, accounts   *)
(* that appear, accounts that disappear, failing transactions, withdrawals.       *)
EXTENDS Traces
MCOut == OutEnv
MCFake(i) == i % 3 = 0
Menu == <<<<6, "sstore">>, <<3, "sload">>, <<3, "call">>, <<2, "delegate">>, <<1, "static">>, <<2, "create">>, <<2, "create2">>,
          <<2, "createcall">>, <<2, "log">>, <<2, "account">>, <<1, "extcopy">>, <<2, "destruct">>, <<2, "die">>>>
(* Stores six pairs from the call data; reverts if the word after them is not zero. *)
Book(i) == Ct(10 + i)
KSlots == <<Zero, One, W(2), W(3), W(4), W(5), W(6), W(7), W(8), W(9), W(250), AllOnes>>
Keeps == Cat([j \in 1..6 |-> PushI(64 * j - 32) \o O("CALLDATALOAD") \o PushI(64 * j - 64) \o O("CALLDATALOAD") \o O("SSTORE")])
         \o PushN(2, W(384)) \o O("CALLDATALOAD")
KCode == Keeps \o PushN(2, W(Len(Keeps) + 5)) \o O("JUMPI") \o <<0, 91>> \o PushI(0) \o PushI(0) \o O("REVERT")
(* Mostly deletions if the seed says so. *)
KData(z, fail) ==
  LET vals == OneOf(Z(z, 30), <<<<Zero>>, <<Zero, Zero, Zero, One>>, <<Zero, One, W(7), HashWord(3)>>, <<One, W(512)>>>>) IN
  Cat([j \in 1..6 |-> Bytes32(OneOf(Z(z, j), KSlots)) \o Bytes32(OneOf(Z(z, 10 + j), vals))]) \o (IF fail THEN Bytes32(One) ELSE <<>>)
KStore(z) == [k \in { OneOf(Z(z, i), KSlots) : i \in 1..R(Z(z, 40), 9) } |-> OneOf(Z(z, 20 + At(k, 1)), <<One, W(3), HashWord(5)>>)]
Filler(z) == [a \in { Fresh(50 + i) : i \in 1..R(Z(z, 1), 30) } |-> User(0, W(5))]
Inits2(z) == OneOf(z, <<O("CALLER") \o O("SELFDESTRUCT"), O("ADDRESS") \o O("SELFDESTRUCT"), SStoreI(1, 1) \o O("CALLER") \o O("SELFDESTRUCT"), Deploy(<<0>>), <<>>,
                        SStoreI(5, 5) \o Deploy(KCode), SStoreI(2, 2) \o Deploy(<<>>), O("INVALID"), PushI(0) \o Dup(1) \o O("REVERT")>>)
OneTx(z, k, nonce, from) ==
  LET kind == R(Z(z, 1), 10)
      t == Tx(Key(from), nonce, 300000, Ct(1 + R(Z(z, 2), 4)), OneOf(Z(z, 3), <<Zero, Zero, One>>), RandB(Z(z, 4), OneOf(Z(z, 5), <<0, 4, 33>>)))
      ty == OneOf(Z(z, 6), <<0, 0, 1, 2>>)
      u == CASE kind \in 0..3 -> [t EXCEPT !.to = Book(1 + R(Z(z, 7), 2)), !.val = Zero, !.data = KData(Z(z, 8), R(Z(z, 9), 6) = 0)]
             [] kind = 4 -> [t EXCEPT !.create = TRUE, !.data = Inits2(Z(z, 10))]
             [] kind = 5 -> [t EXCEPT !.to = OneOf(Z(z, 11), <<Fresh(1), Fresh(2), Fresh(51), Coin, Key(3), Key(4)>>), !.val = OneOf(Z(z, 12), <<Zero, One, W(9)>>), !.data = <<>>, !.gas = OneOf(Z(z, 13), <<21000, 30000>>)]
             [] OTHER -> [t EXCEPT !.gas = OneOf(Z(z, 14), <<60000, 120000, 300000>>)]
  IN [u EXCEPT !.type = ty, !.tip = IF ty = 2 THEN OneOf(Z(z, 15), <<Zero, One, W(3)>>) ELSE Zero, !.al = IF ty = 0 THEN <<>> ELSE RandAl(Z(z, 16))]
MCCase(i) ==
  LET z == Z0(i)
      n == OneOf(Z(z, 1), <<0, 1, 2, 3, 4, 5, 6, 3, 4, 5>>)
      txs == [k \in 1..n |-> OneTx(Z(z, 100 + k), k, (k - 1) \div 2, 1 + (k % 2))]
      made == { k \in 1..n : txs[k].create /\ R(Z(z, 200 + k), 2) = 0 }
      gone == [a \in { CreateAddr(txs[k].from, txs[k].nonce) : k \in made } |-> User(0, W(8))]
      w == gone @@ (Book(1) :> ContractS(KCode, Zero, KStore(Z(z, 2)))) @@ (Book(2) :> ContractS(KCode, One, KStore(Z(z, 3))))
           @@ RandWorld(Z(z, 4), Menu, 4) @@ Filler(Z(z, 5))
      w1 == IF R(Z(z, 6), 2) = 0 THEN [a \in DOMAIN w \ {Coin} |-> w[a]] ELSE w
      w2 == IF R(Z(z, 7), 3) = 0 THEN [w1 EXCEPT ![Beacon].s = [k \in {W(4154), W(12345)} |-> W(12)]] ELSE w1
      blk == [Block0 EXCEPT !.time = OneOf(Z(z, 8), <<12345, 8191, 8192, 99999>>), !.beaconroot = IF R(Z(z, 9), 5) = 0 THEN Zero ELSE @]
      m == OneOf(Z(z, 10), <<0, 0, 1, 2, 4>>)
  IN [Case(w2, blk, txs) EXCEPT !.wds = [k \in 1..m |->
        <<OneOf(Z(z, 300 + k), <<Key(2), Ct(1), Fresh(1), Fresh(3), Coin, Book(1)>>), MulN(Gwei, W(OneOf(Z(z, 400 + k), <<1, 1, 32, 64000>>)))>>]]
=============================================================================
