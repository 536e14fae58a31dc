------------------------------- MODULE MC_E01 -------------------------------
(* E01: transactions of every type at the boundaries of validity: gas limits,     *)
(* prices, tips, nonces, balances, chain, sender, recipient, data.                 *)
(* A block has eight; each is valid or has one defect, chosen by the block number.  *)
EXTENDS EvmProg
MCOut == OutEnv
Sink == Ct(1)   \* stores, logs and refunds
Loser == Ct(2)  \* writes, then fails depending on the value it got
SinkCode == O("CALLVALUE") \o O("CALLDATASIZE") \o O("SSTORE") \o PushI(0) \o PushI(77) \o O("SSTORE")
            \o O("GASPRICE") \o PushI(0) \o O("MSTORE") \o O("CALLER") \o O("ORIGIN") \o PushI(32) \o PushI(0) \o O("LOG2")
LoserCode == SStoreI(1, 1) \o O("CALLVALUE") \o PushI(1) \o O("AND") \o PushI(0) \o O("JUMPI") \o PushI(0) \o Dup(1) \o O("REVERT")
Poor == Key(4)
BlockL(z) == [Block0 EXCEPT !.coinbase = OneOf(Z(z, 1), <<Coin, Coin, Key(2), Sink, Fresh(9)>>), !.limit = 500000,
                            !.base = OneOf(Z(z, 2), <<Zero, One, W(7), W(1000)>>)]
Datas(z) == OneOf(Z(z, 1), <<<<>>, <<0>>, <<1>>, RandB(Z(z, 2), 33), Rep(0, 40) \o RandB(Z(z, 2), 3), Rep(0, 100)>>)
NoDefect == <<"none", "none", "none", "none", "none", "gas", "nonce+", "nonce-", "value", "maxfee", "tip", "base", "chain", "limit", "exact", "exact", "short">>
(* Transaction of the given shape from key f with the given nonce; d its defect. *)
Shape(z, f, nonce, blk, d) ==
  LET ty == IF d = "tip" THEN 2 ELSE R(Z(z, 1), 3)
      create == R(Z(z, 2), 6) = 0
      data == IF create THEN OneOf(Z(z, 3), <<<<>>, Deploy(<<1>>), Rep(0, 31), O("INVALID"), SStoreI(1, 0) \o O("STOP")>>) ELSE Datas(Z(z, 3))
      al == IF ty = 0 THEN <<>> ELSE RandAl(Z(z, 4))
      tip == IF ty < 2 THEN Zero ELSE OneOf(Z(z, 5), <<Zero, One, W(4)>>)
      price == CASE d = "base" -> SubN(blk.base, One)
                 [] d = "tip" -> AddN(blk.base, W(2))
                 [] OTHER -> AddN(blk.base, OneOf(Z(z, 6), <<tip, tip, AddN(tip, One), AddN(tip, W(9)), AddN(tip, Gwei)>>))
      t0 == [Tx(f, nonce, 0, OneOf(Z(z, 7), <<Sink, Sink, Loser, Fresh(1), Key(3), blk.coinbase, f, W(4), Fresh(2)>>), OneOf(Z(z, 8), <<Zero, One, W(6), Ether>>), data)
               EXCEPT !.type = ty, !.create = create, !.al = al, !.price = price, !.tip = IF d = "tip" THEN AddN(blk.base, W(3)) ELSE tip,
                      !.chain = IF d = "chain" THEN 2 ELSE IF ty = 0 THEN OneOf(Z(z, 9), <<-1, 1>>) ELSE 1]
      ig == Intrinsic(t0)
      gas == CASE d = "gas" -> ig - OneOf(Z(z, 10), <<1, 1, 2000, ig>>)
               [] d = "limit" -> blk.limit + 1
               [] OTHER -> ig + OneOf(Z(z, 10), <<0, 1, 2299, 5000, 30000, 60000>>)
  IN [t0 EXCEPT !.gas = gas,
                !.nonce = IF d = "nonce+" THEN nonce + 1 ELSE IF d = "nonce-" THEN nonce - 1 ELSE nonce,
                !.val = IF d = "value" THEN AllOnes ELSE t0.val,
                !.price = IF d = "maxfee" THEN [k \in 1..32 |-> IF k = 32 THEN 1 ELSE 0] ELSE price]
Per == 8
MCCase(i) ==
  LET z == Z0(i)
      blk == BlockL(Z(z, 1))
      base == IF blk.base = Zero THEN {"base"} ELSE {}
      dOf == [j \in 1..Per |-> LET d == OneOf(Z(Z(z, 2), j), NoDefect) IN IF d = "base" /\ blk.base = Zero THEN "none" ELSE d]
      fOf == [j \in 1..Per |-> IF dOf[j] \in {"exact", "short"} THEN 4 ELSE 1 + R(Z(Z(z, 3), j), 2)]
      \* only the first transaction of the poor sender is exact
      firstPoor == { j \in 1..Per : fOf[j] = 4 /\ \A k \in 1..(j - 1) : fOf[k] # 4 }
      keep == SelectSeq([j \in 1..Per |-> j], LAMBDA j : fOf[j] # 4 \/ j \in firstPoor)
      ok(j) == dOf[j] \in {"none", "exact"}
      start(f) == IF f = 4 THEN 1 ELSE 5   \* the poor one exists, whatever its balance: with a base fee, others cannot pay
      nonceOf(j) == start(fOf[j]) + Cardinality({ k \in 1..(j - 1) : fOf[k] = fOf[j] /\ ok(k) })
      tx(j) == LET t == Shape(Z(Z(z, 4), j), Key(fOf[j]), nonceOf(j), blk, dOf[j])
               IN IF fOf[j] = 4 /\ t.to = Key(4) THEN [t EXCEPT !.to = Sink] ELSE t
      txs == [k \in 1..Len(keep) |-> tx(keep[k])]
      poorNeed == IF firstPoor = {} THEN Zero
                  ELSE LET j == CHOOSE x \in firstPoor : TRUE
                           t == tx(j)
                           n == AddN(MulInt(t.price, t.gas), t.val)
                       IN IF dOf[j] = "exact" THEN n ELSE IF n = Zero THEN n ELSE SubN(n, One)
      w == (Sink :> ContractS(SinkCode, Zero, [k \in {W(77)} |-> One])) @@ (Loser :> ContractB(LoserCode, W(1)))
           @@ (Poor :> User(1, poorNeed)) @@ (Key(1) :> User(5, Rich)) @@ (Key(2) :> User(5, Rich)) @@ Users
      \* a sender with code, last
      coded == IF R(Z(z, 5), 4) = 0 THEN <<[Tx(Key(3), 0, 100000, Sink, One, <<>>) EXCEPT !.price = AddN(blk.base, One)]>> ELSE <<>>
      w2 == IF coded = <<>> THEN w ELSE (Key(3) :> [User(0, Rich) EXCEPT !.c = <<0>>]) @@ w
  IN Case(Clean(w2), blk, txs \o coded)
=============================================================================
