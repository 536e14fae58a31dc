------------------------------ MODULE MC_Corners ------------------------------
(* Single blocks worth having, in groups.  Many of them once failed.                *)
EXTENDS EvmProg
MCOut == OutEnv
Cre(init, val) == Mem(init) \o PushI(Len(init)) \o PushI(0) \o PushI(val) \o O("CREATE")
Cre2(init, val, salt) == Mem(init) \o PushI(salt) \o PushI(Len(init)) \o PushI(0) \o PushI(val) \o O("CREATE2")
RetEF == PushN(32, OfBytes(<<239>> \o Rep(1, 31))) \o PushI(0) \o O("MSTORE") \o PushI(32) \o PushI(0) \o O("RETURN")
CallP(to) == CallI(O("GAS"), to, 0, 0, 0, 0) \o O("POP")
S(k) == SaveTo(k)
One1(code) == Case((Ct(1) :> ContractB(code, W(50))) @@ (Ct(2) :> Contract(RetEF)) @@ (Ct(3) :> ContractB(O("CALLER") \o O("SELFDESTRUCT"), W(3))) @@ Users, Block0,
                  <<Tx(Key(1), 0, 1000000, Ct(1), Zero, <<>>), Tx(Key(1), 1, 100000, Ct(3), Zero, <<>>)>>)
Self1 == O("CALLER") \o O("SELFDESTRUCT")
SelfTo(a) == Push(a) \o O("SELFDESTRUCT")
Dep(c) == Deploy(c)
Corner(i) ==
  CASE i = 1 -> One1(CallP(Ct(2)) \o Cre(O("STOP"), 0) \o S(0))
    [] i = 2 -> One1(CallP(Ct(2)) \o Cre(Deploy(<<239, 1>>), 0) \o S(0) \o O("RETURNDATASIZE") \o S(1))
    [] i = 3 -> One1(CallP(Ct(2)) \o Cre(PushI(24577) \o PushI(0) \o O("RETURN"), 0) \o S(0) \o O("RETURNDATASIZE") \o S(1))
    [] i = 4 -> One1(CallP(Ct(2)) \o Cre(PushI(1) \o PushI(0) \o O("RETURN"), 0) \o S(0) \o O("RETURNDATASIZE") \o S(1))
    [] i = 5 -> One1(CallP(Ct(2)) \o Cre(O("INVALID"), 0) \o S(0) \o O("RETURNDATASIZE") \o S(1))
    [] i = 6 -> One1(CallP(Ct(2)) \o Cre(PushI(5) \o PushI(0) \o O("REVERT"), 0) \o S(0) \o O("RETURNDATASIZE") \o S(1))
    [] i = 7 -> One1(CallP(Ct(2)) \o Cre(O("STOP"), 1000) \o S(0) \o O("RETURNDATASIZE") \o S(1))
    \* CREATE2 collision with an existing contract that later destroys itself
    [] i = 8 -> LET init == Deploy(SelfTo(Fresh(1)))
                    a == Create2Addr(Ct(1), W(7), init)
                IN Case((a :> ContractS(SelfTo(Fresh(1)), W(9), [k \in {One} |-> One])) @@ (Ct(1) :> ContractB(Cre2(init, 0, 7) \o S(0) \o CallP(a), W(50))) @@ Users, Block0,
                        <<Tx(Key(1), 0, 20000000, Ct(1), Zero, <<>>)>>)
    \* created with no balance, destroys itself in a frame that is reverted
    [] i = 9 -> LET init == Deploy(SelfTo(Fresh(1)))
                    a == Create2Addr(Ct(1), W(7), init)
                    reverter == CallP(a) \o PushI(0) \o Dup(1) \o O("REVERT")
                IN Case((Ct(2) :> Contract(reverter)) @@ (Ct(1) :> ContractB(Cre2(init, 0, 7) \o S(0) \o CallP(Ct(2)), W(50))) @@ Users, Block0,
                        <<Tx(Key(1), 0, 1000000, Ct(1), Zero, <<>>)>>)
    [] i = 10 -> LET init == Deploy(SelfTo(Fresh(1)))   \* same with balance
                    a == Create2Addr(Ct(1), W(7), init)
                    reverter == CallP(a) \o PushI(0) \o Dup(1) \o O("REVERT")
                IN Case((Ct(2) :> Contract(reverter)) @@ (Ct(1) :> ContractB(Cre2(init, 4, 7) \o S(0) \o CallP(Ct(2)), W(50))) @@ Users, Block0,
                        <<Tx(Key(1), 0, 1000000, Ct(1), Zero, <<>>)>>)
    [] i = 11 -> Case(Users, Block0, <<Tx(Key(1), 0, 30000, W(4), One, <<1, 2, 3>>), Tx(Key(1), 1, 21065, W(4), One, <<1, 2, 3>>)>>)
    [] i = 12 -> LET init == Deploy(SelfTo(Key(2)))   \* recipient exists, no balance
                    a == Create2Addr(Ct(1), W(7), init)
                    reverter == CallP(a) \o PushI(0) \o Dup(1) \o O("REVERT")
                IN Case((Ct(2) :> Contract(reverter)) @@ (Ct(1) :> ContractB(Cre2(init, 0, 7) \o S(0) \o CallP(Ct(2)), W(50))) @@ Users, Block0,
                        <<Tx(Key(1), 0, 1000000, Ct(1), Zero, <<>>)>>)
    \* created in a frame that reverts, then created again there and destroyed / not
    [] i = 13 -> LET init == Deploy(SelfTo(Fresh(1)))
                    a == Create2Addr(Ct(1), W(7), init)
                IN Case((Ct(1) :> ContractB(Cre2(init, 4, 7) \o O("POP") \o CallP(a) \o CallI(O("GAS"), a, 3, 0, 0, 0) \o O("POP"), W(50))) @@ Users, Block0,
                        <<Tx(Key(1), 0, 1000000, Ct(1), Zero, <<>>), Tx(Key(1), 1, 1000000, Ct(1), Zero, <<>>)>>)
    [] i = 14 -> LET init == SelfTo(Fresh(1))
                    a == Create2Addr(Ct(1), W(7), init)
                IN Case((Ct(1) :> ContractB(Cre2(init, 4, 7) \o S(0) \o Cre2(init, 4, 7) \o S(1) \o CallI(O("GAS"), a, 3, 0, 0, 0) \o O("POP"), W(50))) @@ Users, Block0,
                        <<Tx(Key(1), 0, 15000000, Ct(1), Zero, <<>>), Tx(Key(1), 1, 15000000, Ct(1), Zero, <<>>)>>)
    [] i = 15 -> Case(Users, Block0, <<TxNew(Key(1), 0, 200000, Zero, Deploy(<<239, 1>>)), TxNew(Key(1), 1, 200000, Zero, O("STOP")), TxNew(Key(1), 2, 200000, One, <<>>),
                       TxNew(Key(1), 3, 60000, One, Deploy(<<1, 1>>)), TxNew(Key(1), 4, 54000, One, Deploy(<<1, 1>>)),  TxNew(Key(1), 5, 5000000, One, PushI(24577) \o PushI(0) \o O("RETURN"))>>)
    [] i = 16 -> Case((CreateAddr(Key(1), 0) :> Contract(<<0>>)) @@ Users, Block0, <<TxNew(Key(1), 0, 200000, Zero, Deploy(<<1>>)), TxNew(Key(1), 1, 200000, Zero, O("STOP"))>>)
    [] i = 17 -> Case((CreateAddr(Key(1), 0) :> User(0, W(77))) @@ Users, Block0, <<TxNew(Key(1), 0, 200000, One, Deploy(<<1>>)), TxNew(Key(1), 1, 200000, Zero, O("STOP"))>>)
    [] i = 19 -> Case(Users, Block0, <<[Tx(Key(1), 0, 20000, Ct(1), Zero, <<>>) EXCEPT !.type = 3, !.blobs = <<[k \in 1..32 |-> IF k = 32 THEN 1 ELSE k]>>], Tx(Key(1), 0, 30000, Ct(1), One, <<>>)>>)
    [] i = 20 -> Case(Users, Block0, <<[Tx(Key(1), 0, 30000, Ct(1), One, <<>>) EXCEPT !.type = 3, !.blobs = <<[k \in 1..32 |-> IF k = 32 THEN 1 ELSE k]>>], Tx(Key(1), 1, 30000, Ct(1), One, <<>>)>>)
    [] i = 21 -> Case(Users, Block0, <<[Tx(Key(1), 0, 65536, Ct(1), Zero, <<>>) EXCEPT !.price = [k \in 1..31 |-> IF k = 31 THEN 1 ELSE 0]], Tx(Key(1), 0, 30000, Ct(1), One, <<>>)>>)
    [] i = 22 -> Case(Users, Block0, <<[Tx(Key(1), 0, 100000, Ct(1), Zero, <<>>) EXCEPT !.val = AllOnes], Tx(Key(1), 0, 30000, Ct(1), One, <<>>)>>)
    [] i = 18 -> One1(CallP(Ct(2)) \o CallI(O("GAS"), Fresh(1), 1000, 0, 0, 0) \o S(0) \o O("RETURNDATASIZE") \o S(1))
Groups == [E01 |-> <<11, 16, 19, 20, 21, 22, 17>>, E05 |-> <<1, 2, 3, 4, 5, 6, 7, 15, 16, 17, 18>>, E06 |-> <<3, 8, 9, 10, 12, 13, 14, 7>>]
MCCase(i) == Corner(Groups[IOEnv.GROUP][i])
=============================================================================
