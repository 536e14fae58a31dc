------------------------------- MODULE MC_E06 -------------------------------
(* E06: self-destruction of old contracts, of contracts created in the same        *)
(* transaction, in undone frames; recipients that are itself, new, old, its caller, *)
(* destroyed themselves; twice; balance gained afterwards; recreated.               *)
EXTENDS EvmProg
MCOut == OutEnv
Driver == Ct(1)
Old == Ct(2)
Undo == Ct(3)     \* calls the given victim and reverts (or fails)
OldB == Ct(4)
Recip == <<"self", "fresh", "user", "coinbase", "caller", "driver", "old", "precompile">>
RecCode(k) == CASE k = "self" -> O("ADDRESS") [] k = "fresh" -> Push(Fresh(1)) [] k = "user" -> Push(Key(3)) [] k = "coinbase" -> O("COINBASE")
               [] k = "caller" -> O("CALLER") [] k = "driver" -> Push(Driver) [] k = "old" -> Push(OldB) [] k = "precompile" -> Push(W(4))
(* What a victim does when called: with data it only takes the money; it may first write. *)
Victim(k, writes) ==
  LET body == (IF writes THEN SStoreI(1, 3) \o PushI(0) \o O("SLOAD") \o PushI(2) \o O("SSTORE") ELSE <<>>) \o RecCode(k) \o O("SELFDESTRUCT")
  IN O("CALLDATASIZE") \o PushI(Len(body) + 6) \o O("JUMPI") \o body \o <<0, 91, 0>>
VCall(a, val, inl) == CallI(PushI(200000), a, val, inl, 0, 0) \o PushI(90) \o O("SLOAD") \o PushI(2) \o O("MUL") \o O("ADD") \o PushI(90) \o O("SSTORE")
Act(kind, new, init, salt) ==
  CASE kind = "killnew" -> VCall(new, 0, 0)
    [] kind = "killnewval" -> VCall(new, 3, 0)
    [] kind = "paynew" -> VCall(new, 2, 1)
    [] kind = "killold" -> VCall(Old, 0, 0)
    [] kind = "killoldval" -> VCall(Old, 4, 0)
    [] kind = "payold" -> VCall(Old, 5, 1)
    [] kind = "undonew" -> Push(new) \o PushI(0) \o O("MSTORE") \o CallI(PushI(400000), Undo, 0, 32, 0, 0) \o O("POP")
    [] kind = "undoold" -> Push(Old) \o PushI(0) \o O("MSTORE") \o CallI(PushI(400000), Undo, 1, 32, 0, 0) \o O("POP")
    [] kind = "delegate" -> PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o Push(Old) \o PushI(200000) \o O("DELEGATECALL") \o O("POP")
    [] kind = "static" -> PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o Push(Old) \o PushI(100000) \o O("STATICCALL") \o O("POP")
    [] kind = "create" -> Mem(init) \o PushI(salt) \o PushI(Len(init)) \o PushI(0) \o PushI(0) \o O("CREATE2") \o O("POP")
    [] kind = "createval" -> Mem(init) \o PushI(salt) \o PushI(Len(init)) \o PushI(0) \o PushI(6) \o O("CREATE2") \o O("POP")
    [] kind = "payfresh" -> CallI(PushI(0), Fresh(1), 1, 0, 0, 0) \o O("POP")
    [] kind = "see" -> Push(new) \o O("EXTCODEHASH") \o Push(new) \o O("BALANCE") \o O("ADD") \o PushI(91) \o O("SLOAD") \o PushI(7) \o O("MUL") \o O("ADD") \o PushI(91) \o O("SSTORE")
    [] kind = "gas" -> O("GAS") \o PushI(92) \o O("SSTORE")
Acts == <<"killnew", "killnew", "killnewval", "paynew", "killold", "killoldval", "payold", "undonew", "undonew", "undoold", "delegate", "static", "create", "createval", "createval", "payfresh", "see", "gas">>
Script(z, n, new, init) == Cat([j \in 1..n |-> Act(OneOf(Z(z, j), Acts), new, init, 7)])
UndoCode(z) ==
  PushI(0) \o Dup(1) \o Dup(1) \o Dup(1) \o O("CALLVALUE") \o PushI(0) \o O("CALLDATALOAD") \o PushI(200000) \o O("CALL") \o O("POP")
  \o OneOf(z, <<PushI(0) \o Dup(1) \o O("REVERT"), PushI(0) \o Dup(1) \o O("REVERT"), O("INVALID"), O("STOP")>>)
MCCase(i) ==
  LET z == Z0(i)
      runtime == Victim(OneOf(Z(z, 1), Recip), R(Z(z, 2), 2) = 1)
      init == IF R(Z(z, 3), 8) = 0 THEN SStoreI(4, 4) \o RecCode(OneOf(Z(z, 1), Recip)) \o O("SELFDESTRUCT") ELSE SStoreI(0, 8) \o Deploy(runtime)
      new == Create2Addr(Driver, W(7), init)
      pre == OneOf(Z(z, 4), <<"none", "none", "none", "funded", "full">>)
      first == IF R(Z(z, 5), 4) = 0 THEN <<>> ELSE Act(OneOf(Z(z, 6), <<"create", "createval">>), new, init, 7)
      d == O("CALLVALUE") \o PushI(6) \o O("JUMPI") \o <<0, 0, 91>>
      code == first \o Script(Z(z, 7), 2 + R(Z(z, 8), 5), new, init)
      guard == O("ORIGIN") \o O("CALLER") \o O("EQ") \o PushI(7) \o O("JUMPI") \o <<0, 91>>
      w0 == (Driver :> ContractS(guard \o code, W(100), [k \in {W(90)} |-> One]))
            @@ (Old :> ContractS(Victim(OneOf(Z(z, 9), Recip), R(Z(z, 10), 2) = 1), OneOf(Z(z, 11), <<Zero, W(11)>>), [k \in {Zero} |-> W(5)]))
            @@ (OldB :> ContractB(RecCode("user") \o O("SELFDESTRUCT"), OneOf(Z(z, 12), <<Zero, W(21)>>)))
            @@ (Undo :> ContractB(UndoCode(Z(z, 13)), Zero)) @@ Users
      w1 == IF pre = "none" THEN w0 ELSE (new :> IF pre = "funded" THEN User(0, W(33)) ELSE ContractS(runtime, W(13), [k \in {One} |-> One])) @@ w0
      g == OneOf(Z(z, 14), <<3000000, 3000000, 20000000>>)
      blk == [Block0 EXCEPT !.coinbase = OneOf(Z(z, 15), <<Coin, Coin, Old, new>>)]
  IN Case(w1, blk, <<Tx(Key(1), 0, g, Driver, OneOf(Z(z, 16), <<Zero, One>>), <<>>), Tx(Key(1), 1, g, Driver, Zero, <<>>), Tx(Key(2), 0, 300000, new, One, <<>>), Tx(Key(2), 1, 300000, Old, Zero, <<>>)>>)
=============================================================================
