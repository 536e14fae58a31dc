------------------------------- MODULE MC_E03 -------------------------------
(* E03: all sequences of up to four writes of three values over two original      *)
(* values, each alone in its own transaction, with a nested frame that writes too  *)
(* and then ends well, reverts or fails.                                            *)
EXTENDS EvmProg
MCOut == OutEnv
V(d) == <<Zero, One, W(2)>>[d + 1]
WriteV(d) == Push(V(d)) \o PushI(0) \o O("SSTORE")
Digits(n, len) == [j \in 1..len |-> (n \div (IF j = 1 THEN 1 ELSE IF j = 2 THEN 3 ELSE IF j = 3 THEN 9 ELSE 27)) % 3]
Len4 == 4
Seqs == 81
(* mode 0: all in one frame; 1: middle two in a delegate frame that succeeds; 2: ... reverts; 3: ... fails; 4: one more read in a static call *)
Modes == 5
NAll == Seqs * 2 * Modes
Inner(q, mode) ==
  WriteV(q[2]) \o WriteV(q[3]) \o (IF mode = 1 THEN O("STOP") ELSE IF mode = 2 THEN PushI(0) \o Dup(1) \o O("REVERT") ELSE O("INVALID"))
Del(to) == PushI(0) \o PushI(0) \o PushI(0) \o PushI(0) \o Push(to) \o PushI(60000) \o O("DELEGATECALL") \o O("POP")
Outer(q, mode, inner) ==
  WriteV(q[1])
  \o (IF mode \in 1..3 THEN Del(inner) ELSE IF mode = 4 THEN O("GAS") \o PushI(0) \o O("SLOAD") \o O("ADD") \o O("POP") \o WriteV(q[2]) \o WriteV(q[3]) ELSE WriteV(q[2]) \o WriteV(q[3]))
  \o WriteV(q[4])
  \o PushI(0) \o O("SLOAD") \o PushI(0) \o O("MSTORE") \o PushI(32) \o PushI(0) \o O("LOG0")
  \* sometimes stop with little gas left, so that the cap on refunds and the stipend rule matter
Per == 9
Nth(i) == 1 + (((i - 1) * 271 + Seed * 17) % NAll)
ParamOf(x) == [q |-> Digits((x - 1) % Seqs, 4), org |-> ((x - 1) \div Seqs) % 2, mode |-> ((x - 1) \div (2 * Seqs)) % Modes]
MCCase(i) ==
  LET ps == [j \in 1..Per |-> ParamOf(Nth((i - 1) * Per + j))]
      cs == [a \in { Ct(j) : j \in 1..Per } |->
               LET j == CHOOSE k \in 1..Per : Ct(k) = a IN
               ContractS(Outer(ps[j].q, ps[j].mode, Ct(20 + j)), Zero, IF ps[j].org = 0 THEN NoStore ELSE [k \in {Zero} |-> One])]
      is == [a \in { Ct(20 + j) : j \in 1..Per } |->
               LET j == CHOOSE k \in 1..Per : Ct(20 + k) = a IN Contract(Inner(ps[j].q, ps[j].mode))]
      gas(j) == IF (i + j) % 4 = 0 THEN 47000 + 911 * j ELSE 200000
      al(j) == IF (i + j) % 3 = 0 THEN <<<<Ct(j), <<Zero>>>>>> ELSE <<>>
  IN Case(cs @@ is @@ Users, Block0,
          Nonced([j \in 1..Per |-> [Tx(Key(1), 0, gas(j), Ct(j), Zero, <<>>) EXCEPT !.type = 1, !.al = al(j)]]))
NCases == NAll \div Per
=============================================================================
