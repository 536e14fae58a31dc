------------------------------- MODULE MC_W01 -------------------------------
(* W01: states whose paths branch early, late and after long shared parts.         *)
EXTENDS Wire
MCOut == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE ""
FirstEnv == atoi(IOEnv.FIRST)
LastEnv == atoi(IOEnv.LAST)
DamagesEnv == atoi(IOEnv.DAMAGES)
RandNib(z, n) == [i \in 1..n |-> R(Z(z, i), 16)]
(* A new path leaves a given one after some nibbles. *)
Diverge(z, p) == LET n == OneOf(Z(z, 1), <<0, 0, 0, 1, 1, 2, 3, 5, 20, 31, 40>>) IN
  SubSeq(p, 1, n) \o <<(p[n + 1] + 1 + R(Z(z, 2), 15)) % 16>> \o RandNib(Z(z, 3), 63 - n)
RECURSIVE Paths(_, _, _)
Paths(z, ps, n) == IF n = 0 THEN ps ELSE Paths(Z(z, 1), Append(ps, Diverge(Z(z, 2), OneOf(Z(z, 3), ps))), n - 1)
Num(z, lens) == LET n == OneOf(Z(z, 1), lens) IN
  IF n = 0 THEN <<>> ELSE [i \in 1..n |-> IF i = 1 THEN OneOf(Z(z, 2), <<1, 2, 23, 24, 127, 128, 255>>) ELSE R(Z(z, 2 + i), 256)]
StoreOf(z, n, ps) == LET q == Paths(Z(z, 50), ps, n) IN
  [p \in { q[i] : i \in 1..Len(q) } \ (IF R(Z(z, 51), 2) = 0 THEN { ps[1] } ELSE {}) |-> Num(Z(Z(z, p[1]), p[5]), <<1, 1, 2, 20, 32>>)]
AccOf(z) ==
  [n |-> Num(Z(z, 1), <<0, 0, 1, 1, 2, 3, 5, 8>>), b |-> Num(Z(z, 2), <<0, 1, 2, 8, 31, 32>>),
   c |-> LET n == OneOf(Z(z, 3), <<0, 0, 0, 1, 5, 24, 300>>) IN RandNib(Z(z, 4), n),
   st |-> StoreOf(Z(z, 5), OneOf(Z(z, 6), <<0, 0, 0, 1, 2, 6>>), << RandNib(Z(z, 7), 64) >>)]
State(i) ==
  LET z == Z0(i)
      q == Paths(Z(z, 1), <<BeaconPath>>, OneOf(Z(z, 2), <<0, 1, 2, 4, 8>>))
  IN [st |-> [p \in { q[k] : k \in 1..Len(q) } |-> IF p = BeaconPath
                THEN [AccOf(Z(z, 3)) EXCEPT !.st = StoreOf(Z(z, 4), OneOf(Z(z, 5), <<0, 1, 3, 6>>), SlotPaths)]
                ELSE AccOf(Z(Z(Z(z, p[1]), p[3]), p[60]))],
      z |-> Z(z, 6), rate |-> OneOf(Z(z, 7), <<0, 20, 50, 90>>), term |-> R(Z(z, 8), 2) = 0]
=============================================================================
