------------------------------ MODULE Nibbles -------------------------------
(* Nibble strings are finite sequences over 0..15. A state holds two strings *)
(* s and t; the harness evaluates every operation of the implementation on   *)
(* the packed representation of s and t and compares with the results given  *)
(* here. Steps grow the strings, so that every string up to a bound (and     *)
(* selected long ones) is reached.                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANTS Alphabet, MaxLen, Base, Out
VARIABLES s, t
vars == <<s, t>>
(* Base: strings from which growth starts, to reach lengths near the maximum *)
Init == s \in Base /\ t \in Base
Next == \/ \E n \in Alphabet : Len(s) < MaxLen /\ s' = Append(s, n) /\ t' = t
        \/ \E n \in Alphabet : Len(t) < MaxLen /\ t' = Append(t, n) /\ s' = s
Drop(x, n) == SubSeq(x, n + 1, Len(x))
Take(x, n) == SubSeq(x, 1, n)
RECURSIVE CommonLen(_, _, _)
CommonLen(a, b, i) ==
  IF i < Len(a) /\ i < Len(b) /\ a[i + 1] = b[i + 1] THEN CommonLen(a, b, i + 1) ELSE i
RECURSIVE Pack(_)
Pack(n) == IF n = <<>> THEN <<>> ELSE <<16 * n[1] + n[2]>> \o Pack(Drop(n, 2))
HexPrefix(n, isLeaf) ==
  LET f == IF isLeaf THEN 2 ELSE 0
  IN IF Len(n) % 2 = 0 THEN <<16 * f>> \o Pack(n) ELSE <<16 * (f + 1) + n[1]>> \o Pack(Drop(n, 1))
BytesBE(n) == Pack(IF Len(n) % 2 = 0 THEN n ELSE <<0>> \o n)
RECURSIVE StripZeros(_)
StripZeros(n) == IF n # <<>> /\ n[1] = 0 THEN StripZeros(Drop(n, 1)) ELSE n
(* algebraic laws, checked on every state *)
Laws ==
  /\ \A i \in 0..Len(s) : Take(s, i) \o Drop(s, i) = s
  /\ Reverse(Reverse(s)) = s
  /\ LET c == CommonLen(s, t, 0) IN Take(s, c) = Take(t, c) /\ (c < Len(s) /\ c < Len(t) => s[c+1] # t[c+1])
  /\ (HexPrefix(s, TRUE) = HexPrefix(t, TRUE)) = (s = t)
Cuts(x) == IF Len(x) <= 8 THEN 0..Len(x) ELSE {0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, Len(x)-1, Len(x)} \cap 0..Len(x)
Emit == Out = "" \/ PrintT(ToJson(
  [s |-> s, t |-> t,
   cuts |-> { [i |-> i, pre |-> Take(s, i), post |-> Drop(s, i), backpop |-> Reverse(Drop(s, i))] : i \in Cuts(s) },
   ranges |-> { <<i, j, SubSeq(s, i + 1, j)>> : i \in Cuts(s), j \in {q \in Cuts(s) : TRUE} },
   cat |-> s \o t, common |-> CommonLen(s, t, 0),
   same |-> (CommonLen(s, t, 0) = Len(s) \/ CommonLen(s, t, 0) = Len(t)),
   rev |-> Reverse(s), hp |-> HexPrefix(s, FALSE), hpl |-> HexPrefix(s, TRUE),
   be |-> BytesBE(s), num |-> StripZeros(s)]))
=============================================================================
