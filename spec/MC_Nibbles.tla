---- MODULE MC_Nibbles ----
EXTENDS Nibbles
MCOut == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE ""
Empty == {<<>>}
F(n, a, b, c) == [i \in 1..n |-> IF i = a THEN b ELSE c]
LongBase == { F(n, a, b, c) : n \in {15, 16, 31, 32, 33, 48, 61, 62, 63}, a \in {1, 2, 16, 17, 32, 33, 62}, b \in {0, 8}, c \in {0, 15} }
            \cup { [i \in 1..n |-> (i * 5 + n) % 16] : n \in {16, 31, 32, 62, 63} }
LongInit == /\ s \in LongBase /\ t \in { F(n, a, 3, 0) : n \in {0, 1, 2, 16, 32, 62}, a \in {1, 2, 16} } \cup {s, SubSeq(s, 1, Len(s) \div 2), SubSeq(s, 1, Len(s) - 1) \o <<1>>}
LongNext == \E n \in Alphabet : Len(s) = 63 /\ s' = Append(s, n) /\ t' = t
====
