---- MODULE MC_MptHist ----
EXTENDS MptHist
MCOut == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE ""
Rep(b, n) == [i \in 1..n |-> b]
\* value ids are powers of two apart in size: inline, boundary, hashed, long string
MCValOf(v) == CASE v = 1 -> <<7>>
                [] v = 2 -> Rep(171, 33)
                [] v = 3 -> <<200>>
                [] v = 4 -> Rep(1, 27)
                [] v = 5 -> Rep(255, 28)
                [] v = 6 -> Rep(9, 60)
                [] v = 7 -> Rep(80, 300)
                [] OTHER -> Rep(v % 256, v)
SmallKeys == {<<0,0>>, <<0,1>>}
Small3Keys == {<<0,0>>, <<0,1>>, <<1,0>>}
\* 16-nibble keys with long shared prefixes, deep and shallow forks, and leading zeros
P(s) == <<0,0,10,3>> \o s
BigKeys ==
  { <<a, b, 0, 0, c, c, 1, d>> : a \in {0, 15}, b \in {0, 7}, c \in {0, 1}, d \in {0, 9} }
  \cup { <<3, 3, 3, 3, 3, 3, 3, d>> : d \in 0..15 }
  \cup { <<5, 5, 5, d, 0, 0, 0, 0>> : d \in {0, 1} }
\* prefix-free keys of unequal lengths (as transaction indices are)
UnevenKeys == {<<8,0>>} \cup {<<0, d>> : d \in 1..15} \cup {<<7, d>> : d \in {0, 15}}
              \cup {<<8,1,8,d>> : d \in 0..3} \cup {<<8,1,15,15>>} \cup {<<8,2,0,1,0,d>> : d \in {0,1}}
\* full-length (64 nibble) keys
Long(a, b) == [i \in 1..64 |-> IF i < a THEN 0 ELSE IF i = a THEN b ELSE (i * 7 + a) % 16]
LongKeys == { Long(a, b) : a \in {1, 2, 3, 17, 63, 64}, b \in {0, 1, 15} }
====
