---- MODULE MC_MptState ----
EXTENDS MptState
MCKeys == {<<0,0,0>>, <<0,0,1>>, <<0,1,0>>, <<0,1,1>>, <<1,0,0>>, <<15,15,0>>, <<15,15,15>>, <<15,1,0>>}
Rep(b, n) == [i \in 1..n |-> b]
MCValOf(v) == IF v = 1 THEN <<7>> ELSE Rep(171, 33)
MCOut == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE ""
====
