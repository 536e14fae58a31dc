---- MODULE MC_MptPartial ----
EXTENDS MptPartial
MCOut == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE ""
Rep(b, n) == [i \in 1..n |-> b]
MCValOf(v) == IF v = 1 THEN <<7>> ELSE Rep(171, 33)
MCKeys == {<<0,0,0>>, <<0,0,1>>, <<0,15,1>>, <<1,2,0>>, <<1,2,3>>, <<15,0,15>>}
MCAbsent == {<<0,0,2>>, <<1,5,5>>, <<9,0,0>>}
\* one extension above a branch, deeper chain
DeepKeys == {<<3,0,0,0>>, <<3,0,0,1>>, <<3,0,1,0>>, <<3,0,1,1>>, <<3,7,0,0>>}
DeepAbsent == {<<3,0,2,0>>, <<3,7,1,0>>, <<4,0,0,0>>}
One(a) == { {k} : k \in a }
Two(a) == { {k, l} : k \in a, l \in a }
MCRequests == {{}} \cup Two(MCKeys \cup MCAbsent) \cup {MCKeys}
DeepRequests == {{}} \cup Two(DeepKeys \cup DeepAbsent) \cup {DeepKeys}
====
