---- MODULE MC_SmtState ----
EXTENDS SmtState
MCOut == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE ""
\* forks at every depth of a 6-bit key, pairs sharing 5 bits, leaves that lift several levels
SetKeys == {<<0,0,0,0,0,0>>, <<0,0,0,0,0,1>>, <<0,0,0,1,0,0>>, <<0,1,1,1,1,1>>, <<1,0,1,0,1,0>>, <<1,0,1,0,1,1>>, <<1,1,1,1,1,1>>}
SerKeys == {<<0,0,0,0>>, <<0,0,0,1>>, <<0,1,1,0>>, <<1,0,0,1>>, <<1,0,0,0>>}
====
