---- MODULE MC_SmtHist ----
EXTENDS SmtHist
MCOut == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE ""
AllKeys == [1..8 -> {0, 1}]
Few == { k \in AllKeys : (k[1] = 0 /\ k[2] = 0 /\ k[3] = 0) \/ (k[5] = k[6] /\ k[6] = k[7] /\ k[7] = k[8] /\ k[8] = k[1]) }
====
