-------------------------------- MODULE Memory --------------------------------
(* The memory of the prover, one segment of an execution: cells start with the  *)
(* values carried over from the segment before, accesses are reads that claim a *)
(* value and writes, and in the end values are carried over to the next segment. *)
(* A cell of an ordinary memory segment starts with zero unless carried over;    *)
(* one of a preinitialized segment starts with a value that its first read       *)
(* chooses (whoever writes the program has to check it).                         *)
(* Cells of contexts that the program has pruned need not be carried over, nor   *)
(* need zeros of ordinary segments.                                              *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

CONSTANTS Layouts,   \* sequence of sequences of cells [ctx, seg, virt]
          PreSegs,   \* preinitialized memory segments
          Values,    \* values, with 0
          MaxOps

VARIABLES layout, before, pruned, ops, cell, legal
vars == <<layout, before, pruned, ops, cell, legal>>

None == -1
Cells == 1..Len(layout)
IsPre(a) == layout[a].seg \in PreSegs
Start(b) == [a \in Cells |-> IF b[a] # None THEN b[a] ELSE IF IsPre(a) THEN None ELSE 0]

Contexts(l) == {l[i].ctx : i \in 1..Len(l)}
Init ==
  /\ layout \in {Layouts[i] : i \in 1..Len(Layouts)}
  /\ before \in [1..Len(layout) -> Values \union {None}]
  /\ pruned \in SUBSET Contexts(layout)
  /\ ops = <<>>
  /\ cell = Start(before)
  /\ legal = TRUE

Write(a, v) ==
  /\ ops' = Append(ops, [at |-> a, write |-> TRUE, value |-> v])
  /\ cell' = [cell EXCEPT ![a] = v]
  /\ UNCHANGED <<layout, before, pruned, legal>>

(* A read that claims to have seen v. *)
Read(a, v) ==
  /\ ops' = Append(ops, [at |-> a, write |-> FALSE, value |-> v])
  /\ legal' = (legal /\ cell[a] \in {v, None})
  /\ cell' = [cell EXCEPT ![a] = IF cell[a] = None THEN v ELSE cell[a]]
  /\ UNCHANGED <<layout, before, pruned>>

Next == Len(ops) < MaxOps /\ \E a \in Cells, v \in Values : Write(a, v) \/ Read(a, v)
Spec == Init /\ [][Next]_vars

Touched == {a \in Cells : before[a] # None \/ \E i \in 1..Len(ops) : ops[i].at = a}
(* What has to be carried over, and what may be: cells with values. *)
Must == {a \in Touched : layout[a].ctx \notin pruned /\ (IsPre(a) \/ cell[a] # 0)}

(* --- properties of the specification ------------------------------------- *)

(* Legality by history: every read sees what was last written or read there. *)
LegalFrom(start, os) ==
  \A i \in 1..Len(os) : ~os[i].write =>
    LET earlier == {j \in 1..i - 1 : os[j].at = os[i].at}
        seen == IF earlier = {} THEN start[os[i].at]
                ELSE os[CHOOSE j \in earlier : \A k \in earlier : k <= j].value
    IN seen \in {os[i].value, None}
RECURSIVE Final(_, _)
Final(start, os) ==
  IF os = <<>> THEN start
  ELSE LET o == os[1]
       IN Final(IF o.write \/ start[o.at] = None THEN [start EXCEPT ![o.at] = o.value] ELSE start, Tail(os))

Coherent == (legal <=> LegalFrom(Start(before), ops)) /\ cell = Final(Start(before), ops)

(* Cutting the history anywhere and starting the rest from what is carried over *)
(* accepts the same histories and ends in the same memory: dropping zeros of    *)
(* ordinary segments is harmless, dropping anything else is not allowed.        *)
Cut(k) ==
  LET front == SubSeq(ops, 1, k)
      back == SubSeq(ops, k + 1, Len(ops))
      mid == Final(Start(before), front)
      touched == {a \in Cells : before[a] # None \/ \E i \in 1..k : ops[i].at = a}
      carried == [a \in Cells |-> IF a \in touched /\ (IsPre(a) \/ mid[a] # 0) THEN mid[a] ELSE None]
  IN /\ Start(carried) = mid
     /\ (legal <=> LegalFrom(Start(before), front) /\ LegalFrom(Start(carried), back))
     /\ (legal => cell = Final(Start(carried), back))
Composes == \A k \in 0..Len(ops) : Cut(k)

(* Nothing nonzero is lost outside pruned contexts. *)
Kept == \A a \in Cells : cell[a] \notin {0, None} /\ layout[a].ctx \notin pruned => a \in Must

(* --- for the implementation ---------------------------------------------- *)
Out == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE ""
SetSeq(S) == LET RECURSIVE F(_)
                 F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o F(T \ {x})
             IN F(S)
Emit ==
  Out = "" \/ PrintT(ToJson([layout |-> layout, before |-> before, pruned |-> SetSeq(pruned),
                             ops |-> ops, legal |-> legal, cell |-> cell,
                             touched |-> SetSeq(Touched), must |-> SetSeq(Must)]))
===============================================================================
