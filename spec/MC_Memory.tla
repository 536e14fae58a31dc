---- MODULE MC_Memory ----
EXTENDS Memory
C(c, s, v) == [ctx |-> c, seg |-> s, virt |-> v]
\* neighbours in the table that differ in the offset, the segment or the context, ordinary and preinitialized
MCLayouts == <<
  <<C(1, "MainMemory", 0), C(1, "MainMemory", 1)>>,
  <<C(0, "TrieData", 0), C(0, "TrieData", 1)>>,
  <<C(0, "RlpRaw", 0), C(0, "TrieData", 0)>>,
  <<C(0, "Stack", 0), C(1, "Stack", 0)>>,
  <<C(0, "AccountsLinkedList", 0), C(0, "StorageLinkedList", 0)>>,
  <<C(1, "Code", 0), C(1, "Stack", 0)>>,
  <<C(0, "Code", 1), C(1, "Code", 0)>>,
  <<C(0, "Code", 1), C(0, "MainMemory", 2)>> >>
\* far apart, in several contexts
WideLayouts == <<
  <<C(0, "Code", 3), C(0, "Code", 1), C(0, "Code", 5000), C(0, "Stack", 0), C(0, "Stack", 1023), C(0, "MainMemory", 7),
    C(0, "TrieData", 0), C(0, "TrieData", 3), C(0, "AccountsLinkedList", 4), C(0, "StorageLinkedList", 9),
    C(1, "Code", 0), C(1, "Stack", 0), C(1, "MainMemory", 100000), C(2, "MainMemory", 0), C(2, "MainMemory", 1),
    C(4, "Stack", 3), C(9, "ContextMetadata", 11)>>,
  <<C(0, "RlpRaw", 40), C(0, "RlpRaw", 41), C(0, "AccountsLinkedList", 0), C(0, "AccountsLinkedList", 1), C(0, "AccountsLinkedList", 2),
    C(0, "StorageLinkedList", 0), C(0, "StorageLinkedList", 5), C(3, "Stack", 1), C(3, "Stack", 2), C(3, "MainMemory", 31)>>,
  <<C(2, "MainMemory", 17), C(2, "MainMemory", 3000)>> >>
PRE == {"Code", "TrieData", "AccountsLinkedList", "StorageLinkedList"}
MCV2 == {0, 1}
MCV3 == {0, 1, 2}
MCV5 == 0..4
WideInit ==
  /\ layout \in {Layouts[i] : i \in 1..Len(Layouts)}
  /\ before = [a \in Cells |-> RandomElement(Values \union {None})]
  /\ pruned \in {{}, {4, 1}, {2}, {3}}
  /\ ops = <<>>
  /\ cell = Start(before)
  /\ legal = TRUE
\* mostly legal: a read claims what is there
WideNext == \/ Len(ops) < MaxOps /\ \E a \in Cells, v \in Values : Write(a, v)
            \/ Len(ops) < MaxOps /\ \E a \in Cells, v \in Values : cell[a] \in {v, None} /\ Read(a, v)
WideEmit == Len(ops) % 13 # 0 \/ Emit
====
