------------------------------ MODULE MptHist -------------------------------
(* Histories of operations on several handles of tries. `Clone` makes a      *)
(* handle a copy of another; afterwards they are independent. Root           *)
(* computations are part of the history because an implementation may cache. *)
(* `hist` records the operations with the answers the specification gives;   *)
(* the harness replays it on the real tries.                                 *)
EXTENDS Mpt, Json, IOUtils
CONSTANTS Handles, Keys, ValIds, ValOf(_), MaxLen, Out, RandomGet
VARIABLES maps, trees, hist, halt
vars == <<maps, trees, hist, halt>>
EmptyMap == [k \in {} |-> 0]
With(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
Pairs(m) == { <<k, m[k]>> : k \in DOMAIN m }
Init == /\ maps = [h \in Handles |-> EmptyMap]
        /\ trees = [h \in Handles |-> Empty]
        /\ hist = <<>> /\ halt = FALSE
Log(e) == hist' = Append(hist, e)
DoInsert(h, k, v) ==
  /\ maps' = [maps EXCEPT ![h] = With(@, k, v)]
  /\ trees' = [trees EXCEPT ![h] = Insert(@, k, ValOf(v))]
  /\ Log([op |-> "ins", h |-> h, k |-> k, v |-> v])
DoDelete(h, k) ==
  /\ maps' = [maps EXCEPT ![h] = Without(@, k)]
  /\ trees' = [trees EXCEPT ![h] = Delete(@, k)]
  /\ Log([op |-> "del", h |-> h, k |-> k, old |-> IF k \in DOMAIN maps[h] THEN maps[h][k] ELSE 0])
DoExtend(h, k, l, v) ==
  /\ maps' = [maps EXCEPT ![h] = With(With(@, k, v), l, v)]
  /\ trees' = [trees EXCEPT ![h] = Insert(Insert(@, k, ValOf(v)), l, ValOf(v))]
  /\ Log([op |-> "ext", h |-> h, k |-> k, l |-> l, v |-> v])
DoClone(h, g) ==
  /\ h # g
  /\ maps' = [maps EXCEPT ![g] = maps[h]]
  /\ trees' = [trees EXCEPT ![g] = trees[h]]
  /\ Log([op |-> "clone", h |-> h, g |-> g])
(* A pure observation. how=0: root; 1: everything observable; 2: root by way  *)
(* of extracting an empty subset.                                            *)
DoObserve(h, how) ==
  /\ UNCHANGED <<maps, trees>>
  /\ Log([op |-> "obs", h |-> h, how |-> how, m |-> Pairs(maps[h])])
Step ==
  \E h \in Handles :
    \/ \E k \in Keys, v \in ValIds : DoInsert(h, k, v)
    \/ \E k \in Keys : DoDelete(h, k)
    \/ \E v \in ValIds : DoExtend(h, CHOOSE k \in Keys : TRUE, CHOOSE l \in Keys : l # CHOOSE k \in Keys : TRUE, v)
    \/ \E g \in Handles : DoClone(h, g)
    \/ \E how \in 0..2 : DoObserve(h, how)
(* In simulation, weight the kinds of step evenly instead of by parameters.  *)
RandomStep ==
  \E h \in {RandomElement(Handles)}, k \in {RandomElement(Keys)},
     v \in {RandomElement(ValIds)}, c \in {RandomElement(1..12)} :
     CASE c <= 4 -> DoInsert(h, k, v)
       [] c <= 8 -> \E q \in {IF maps[h] = EmptyMap \/ c = 5 THEN k
                               ELSE RandomElement(DOMAIN maps[h])} : DoDelete(h, q)
       [] c = 9 -> \E l \in {RandomElement(Keys \ {k})} : DoExtend(h, k, l, v)
       [] c = 10 -> \E g \in {RandomElement(Handles \ {h})} : DoClone(h, g)
       [] OTHER -> \E how \in {RandomElement(0..2)} : DoObserve(h, how)
Next == /\ Len(hist) < MaxLen
        /\ IF RandomGet THEN RandomStep ELSE Step
        /\ halt' = (Len(hist') = MaxLen)
Contents(h) == [k \in DOMAIN maps[h] |-> ValOf(maps[h][k])]
TreesCanonical == \A h \in Handles : trees[h] = Canon(Contents(h), 0)
Emit == Out = "" \/ ~halt \/
   PrintT(ToJson([ops |-> hist, maps |-> [h \in Handles |-> Pairs(maps[h])]]))
=============================================================================
