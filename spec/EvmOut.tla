------------------------------- MODULE EvmOut -------------------------------
(* Evm with what a behaviour yields written out as JSON, for replay in the code. *)
EXTENDS Evm, Json, IOUtils, SequencesExt
CONSTANT Out

StoreSeq(st) == LET ks == SetToSeq(DOMAIN st) IN [i \in 1..Len(ks) |-> <<ks[i], st[ks[i]]>>]
WorldSeq(w) == LET as == SetToSeq(DOMAIN w) IN
  [i \in 1..Len(as) |-> <<as[i], w[as[i]].n, w[as[i]].b, w[as[i]].c, StoreSeq(w[as[i]].s)>>]
(* Only the accounts that differ from a world before. *)
Diff(w0, w) == LET as == SetToSeq({ a \in DOMAIN w \cup DOMAIN w0 : Acc(w, a) # Acc(w0, a) \/ (a \in DOMAIN w) # (a \in DOMAIN w0) }) IN
  [i \in 1..Len(as) |-> LET a == as[i] IN
     IF a \in DOMAIN w THEN <<a, w[a].n, w[a].b, w[a].c, StoreSeq(w[a].s)>> ELSE <<a>>]
Emitted ==
  [id |-> s.id, pre |-> WorldSeq(s.case.pre), blk |-> s.case.blk, txs |-> s.case.txs, wds |-> s.case.wds,
   begin |-> Diff(s.case.pre, BeaconRoot(s.case.pre, s.case.blk)),
   outs |-> [i \in 1..Len(s.outs) |->
      [w |-> Diff(IF i = 1 THEN BeaconRoot(s.case.pre, s.case.blk) ELSE s.outs[i-1].w, s.outs[i].w),
       rec |-> s.outs[i].rec, valid |-> s.outs[i].valid]],
   end |-> Diff(IF s.outs = <<>> THEN BeaconRoot(s.case.pre, s.case.blk) ELSE s.outs[Len(s.outs)].w, s.w)]
Emit == s.phase = "done" => (Out = "" \/ PrintT(ToJson(Emitted)))
=============================================================================
