------------------------------- MODULE Claims -------------------------------
(* Payloads and the claims that come with them. A payload is a start state with     *)
(* transactions; its claims say how it ends. A payload is accepted exactly when      *)
(* running it gives its claims. Behaviours: run a block, take any consecutive part   *)
(* of it as a payload with true claims, falsify one thing, run what came out.        *)
EXTENDS EvmProg
VARIABLES pay, claim, mut
cvars == <<evmvars, pay, claim, mut>>

None == [none |-> TRUE]
Kept(f, S) == [x \in S |-> f[x]]
Indexed(q, n0) == [i \in n0..(n0 + Len(q) - 1) |-> q[i - n0 + 1]]

PayloadOf(st, lo, hi, last) ==
  [pre |-> IF lo = 0 THEN st.case.pre ELSE st.outs[lo].w, blk |-> st.case.blk,
   txs |-> SubSeq(st.case.txs, lo + 1, hi), wds |-> IF last THEN st.case.wds ELSE <<>>,
   n0 |-> lo, gas0 |-> IF lo = 0 THEN 0 ELSE st.outs[lo].rec.cum,
   prevtx |-> Indexed(SubSeq(st.case.txs, 1, lo), 0), prevrec |-> [i \in 0..(lo - 1) |-> st.outs[i + 1].rec],
   supply |-> <<>>]
ClaimOf(st, hi, last) ==
  [w |-> IF last THEN st.w ELSE IF hi = 0 THEN BeaconRoot(st.case.pre, st.case.blk) ELSE st.outs[hi].w,
   txs |-> Indexed(SubSeq(st.case.txs, 1, hi), 0), recs |-> [i \in 0..(hi - 1) |-> st.outs[i + 1].rec],
   gas |-> IF hi = 0 THEN 0 ELSE st.outs[hi].rec.cum]
(* Running a payload. *)
StartOf(p) == LET st == Start([pre |-> p.pre, blk |-> p.blk, txs |-> p.txs, wds |-> p.wds])
              IN [st EXCEPT !.w = IF p.n0 = 0 THEN @ ELSE p.pre, !.cum = p.gas0]
ResultOf(p, st) ==
  [w |-> st.w, txs |-> Indexed(p.txs, p.n0) @@ p.prevtx,
   recs |-> [i \in p.n0..(p.n0 + Len(st.outs) - 1) |-> st.outs[i - p.n0 + 1].rec] @@ p.prevrec,
   gas |-> st.cum]

-----------------------------------------------------------------------------
(* One thing falsified. Each of the following gives a pair of payload and claims.   *)
Nth(S, k) == LET q == SetToSeq(S) IN q[(k % Len(q)) + 1]
LastIx(f) == (CHOOSE i \in DOMAIN f : \A j \in DOMAIN f : j <= i)
Other(x) == IF x = One THEN W(2) ELSE One
WorldMutants == {"balance", "nonce", "slot", "unslot", "added", "removed", "code"}
ChangeWorld(m, z, w) ==
  LET a == Nth(DOMAIN w, R(Z(z, 1), 97))
      cs == { x \in DOMAIN w : w[x].c # <<>> }
      c == IF cs = {} THEN a ELSE Nth(cs, R(Z(z, 2), 97))
      k == OneOf(Z(z, 3), <<Zero, One, W(2), W(77), AllOnes>>)
      ss == { x \in DOMAIN w : DOMAIN w[x].s # {} }
      d == Nth(ss, R(Z(z, 4), 97))
  IN CASE m = "balance" -> [w EXCEPT ![a].b = AddN(@, One)]
       [] m = "nonce" -> [w EXCEPT ![a].n = @ + 1]
       [] m = "slot" -> [w EXCEPT ![c].s = (k :> (IF k \in DOMAIN @ THEN Other(@[k]) ELSE One)) @@ @]
       [] m = "unslot" -> IF ss = {} THEN w ELSE LET g == Nth(DOMAIN w[d].s, R(Z(z, 5), 97)) IN [w EXCEPT ![d].s = Kept(@, DOMAIN @ \ {g})]
       [] m = "added" -> (Fresh(200) :> User(0, One)) @@ w
       [] m = "removed" -> Kept(w, DOMAIN w \ {a})
       [] m = "code" -> [w EXCEPT ![c].c = Append(@, 0)]
RecMutants == {"status", "cum", "log", "unlog", "logaddr", "logdata", "logtopic", "rectype"}
AnyLog == [a |-> Ct(1), t |-> <<>>, d |-> <<>>]
ChangeRec(m, z, r) ==
  CASE m = "status" -> [r EXCEPT !.ok = ~@]
    [] m = "cum" -> [r EXCEPT !.cum = @ + 1]
    [] m = "log" -> [r EXCEPT !.logs = Append(@, AnyLog)]
    [] m = "unlog" -> [r EXCEPT !.logs = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] m = "logaddr" -> [r EXCEPT !.logs = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![1].a = IF @ = Ct(1) THEN Ct(2) ELSE Ct(1)]]
    [] m = "logdata" -> [r EXCEPT !.logs = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![Len(@)].d = IF @ # <<>> /\ R(Z(z, 1), 2) = 0 THEN Tail(@) ELSE Append(@, 0)]]
    [] m = "logtopic" -> [r EXCEPT !.logs = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![1].t = IF Len(@) = 4 \/ (@ # <<>> /\ R(Z(z, 1), 2) = 0) THEN Tail(@) ELSE Append(@, One)]]
    [] m = "rectype" -> [r EXCEPT !.type = (@ + 1) % 4]
TxMutants == {"val", "gas", "data", "to", "al", "blobs"}
ChangeTx(m, z, t) ==
  CASE m = "val" -> [t EXCEPT !.val = AddN(@, One)]
    [] m = "gas" -> [t EXCEPT !.gas = @ + 1]
    [] m = "data" -> [t EXCEPT !.data = Append(@, 0)]
    [] m = "to" -> IF t.create THEN t ELSE [t EXCEPT !.to = IF @ = Ct(1) THEN Ct(2) ELSE Ct(1)]
    [] m = "al" -> IF t.type = 0 THEN t ELSE [t EXCEPT !.al = IF @ # <<>> /\ R(Z(z, 1), 2) = 0 THEN Tail(@) ELSE Append(@, <<Ct(2), <<One>>>>)]
    [] m = "blobs" -> IF t.type # 3 THEN t ELSE [t EXCEPT !.blobs = Append(@, SubSeq(HashWord(9), 1, 31) \o <<1>>)]
BlkMutants == {"coinbase", "base", "time", "beaconroot", "number", "random", "limit", "chain", "blockhash"}
ChangeBlk(m, z, b) ==
  CASE m = "coinbase" -> [b EXCEPT !.coinbase = Fresh(201)]
    [] m = "base" -> [b EXCEPT !.base = AddN(@, One)]
    [] m = "time" -> [b EXCEPT !.time = @ + 1]
    [] m = "beaconroot" -> [b EXCEPT !.beaconroot = HashWord(902)]
    [] m = "number" -> [b EXCEPT !.number = @ + 1]
    [] m = "random" -> [b EXCEPT !.random = HashWord(903)]
    [] m = "limit" -> [b EXCEPT !.limit = @ + 1]
    [] m = "chain" -> [b EXCEPT !.chain = @ + 1]
    [] m = "blockhash" -> [b EXCEPT !.hash = [@ EXCEPT ![1] = HashWord(904)]]
Names ==
  {<<"none">>, <<"gas+">>, <<"gas-">>, <<"gas0+">>, <<"gas0-">>, <<"n0+">>, <<"n0-">>}
  \cup { <<k, m>> : k \in {"claimw", "prew"}, m \in WorldMutants }
  \cup { <<k, m>> : k \in {"claimrec", "prevrec"}, m \in RecMutants }
  \cup { <<k, m>> : k \in {"claimtx", "tx", "prevtx"}, m \in TxMutants }
  \cup { <<"blk", m>> : m \in BlkMutants }
  \cup { <<"txs", m>> : m \in {"drop", "dropfirst", "swap", "dup", "replay"} }
  \cup { <<"claims", m>> : m \in {"droptx", "droprec", "addrec", "swaprec", "swaptx", "early"} }
  \cup { <<"wds", m>> : m \in {"drop", "add", "dup", "swap", "more", "zero", "to", "first"} }
  \cup { <<"supply", m>> : m \in {"code", "slot", "unslot", "nocode"} }
Bump(f, i, x) == IF i \in DOMAIN f THEN [f EXCEPT ![i] = x] ELSE f
Falsify(nm, z, p, c) ==
  LET i == R(Z(z, 7), IF p.txs = <<>> THEN 1 ELSE Len(p.txs)) + 1   \* a transaction of the payload
      any == DOMAIN c.recs
      r == IF any = {} THEN 0 ELSE Nth(any, R(Z(z, 8), 97))
      v == IF DOMAIN p.prevrec = {} THEN 0 ELSE Nth(DOMAIN p.prevrec, R(Z(z, 9), 97))
      n == Len(p.txs)
      k == Len(p.wds)
      j == IF k = 0 THEN 0 ELSE R(Z(z, 10), k) + 1
      PC(a, b) == [p |-> a, c |-> b]
      m == IF Len(nm) = 2 THEN nm[2] ELSE ""
      cs == { x \in DOMAIN p.pre : p.pre[x].c # <<>> }
      called == { p.txs[1].to : x \in IF n > 0 /\ ~p.txs[1].create /\ p.txs[1].to \in cs /\ Valid(StartOf(p), p.txs[1]) THEN {1} ELSE {} }
      ss == { x \in DOMAIN p.pre : DOMAIN p.pre[x].s # {} }
      sa == Nth(ss, R(Z(z, 11), 97))
      sk == Nth(DOMAIN p.pre[sa].s, R(Z(z, 12), 97))
  IN CASE nm = <<"none">> -> PC(p, c)
       [] nm = <<"gas+">> -> PC(p, [c EXCEPT !.gas = @ + 1])
       [] nm = <<"gas-">> -> PC(p, [c EXCEPT !.gas = IF @ = 0 THEN 1 ELSE @ - 1])
       [] nm = <<"gas0+">> -> PC([p EXCEPT !.gas0 = @ + 1], c)
       [] nm = <<"gas0-">> -> PC([p EXCEPT !.gas0 = IF @ = 0 THEN 1 ELSE @ - 1], c)
       [] nm = <<"n0+">> -> PC([p EXCEPT !.n0 = @ + 1], c)
       [] nm = <<"n0-">> -> PC([p EXCEPT !.n0 = IF @ = 0 THEN 1 ELSE @ - 1], c)
       [] nm[1] = "claimw" -> PC(p, [c EXCEPT !.w = ChangeWorld(m, z, @)])
       [] nm[1] = "prew" -> PC([p EXCEPT !.pre = ChangeWorld(m, z, @)], c)
       [] nm[1] = "claimrec" -> PC(p, IF any = {} THEN c ELSE [c EXCEPT !.recs = [@ EXCEPT ![r] = ChangeRec(m, z, @)]])
       [] nm[1] = "prevrec" -> PC(IF DOMAIN p.prevrec = {} THEN p ELSE [p EXCEPT !.prevrec = [@ EXCEPT ![v] = ChangeRec(m, z, @)]], c)
       [] nm[1] = "claimtx" -> PC(p, IF any = {} THEN c ELSE [c EXCEPT !.txs = [@ EXCEPT ![r] = ChangeTx(m, z, @)]])
       [] nm[1] = "prevtx" -> PC(IF DOMAIN p.prevtx = {} THEN p ELSE [p EXCEPT !.prevtx = [@ EXCEPT ![v] = ChangeTx(m, z, @)]], c)
       [] nm[1] = "tx" -> PC(IF n = 0 THEN p ELSE [p EXCEPT !.txs = [@ EXCEPT ![i] = ChangeTx(m, z, @)]], c)
       [] nm[1] = "blk" -> PC([p EXCEPT !.blk = ChangeBlk(m, z, @)], c)
       [] nm = <<"txs", "drop">> -> PC([p EXCEPT !.txs = IF n = 0 THEN @ ELSE SubSeq(@, 1, n - 1)], c)
       [] nm = <<"txs", "dropfirst">> -> PC([p EXCEPT !.txs = IF n = 0 THEN @ ELSE Tail(@)], c)
       [] nm = <<"txs", "swap">> -> PC([p EXCEPT !.txs = IF n < 2 THEN @ ELSE [@ EXCEPT ![1] = p.txs[2], ![2] = p.txs[1]]], c)
       [] nm = <<"txs", "dup">> -> PC([p EXCEPT !.txs = IF n = 0 THEN @ ELSE Append(@, p.txs[n])], c)
       [] nm = <<"txs", "replay">> -> PC([p EXCEPT !.txs = IF n = 0 THEN @ ELSE <<p.txs[n]>> \o SubSeq(@, 1, n - 1)], c)
       [] nm = <<"claims", "droptx">> -> PC(p, IF any = {} THEN c ELSE [c EXCEPT !.txs = Kept(@, any \ {LastIx(c.recs)})])
       [] nm = <<"claims", "droprec">> -> PC(p, IF any = {} THEN c ELSE [c EXCEPT !.recs = Kept(@, any \ {LastIx(c.recs)})])
       [] nm = <<"claims", "addrec">> -> PC(p, IF any = {} THEN c ELSE [c EXCEPT !.recs = ((LastIx(@) + 1) :> @[LastIx(@)]) @@ @])
       [] nm = <<"claims", "swaprec">> -> PC(p, IF Cardinality(any) < 2 THEN c ELSE [c EXCEPT !.recs = [@ EXCEPT ![0] = c.recs[1], ![1] = c.recs[0]]])
       [] nm = <<"claims", "swaptx">> -> PC(p, IF Cardinality(any) < 2 THEN c ELSE [c EXCEPT !.txs = [@ EXCEPT ![0] = c.txs[1], ![1] = c.txs[0]]])
       [] nm = <<"claims", "early">> -> PC(p, [c EXCEPT !.w = p.pre])
       [] nm = <<"wds", "drop">> -> PC([p EXCEPT !.wds = IF k = 0 THEN @ ELSE SubSeq(@, 1, k - 1)], c)
       [] nm = <<"wds", "first">> -> PC([p EXCEPT !.wds = IF k = 0 THEN @ ELSE Tail(@)], c)
       [] nm = <<"wds", "add">> -> PC([p EXCEPT !.wds = Append(@, <<Key(2), One>>)], c)
       [] nm = <<"wds", "zero">> -> PC([p EXCEPT !.wds = Append(@, <<Fresh(202), Zero>>)], c)
       [] nm = <<"wds", "dup">> -> PC([p EXCEPT !.wds = IF k = 0 THEN @ ELSE Append(@, @[j])], c)
       [] nm = <<"wds", "swap">> -> PC([p EXCEPT !.wds = IF k < 2 THEN @ ELSE [@ EXCEPT ![1] = p.wds[k], ![k] = p.wds[1]]], c)
       [] nm = <<"wds", "more">> -> PC([p EXCEPT !.wds = IF k = 0 THEN @ ELSE [@ EXCEPT ![j] = <<@[1], AddN(@[2], One)>>]], c)
       [] nm = <<"wds", "to">> -> PC([p EXCEPT !.wds = IF k = 0 THEN @ ELSE [@ EXCEPT ![j] = <<Fresh(203), @[2]>>]], c)
       (* what the prover supplies beside the tries must match them *)
       [] nm = <<"supply", "code">> -> PC(IF called = {} THEN p ELSE LET a == Nth(called, 0) IN [p EXCEPT !.supply = <<"code", a, Append(p.pre[a].c, 0)>>], c)
       [] nm = <<"supply", "nocode">> -> PC(IF called = {} THEN p ELSE LET a == Nth(called, 0) IN [p EXCEPT !.supply = <<"code", a, <<>>>>], c)
       [] nm = <<"supply", "slot">> -> PC(IF ss = {} THEN p ELSE [p EXCEPT !.supply = <<"slot", sa, sk, Other(p.pre[sa].s[sk])>>], c)
       [] nm = <<"supply", "unslot">> -> PC(IF ss = {} THEN p ELSE [p EXCEPT !.supply = <<"slot", sa, sk, Zero>>], c)

-----------------------------------------------------------------------------
Still == UNCHANGED <<pay, claim, mut>>
CONSTANTS Part(_, _)   \* which parts of block i, after its run, become payloads: <<lo, hi, last>>
CInit == Init /\ pay = None /\ claim = None /\ mut = <<>>
Choose ==
  /\ s.phase = "done" /\ mut = <<>>
  /\ \E x \in Part(s.id, s) : \E nm \in Names :
       LET p == PayloadOf(s, x[1], x[2], x[3])
           c == ClaimOf(s, x[2], x[3])
           f == Falsify(nm, Z(Z(Z0(s.id), 60 + x[1] * 10 + x[2]), Cardinality(Names)), p, c)
       IN /\ nm = <<"none">> \/ f.p # p \/ f.c # c
          /\ mut' = <<nm, x>>
          /\ pay' = f.p /\ claim' = f.c
          /\ s' = StartOf(f.p) @@ [id |-> s.id]
          /\ step' = 0
CNext == ((Setup \/ Run) /\ step' = step + 1 /\ Still) \/ Choose
CView == <<s.id, mut, step>>
Ran == s.phase = "done" /\ mut # <<>>
Accept == pay.supply = <<>> /\ ResultOf(pay, s) = claim
(* Running the parts of a block gives what running the whole gave. *)
PartsCompose == Ran /\ mut[1] = <<"none">> => Accept
(* Whatever is claimed, only the truth is accepted: every falsified claim is told apart. *)
ClaimsMatter == Ran /\ mut[1][1] \in {"gas+", "gas-", "claimw", "claimrec", "claimtx", "prevrec", "prevtx"} => ~Accept
IndexedSeq(f) == LET q == SetToSeq(DOMAIN f) IN [i \in 1..Len(q) |-> <<q[i], f[q[i]]>>]
CEmitted ==
  [id |-> s.id, mut |-> mut, accept |-> Accept,
   pay |-> [pre |-> WorldSeq(pay.pre), blk |-> pay.blk, txs |-> pay.txs, wds |-> pay.wds, n0 |-> pay.n0, gas0 |-> pay.gas0,
            prevtx |-> IndexedSeq(pay.prevtx), prevrec |-> IndexedSeq(pay.prevrec), supply |-> pay.supply],
   claim |-> [w |-> WorldSeq(claim.w), txs |-> IndexedSeq(claim.txs), recs |-> IndexedSeq(claim.recs), gas |-> claim.gas]]
CEmit == Ran => (Out = "" \/ PrintT(ToJson(CEmitted)))
=============================================================================
