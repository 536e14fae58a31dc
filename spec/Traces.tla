------------------------------- MODULE Traces -------------------------------
(* What a tracing node reports about each transaction of a block, what these       *)
(* reports mean, and how the block is cut into batches.                            *)
(* A tracer watches the execution: it notes each account and slot an instruction   *)
(* names, and at the end of the transaction compares the worlds before and after.  *)
EXTENDS EvmProg
VARIABLES tch,   \* accounts and slots touched by the transaction so far
          trs,   \* reports of the finished transactions
          mut    \* what was falsified afterwards
tvars == <<evmvars, tch, trs, mut>>

NoTouch == [a |-> {}, k |-> {}]
(* Accounts and slots that the next instruction names. *)
Named(st) ==
  LET f == Top(st)
      op == IF f.pc < Len(f.code) THEN f.code[f.pc + 1] ELSE 0
      ar == Arity(op)
      n == Len(f.stk)
      A(i) == f.stk[n + 1 - i]
  IN IF ar[1] < 0 \/ n < ar[1] THEN NoTouch
     ELSE CASE op \in {49, 59, 60, 63, 255} -> [a |-> {Mask160(A(1))}, k |-> {}]
            [] op \in {241, 242, 244, 250} -> [a |-> {Mask160(A(2))}, k |-> {}]
            [] op = 240 -> [a |-> {CreateAddr(f.self, Acc(st.w, f.self).n)}, k |-> {}]
            [] op = 245 -> LET o == Small(A(2)) l == Small(A(3)) size == Reach(f.mem, o, l) IN
                           IF size < 0 \/ l > 49152 THEN NoTouch
                           ELSE [a |-> {Create2Addr(f.self, A(4), Slice(Grown(f.mem, size), o, l))}, k |-> {}]
            [] op \in {84, 85} -> [a |-> {f.self}, k |-> {<<f.self, A(1)>>}]
            [] OTHER -> NoTouch
Also(x, y) == [a |-> x.a \cup y.a, k |-> x.k \cup y.k]
FirstTouch(st) ==
  LET tx == st.case.txs[st.txi + 1] IN
  [a |-> {tx.from, st.case.blk.coinbase, IF tx.create THEN CreateAddr(tx.from, tx.nonce) ELSE tx.to}
         \cup { tx.al[j][1] : j \in 1..Len(tx.al) },
   k |-> UNION { { <<tx.al[j][1], tx.al[j][2][k]>> : k \in 1..Len(tx.al[j][2]) } : j \in 1..Len(tx.al) }]

Stored(w, a) == DOMAIN Acc(w, a).s
ReportOn(w0, w, t, a) ==
  LET x == Acc(w0, a) y == Acc(w, a)
      dead == a \in DOMAIN w0 /\ a \notin DOMAIN w
      ch == IF dead THEN {} ELSE { k \in DOMAIN x.s \cup DOMAIN y.s : Load(x, k) # Load(y, k) }
  IN [a |-> a,
      b |-> IF dead \/ x.b = y.b THEN <<>> ELSE <<y.b>>,
      n |-> IF dead \/ x.n = y.n THEN <<>> ELSE <<y.n>>,
      r |-> SetToSeq({ p[2] : p \in { q \in t.k : q[1] = a } }),
      w |-> LET q == SetToSeq(ch) IN [i \in 1..Len(q) |-> <<q[i], Load(y, q[i])>>],
      c |-> IF ~dead /\ x.c # y.c THEN <<"write", y.c>> ELSE IF x.c # <<>> /\ ~dead THEN <<"read", x.c>> ELSE <<>>,
      d |-> dead]
Reports(w0, w, t) == LET q == SetToSeq(t.a) IN [i \in 1..Len(q) |-> ReportOn(w0, w, t, q[i])]

(* The meaning of a report on a transaction: the world with what it says put in.   *)
(* A failed transaction makes no account appear but the one that gets its fee.     *)
ApplyOne(w, r, ok) ==
  IF ~ok /\ r.a \notin DOMAIN w /\ r.a # s.case.blk.coinbase THEN w
  ELSE IF r.d THEN [a \in DOMAIN w \ {r.a} |-> w[a]]
  ELSE LET x == Acc(w, r.a)
           y1 == [x EXCEPT !.b = IF r.b = <<>> THEN @ ELSE r.b[1], !.n = IF r.n = <<>> THEN @ ELSE r.n[1],
                           !.c = IF r.c = <<>> THEN @ ELSE r.c[2]]
           y == FoldLeft(LAMBDA acc, kv : Store(acc, kv[1], kv[2]), y1, r.w)
       IN IF y = x THEN w ELSE Put(w, r.a, y)
Apply(w, rs, ok) == FoldLeft(LAMBDA acc, r : ApplyOne(acc, r, ok), w, rs)

(* Cutting n transactions by a hint: consecutive ranges. *)
Cuts(n, h) ==
  IF (n + h - 1) \div h >= 2 THEN [i \in 1..((n + h - 1) \div h) |-> <<(i - 1) * h, Min2(i * h, n)>>]
  ELSE IF n >= 2 THEN <<<<0, n \div 2>>, <<n \div 2, n>>>>
  ELSE <<<<0, n>>, <<n, n>>>>
ASSUME \A n \in 0..9, h \in 1..10 : LET c == Cuts(n, h) IN
  /\ Len(c) >= 2 /\ c[1][1] = 0 /\ c[Len(c)][2] = n
  /\ \A i \in 1..Len(c) : c[i][1] <= c[i][2] /\ c[i][2] - c[i][1] <= h
  /\ \A i \in 1..(Len(c) - 1) : c[i][2] = c[i + 1][1]

-----------------------------------------------------------------------------
TInit == Init /\ tch = NoTouch /\ trs = <<>> /\ mut = "none"
Before(st) == IF st.outs = <<>> THEN BeaconRoot(st.case.pre, st.case.blk) ELSE st.outs[Len(st.outs)].w
TSetup == Setup /\ step' = step + 1 /\ UNCHANGED <<tch, trs, mut>>
TRun ==
  /\ Run /\ step' = step + 1
  /\ tch' = IF s.phase = "begin" THEN (IF s.txi < Len(s.case.txs) THEN FirstTouch(s) ELSE NoTouch)
            ELSE IF s.phase = "run" THEN Also(tch, Named(s)) ELSE tch
  /\ trs' = IF s.phase = "end" THEN Append(trs, Reports(Before(s), s'.outs[Len(s'.outs)].w, tch)) ELSE trs
  /\ UNCHANGED mut
(* Falsify one report of the finished block. *)
Fakes == {"balance", "nonce", "slot", "unslot", "newslot", "code", "dropped", "dead"}
FakeOn(m, z, r) ==
  CASE m = "balance" -> [r EXCEPT !.b = <<IF @ = <<>> THEN W(12345) ELSE AddN(@[1], One)>>]
    [] m = "nonce" -> [r EXCEPT !.n = <<IF @ = <<>> THEN 77 ELSE @[1] + 1>>]
    [] m = "slot" -> [r EXCEPT !.w = IF @ = <<>> THEN @ ELSE [@ EXCEPT ![1] = <<@[1], IF @[2] = One THEN W(2) ELSE One>>]]
    [] m = "unslot" -> [r EXCEPT !.w = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] m = "newslot" -> [r EXCEPT !.w = Append(@, <<W(4321), One>>)]
    [] m = "code" -> [r EXCEPT !.c = <<"write", <<96, 1>>>>]
    [] m = "dropped" -> [r EXCEPT !.b = <<>>, !.n = <<>>, !.w = <<>>, !.c = IF @ # <<>> /\ @[1] = "write" THEN <<>> ELSE @]
    [] m = "dead" -> [r EXCEPT !.d = TRUE]
CONSTANT FakeBlocks(_)
Fake ==
  /\ s.phase = "done" /\ mut = "none" /\ trs # <<>> /\ FakeBlocks(s.id)
  /\ \E m \in Fakes :
       LET z == Z(Z(Z0(s.id), 70), R(Z(Z0(s.id), 71), 50))
           i == R(Z(z, 1), Len(trs)) + 1
           old == { j \in 1..Len(trs[i]) : trs[i][j].a \in DOMAIN (IF i = 1 THEN BeaconRoot(s.case.pre, s.case.blk) ELSE s.outs[i-1].w) /\ ~trs[i][j].d }
           ws == { j \in old : trs[i][j].w # <<>> }
           pool == SetToSeq(IF m \in {"slot", "unslot"} /\ ws # {} THEN ws ELSE old)
           j == pool[R(Z(z, Len(m)), Len(pool)) + 1]
           r == FakeOn(m, z, trs[i][j])
       IN /\ r # trs[i][j]
          /\ mut' = m
          /\ trs' = [trs EXCEPT ![i] = [@ EXCEPT ![j] = r]]
          /\ step' = step + 1
          /\ UNCHANGED <<s, tch>>
TNext == TSetup \/ TRun \/ Fake
TView == <<s.id, mut, step>>

-----------------------------------------------------------------------------
TDone == s.phase = "done"
AllValid == \A i \in 1..Len(s.outs) : s.outs[i].valid
(* Reports say all that changed, and applying them in order gives the worlds of the block. *)
Complete == TDone /\ mut = "none" => \A i \in 1..Len(trs) :
   LET w0 == IF i = 1 THEN BeaconRoot(s.case.pre, s.case.blk) ELSE s.outs[i-1].w IN
   /\ Apply(w0, trs[i], s.outs[i].rec.ok) = s.outs[i].w
   /\ \A j \in 1..Len(trs[i]) : LET r == trs[i][j] IN \A k \in 1..Len(r.w) : \E m \in 1..Len(r.r) : r.r[m] = r.w[k][1]
(* The worlds that the reports, true or false, describe. *)
Described == LET RECURSIVE go(_, _)
                 go(i, w) == IF i > Len(trs) THEN <<>> ELSE LET v == Apply(w, trs[i], s.outs[i].rec.ok) IN <<v>> \o go(i + 1, v)
             IN go(1, BeaconRoot(s.case.pre, s.case.blk))
WithWds(w) == FoldLeft(LAMBDA acc, x : AddBal(acc, x[1], x[2]), w, s.case.wds)
TEmitted ==
  LET ws == Described
      last == IF ws = <<>> THEN BeaconRoot(s.case.pre, s.case.blk) ELSE ws[Len(ws)]
  IN [id |-> s.id, fake |-> mut, pre |-> WorldSeq(s.case.pre), blk |-> s.case.blk, txs |-> s.case.txs, wds |-> s.case.wds,
      begin |-> Diff(s.case.pre, BeaconRoot(s.case.pre, s.case.blk)),
      outs |-> [i \in 1..Len(s.outs) |->
         [w |-> Diff(IF i = 1 THEN BeaconRoot(s.case.pre, s.case.blk) ELSE ws[i-1], ws[i]),
          rec |-> s.outs[i].rec, valid |-> s.outs[i].valid]],
      end |-> Diff(last, WithWds(last)), traces |-> trs]
TEmit == TDone /\ AllValid => (Out = "" \/ PrintT(ToJson(TEmitted)))
=============================================================================
