--------------------------------- MODULE Evm ---------------------------------
(* Ethereum's (Cancun) block execution, one instruction per step: transactions, *)
(* call frames, gas, substate and receipts.  A behaviour executes one block.     *)
(*                                                                               *)
(* World: function from addresses (words) to accounts [n nonce, b balance,       *)
(* c code bytes, s storage]; an address outside its domain has the empty account.*)
EXTENDS Precompiles, Asm, TLC, FiniteSets, FiniteSetsExt

VARIABLES s,    \* the block execution
          step  \* instruction counter
evmvars == <<s, step>>

NoStore == [k \in {} |-> Zero]
EmptyAcc == [n |-> 0, b |-> Zero, c |-> <<>>, s |-> NoStore]
Acc(w, a) == IF a \in DOMAIN w THEN w[a] ELSE EmptyAcc
Dead(w, a) == LET x == Acc(w, a) IN x.n = 0 /\ x.b = Zero /\ x.c = <<>>
Put(w, a, acc) == (a :> acc) @@ w
AddBal(w, a, v) == IF v = Zero THEN w ELSE Put(w, a, [Acc(w, a) EXCEPT !.b = AddN(@, v)])
SubBal(w, a, v) == IF v = Zero THEN w ELSE Put(w, a, [Acc(w, a) EXCEPT !.b = SubN(@, v)])
Move(w, a, b, v) == AddBal(SubBal(w, a, v), b, v)
Load(acc, k) == IF k \in DOMAIN acc.s THEN acc.s[k] ELSE Zero
Store(acc, k, v) == [acc EXCEPT !.s = IF v = Zero THEN [x \in DOMAIN @ \ {k} |-> @[x]] ELSE (k :> v) @@ @]
(* Accounts that are empty do not exist. *)
Alive(w) == { a \in DOMAIN w : ~Dead(w, a) }
Clean(w) == [a \in Alive(w) |-> w[a]]

Precompiles == { W(i) : i \in 1..10 }
Beacon == OfBytes(<<0,15,61,246,215,50,128,126,241,49,159,183,184,187,133,34,208,190,172,2>>)

NoSub == [ref |-> 0, logs |-> <<>>, wa |-> {}, ws |-> {}, tr |-> [k \in {} |-> Zero], sd |-> {}, cr |-> {}]

Words32(n) == (n + 31) \div 32
Ceil(n) == 32 * Words32(n)
(* Gas limits stay below what this many bytes of memory cost. *)
MemLimit == 1200000
MemCost(bytes) == LET w == Words32(bytes) IN 3 * w + (w * w) \div 512
(* Bytes of memory after touching [off, off+len); -1: more than any gas pays for. *)
Reach(mem, off, len) ==
  IF len = 0 THEN Len(mem)
  ELSE IF off > MemLimit \/ len > MemLimit \/ off + len > MemLimit THEN -1
  ELSE Max2(Len(mem), Ceil(off + len))
Grown(mem, n) == IF n = Len(mem) THEN mem ELSE mem \o Zeros(n - Len(mem))
GrowCost(mem, n) == MemCost(n) - MemCost(Len(mem))
Slice(x, off, len) == [i \in 1..len |-> IF off >= Len(x) THEN 0 ELSE At(x, off + i)]
Write(mem, off, b) ==
  IF b = <<>> THEN mem ELSE [i \in 1..Len(mem) |-> IF i > off /\ i <= off + Len(b) THEN b[i - off] ELSE mem[i]]

-----------------------------------------------------------------------------
(* Frames.                                                                     *)
Depth == Len(s.fr)
Top(st) == st.fr[Len(st.fr)]
SetTop(st, f) == [st EXCEPT !.fr = [@ EXCEPT ![Len(@)] = f]]
Frame(kind, code, self, caller, val, data, static, gas, ro, rl, snap) ==
  [kind |-> kind, code |-> code, pc |-> 0, stk |-> <<>>, mem |-> <<>>, gas |-> gas, self |-> self,
   caller |-> caller, val |-> val, data |-> data, static |-> static, ret |-> <<>>, ro |-> ro, rl |-> rl,
   snap |-> snap]
Snap(st) == [w |-> st.w, sub |-> st.sub]
Restore(st, sn) == [st EXCEPT !.w = sn.w, !.sub = sn.sub]
AllBut64(g) == g - g \div 64

(* A frame ends: `how` is "ok", "revert" or "fail"; out its output.             *)
EndTx(st, ok, gasLeft) == [st EXCEPT !.phase = "end", !.fr = <<>>, !.last = [ok |-> ok, gas |-> gasLeft]]
Finish(st, how, out, gasLeft) ==
  LET f == Top(st)
      create == f.kind \in {"create", "txcreate"}
      \* contract creation stores the output as code, if it may
      bad == create /\ how = "ok" /\ (\/ out # <<>> /\ out[1] = 239
                                      \/ Len(out) > 24576
                                      \/ gasLeft < 200 * Len(out))
      h == IF bad THEN "fail" ELSE how
      g == IF h = "fail" THEN 0 ELSE IF create /\ h = "ok" THEN gasLeft - 200 * Len(out) ELSE gasLeft
      data == IF h = "fail" THEN <<>> ELSE out
      st1 == IF h = "ok"
             THEN IF create THEN [st EXCEPT !.w = Put(@, f.self, [Acc(@, f.self) EXCEPT !.c = out])] ELSE st
             ELSE Restore(st, f.snap)
      fr == SubSeq(st.fr, 1, Len(st.fr) - 1)
      p == fr[Len(fr)]
      res == IF h # "ok" THEN Zero ELSE IF create THEN f.self ELSE One
      rd == IF create /\ h = "ok" THEN <<>> ELSE data
      n == Min2(f.rl, Len(data))
      mem == IF create \/ n = 0 THEN p.mem ELSE Write(p.mem, f.ro, SubSeq(data, 1, n))
  IN IF fr = <<>> THEN EndTx(st1, h = "ok", g)
     ELSE [st1 EXCEPT !.fr = [fr EXCEPT ![Len(fr)] =
              [p EXCEPT !.gas = @ + g, !.stk = Append(@, res), !.ret = rd, !.mem = mem]]]
Fail(st) == Finish(st, "fail", <<>>, 0)

-----------------------------------------------------------------------------
(* Instructions.  Pops and pushes, indexed by opcode + 1; -1 marks an invalid one. *)
Arity(op) ==
  CASE op = 0 -> <<0, 0>>
    [] op \in 1..7 \cup {10, 11} -> <<2, 1>>
    [] op \in {8, 9} -> <<3, 1>>
    [] op \in 16..20 \cup 22..24 \cup 26..29 -> <<2, 1>>
    [] op \in {21, 25} -> <<1, 1>>
    [] op = 32 -> <<2, 1>>
    [] op \in {48, 50, 51, 52, 54, 56, 58, 61, 65, 66, 67, 68, 69, 70, 71, 72, 74, 88, 89, 90, 95} -> <<0, 1>>
    [] op \in {49, 53, 59, 63, 64, 73, 81, 84, 92} -> <<1, 1>>
    [] op \in {55, 57, 62, 94} -> <<3, 0>>
    [] op = 60 -> <<4, 0>>
    [] op \in {80, 86} -> <<1, 0>>
    [] op \in {82, 83, 85, 87, 93} -> <<2, 0>>
    [] op = 91 -> <<0, 0>>
    [] op \in 96..127 -> <<0, 1>>
    [] op \in 128..143 -> <<op - 127, op - 126>>
    [] op \in 144..159 -> <<op - 142, op - 142>>
    [] op \in 160..164 -> <<op - 158, 0>>
    [] op = 240 -> <<3, 1>>
    [] op \in {241, 242} -> <<7, 1>>
    [] op \in {244, 250} -> <<6, 1>>
    [] op = 245 -> <<4, 1>>
    [] op \in {243, 253} -> <<2, 0>>
    [] op = 255 -> <<1, 0>>
    [] OTHER -> <<-1, 0>>

(* A JUMPDEST that is not inside push data. *)
JumpOk(code, d) ==
  LET RECURSIVE walk(_)
      walk(i) == IF i > d THEN FALSE
                 ELSE IF i = d THEN TRUE
                 ELSE LET o == code[i + 1] IN walk(i + 1 + (IF o \in 96..127 THEN o - 95 ELSE 0))
  IN d < Len(code) /\ code[d + 1] = 91 /\ walk(0)

(* Pop n, push the given words (the last one on top), pay, advance. *)
Do(st, f, n, push, cost) ==
  IF f.gas < cost THEN Fail(st)
  ELSE SetTop(st, [f EXCEPT !.stk = SubSeq(@, 1, Len(@) - n) \o push, !.gas = @ - cost, !.pc = @ + 1])
(* The same with memory grown to n bytes (n = -1: too much) and then written. *)
DoMem(st, f, n, push, cost, size, off, bytes) ==
  IF size < 0 THEN Fail(st)
  ELSE LET c == cost + GrowCost(f.mem, size) IN
       IF f.gas < c THEN Fail(st)
       ELSE SetTop(st, [f EXCEPT !.stk = SubSeq(@, 1, Len(@) - n) \o push, !.gas = @ - c, !.pc = @ + 1,
                                 !.mem = Write(Grown(@, size), off, bytes)])
WarmA(st, a) == [st EXCEPT !.sub.wa = @ \cup {a}]
WarmS(st, a, k) == [st EXCEPT !.sub.ws = @ \cup {<<a, k>>}]
AccessA(st, a) == IF a \in st.sub.wa THEN 100 ELSE 2600

Mask160(w) == Norm(SubSeq(w, 1, Min2(20, Len(w))))

BlockHash(st, n) ==
  LET now == st.case.blk.number
      k == I31(n)
  IN IF k >= now \/ k < now - 256 THEN Zero ELSE st.case.blk.hash[now - k]

SStore(st, f, k, v) ==
  LET acc == Acc(st.w, f.self)
      cur == Load(acc, k)
      org == IF f.self \in st.sub.cr THEN Zero ELSE Load(Acc(st.w0, f.self), k)
      cold == IF <<f.self, k>> \in st.sub.ws THEN 0 ELSE 2100
      cost == IF cur = v THEN 100
              ELSE IF cur = org THEN (IF org = Zero THEN 20000 ELSE 2900)
              ELSE 100
      ref == IF cur = v THEN 0
             ELSE IF cur = org THEN (IF org # Zero /\ v = Zero THEN 4800 ELSE 0)
             ELSE (IF org # Zero THEN (IF cur = Zero THEN -4800 ELSE IF v = Zero THEN 4800 ELSE 0) ELSE 0)
                  + (IF v = org THEN (IF org = Zero THEN 19900 ELSE 2800) ELSE 0)
      st1 == [WarmS(st, f.self, k) EXCEPT !.w = Put(@, f.self, Store(acc, k, v)), !.sub.ref = @ + ref]
  IN IF f.static \/ f.gas <= 2300 THEN Fail(st)
     ELSE IF f.gas < cost + cold THEN Fail(st)
     ELSE Do(st1, f, 2, <<>>, cost + cold)

(* The four calls.  to: address whose code runs; self, caller, val: of the callee;  *)
(* moved: value that changes hands; pops: stack items used.                          *)
DoCall(st, f, kind, req, to, val, self, caller, fval, static, ao, al, ro, rl, pops) ==
  LET size == LET a == Reach(f.mem, ao, al)
                  b == Reach(f.mem, ro, rl)
              IN IF a < 0 \/ b < 0 THEN -1 ELSE Max2(a, b)
      base == AccessA(st, to) + (IF val # Zero THEN 9000 ELSE 0)
              + (IF kind = "CALL" /\ val # Zero /\ Dead(st.w, to) THEN 25000 ELSE 0)
      c == base + GrowCost(f.mem, size)
      cap == AllBut64(f.gas - c)
      g == Min2(I31(req), cap)
      given == g + (IF val # Zero THEN 2300 ELSE 0)
      mem == Grown(f.mem, size)
      data == Slice(mem, ao, al)
      f1 == [f EXCEPT !.stk = SubSeq(@, 1, Len(@) - pops), !.pc = @ + 1, !.gas = @ - c - g, !.mem = mem]
      st1 == SetTop(WarmA(st, to), f1)
      poor == kind \in {"CALL", "CALLCODE"} /\ Lt(Acc(st.w, f.self).b, val)
      sn == Snap(st1)
      st2 == IF kind = "CALL" THEN [st1 EXCEPT !.w = Move(@, f.self, to, val)] ELSE st1
      fr == Frame("call", Acc(st.w, to).c, self, caller, fval, data, static, given, ro, rl, sn)
      st3 == [st2 EXCEPT !.fr = Append(@, fr)]
      pre == Precompile(to, data, given)
  IN IF (kind = "CALL" /\ f.static /\ val # Zero) \/ size < 0 THEN Fail(st)
     ELSE IF f.gas < c THEN Fail(st)
     ELSE IF poor \/ Len(st.fr) > 1024
          THEN SetTop(st1, [f1 EXCEPT !.gas = @ + given, !.stk = Append(@, Zero), !.ret = <<>>])
     ELSE IF to \in Precompiles
          THEN Finish(st3, IF pre.ok THEN "ok" ELSE "fail", pre.out, given - pre.gas)
     ELSE st3

MaxNonce == 2147483647   \* stands for 2^64-1
CreateAddr(a, n) ==
  LET nb == IF n = 0 THEN <<128>> ELSE IF n < 128 THEN <<n>> ELSE LET b == BytesMin(W(n)) IN <<128 + Len(b)>> \o b
      body == <<148>> \o Bytes20(a) \o nb
  IN OfBytes(SubSeq(Keccak256(<<192 + Len(body)>> \o body), 13, 32))
Create2Addr(a, salt, code) ==
  OfBytes(SubSeq(Keccak256(<<255>> \o Bytes20(a) \o Bytes32(salt) \o Keccak256(code)), 13, 32))

(* Start the account of a new contract; the frame that runs its init code.         *)
NewContract(st, from, addr, val) ==
  LET w1 == Move(st.w, from, addr, val)
  IN [st EXCEPT !.w = Put(w1, addr, [n |-> 1, b |-> Acc(w1, addr).b, c |-> <<>>, s |-> NoStore]),
                !.sub.cr = @ \cup {addr}]
Collides(w, a) == Acc(w, a).n # 0 \/ Acc(w, a).c # <<>>

(* The new address is warm as soon as the instruction runs (EIP-2929), whatever happens then. *)
DoCreate(st, f, val, off, len, salt, two) ==
  LET size == Reach(f.mem, off, len)
      words == Words32(len)
      c == 32000 + GrowCost(f.mem, size) + 2 * words + (IF two THEN 6 * words ELSE 0)
      mem == Grown(f.mem, size)
      code == Slice(mem, off, len)
      me == Acc(st.w, f.self)
      addr == IF two THEN Create2Addr(f.self, salt, code) ELSE CreateAddr(f.self, me.n)
      left == f.gas - c
      g == AllBut64(left)
      pops == IF two THEN 4 ELSE 3
      f1 == [f EXCEPT !.stk = SubSeq(@, 1, Len(@) - pops), !.pc = @ + 1, !.mem = mem, !.gas = left]
      none == [f1 EXCEPT !.stk = Append(@, Zero), !.ret = <<>>]
      st1 == [st EXCEPT !.w = Put(@, f.self, [me EXCEPT !.n = @ + 1]), !.sub.wa = @ \cup {addr}]
      st2 == SetTop(st1, [f1 EXCEPT !.gas = left - g])
      fr == Frame("create", code, addr, f.self, val, <<>>, FALSE, g, 0, 0, Snap(st2))
  IN IF f.static \/ size < 0 \/ len > 49152 THEN Fail(st)
     ELSE IF f.gas < c THEN Fail(st)
     ELSE IF Lt(me.b, val) \/ me.n = MaxNonce \/ Len(st.fr) > 1024 THEN SetTop(WarmA(st, addr), none)
     ELSE IF Collides(st1.w, addr) THEN SetTop(st2, [none EXCEPT !.gas = left - g])
     ELSE LET st3 == NewContract(st2, f.self, addr, val) IN [st3 EXCEPT !.fr = Append(@, fr)]

SelfDestruct(st, f, to) ==
  LET b == Acc(st.w, f.self).b
      c == 5000 + (IF to \in st.sub.wa THEN 0 ELSE 2600) + (IF b # Zero /\ Dead(st.w, to) THEN 25000 ELSE 0)
      fresh == f.self \in st.sub.cr
      w1 == IF to = f.self THEN (IF fresh THEN SubBal(st.w, to, b) ELSE st.w) ELSE Move(st.w, f.self, to, b)
      st1 == [WarmA(st, to) EXCEPT !.w = w1, !.sub.sd = IF fresh THEN @ \cup {f.self} ELSE @]
  IN IF f.static \/ f.gas < c THEN Fail(st) ELSE Finish(st1, "ok", <<>>, f.gas - c)

TLoad(st, a, k) == IF <<a, k>> \in DOMAIN st.sub.tr THEN st.sub.tr[<<a, k>>] ELSE Zero

BinOp(op, a, b) ==
  CASE op = 1 -> Add(a, b) [] op = 2 -> Mul(a, b) [] op = 3 -> Sub(a, b) [] op = 4 -> Div(a, b)
    [] op = 5 -> SDiv(a, b) [] op = 6 -> Mod(a, b) [] op = 7 -> SMod(a, b) [] op = 11 -> SignExt(a, b)
    [] op = 16 -> Bool(Lt(a, b)) [] op = 17 -> Bool(Lt(b, a)) [] op = 18 -> Bool(SLt(a, b))
    [] op = 19 -> Bool(SLt(b, a)) [] op = 20 -> Bool(a = b) [] op = 22 -> WAnd(a, b) [] op = 23 -> WOr(a, b)
    [] op = 24 -> WXor(a, b) [] op = 26 -> ByteOf(a, b) [] op = 27 -> Shl(a, b) [] op = 28 -> Shr(a, b)
    [] op = 29 -> Sar(a, b)
BinCost(op) == IF op \in {2, 4, 5, 6, 7, 11} THEN 5 ELSE 3

(* Copy n bytes of src from position so to memory at d. *)
CopyOp(st, f, pops, d, so, n, src, extra) ==
  LET size == Reach(f.mem, d, n) IN
  IF size < 0 THEN Fail(st)
  ELSE DoMem(st, f, pops, <<>>, 3 + extra + 3 * Words32(n), size, d, IF f.gas < 3 * Words32(n) THEN <<>> ELSE Slice(src, so, n))

Exec(st) ==
  LET f == Top(st)
      op == IF f.pc < Len(f.code) THEN f.code[f.pc + 1] ELSE 0
      ar == Arity(op)
      n == Len(f.stk)
      A(i) == f.stk[n + 1 - i]
      blk == st.case.blk
      tx == st.case.txs[st.txi]
  IN
  IF ar[1] < 0 \/ n < ar[1] \/ n - ar[1] + ar[2] > 1024 THEN Fail(st)
  ELSE
  CASE op = 0 -> Finish(st, "ok", <<>>, f.gas)
    [] op \in {1, 2, 3, 4, 5, 6, 7, 11, 16, 17, 18, 19, 20, 22, 23, 24, 26, 27, 28, 29} ->
         Do(st, f, 2, <<BinOp(op, A(1), A(2))>>, BinCost(op))
    [] op = 8 -> Do(st, f, 3, <<AddMod(A(1), A(2), A(3))>>, 8)
    [] op = 9 -> Do(st, f, 3, <<MulMod(A(1), A(2), A(3))>>, 8)
    [] op = 10 -> Do(st, f, 2, <<Exp(A(1), A(2))>>, 10 + 50 * Len(A(2)))
    [] op = 21 -> Do(st, f, 1, <<Bool(A(1) = Zero)>>, 3)
    [] op = 25 -> Do(st, f, 1, <<WNot(A(1))>>, 3)
    [] op = 32 ->
         LET o == Small(A(1)) l == Small(A(2)) size == Reach(f.mem, o, l) IN
         IF size < 0 THEN Fail(st)
         ELSE IF f.gas < 30 + 6 * Words32(l) + GrowCost(f.mem, size) THEN Fail(st)
         ELSE DoMem(st, f, 2, <<KeccakW(Slice(Grown(f.mem, size), o, l))>>, 30 + 6 * Words32(l), size, 0, <<>>)
    [] op = 48 -> Do(st, f, 0, <<f.self>>, 2)
    [] op = 49 -> LET a == Mask160(A(1)) IN Do(WarmA(st, a), f, 1, <<Acc(st.w, a).b>>, AccessA(st, a))
    [] op = 50 -> Do(st, f, 0, <<tx.from>>, 2)
    [] op = 51 -> Do(st, f, 0, <<f.caller>>, 2)
    [] op = 52 -> Do(st, f, 0, <<f.val>>, 2)
    [] op = 53 -> LET o == Small(A(1)) IN Do(st, f, 1, <<OfBytes(Slice(f.data, o, 32))>>, 3)
    [] op = 54 -> Do(st, f, 0, <<W(Len(f.data))>>, 2)
    [] op = 55 -> CopyOp(st, f, 3, Small(A(1)), Small(A(2)), Small(A(3)), f.data, 0)
    [] op = 56 -> Do(st, f, 0, <<W(Len(f.code))>>, 2)
    [] op = 57 -> CopyOp(st, f, 3, Small(A(1)), Small(A(2)), Small(A(3)), f.code, 0)
    [] op = 58 -> Do(st, f, 0, <<st.price>>, 2)
    [] op = 59 -> LET a == Mask160(A(1)) IN Do(WarmA(st, a), f, 1, <<W(Len(Acc(st.w, a).c))>>, AccessA(st, a))
    [] op = 60 -> LET a == Mask160(A(1)) IN
         CopyOp(WarmA(st, a), f, 4, Small(A(2)), Small(A(3)), Small(A(4)), Acc(st.w, a).c, AccessA(st, a) - 3)
    [] op = 61 -> Do(st, f, 0, <<W(Len(f.ret))>>, 2)
    [] op = 62 -> IF Small(A(2)) >= Huge \/ Small(A(3)) >= Huge \/ Small(A(2)) + Small(A(3)) > Len(f.ret) THEN Fail(st)
                  ELSE CopyOp(st, f, 3, Small(A(1)), Small(A(2)), Small(A(3)), f.ret, 0)
    [] op = 63 -> LET a == Mask160(A(1)) IN
         IF f.gas < AccessA(st, a) THEN Fail(st)
         ELSE Do(WarmA(st, a), f, 1, <<IF Dead(st.w, a) THEN Zero ELSE KeccakW(Acc(st.w, a).c)>>, AccessA(st, a))
    [] op = 64 -> Do(st, f, 1, <<BlockHash(st, A(1))>>, 20)
    [] op = 65 -> Do(st, f, 0, <<blk.coinbase>>, 2)
    [] op = 66 -> Do(st, f, 0, <<W(blk.time)>>, 2)
    [] op = 67 -> Do(st, f, 0, <<W(blk.number)>>, 2)
    [] op = 68 -> Do(st, f, 0, <<blk.random>>, 2)
    [] op = 69 -> Do(st, f, 0, <<W(blk.limit)>>, 2)
    [] op = 70 -> Do(st, f, 0, <<W(blk.chain)>>, 2)
    [] op = 71 -> Do(st, f, 0, <<Acc(st.w, f.self).b>>, 5)
    [] op = 72 -> Do(st, f, 0, <<blk.base>>, 2)
    [] op = 73 -> LET i == Small(A(1)) IN Do(st, f, 1, <<IF i < Len(tx.blobs) THEN tx.blobs[i + 1] ELSE Zero>>, 3)
    [] op = 74 -> Do(st, f, 0, <<blk.blobbase>>, 2)
    [] op = 80 -> Do(st, f, 1, <<>>, 2)
    [] op = 81 -> LET o == Small(A(1)) size == Reach(f.mem, o, 32) IN
         IF size < 0 THEN Fail(st)
         ELSE DoMem(st, f, 1, <<OfBytes(Slice(f.mem, o, 32))>>, 3, size, 0, <<>>)
    [] op = 82 -> LET o == Small(A(1)) IN DoMem(st, f, 2, <<>>, 3, Reach(f.mem, o, 32), o, Bytes32(A(2)))
    [] op = 83 -> LET o == Small(A(1)) IN DoMem(st, f, 2, <<>>, 3, Reach(f.mem, o, 1), o, <<At(A(2), 1)>>)
    [] op = 84 -> Do(WarmS(st, f.self, A(1)), f, 1, <<Load(Acc(st.w, f.self), A(1))>>,
                     IF <<f.self, A(1)>> \in st.sub.ws THEN 100 ELSE 2100)
    [] op = 85 -> SStore(st, f, A(1), A(2))
    [] op = 86 -> IF f.gas < 8 \/ ~JumpOk(f.code, Small(A(1))) THEN Fail(st)
                  ELSE SetTop(st, [f EXCEPT !.stk = SubSeq(@, 1, n - 1), !.gas = @ - 8, !.pc = Small(A(1))])
    [] op = 87 -> IF f.gas < 10 THEN Fail(st)
                  ELSE IF A(2) = Zero THEN Do(st, f, 2, <<>>, 10)
                  ELSE IF ~JumpOk(f.code, Small(A(1))) THEN Fail(st)
                  ELSE SetTop(st, [f EXCEPT !.stk = SubSeq(@, 1, n - 2), !.gas = @ - 10, !.pc = Small(A(1))])
    [] op = 88 -> Do(st, f, 0, <<W(f.pc)>>, 2)
    [] op = 89 -> Do(st, f, 0, <<W(Len(f.mem))>>, 2)
    [] op = 90 -> Do(st, f, 0, <<W(f.gas - 2)>>, 2)
    [] op = 91 -> Do(st, f, 0, <<>>, 1)
    [] op = 92 -> Do(st, f, 1, <<TLoad(st, f.self, A(1))>>, 100)
    [] op = 93 -> IF f.static THEN Fail(st)
                  ELSE Do([st EXCEPT !.sub.tr = (<<f.self, A(1)>> :> A(2)) @@ @], f, 2, <<>>, 100)
    [] op = 94 ->
         LET d == Small(A(1)) o == Small(A(2)) l == Small(A(3))
             s1 == Reach(f.mem, d, l) s2 == Reach(f.mem, o, l)
         IN IF s1 < 0 \/ s2 < 0 THEN Fail(st)
            ELSE DoMem(st, f, 3, <<>>, 3 + 3 * Words32(l), Max2(s1, s2), d, Slice(f.mem, o, l))
    [] op = 95 -> Do(st, f, 0, <<Zero>>, 2)
    [] op \in 96..127 ->
         LET k == op - 95 IN
         IF f.gas < 3 THEN Fail(st)
         ELSE SetTop(st, [f EXCEPT !.stk = Append(@, OfBytes(Slice(f.code, f.pc + 1, k))), !.gas = @ - 3, !.pc = @ + 1 + k])
    [] op \in 128..143 -> Do(st, f, 0, <<A(op - 127)>>, 3)
    [] op \in 144..159 ->
         LET k == op - 142 IN
         IF f.gas < 3 THEN Fail(st)
         ELSE SetTop(st, [f EXCEPT !.stk = [@ EXCEPT ![n] = A(k), ![n + 1 - k] = A(1)], !.gas = @ - 3, !.pc = @ + 1])
    [] op \in 160..164 ->
         LET k == op - 160 o == Small(A(1)) l == Small(A(2)) size == Reach(f.mem, o, l)
         IN IF f.static \/ size < 0 THEN Fail(st)
            ELSE LET data == Slice(Grown(f.mem, size), o, l)
                     lg == [a |-> f.self, t |-> [i \in 1..k |-> A(2 + i)], d |-> data]
                     c == 375 * (k + 1) + 8 * l
                 IN IF f.gas < c + GrowCost(f.mem, size) THEN Fail(st)
                    ELSE DoMem([st EXCEPT !.sub.logs = Append(@, lg)], f, 2 + k, <<>>, c, size, 0, <<>>)
    [] op = 240 -> DoCreate(st, f, A(1), Small(A(2)), Small(A(3)), Zero, FALSE)
    [] op = 245 -> DoCreate(st, f, A(1), Small(A(2)), Small(A(3)), A(4), TRUE)
    [] op = 241 -> LET a == Mask160(A(2)) IN
         DoCall(st, f, "CALL", A(1), a, A(3), a, f.self, A(3), f.static, Small(A(4)), Small(A(5)), Small(A(6)), Small(A(7)), 7)
    [] op = 242 -> LET a == Mask160(A(2)) IN
         DoCall(st, f, "CALLCODE", A(1), a, A(3), f.self, f.self, A(3), f.static, Small(A(4)), Small(A(5)), Small(A(6)), Small(A(7)), 7)
    [] op = 244 -> LET a == Mask160(A(2)) IN
         DoCall(st, f, "DELEGATECALL", A(1), a, Zero, f.self, f.caller, f.val, f.static, Small(A(3)), Small(A(4)), Small(A(5)), Small(A(6)), 6)
    [] op = 250 -> LET a == Mask160(A(2)) IN
         DoCall(st, f, "STATICCALL", A(1), a, Zero, a, f.self, Zero, TRUE, Small(A(3)), Small(A(4)), Small(A(5)), Small(A(6)), 6)
    [] op \in {243, 253} ->
         LET o == Small(A(1)) l == Small(A(2)) size == Reach(f.mem, o, l) IN
         IF size < 0 THEN Fail(st)
         ELSE IF f.gas < GrowCost(f.mem, size) THEN Fail(st)
         ELSE Finish(st, IF op = 243 THEN "ok" ELSE "revert", Slice(Grown(f.mem, size), o, l), f.gas - GrowCost(f.mem, size))
    [] op = 255 -> SelfDestruct(st, f, Mask160(A(1)))

-----------------------------------------------------------------------------
(* Transactions.                                                               *)
IsCreate(tx) == tx.create
CountZero(d) == FoldLeft(LAMBDA acc, b : IF b = 0 THEN acc + 1 ELSE acc, 0, d)
Intrinsic(tx) ==
  LET z == CountZero(tx.data) IN
  21000 + 4 * z + 16 * (Len(tx.data) - z)
  + (IF IsCreate(tx) THEN 32000 + 2 * Words32(Len(tx.data)) ELSE 0)
  + FoldLeft(LAMBDA acc, e : acc + 2400 + 1900 * Len(e[2]), 0, tx.al)
Price(tx, base) == IF tx.type <= 1 THEN tx.price
                   ELSE IF Lt(tx.price, AddN(base, tx.tip)) THEN tx.price ELSE AddN(base, tx.tip)
BlobFee(tx, blk) == IF tx.type = 3 THEN MulN(W(131072 * Len(tx.blobs)), blk.blobbase) ELSE Zero
(* Whether the transaction may be in a block at all. *)
Valid(st, tx) ==
  LET blk == st.case.blk
      me == Acc(st.w, tx.from)
      need == AddN(AddN(MulInt(tx.price, tx.gas), tx.val), BlobFee(tx, blk))
  IN /\ Intrinsic(tx) <= tx.gas
     /\ tx.gas <= blk.limit
     /\ me.n = tx.nonce /\ me.c = <<>>
     /\ Le(blk.base, tx.price)
     /\ tx.type <= 1 \/ Le(tx.tip, tx.price)
     /\ Le(need, me.b)
     /\ tx.chain \in {-1, blk.chain}
     /\ IsCreate(tx) => Len(tx.data) <= 49152

BeginTx(st) ==
  LET blk == st.case.blk
      i == st.txi + 1
      tx == st.case.txs[i]
      price == Price(tx, blk.base)
      cost == AddN(MulInt(price, tx.gas), BlobFee(tx, blk))
      w1 == SubBal(st.w, tx.from, cost)
      w2 == Put(w1, tx.from, [Acc(w1, tx.from) EXCEPT !.n = @ + 1])
      to == IF IsCreate(tx) THEN CreateAddr(tx.from, tx.nonce) ELSE tx.to
      sub == [NoSub EXCEPT !.wa = Precompiles \cup {tx.from, to, blk.coinbase} \cup { tx.al[j][1] : j \in 1..Len(tx.al) },
                           !.ws = UNION { { <<tx.al[j][1], tx.al[j][2][k]>> : k \in 1..Len(tx.al[j][2]) } : j \in 1..Len(tx.al) }]
      g == tx.gas - Intrinsic(tx)
      st1 == [st EXCEPT !.txi = i, !.phase = "run", !.w = w2, !.w0 = w2, !.sub = sub, !.price = price, !.fr = <<>>]
      sn == Snap(st1)
      w3 == Move(w2, tx.from, to, tx.val)
      pre == Precompile(to, tx.data, g)
  IN IF ~Valid(st, tx)
     THEN [st EXCEPT !.txi = i, !.phase = "end", !.price = price, !.last = [ok |-> FALSE, gas |-> tx.gas], !.sub = NoSub, !.bad = TRUE]
     ELSE IF IsCreate(tx)
     THEN IF Collides(w2, to) THEN EndTx(st1, FALSE, 0)
          ELSE LET st2 == NewContract(st1, tx.from, to, tx.val)
               IN [st2 EXCEPT !.fr = <<Frame("txcreate", tx.data, to, tx.from, tx.val, <<>>, FALSE, g, 0, 0, sn)>>]
     ELSE LET st2 == [st1 EXCEPT !.w = w3,
                                 !.fr = <<Frame("tx", Acc(w2, to).c, to, tx.from, tx.val, tx.data, FALSE, g, 0, 0, sn)>>]
          IN IF to \in Precompiles THEN Finish(st2, IF pre.ok THEN "ok" ELSE "fail", pre.out, g - pre.gas) ELSE st2

(* Refund, fees, deletions and the receipt. *)
EndOfTx(st) ==
  LET blk == st.case.blk
      tx == st.case.txs[st.txi]
      used == tx.gas - st.last.gas
      ref == IF st.last.ok \/ st.sub.ref > 0 THEN Min2(used \div 5, st.sub.ref) ELSE 0
      u == used - ref
      w1 == AddBal(st.w, tx.from, MulInt(st.price, tx.gas - u))
      w2 == AddBal(w1, blk.coinbase, MulInt(SubN(st.price, blk.base), u))
      w3 == Clean([a \in DOMAIN w2 \ st.sub.sd |-> w2[a]])
      cum == st.cum + u
      rec == [type |-> tx.type, ok |-> st.last.ok, cum |-> cum, logs |-> IF st.last.ok THEN st.sub.logs ELSE <<>>]
  IN IF st.bad
     THEN [st EXCEPT !.phase = "begin", !.bad = FALSE,
                     !.outs = Append(@, [w |-> st.w, rec |-> [type |-> tx.type, ok |-> FALSE, cum |-> st.cum, logs |-> <<>>], valid |-> FALSE])]
     ELSE [st EXCEPT !.phase = "begin", !.w = w3, !.cum = cum, !.sub = NoSub,
                     !.outs = Append(@, [w |-> w3, rec |-> rec, valid |-> TRUE])]

EndBlock(st) ==
  LET w1 == FoldLeft(LAMBDA w, x : AddBal(w, x[1], x[2]), st.w, st.case.wds)
  IN [st EXCEPT !.phase = "done", !.w = Clean(w1)]

(* EIP-4788: the parent beacon root goes into a ring buffer before the first transaction. *)
BeaconRoot(w, blk) ==
  IF Beacon \notin DOMAIN w THEN w
  ELSE LET i == blk.time % 8191
       IN Put(w, Beacon, Store(Store(w[Beacon], W(i), W(blk.time)), W(i + 8191), blk.beaconroot))

Start(case) ==
  [case |-> case, phase |-> "begin", txi |-> 0, w |-> BeaconRoot(case.pre, case.blk), w0 |-> case.pre, sub |-> NoSub,
   fr |-> <<>>, price |-> Zero, cum |-> 0, last |-> [ok |-> TRUE, gas |-> 0], outs |-> <<>>, bad |-> FALSE]

Advance(st) ==
  CASE st.phase = "begin" -> IF st.txi < Len(st.case.txs) THEN BeginTx(st) ELSE EndBlock(st)
    [] st.phase = "run" -> Exec(st)
    [] st.phase = "end" -> EndOfTx(st)

(* Blocks are numbered; the number determines the block, except that 0 stands for a random one. *)
CONSTANT CaseAt(_), FirstCase, LastCase
Init == s \in [phase : {"new"}, id : FirstCase..LastCase] /\ step = 0
Setup == s.phase = "new" /\ \E c \in {CaseAt(s.id)} : s' = Start(c) @@ [id |-> s.id]
Run == s.phase \notin {"new", "done"} /\ s' = Advance(s)
Next == (Setup \/ Run) /\ step' = step + 1
Spec == Init /\ [][Next]_evmvars
View == <<s.id, step>>

-----------------------------------------------------------------------------
(* What must hold in every state, whatever the program. *)
On == s.phase # "new"
SumBal(w) == FoldSet(LAMBDA a, acc : AddN(acc, w[a].b), Zero, DOMAIN w)
StackBound == On => \A i \in 1..Len(s.fr) : Len(s.fr[i].stk) <= 1024
GasBound == On => \A i \in 1..Len(s.fr) : s.fr[i].gas >= 0
MemAligned == On => \A i \in 1..Len(s.fr) : Len(s.fr[i].mem) % 32 = 0
(* No value appears from nowhere; inside a transaction none is lost unless a contract destroys itself. *)
NoMint == s.phase \in {"run", "end"} /\ ~s.bad => Le(SumBal(s.w), SumBal(s.w0))
Conserve == s.phase = "run" /\ s.sub.sd = {} => SumBal(s.w) = SumBal(s.w0)
(* A static frame sees the state it started from, and so do its descendants. *)
StaticSame == On => \A i \in 1..Len(s.fr) : s.fr[i].static =>
   /\ s.fr[i].snap.w = s.w /\ s.fr[i].snap.sub.logs = s.sub.logs /\ s.fr[i].snap.sub.tr = s.sub.tr
   /\ s.fr[i].snap.sub.sd = s.sub.sd
NoncesGrow == On => \A a \in DOMAIN s.w0 : Acc(s.w, a).n >= s.w0[a].n
NoEmptyAccounts == s.phase \in {"begin", "done"} => \A a \in DOMAIN s.w : ~Dead(s.w, a)
NoZeroSlots == On => \A a \in DOMAIN s.w : \A k \in DOMAIN s.w[a].s : s.w[a].s[k] # Zero
(* A whole transaction gives back at most a fifth. *)
Receipts == On => \A i \in 1..Len(s.outs) :
   LET r == s.outs[i].rec
       before == IF i = 1 THEN 0 ELSE s.outs[i-1].rec.cum
       tx == s.case.txs[i]
   IN IF s.outs[i].valid THEN r.cum - before <= tx.gas /\ 5 * (r.cum - before) >= 4 * Intrinsic(tx)
      ELSE r.cum = before
=============================================================================
