---------------------------------- MODULE Alu ----------------------------------
(* The operations that the processor of the zkEVM delegates to other tables:      *)
(* arithmetic, logic, and moving up to 32 bytes between memory and one word.       *)
(* A behaviour performs the operations of one case on a few operands, one in a     *)
(* step; what a table may claim about operands is what the step yields.            *)
EXTENDS Curves, TLC, Json, IOUtils
CONSTANTS Operands(_),        \* the operands of a case: [a, b, m: words, sh: amount to shift, z: a seed]
          FirstCase, LastCase,
          Packs,              \* how many byte sequences are moved in each case
          Pack(_, _),         \* the j-th of them with a seed: [read, ctx, seg, virt, time, bytes]
          Out
VARIABLES id, k, did
vars == <<id, k, did>>

SubMod(a, b, m) == Mod(AddN(Mod(a, m), SubN(m, Mod(b, m))), m)
Two(op, a, b) ==
  CASE op = "Add" -> Add(a, b) [] op = "Mul" -> Mul(a, b) [] op = "Sub" -> Sub(a, b)
    [] op = "Div" -> Div(a, b) [] op = "Mod" -> Mod(a, b)
    [] op = "Lt" -> Bool(Lt(a, b)) [] op = "Gt" -> Bool(Lt(b, a))
    [] op = "Byte" -> ByteOf(a, b) [] op = "Shl" -> Shl(a, b) [] op = "Shr" -> Shr(a, b)
    [] op = "AddFp254" -> AddMod(a, b, BnP) [] op = "MulFp254" -> MulMod(a, b, BnP) [] op = "SubFp254" -> SubMod(a, b, BnP)
    [] op = "And" -> WAnd(a, b) [] op = "Or" -> WOr(a, b) [] op = "Xor" -> WXor(a, b)
Three(op, a, b, m) ==
  CASE op = "AddMod" -> AddMod(a, b, m) [] op = "MulMod" -> MulMod(a, b, m)
    [] op = "SubMod" -> IF m = Zero THEN Zero ELSE SubMod(a, b, m)

TwoOps == <<"Add", "Mul", "Sub", "Div", "Mod", "Lt", "Gt", "Byte", "Shl", "Shr", "AddFp254", "MulFp254", "SubFp254", "And", "Or", "Xor">>
ThreeOps == <<"AddMod", "MulMod", "SubMod">>
N2 == Len(TwoOps)
N3 == Len(ThreeOps)
Total == N2 + N3 + Packs

(* The shift by sh as the processor looks it up. *)
Power(sh) == Shl(sh, One)
Do(x, i) ==
  IF i <= N2
  THEN LET op == TwoOps[i]
           a == IF op \in {"Byte", "Shl", "Shr"} THEN x.sh ELSE x.a
       IN [op |-> op, in |-> <<a, x.b, IF op \in {"Shl", "Shr"} THEN Power(a) ELSE Zero>>, out |-> Two(op, a, x.b)]
  ELSE IF i <= N2 + N3
  THEN LET op == ThreeOps[i - N2]
           b == IF op = "SubMod" THEN Mod(x.b, x.m) ELSE x.b    \* the kernel subtracts reduced numbers only
       IN [op |-> op, in |-> <<x.a, b, x.m>>, out |-> Three(op, x.a, b, x.m)]
  ELSE LET p == Pack(x.z, i - N2 - N3)
           n == Len(p.bytes)
       IN p @@ [op |-> "Pack", out |-> OfBytes(p.bytes), mem |-> [j \in 1..n |-> <<p.virt + j - 1, p.bytes[j]>>]]

Init == id \in FirstCase..LastCase /\ k = 0 /\ did = <<>>
Next == k < Total /\ k' = k + 1 /\ did' = <<Do(Operands(id), k + 1)>> /\ UNCHANGED id

(* Laws: results are words; they determine the operands as in the integers. *)
D == did[1]
a_ == D.in[1]
b_ == D.in[2]
m_ == D.in[3]
IsWord(w) == Len(w) <= 32 /\ Norm(w) = w
Laws == k = 0 \/
  /\ IsWord(D.out)
  /\ CASE D.op = "Add" -> AddN(a_, b_) \in {D.out, AddN(D.out, Zeros(32) \o <<1>>)}
       [] D.op = "Sub" -> Add(D.out, b_) = a_
       [] D.op = "Div" -> IF b_ = Zero THEN D.out = Zero ELSE ~Lt(a_, MulN(D.out, b_)) /\ Lt(SubN(a_, MulN(D.out, b_)), b_)
       [] D.op = "Mod" -> IF b_ = Zero THEN D.out = Zero ELSE Lt(D.out, b_) /\ AddN(MulN(Div(a_, b_), b_), D.out) = a_
       [] D.op = "Lt" -> (D.out = One) = (a_ # b_ /\ ~Lt(b_, a_))
       [] D.op = "Byte" -> Len(D.out) <= 1
       [] D.op = "Shl" -> D.out = Mul(b_, m_)
       [] D.op = "Shr" -> D.out = Div(b_, m_)
       [] D.op \in {"AddMod", "MulMod"} -> (m_ = Zero /\ D.out = Zero) \/ Lt(D.out, m_)
       [] D.op = "SubMod" -> (m_ = Zero /\ D.out = Zero) \/ (Lt(D.out, m_) /\ Mod(AddN(D.out, b_), m_) = Mod(a_, m_))
       [] D.op \in {"AddFp254", "MulFp254"} -> Lt(D.out, BnP)
       [] D.op = "SubFp254" -> Lt(D.out, BnP) /\ Mod(AddN(D.out, b_), BnP) = Mod(a_, BnP)
       [] D.op = "Or" -> AddN(D.out, WAnd(a_, b_)) = AddN(a_, b_)
       [] D.op = "Xor" -> AddN(D.out, MulInt(WAnd(a_, b_), 2)) = AddN(a_, b_)
       [] D.op = "Pack" -> \A j \in 1..Len(D.bytes) : At(D.out, Len(D.bytes) + 1 - j) = D.bytes[j]
       [] OTHER -> TRUE
Emit == Out = "" \/ k = 0 \/ PrintT(ToJson(D @@ [id |-> id]))
================================================================================
