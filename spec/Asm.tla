--------------------------------- MODULE Asm ---------------------------------
(* EVM code from mnemonics.                                                     *)
EXTENDS Keccak
Ops == [STOP |-> 0, ADD |-> 1, MUL |-> 2, SUB |-> 3, DIV |-> 4, SDIV |-> 5, MOD |-> 6, SMOD |-> 7, ADDMOD |-> 8,
  MULMOD |-> 9, EXP |-> 10, SIGNEXTEND |-> 11, LT |-> 16, GT |-> 17, SLT |-> 18, SGT |-> 19, EQ |-> 20,
  ISZERO |-> 21, AND |-> 22, OR |-> 23, XOR |-> 24, NOT |-> 25, BYTE |-> 26, SHL |-> 27, SHR |-> 28, SAR |-> 29,
  SHA3 |-> 32, ADDRESS |-> 48, BALANCE |-> 49, ORIGIN |-> 50, CALLER |-> 51, CALLVALUE |-> 52, CALLDATALOAD |-> 53,
  CALLDATASIZE |-> 54, CALLDATACOPY |-> 55, CODESIZE |-> 56, CODECOPY |-> 57, GASPRICE |-> 58, EXTCODESIZE |-> 59,
  EXTCODECOPY |-> 60, RETURNDATASIZE |-> 61, RETURNDATACOPY |-> 62, EXTCODEHASH |-> 63, BLOCKHASH |-> 64,
  COINBASE |-> 65, TIMESTAMP |-> 66, NUMBER |-> 67, PREVRANDAO |-> 68, GASLIMIT |-> 69, CHAINID |-> 70,
  SELFBALANCE |-> 71, BASEFEE |-> 72, BLOBHASH |-> 73, BLOBBASEFEE |-> 74, POP |-> 80, MLOAD |-> 81, MSTORE |-> 82,
  MSTORE8 |-> 83, SLOAD |-> 84, SSTORE |-> 85, JUMP |-> 86, JUMPI |-> 87, PC |-> 88, MSIZE |-> 89, GAS |-> 90,
  JUMPDEST |-> 91, TLOAD |-> 92, TSTORE |-> 93, MCOPY |-> 94, PUSH0 |-> 95, LOG0 |-> 160, LOG1 |-> 161, LOG2 |-> 162,
  LOG3 |-> 163, LOG4 |-> 164, CREATE |-> 240, CALL |-> 241, CALLCODE |-> 242, RETURN |-> 243, DELEGATECALL |-> 244,
  CREATE2 |-> 245, STATICCALL |-> 250, REVERT |-> 253, INVALID |-> 254, SELFDESTRUCT |-> 255]
O(name) == <<Ops[name]>>
Dup(n) == <<127 + n>>
Swap(n) == <<143 + n>>
(* Shortest push of a word. *)
Push(w) == IF w = Zero THEN <<95>> ELSE <<95 + Len(w)>> \o BytesMin(w)
PushI(n) == Push(W(n))
PushN(n, w) == <<95 + n>> \o [i \in 1..n |-> At(w, n + 1 - i)]
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
SStoreI(k, v) == PushI(v) \o PushI(k) \o O("SSTORE")
(* Store the word on the stack's top. *)
SaveTo(k) == PushI(k) \o O("SSTORE")
(* Memory from offset 0 := the given bytes (any length), by 32-byte stores. *)
Mem(bytes) ==
  LET n == (Len(bytes) + 31) \div 32
      chunk(j) == [i \in 1..32 |-> IF 32 * j + i <= Len(bytes) THEN bytes[32 * j + i] ELSE 0]
  IN Cat([j \in 1..n |-> PushN(32, OfBytes(chunk(j - 1))) \o PushI(32 * (j - 1)) \o O("MSTORE")])
(* Init code that deploys the given code. *)
Deploy(code) ==
  LET tail == PushI(0) \o O("RETURN")
      head(k) == PushN(2, W(Len(code))) \o Dup(1) \o PushN(2, W(k)) \o PushI(0) \o O("CODECOPY") \o tail
  IN head(Len(head(0))) \o code
(* CALL with everything constant; leaves the success flag. *)
CallI(gas, to, val, inl, outo, outl) ==
  PushI(outl) \o PushI(outo) \o PushI(inl) \o PushI(0) \o PushI(val) \o Push(to) \o gas \o O("CALL")
(* Evaluate expressions (each pushes one word) into memory words 0, 1, ... and log them. *)
Collect(exprs) ==
  Cat([j \in 1..Len(exprs) |-> exprs[j] \o PushI(32 * (j - 1)) \o O("MSTORE")])
  \o PushI(32 * Len(exprs)) \o PushI(0) \o O("LOG0")
=============================================================================
