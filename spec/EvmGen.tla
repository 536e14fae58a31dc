------------------------------- MODULE EvmGen -------------------------------
(* Building blocks of the worlds, blocks and transactions that the cases use.    *)
EXTENDS EvmOut

Key(i) == OfBytes(<<
  <<126,95,69,82,9,26,105,18,93,93,252,183,184,194,101,144,41,57,91,223>>,
  <<43,90,213,196,121,92,2,101,20,248,49,124,122,33,94,33,141,204,214,207>>,
  <<104,19,235,147,98,55,46,239,98,0,243,177,219,195,248,25,103,28,186,105>>,
  <<30,255,71,188,58,16,164,93,75,35,11,93,16,227,119,81,254,106,167,24>>>>[i])
(* Contract addresses and others. *)
Ct(i) == OfBytes([k \in 1..20 |-> IF k = 20 THEN i ELSE IF k = 19 THEN 192 ELSE 17])
Coin == OfBytes([k \in 1..20 |-> IF k = 1 THEN 203 ELSE k])
Fresh(i) == OfBytes([k \in 1..20 |-> IF k = 20 THEN i ELSE 238])
Ether == OfBytes(<<13, 224, 182, 179, 167, 100, 0, 0>>)
Gwei == W(1000000000)
Rich == MulInt(Ether, 100)

Pick(S) == RandomElement(S)
PickSeq(q) == q[RandomElement(1..Len(q))]
RandByte == RandomElement(0..255)
RandBytes(n) == [i \in 1..n |-> RandomElement(0..255)]

User(n, b) == [n |-> n, b |-> b, c |-> <<>>, s |-> NoStore]
Contract(code) == [n |-> 1, b |-> Zero, c |-> code, s |-> NoStore]
ContractB(code, b) == [n |-> 1, b |-> b, c |-> code, s |-> NoStore]
ContractS(code, b, st) == [n |-> 1, b |-> b, c |-> code, s |-> st]
BeaconAcc == [n |-> 1, b |-> Zero, c |-> <<254>>, s |-> NoStore]
Users == [a \in {Key(1), Key(2), Key(3), Key(4)} |-> User(0, Rich)] @@ (Beacon :> BeaconAcc)

HashWord(i) == OfBytes([k \in 1..32 |-> (i * 7 + k * 11) % 256])
Block0 == [number |-> 1000, time |-> 12345, coinbase |-> Coin, random |-> HashWord(900), limit |-> 30000000, chain |-> 1,
           base |-> W(7), excess |-> 0, blobbase |-> One, beaconroot |-> HashWord(901), hash |-> [i \in 1..256 |-> HashWord(i)]]
(* EIP-4844: fake_exponential(1, excess, 3338477). *)
BlobBase(excess) ==
  LET d == W(3338477)
      RECURSIVE go(_, _, _)
      go(i, acc, sum) == IF acc = Zero THEN Div(sum, d) ELSE go(i + 1, Div(MulN(acc, W(excess)), MulInt(d, i)), AddN(sum, acc))
  IN go(1, d, Zero)
Tx(from, nonce, gas, to, val, data) ==
  [type |-> 0, from |-> from, nonce |-> nonce, price |-> W(10), tip |-> Zero, gas |-> gas, create |-> FALSE, to |-> to,
   val |-> val, data |-> data, al |-> <<>>, blobs |-> <<>>, chain |-> 1]
TxNew(from, nonce, gas, val, data) == [Tx(from, nonce, gas, Zero, val, data) EXCEPT !.create = TRUE]
Case(pre, blk, txs) == [pre |-> pre, blk |-> blk, txs |-> txs, wds |-> <<>>]
(* One transaction after the other from the first user, with running nonces. *)
Nonced(txs) == [i \in 1..Len(txs) |-> [txs[i] EXCEPT !.from = Key(1), !.nonce = i - 1]]
OutEnv == IF "OUT" \in DOMAIN IOEnv THEN IOEnv.OUT ELSE ""
=============================================================================
