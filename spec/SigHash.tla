------------------------------ MODULE SigHash ------------------------------
(* The replay-protected ("FORKID") signature hash.  idx is 0-based, flag a     *)
(* byte.                                                                        *)
EXTENDS TxCodec

ANYONECANPAY(flag) == flag >= 128
BaseType(flag) == flag % 32
IsNone(flag)   == BaseType(flag) = 2
IsSingle(flag) == BaseType(flag) = 3
DefaultFlag == 65                                 \* ALL | FORKID

ZERO256 == Rep(0, 32)

HashPrevouts(tx, flag) == IF ANYONECANPAY(flag) THEN ZERO256 ELSE SHA256d(Concat(Map(Outpoint, tx.ins)))
HashSequence(tx, flag) ==
  IF ANYONECANPAY(flag) \/ IsNone(flag) \/ IsSingle(flag) THEN ZERO256
  ELSE SHA256d(Concat([i \in 1..Len(tx.ins) |-> tx.ins[i].seq]))
HashOutputs(tx, idx, flag) ==
  IF IsSingle(flag) THEN (IF idx < Len(tx.outs) THEN SHA256d(OutBytes(tx.outs[idx + 1])) ELSE ZERO256)
  ELSE IF IsNone(flag) THEN ZERO256
  ELSE SHA256d(Concat(Map(OutBytes, tx.outs)))

SigPreimage(tx, idx, flag) ==
  LET in == tx.ins[idx + 1]
  IN tx.ver \o HashPrevouts(tx, flag) \o HashSequence(tx, flag) \o Outpoint(in) \o WithLen(in.prev[1]) \o in.sat
     \o in.seq \o HashOutputs(tx, idx, flag) \o tx.lt \o <<flag, 0, 0, 0>>

CanHash(tx, idx) == idx \in 0..(Len(tx.ins) - 1) /\ tx.ins[idx + 1].txid # <<>> /\ tx.ins[idx + 1].prev # NONE
Digest(tx, idx, flag) == SHA256d(SigPreimage(tx, idx, flag))   \* what is signed
SigHashOf(tx, idx, flag) == Rev(Digest(tx, idx, flag))         \* what the library returns

(* What a signature covers, stated independently of the serialisation: two     *)
(* transactions look the same to a signature of input idx iff Covered is equal. *)
Covered(tx, idx, flag) ==
  LET in == tx.ins[idx + 1]
      n  == Len(tx.ins)
  IN [own  |-> <<UnHex(in.txid), in.vout, in.prev[1], in.sat, in.seq>>,
      ver  |-> tx.ver, lt |-> tx.lt,
      pts  |-> IF ANYONECANPAY(flag) THEN <<>> ELSE [i \in 1..n |-> <<UnHex(tx.ins[i].txid), tx.ins[i].vout>>],
      seqs |-> IF ANYONECANPAY(flag) \/ IsNone(flag) \/ IsSingle(flag) THEN <<>> ELSE [i \in 1..n |-> tx.ins[i].seq],
      outs |-> IF IsNone(flag) THEN <<>>
               ELSE IF IsSingle(flag) THEN (IF idx < Len(tx.outs) THEN <<tx.outs[idx + 1]>> ELSE <<>>)
               ELSE tx.outs]

(* an unlocking script installed by signing input idx with key pub            *)
ValidUnlock(tx, idx, flag, pub, s) ==
  /\ Len(s) > 0 /\ s[1] \in 9..73 /\ Len(s) = s[1] + 35
  /\ LET n == s[1]
     IN /\ s = <<n>> \o Slice(s, 1, n - 1) \o <<flag>> \o <<33>> \o pub
        /\ EcdsaVerify(pub, Digest(tx, idx, flag), Slice(s, 1, n - 1))
=============================================================================
