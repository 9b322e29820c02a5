------------------------------ MODULE TxCodec ------------------------------
(* Transactions and their wire format.                                         *)
(*   tx  : [ver, ins, outs, lt]                                                 *)
(*   in  : [txid (text), vout, unl, seq, prev (<<>> or <<script>>), sat]        *)
(*   out : [sat, lock]                                                          *)
EXTENDS VarInt

NONE == <<>>
Some(x) == <<x>>

In(txid, vout, unl, seq, prev, sat) == [txid |-> txid, vout |-> vout, unl |-> unl, seq |-> seq, prev |-> prev, sat |-> sat]
Out(sat, lock) == [sat |-> sat, lock |-> lock]
EmptyTx == [ver |-> U32(1), ins |-> <<>>, outs |-> <<>>, lt |-> ZERO32]

Outpoint(in) == Rev(UnHex(in.txid)) \o in.vout
InBytes(in)      == Outpoint(in) \o WithLen(in.unl) \o in.seq
InBytesClear(in) == Outpoint(in) \o WithLen(<<>>) \o in.seq
InBytesWith(in, s) == Outpoint(in) \o WithLen(s) \o in.seq
OutBytes(out)    == out.sat \o WithLen(out.lock)

Map(F(_), s) == Each(LAMBDA i : F(s[i]), Len(s))

TxBytesOf(tx, ins) == tx.ver \o VarIntOf(Len(tx.ins)) \o Concat(ins)
                      \o VarIntOf(Len(tx.outs)) \o Concat(Map(OutBytes, tx.outs)) \o tx.lt
TxBytes(tx)        == TxBytesOf(tx, Map(InBytes, tx.ins))
TxBytesCleared(tx, idx, s) ==
  TxBytesOf(tx, [i \in 1..Len(tx.ins) |-> IF i - 1 = idx THEN InBytesWith(tx.ins[i], s) ELSE InBytesClear(tx.ins[i])])
TxId(tx) == HexText(Rev(SHA256d(TxBytes(tx))))

(* parsing, at offset o of b; n = bytes consumed *)
BadIn  == [ok |-> FALSE]
InAt(b, o) ==
  IF Len(b) < o + 36 THEN [ok |-> FALSE]
  ELSE LET l == VarIntAt(b, o + 36)
           rest == Len(b) - o - 36 - l.n
           n == CapLE(l.v, Max2(rest, 0))
       IN IF l.n = 0 \/ n + 4 > rest THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, n |-> 36 + l.n + n + 4,
                in |-> In(HexText(Rev(Slice(b, o, 32))), Slice(b, o + 32, 4), Slice(b, o + 36 + l.n, n),
                          Slice(b, o + 36 + l.n + n, 4), NONE, ZERO64)]
OutAt(b, o) ==
  IF Len(b) < o + 8 THEN [ok |-> FALSE]
  ELSE LET l == VarIntAt(b, o + 8)
           rest == Len(b) - o - 8 - l.n
           n == CapLE(l.v, Max2(rest, 0))
       IN IF l.n = 0 \/ n > rest THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, n |-> 8 + l.n + n, out |-> Out(Slice(b, o, 8), Slice(b, o + 8 + l.n, n))]

\* k items that At reads one after another from offset o
Items(At(_, _), b, o, k) ==
  FoldLeft(LAMBDA s, i : IF ~s.ok THEN s
                         ELSE LET r == At(b, s.o) IN IF r.ok THEN [ok |-> TRUE, o |-> s.o + r.n, v |-> Append(s.v, r.x)]
                                                     ELSE [s EXCEPT !.ok = FALSE],
           [ok |-> TRUE, o |-> o, v |-> <<>>], Rep(0, k))
InsAt(b, o, k)  == Items(LAMBDA c, p : LET r == InAt(c, p) IN IF r.ok THEN [ok |-> TRUE, n |-> r.n, x |-> r.in] ELSE r, b, o, k)
OutsAt(b, o, k) == Items(LAMBDA c, p : LET r == OutAt(c, p) IN IF r.ok THEN [ok |-> TRUE, n |-> r.n, x |-> r.out] ELSE r, b, o, k)

Fail == [ok |-> FALSE]
ParseTx(b) ==
  IF Len(b) < 10 THEN Fail
  ELSE LET ic == VarIntAt(b, 4)
           in == CapLE(ic.v, Len(b))
       IN IF ic.n = 0 \/ in > Len(b) THEN Fail
          ELSE LET is == InsAt(b, 4 + ic.n, in)
               IN IF ~is.ok THEN Fail
                  ELSE LET oc == VarIntAt(b, is.o)
                           on == CapLE(oc.v, Len(b))
                       IN IF oc.n = 0 \/ on > Len(b) THEN Fail
                          ELSE LET os == OutsAt(b, is.o + oc.n, on)
                               IN IF ~os.ok \/ Len(b) # os.o + 4 THEN Fail
                                  ELSE [ok |-> TRUE, tx |-> [ver |-> Take(b, 4), ins |-> is.v, outs |-> os.v,
                                                             lt |-> Slice(b, os.o, 4)]]

TotalOut(tx) == FoldLeft(LAMBDA a, o : AddLE(a, o.sat), ZERO64, tx.outs)

ZeroTxid == Rep(48, 64)
IsCoinbaseTx(tx) == Len(tx.ins) = 1 /\ tx.ins[1].txid = ZeroTxid /\ (tx.ins[1].vout = MAX32 \/ tx.ins[1].seq = MAX32)
=============================================================================
