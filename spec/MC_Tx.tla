-------------------------------- MODULE MC_Tx --------------------------------
(* C01, C02, C03: the wire format.  Serialising and parsing are inverse, the     *)
(* layout is the stated one (checked field by field at computed offsets), every   *)
(* truncation and extension is refused, every one-byte corruption that is still   *)
(* accepted reads as another transaction with the same bytes (or a shorter        *)
(* canonical form of them).                                                        *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

Id(k) == HexText([i \in 1..32 |-> (k * 37 + i) % 256])
N4(k) == <<k, k + 1, k + 2, k + 3>>
Scripts == {<<>>, <<81>>, <<1, 2>>} \cup (IF Deep THEN {<<255>>, Rep(7, 253)} ELSE {})
Ins1 == {In(Id(i), N4(i), s, q, NONE, ZERO64) : i \in {1}, s \in Scripts, q \in {MAX32, N4(60)}}
Outs1 == {Out(v, s) : v \in {U64(9), Rep(254, 8)}, s \in Scripts}
\* sequences of up to n elements: the first from S, the others from R
SeqsUpTo(S, R, n) == {<<>>} \cup (IF n >= 1 THEN {<<x>> : x \in S} ELSE {}) \cup (IF n >= 2 THEN {<<x, y>> : x \in S, y \in R} ELSE {})
Ins2  == {In(Id(2), N4(7), <<>>, N4(0), NONE, ZERO64), In(Id(3), ZERO32, <<9, 9, 9>>, MAX32, NONE, ZERO64)}
Outs2 == {Out(ZERO64, <<>>), Out(Rep(1, 8), <<106, 1>>)}
Txs == {[ver |-> N4(1), lt |-> N4(70), ins |-> i, outs |-> o] : i \in SeqsUpTo(Ins1, Ins2, 2), o \in SeqsUpTo(Outs1, Outs2, 2)}
Many == {[ver |-> U32(2), lt |-> ZERO32, ins |-> Rep(In(Id(4), N4(1), <<>>, MAX32, NONE, ZERO64), a), outs |-> Rep(Out(U64(5), <<81>>), b)] :
           a \in {0, 252, 253, 254}, b \in {0, 1, 252, 253}}

\* all byte strings of 4 version bytes and up to 6 (7) bytes from which counts and a locktime can come
Raw == {0, 1, 253, 254, 255} \cup (IF Deep THEN {2, 41} ELSE {})

Families == {<<"tx", n>> : n \in {0, 1, 2}} \cup {<<"many">>}
            \cup (IF Prop = "C01" THEN {} ELSE {<<"raw", x, y>> : x, y \in Raw} \cup {<<"corrupt", k>> : k \in 0..7})

\* what is corrupted: one transaction with everything in it
Full == [ver |-> U32(1), lt |-> N4(9), ins |-> <<In(Id(1), N4(3), <<81, 82>>, MAX32, NONE, ZERO64), In(Id(2), ZERO32, <<>>, N4(5), NONE, ZERO64)>>,
         outs |-> <<Out(U64(7), <<>>), Out(Rep(3, 8), <<1, 5>>)>>]
FullBytes == TxBytes(Full)

Byts == IF Deep THEN 0..255 ELSE {0, 1, 2, 3, 5, 127, 252, 253, 254, 255}
CasesOf(f) ==
  CASE f[1] = "tx"   -> {<<"tx", t>> : t \in {x \in Txs : Len(x.ins) = f[2]}}
    [] f[1] = "many" -> {<<"tx", t>> : t \in Many}
    [] f[1] = "raw"  -> {<<"b", <<1, 0, 0, 0, f[2], f[3], a, b, c, d>>>> : a, b, c, d \in Raw} \cup {<<"b", <<1, 0, 0, 0, f[2], f[3], a, b, c>>>> : a, b, c \in Raw}
    [] f[1] = "corrupt" -> {<<"b", [FullBytes EXCEPT ![p] = x]>> : p \in {q \in 1..Len(FullBytes) : q % 8 = f[2]}, x \in Byts}
                           \cup {<<"b", Take(FullBytes, p - 1) \o Drop(FullBytes, p)>> : p \in {q \in 1..Len(FullBytes) : q % 8 = f[2]}}
                           \cup {<<"b", Take(FullBytes, p) \o <<x>> \o Drop(FullBytes, p)>> : p \in {q \in 1..Len(FullBytes) : q % 8 = f[2]}, x \in {0, 1, 253}}

\* fields as the wire carries them
Wire(tx) == [tx EXCEPT !.ins = [i \in 1..Len(tx.ins) |-> [tx.ins[i] EXCEPT !.prev = NONE, !.sat = ZERO64]]]
CountLen(n) == IF n < 253 THEN 1 ELSE 3
InLen(in) == 36 + CountLen(Len(in.unl)) + Len(in.unl) + 4
OutLen(o) == 8 + CountLen(Len(o.lock)) + Len(o.lock)
Sum(s, F(_)) == FoldLeft(LAMBDA a, x : a + F(x), 0, s)
\* the layout, at offsets computed from the lengths of what comes before
Layout(tx, b) ==
  LET ni == Len(tx.ins) no == Len(tx.outs)
      inAt(i) == 4 + CountLen(ni) + Sum(Take(tx.ins, i - 1), InLen)
      o0 == 4 + CountLen(ni) + Sum(tx.ins, InLen)
      outAt(i) == o0 + CountLen(no) + Sum(Take(tx.outs, i - 1), OutLen)
  IN /\ Len(b) = o0 + CountLen(no) + Sum(tx.outs, OutLen) + 4
     /\ Take(b, 4) = tx.ver /\ Drop(b, Len(b) - 4) = tx.lt
     /\ b[5] = (IF ni < 253 THEN ni ELSE 253)
     /\ \A i \in 1..Min2(ni, 3) :
          LET in == tx.ins[i] p == inAt(i) IN
          /\ \A k \in 1..32 : b[p + k] = UnHex(in.txid)[33 - k]
          /\ Slice(b, p + 32, 4) = in.vout
          /\ b[p + 37] = (IF Len(in.unl) < 253 THEN Len(in.unl) ELSE 253)
          /\ Slice(b, p + 36 + CountLen(Len(in.unl)), Len(in.unl)) = in.unl
          /\ Slice(b, p + InLen(in) - 4, 4) = in.seq
     /\ \A i \in 1..Min2(no, 3) :
          LET o == tx.outs[i] p == outAt(i) IN
          /\ Slice(b, p, 8) = o.sat
          /\ Slice(b, p + 8 + CountLen(Len(o.lock)), Len(o.lock)) = o.lock

Refused(b) == ~ParseTx(b).ok
LawT(tx) ==
  LET b == TxBytes(tx) p == ParseTx(b) IN
  /\ Layout(tx, b)
  /\ p.ok /\ p.tx = Wire(tx)
  /\ Refused(b \o <<0>>) /\ Refused(Tail(b))
  /\ \A k \in (IF Len(b) < 400 THEN 0..(Len(b) - 1) ELSE {0, 5, 9, 10, 50, Len(b) - 5, Len(b) - 4, Len(b) - 1}) : Refused(Take(b, k))
  \* the same with counts in a longer form: accepted, and canonical again when serialised
  /\ LET w == Take(b, 4) \o <<254>> \o U32(Len(tx.ins)) \o Drop(b, 4 + CountLen(Len(tx.ins)))
     IN ParseTx(w).ok /\ TxBytes(ParseTx(w).tx) = b
  /\ LET cl == TxBytesCleared(tx, 0, <<5>>) q == ParseTx(cl)
     IN q.ok /\ q.tx = [Wire(tx) EXCEPT !.ins = [i \in 1..Len(tx.ins) |-> [Wire(tx).ins[i] EXCEPT !.unl = IF i = 1 THEN <<5>> ELSE <<>>]]]

\* any byte string: what is accepted is exactly what some transaction serialises to, up to the form of counts and lengths
LawB(b) == LET p == ParseTx(b) IN p.ok =>
  LET c == TxBytes(p.tx) IN
  /\ Len(c) <= Len(b)
  /\ Len(c) = Len(b) => c = b
  /\ ParseTx(c).ok /\ ParseTx(c).tx = p.tx
  /\ Take(c, 4) = Take(b, 4) /\ Drop(c, Len(c) - 4) = Drop(b, Len(b) - 4)

Law(f, c) == IF c[1] = "tx" THEN LawT(c[2]) ELSE LawB(c[2])

CallsOf(f, c) ==
  IF c[1] = "tx" THEN
    LET b == TxBytes(c[2]) h == PlanHex(b) IN
    IF f[1] = "many" /\ Prop # "C01" THEN <<Call("tx_rt", [b |-> h]), Call("tx_rt", [b |-> PlanHex(Take(b, Len(b) - 1))])>>
    ELSE IF Prop = "C01" THEN <<Call("tx_ser", [tx |-> RTx(c[2])])>> \o (IF c[2].ins # <<>> THEN <<Call("tx_clear", [tx |-> RTx(c[2]), i |-> Len(c[2].ins) - 1, s |-> "0155"])>> ELSE <<>>)
    ELSE <<Call("tx_parse", [b |-> h])>> \o [k \in 1..(Len(b) \div 7) |-> Call("tx_parse", [b |-> PlanHex(Take(b, 7 * k - 1))])]
  ELSE <<Call(IF Prop = "C03" THEN "tx_parse" ELSE "tx_rt", [b |-> Hex(c[2])])>>

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
