------------------------------ MODULE MC_Block ------------------------------
(* C15, C16: what the parts of a coinbase join to, and block headers.             *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

H20 == [i \in 1..20 |-> (i * 29 + 7) % 256]
Wallet(m) == AddressOf(H20, m)
Text80 == [i \in 1..120 |-> 32 + ((i * 7) % 90)]
Heights == {0, 1, 255, 256, 65535, 65536, 518847, 16777215, 16777216, 16777217, 2147483647}
TextLens == IF Deep THEN 0..110 ELSE {0, 1, 2, 3, 4, 50, 75, 82, 83, 84, 85, 86, 99, 100, 101, 110}
Values == {ZERO64, U64(1), U64(1250000000), MAX32 \o ZERO32, Rep(255, 8), <<1, 2, 3, 4, 5, 6, 7, 8>>}
\* miner ids and commitments, around the length forms
Lens == {0, 1, 25, 75, 76, 252, 253, 254, 255, 256} \cup (IF Deep THEN {65535, 65536, 65537} ELSE {65535, 65536})
Blob(n) == [i \in 1..n |-> (i * 3 + n) % 256]
Extra(k) == <<Take([i \in 1..12 |-> 160 + i], k), Drop([i \in 1..12 |-> 160 + i], k)>>

Families == IF Prop = "C16" THEN {<<"header", v>> : v \in {0, 1, 2, 536870912, 2147483647}} \cup {<<"header", -1>>}
            ELSE {<<"text", n>> : n \in TextLens} \cup {<<"out", n>> : n \in Lens} \cup {<<"bad">>}
Case(h, v, w, t, a, m, x) == [height |-> U32(h), value |-> v, wit |-> w, text |-> t, wallet |-> a, miner |-> m, e |-> Extra(x)]
Ver(v) == IF v = -1 THEN MAX32 ELSE U32(v)
H32 == {[i \in 1..32 |-> i], Rep(0, 32), Rep(255, 32), [i \in 1..32 |-> IF i = 1 THEN 9 ELSE 0], [i \in 1..32 |-> IF i = 32 THEN 9 ELSE 0]}
W32 == {ZERO32, MAX32, <<1, 2, 3, 4>>, <<0, 0, 0, 1>>, <<255, 255, 0, 29>>}
CasesOf(f) ==
  CASE f[1] = "text" -> {Case(h, U64(50), HexText(Blob(wl)), Take(Text80, f[2]), Wallet(TRUE), <<>>, x) : h \in Heights, x \in {0, 6, 8, 12}, wl \in {0, 38}}
    [] f[1] = "out"  -> {Case(518847, v, HexText(Blob(wl)), Take(Text80, 9), Wallet(m), Blob(f[2]), 8) : v \in (IF f[2] > 1000 THEN {U64(7)} ELSE Values), wl \in {0, 1, 38}, m \in BOOLEAN}
                        \cup {Case(7, U64(5), HexText(Blob(f[2])), <<>>, Wallet(TRUE), mi, 0) : mi \in {<<>>, <<81>>, Rep(7, 300)}}
    [] f[1] = "bad"  -> {Case(7, U64(5), w, <<65>>, a, <<>>, 0) : w \in {<<>>, Ascii("6"), Ascii("zz"), Ascii("6a24"), Ascii("6A24aB"), Ascii("6a 2")},
                            a \in {<<>>, Ascii("1"), Wallet(TRUE), Append(Wallet(TRUE), 49), Take(Wallet(TRUE), 33), [Wallet(FALSE) EXCEPT ![9] = IF @ = 50 THEN 51 ELSE 50], Base58Check(<<5>> \o H20), Base58Check(<<0>> \o Take(H20, 19))}}
    [] f[1] = "header" -> {<<p, r, t, b, n>> : p \in H32, r \in {Rep(3, 32), [i \in 1..32 |-> 32 - i]}, t \in W32, b \in {<<255, 255, 0, 29>>, <<29, 0, 255, 255>>}, n \in W32}
                          \cup {<<[i \in 1..32 |-> i], r, t, b, n>> : r \in {<<>>, <<1>>, Blob(40)}, t \in {<<>>, <<1, 2>>, Blob(9)}, b \in {<<>>, <<7>>}, n \in {<<>>, <<5>>, Blob(8)}}

ParsedSame(p, t) == p.ver = t.ver /\ p.lt = t.lt /\ Len(p.ins) = Len(t.ins) /\ p.outs = t.outs /\ p.ins[1].unl = t.ins[1].unl
\* a reader of coinbase transactions, written from the property's text
LawC(c) ==
  CoinbaseOK(c.wit, c.wallet) =>
  LET x == c.e[1] \o c.e[2]
      tx == CoinbaseTx(c.height, c.value, c.wit, c.text, c.wallet, c.miner, x)
      b == TxBytes(tx) p == ParseTx(b)
      s == tx.ins[1].unl
      n == 42 + Len(CoinbaseData(c.height, c.text))
  IN /\ p.ok /\ TxBytes(p.tx) = b /\ ParsedSame(p.tx, tx)
     /\ IsCoinbaseTx(p.tx) /\ Len(s) <= 100 /\ Len(s) >= 16
     /\ Take(s, 4) = <<3>> \o Take(c.height, 3)
     /\ Drop(s, Len(s) - 12) = x
     /\ LET t == Slice(s, 4, Len(s) - 16) IN StartsWith(c.text, t) /\ (Len(t) = Len(c.text) \/ Len(t) = 84)
     /\ tx.outs[1] = Out(c.value, P2PKH(H20))
     /\ Len(tx.outs) = 1 + (IF c.wit = <<>> THEN 0 ELSE 1) + (IF c.miner = <<>> THEN 0 ELSE 1)
     \* whatever the extra nonces, the parts around them are the same
     /\ Take(b, n) \o x \o Drop(b, n + 12) = b
     /\ LET y == Rep(90, 12) IN Take(b, n) \o y \o Drop(b, n + 12) = TxBytes(CoinbaseTx(c.height, c.value, c.wit, c.text, c.wallet, c.miner, y))
LawH(f, c) == LET b == Header(Ver(f[2]), c[1], c[2], c[3], c[4], c[5]) IN
   /\ Len(b) = 4 + Len(c[1]) + Len(c[2]) + Len(c[3]) + Len(c[4]) + Len(c[5])
   /\ \A i \in 1..32 : b[4 + i] = c[1][33 - i]
   /\ (Len(b) = 80 /\ Len(c[2]) = 32 /\ Len(c[3]) = 4 /\ Len(c[4]) = 4) => Slice(b, 36, 32) = c[2] /\ Slice(b, 68, 4) = c[3] /\ Slice(b, 72, 4) = c[4] /\ Slice(b, 76, 4) = c[5]
Law(f, c) == IF Prop = "C16" THEN LawH(f, c) ELSE LawC(c)

CallsOf(f, c) ==
  IF Prop = "C16" THEN <<Call("header", [ver |-> Hex(Ver(f[2])), prev |-> Hex(HexText(c[1])), root |-> Hex(c[2]), time |-> Hex(c[3]), bits |-> Hex(c[4]), nonce |-> Hex(c[5])])>>
  ELSE <<Call("coinbase", [height |-> Hex(c.height), value |-> Hex(c.value), wit |-> PlanHex(c.wit), text |-> Hex(c.text), wallet |-> Hex(c.wallet), miner |-> PlanHex(c.miner), e1 |-> Hex(c.e[1]), e2 |-> Hex(c.e[2])])>>
       \o (IF f[1] = "bad" THEN <<Call("coinbase_join", [c1 |-> Hex(c.wit), c2 |-> Hex(c.wallet), e1 |-> Hex(c.e[1]), e2 |-> Hex(c.e[2])])>> ELSE <<>>)

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
