----------------------------- MODULE MC_Template -----------------------------
(* C07, C08: constructors and recognisers of the standard templates agree, and   *)
(* every script one edit away from a template is recognised only when it is one.  *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

H20 == [i \in 1..20 |-> i * 11 % 256]
Key33(p) == <<p>> \o [i \in 1..32 |-> (i * 5 + 3) % 256]
Key65(p) == <<p>> \o [i \in 1..64 |-> (i * 9 + 1) % 256]
Multi(m, ks, n) == <<m>> \o Concat([i \in 1..Len(ks) |-> Push(ks[i])]) \o <<n, OP_CHECKMULTISIG>>
P2PK(k) == Push(k) \o <<OP_CHECKSIG>>
P2SH(h) == <<OP_HASH160>> \o Push(h) \o <<OP_EQUAL>>

Base == <<P2PKH(H20), P2SH(H20), P2PK(Key33(2)), P2PK(Key33(3)), P2PK(Key65(4)), P2PK(Key65(6)), P2PK(Key65(7)),
          P2PK(Key33(5)), P2PK(Key65(2)), P2PK(Key33(4)), P2PK(Key65(5)),
          Multi(81, <<Key33(2)>>, 81), Multi(82, <<Key33(2), Key33(3), Key65(4)>>, 83), Multi(0, <<>>, 0), Multi(96, <<<<7>>>>, 96),
          Multi(81, <<<<7>>, <<81>>>>, 82), Multi(80, <<Key33(2)>>, 81), Multi(81, <<Key33(2)>>, 97), Multi(81, <<Key33(2)>>, 79),
          DataScript(<<<<1, 2>>, <<>>, <<3>>>>), <<OP_RETURN>> \o Push(<<1>>), <<OP_0, OP_RETURN>>, <<OP_RETURN>>, <<1, OP_RETURN>>, <<OP_1, OP_RETURN>>,
          <<1, 81, 1, 81, OP_CHECKMULTISIG>>, <<81, 76, 0, 81, OP_CHECKMULTISIG>>, <<81, 1, 81, OP_CHECKMULTISIG>>,
          <<76, 20>> \o H20, <<OP_DUP, OP_HASH160, 76, 20>> \o H20 \o <<OP_EQUALVERIFY, OP_CHECKSIG>>,
          <<OP_HASH160, 76, 20>> \o H20 \o <<OP_EQUAL>>, <<76, 33>> \o Key33(2) \o <<OP_CHECKSIG>>, <<77, 33, 0>> \o Key33(3) \o <<OP_CHECKSIG>>,
          <<78, 65, 0, 0, 0>> \o Key65(4) \o <<OP_CHECKSIG>>, P2PK(Key33(2)) \o <<OP_CHECKSIG>>, <<33>> \o Key33(2) \o <<1, OP_CHECKSIG>>,
          HashPuzzle(<<1>>, H20), <<>>, <<OP_CHECKMULTISIG>>, <<81, OP_CHECKMULTISIG>>>>

Vals(x) == IF Deep THEN 0..255 ELSE {0, 1, 2, 3, 4, 7, 19, 20, 21, 32, 33, 65, 76, 81, 96, 97, 106, 118, 135, 136, 169, 172, 174, 255, (x + 1) % 256, (x + 255) % 256}
\* edits concern the first 6 and the last 8 bytes (the rest is data)
Spots(s) == {p \in 1..Len(s) : p <= 6 \/ p > Len(s) - 8}

Families == {<<"subst", k>> : k \in 1..Len(Base)} \cup {<<"shape", k>> : k \in 1..Len(Base)} \cup (IF Prop = "C08" THEN {<<"build">>} ELSE {})
Parts3 == {<<>>, <<1>>, <<0>>, <<81>>, Rep(5, 75), Rep(6, 76), Rep(7, 255), Rep(8, 256)}
CasesOf(f) ==
  CASE f[1] = "subst" -> LET s == Base[f[2]] IN {<<"s", s>>} \cup {<<"s", [s EXCEPT ![p] = v]>> : p \in Spots(s), v \in UNION {Vals(s[q]) : q \in Spots(s)}}
    [] f[1] = "shape" -> LET s == Base[f[2]] IN
          {<<"s", Take(s, p - 1) \o Drop(s, p)>> : p \in Spots(s)}                                  \* a byte dropped
          \cup {<<"s", Take(s, p) \o <<s[p]>> \o Drop(s, p)>> : p \in Spots(s)}                    \* doubled
          \cup {<<"s", Take(s, p - 1) \o <<v>> \o Drop(s, p - 1)>> : p \in Spots(s), v \in {0, 1, 81, 97, 172}}  \* inserted
          \cup {<<"s", s \o t>> : t \in {<<v>> : v \in Vals(0)} \cup {<<172, 172>>, <<1, 172>>, <<0, 174>>}}       \* appended
          \cup {<<"s", Take(s, k)>> : k \in 0..Len(s)} \cup {<<"s", Drop(s, k)>> : k \in 0..Min2(Len(s), 8)} \cup {<<"s", s \o s>>}
          \cup (IF Deep THEN {<<"s", s \o Base[j]>> : j \in 1..Len(Base)} ELSE {})
    [] f[1] = "build" -> {<<"d", l>> : l \in {<<>>} \cup {<<x>> : x \in Parts3} \cup {<<x, y>> : x, y \in Parts3} \cup {<<x, y, x>> : x, y \in {<<>>, <<1>>, Rep(6, 76)}}}

\* declarative forms of the recognisers
LawS(s) ==
  /\ IsP2PKH(s) <=> (Len(s) = 25 /\ s = P2PKH(Slice(s, 3, 20)))
  /\ IsP2SH(s)  <=> (Len(s) = 23 /\ s = P2SH(Slice(s, 2, 20)))
  /\ IsP2PKH(s) => KeyHash(s) = Slice(s, 3, 20) /\ LET r == Elements(s) IN r.ok /\ Len(r.el) = 5
  /\ IsData(s) <=> (Len(s) >= 1 /\ s[1] = 106) \/ (Len(s) >= 2 /\ s[1] = 0 /\ s[2] = 106)
  /\ IsP2PK(s) => LET k == Elements(s).el[1].d IN Len(k) \in {33, 65} /\ s[Len(s)] = 172 /\ (AllMinimal(s) => s = P2PK(k))
  /\ IsMultisig(s) => LET el == Elements(s).el n == Len(el)
                      IN AllMinimal(s) => s = el[1].d \o Concat([i \in 1..(n - 3) |-> IF el[i + 1].op THEN el[i + 1].d ELSE Push(el[i + 1].d)]) \o el[n - 1].d \o <<174>>
  /\ ~(IsP2PKH(s) /\ IsP2SH(s)) /\ ~(IsP2PKH(s) /\ IsP2PK(s)) /\ ~(IsP2PK(s) /\ IsMultisig(s))
  /\ IsP2PK(s) \/ IsP2PKH(s) \/ IsP2SH(s) => ~IsData(s)

LawD(l) == LET s == DataScript(l) r == Elements(s)
           IN IsData(s) /\ r.ok /\ Len(r.el) = Len(l) + 2
              /\ \A i \in 1..Len(l) : IF l[i] = <<>> THEN r.el[i + 2].d = <<0>> ELSE r.el[i + 2].d = l[i]
Law(f, c) == IF c[1] = "s" THEN LawS(c[2]) ELSE LawD(c[2])

Tx(h) == Hex(HexText(h))
CallsOf(f, c) ==
  IF c[1] = "d" THEN <<Call("o_data", [l |-> [i \in 1..Len(c[2]) |-> PlanHex(c[2][i])]])>>
  ELSE IF Prop = "C07" THEN <<Call("classify", [b |-> PlanHex(c[2])])>>
  ELSE IF f[1] = "shape" THEN <<Call("c_pub", [b |-> PlanHex(c[2])]), Call("c_pkh", [t |-> Tx(Take(c[2], 25))])>> ELSE <<>>

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
