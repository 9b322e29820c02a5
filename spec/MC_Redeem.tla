------------------------------ MODULE MC_Redeem ------------------------------
(* C20: one redeem script per set of keys, whatever their order; Electrum scripts *)
(* one edit away from a good one; extended keys and paths one edit away.           *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

\* public keys that differ in every way sorting may get wrong
Keys == <<<<2>> \o Rep(5, 32), <<3>> \o Rep(5, 32), <<2>> \o Rep(5, 31) \o <<6>>, <<3>> \o Rep(0, 32), <<2>> \o Rep(255, 32), <<2, 6>> \o Rep(0, 31), <<2>> \o Rep(127, 31) \o <<128>>>>
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
Sets == {S \in SUBSET (1..Len(Keys)) : Cardinality(S) <= (IF Deep THEN 5 ELSE 4)}

\* extended keys
P(k) == PubFromPriv(Rep(k, 32))
Xpub(d, c, k) == <<4, 136, 178, 30, d>> \o Rep(3, 4) \o <<0, 0, 0, 9>> \o Rep(c, 32) \o P(k)
Xprv(d, c, k) == <<4, 136, 173, 228, d>> \o Rep(3, 4) \o <<0, 0, 0, 9>> \o Rep(c, 32) \o <<0>> \o Rep(k, 32)
XText(x) == Base58(x \o Checksum(x))
I4(n) == Rev(U32(n))
Hard == <<128, 0, 0, 0>>
El(x, i, j) == <<255>> \o x \o LE(i, 2) \o LE(j, 2)
ES(m, l, n) == <<80 + m>> \o Concat([i \in 1..Len(l) |-> Push(l[i])]) \o <<80 + n, 174>>
E1 == El(Xpub(0, 1, 1), 0, 7)
E2 == El(Xpub(3, 2, 2), 1, 300)
E3 == El(Xprv(0, 3, 3), 65535, 0)
Bases == <<ES(2, <<E1, E2>>, 2), ES(2, <<E1, E2, E3>>, 3), ES(3, <<E2>>, 1)>>

Families == {<<"set", S>> : S \in Sets \ {{}}} \cup {<<"count", n>> : n \in 0..17} \cup {<<"edit", k>> : k \in 1..Len(Bases)} \cup {<<"mn", m>> : m \in 0..17} \cup {<<"el", k>> : k \in 1..3} \cup {<<"path">>, <<"xk", 1>>, <<"xk", 2>>}
Spot(s) == {1, 2, 3, 4, Len(s) - 2, Len(s) - 1, Len(s)} \cap 1..Len(s)
CasesOf(f) ==
  CASE f[1] = "set"   -> {<<"perm", p, m>> : p \in Perms(f[2]), m \in {2, 1 + Cardinality(f[2])} \cap 2..16}
    [] f[1] = "count" -> {<<"many", f[2], m>> : m \in {-1, 0, 1, 2, 3, 15, 16, 17, 256, 258}}
    [] f[1] = "edit"  -> LET s == Bases[f[2]] IN
          {<<"es", [s EXCEPT ![p] = v]>> : p \in Spot(s), v \in {0, 1, 2, 76, 79, 80, 81, 82, 83, 84, 96, 97, 106, 172, 173, 174, 175, 255}}
          \cup {<<"es", Take(s, p)>> : p \in Spot(s) \cup {0, 10, 60}} \cup {<<"es", Drop(s, p)>> : p \in {1, 2}} \cup {<<"es", s \o t>> : t \in {<<0>>, <<81>>, <<172>>, <<174>>, <<1>>, s}}
          \cup {<<"es", <<t>> \o s>> : t \in {0, 81, 82, 174}}
    [] f[1] = "mn"    -> {<<"es", ES(f[2], l, n)>> : l \in {<<E1>>, <<E1, E2>>, <<E1, E2, E1>>}, n \in 0..4} \cup {<<"es", ES(f[2], [i \in 1..n |-> IF i % 2 = 0 THEN E1 ELSE E2], k)>> : n \in {15, 16, 17}, k \in {15, 16, 17}}
    [] f[1] = "el"    -> LET e == <<E1, E2, E3>>[f[2]] IN
          {<<"es", ES(2, <<E2, x>>, 2)>> : x \in {[e EXCEPT ![p] = v] : p \in {1, 2, 3, 4, 5, 6, 7, 14, 15, 46, 47, 48, 79, 80, 81, 82, 83}, v \in {0, 1, 2, 3, 4, 5, 128, 254, 255}}
                                                   \cup {Take(e, k) : k \in {0, 1, 33, 78, 79, 80, 81, 82}} \cup {Append(e, 0), e \o <<0, 0>>, <<255>> \o e, Drop(e, 1)}}
          \cup {<<"es", <<82>> \o Push(E2) \o x \o <<82, 174>>>> : x \in {<<76, 83>> \o e, <<77, 83, 0>> \o e, <<78, 83, 0, 0, 0>> \o e, <<83>> \o e, <<84>> \o e, <<82>> \o e, <<0>>, <<81>>}}
    [] f[1] = "path"  -> {<<"path", x, p>> : x \in {Xpub(0, 1, 1), Xprv(0, 1, 1), Xpub(253, 1, 1), Xpub(254, 1, 1), Xpub(255, 1, 1), Xprv(254, 4, 2)},
                             p \in {<<>>, <<I4(0)>>, <<I4(0), I4(0)>>, <<I4(1), I4(0)>>, <<I4(0), I4(1)>>, <<I4(2147483647), I4(65536)>>, <<I4(256), I4(255)>>, <<I4(0), I4(0), I4(0)>>}}
                         \cup {<<"path", x, p>> : x \in {Xpub(0, 1, 1)}, p \in {<<Hard, I4(0)>>, <<I4(0), Hard>>, <<MAX32, MAX32>>, <<I4(5), MAX32>>}}
    [] f[1] = "xk"    -> LET x == <<Xpub(0, 1, 1), Xprv(1, 2, 2)>>[f[2]] t == XText(x) IN
          {<<"key", XText([x EXCEPT ![p] = v])>> : p \in {1, 4, 5, 6, 14, 46, 47, 78}, v \in {0, 1, 2, 3, 4, 255}}
          \cup {<<"key", [t EXCEPT ![p] = IF @ = 50 THEN 51 ELSE 50]>> : p \in {1, 2, 5, 60, Len(t)}} \cup {<<"key", s>> : s \in {<<>>, Take(t, Len(t) - 1), t \o <<49>>, <<49>> \o t, <<32>> \o t, t \o <<10>>, [t EXCEPT ![9] = 48], Base58(x), Base58Check(x \o <<0>>), Base58Check(Take(x, 77)), Base58Check(Take(x, 45)), Base58Check(<<>>)}}

SetOf(p) == {p[i] : i \in 1..Len(p)}
Sorted(l) == \A i \in 1..(Len(l) - 1) : BytesLeq(l[i], l[i + 1])
LawPerm(p, m) ==
  LET ks == [i \in 1..Len(p) |-> Keys[p[i]]] s == RedeemScript([m |-> m, keys |-> ks])
      asc == [i \in 1..Len(p) |-> Keys[CHOOSE k \in SetOf(p) : Cardinality({j \in SetOf(p) : Keys[j] # Keys[k] /\ BytesLeq(Keys[j], Keys[k])}) = i - 1]]
  IN /\ s = <<80 + m>> \o Concat([i \in 1..Len(p) |-> <<33>> \o asc[i]]) \o <<80 + Len(p), 174>>
     /\ IsMultisig(s) /\ Sorted(asc) /\ SortBytes(ks) = asc
     /\ RedeemAddress([m |-> m, keys |-> ks])[1] = 51
LawEs(s) == ElectrumOK(s) =>
     LET rs == ElectrumRS(s) el == Elements(s).el IN
     /\ rs.m \in 2..16 /\ Len(rs.keys) \in 1..16 /\ Len(s) >= 3 + 84
     /\ \A i \in 1..Len(rs.keys) : Len(rs.keys[i]) = 33 /\ ValidPub(rs.keys[i])
     /\ IsMultisig(s) /\ IsMultisig(RedeemScript(rs))
Law(f, c) == CASE c[1] = "perm" -> LawPerm(c[2], c[3]) [] c[1] = "es" -> LawEs(c[2]) /\ ((\E k \in 1..Len(Bases) : Bases[k] = c[2]) => ElectrumOK(c[2])) [] OTHER -> TRUE

Ask(id) == <<Call("rs_script", [id |-> id]), Call("rs_hash", [id |-> id]), Call("rs_addr", [id |-> id])>>
Add(id, t, p) == Call("rs_add", [id |-> id, xk |-> Hex(t), path |-> [i \in 1..Len(p) |-> Hex(p[i])]])
CallsOf(f, c) ==
  CASE c[1] = "perm" -> <<Call("rs_make", [id |-> "r", m |-> c[3], keys |-> [i \in 1..Len(c[2]) |-> Hex(Keys[c[2][i]])]])>> \o Ask("r") \o <<Call("rs_script", [id |-> "r"])>>
    [] c[1] = "many" -> <<Call("rs_new", [id |-> "r", m |-> c[3]])>>
                        \o (IF c[3] \in 2..16 THEN [i \in 1..c[2] |-> Add("r", XText(Xpub(0, 1, 1)), <<I4(0), I4(c[2] - i)>>)] \o Ask("r") ELSE <<>>)
    [] c[1] = "es"   -> <<Call("electrum", [t |-> Hex(HexText(c[2]))])>>
    [] c[1] = "path" -> IF XkPriv(c[2]) /\ \E i \in 1..Len(c[3]) : Hardened(c[3][i]) THEN <<>>
                        ELSE <<Call("rs_new", [id |-> "r", m |-> 2]), Add("r", XText(Xpub(0, 1, 1)), <<I4(0), I4(3)>>), Add("r", XText(c[2]), c[3])>> \o Ask("r")
    [] c[1] = "key"  -> <<Call("rs_new", [id |-> "r", m |-> 2]), Add("r", c[2], <<I4(0), I4(3)>>)>> \o Ask("r")

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
