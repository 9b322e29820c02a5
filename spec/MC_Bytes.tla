------------------------------ MODULE MC_Bytes ------------------------------
(* C24: reversal, little-endian numbers, comparison, sorting, 32-byte decoding,   *)
(* over every short string of telling bytes.                                       *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

Tell == {0, 1, 127, 128, 255}
RECURSIVE Strs(_, _)
Strs(A, n) == IF n = 0 THEN {<<>>} ELSE LET S == Strs(A, n - 1) IN S \cup {Append(s, a) : s \in {x \in S : Len(x) = n - 1}, a \in A}
Short == Strs(Tell, 2)
Strings == {<<>>, <<0>>, <<0, 0>>, <<1>>, <<127>>, <<128>>, <<128, 0>>, <<255>>, <<0, 255>>, <<1, 0>>, <<1, 2, 3>>}
HexChars == {48, 49, 57, 97, 102, 65, 70, 103, 32}
Lists(n) == [1..n -> Strings]

Families == {<<"rev", k>> : k \in 0..9} \cup {<<"hex", n>> : n \in 0..3} \cup {<<"le", b>> : b \in Tell} \cup {<<"eq", a>> : a \in Short} \cup {<<"sort", x>> : x \in Strings} \cup {<<"long", n>> : n \in {8, 17, 64}} \cup {<<"dec", n>> : n \in {0, 1, 62, 63, 64, 65, 66, 70, 128}}
CasesOf(f) ==
  CASE f[1] = "rev"  -> {<<"rev", s>> : s \in (IF f[2] < 5 THEN {x \in Strs(IF Deep THEN Tell ELSE {0, 1, 255}, 4) : Len(x) = f[2]} ELSE {[i \in 1..n |-> (i * 7 + n) % 256] : n \in {f[2], 16 * f[2] - 1, 16 * f[2]}})}
    [] f[1] = "hex"  -> {<<"hex", s>> : s \in {x \in Strs(HexChars, 3) : Len(x) = f[2]}} \cup {<<"hex", HexText([i \in 1..n |-> (i * 17 + f[2]) % 256])>> : n \in {2, 3, 16, 32, 33}}
                        \cup {<<"hex", Drop(HexText([i \in 1..n |-> (i * 17 + f[2]) % 256]), 1)>> : n \in {2, 3, 16, 32, 33}}
    [] f[1] = "le"   -> {<<"le", <<f[2], x, y, z>>, l>> : x, y, z \in (IF Deep THEN Tell ELSE {0, 255}), l \in {4, 5, 8, 32}} \cup {<<"le", <<f[2], 1, 2, 3>>, l>> : l \in 4..40}
    [] f[1] = "eq"   -> {<<"eq", f[2], b>> : b \in Short} \cup {<<"eq", f[2] \o t, f[2] \o u>> : t, u \in {Rep(0, 5), Rep(0, 6), Rep(0, 4) \o <<1>>, <<1, 0, 0, 0, 0>>}}
    [] f[1] = "sort" -> {<<"sort", <<f[2]>> \o l>> : l \in UNION {Lists(n) : n \in 0..(IF Deep THEN 3 ELSE 2)}} \cup (IF f[2] = <<>> THEN {<<"sort", <<>>>>} ELSE {})
    [] f[1] = "long" -> {<<"sort", [i \in 1..f[2] |-> [j \in 1..((i * k) % 5) |-> (i * k + j) % 7]]>> : k \in 1..(IF Deep THEN 60 ELSE 12)}
                        \cup {<<"sort", [i \in 1..f[2] |-> <<f[2] - i>>]>>, <<"sort", [i \in 1..f[2] |-> <<i>>]>>, <<"sort", [i \in 1..f[2] |-> Rep(200, 32) \o <<(i * 5) % 11>>]>>, <<"sort", [i \in 1..f[2] |-> Rep(i % 2, (i * 3) % 70)]>>}
    [] f[1] = "dec"  -> {<<"dec", [i \in 1..f[2] |-> c]>> : c \in {48, 97, 70}} \cup {<<"dec", [[i \in 1..f[2] |-> 49] EXCEPT ![k] = c]>> : k \in {1, 2, 31, 63, 64, 65, 66} \cap 1..f[2], c \in {103, 71, 32, 47, 58, 64, 96, 102, 0}}

Count(l, x) == Cardinality({i \in 1..Len(l) : l[i] = x})
LawSort(l) == LET s == SortBytes(l) IN
   /\ Len(s) = Len(l) /\ \A i \in 1..Len(l) : Count(s, l[i]) = Count(l, l[i])
   /\ \A i \in 1..(Len(s) - 1) : BytesLeq(s[i], s[i + 1])
\* lexicographic, by definition: at the first difference, or by length
Less(a, b) == \E n \in 0..Min2(Len(a), Len(b)) : Take(a, n) = Take(b, n) /\ IF n = Len(a) THEN Len(b) > n ELSE n < Len(b) /\ a[n + 1] < b[n + 1]
LawEq(a, b) == BytesLeq(a, b) <=> (a = b \/ Less(a, b))
LawHex(t) == LET r == B(Exp("revhex", [t |-> Hex(t)]).v) IN
   /\ Len(r) = Len(t) + (Len(t) % 2)
   /\ IsHex(t) => UnHex(r) = Rev(UnHex(t))
   /\ (Len(t) % 2 = 0) => B(Exp("revhex", [t |-> Hex(r)]).v) = t
Law(f, c) == CASE c[1] = "rev" -> Rev(Rev(c[2])) = c[2] /\ Len(Rev(c[2])) = Len(c[2]) /\ \A i \in 1..Len(c[2]) : Rev(c[2])[i] = c[2][Len(c[2]) + 1 - i]
               [] c[1] = "hex" -> LawHex(c[2]) [] c[1] = "eq" -> LawEq(c[2], c[3]) [] c[1] = "sort" -> LawSort(c[2]) [] OTHER -> TRUE
CallsOf(f, c) ==
  CASE c[1] = "rev" -> <<Call("rev", [b |-> Hex(c[2])])>> [] c[1] = "hex" -> <<Call("revhex", [t |-> Hex(c[2])])>>
    [] c[1] = "le" -> <<Call("le", [v |-> Hex(c[2]), l |-> c[3]])>> [] c[1] = "eq" -> <<Call("eq", [x |-> Hex(c[2]), y |-> Hex(c[3])])>>
    [] c[1] = "sort" -> <<Call("sort", [l |-> [i \in 1..Len(c[2]) |-> Hex(c[2][i])]])>> [] c[1] = "dec" -> <<Call("dec32", [t |-> Hex(c[2])])>>

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
