------------------------------ MODULE MC_Address ------------------------------
(* C18, C19: Base58Check addresses and BIP276 strings.  Every string one slip     *)
(* away from a good one, and every good one, with what they must be read as.       *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

Hashes == {Rep(0, 20), Rep(255, 20), Rep(0, 19) \o <<1>>, <<0, 0, 7>> \o Rep(9, 17), [i \in 1..20 |-> (i * 31 + 5) % 256]}
          \cup (IF Deep THEN {<<k>> \o Rep(k, 19) : k \in {1, 2, 57, 58, 127, 128}} \cup {[i \in 1..20 |-> (i * k) % 256] : k \in {7, 13, 91}} ELSE {})
Nets == {0, 111}
Payload(n, h) == <<n>> \o h
Good(n, h) == Base58Check(Payload(n, h))
AlphaPlus == {Alphabet[i] : i \in 1..58} \cup {48, 73, 79, 108, 32, 10, 0, 43, 195, 255}
Few(c) == {Alphabet[1], Alphabet[2], Alphabet[58], 48, 108, 32} \cup {IF CharVal[c] = 57 \/ CharVal[c] < 0 THEN 50 ELSE Alphabet[CharVal[c] + 2]}

\* conversion by definition: the value of a digit string, and its digits
DefVal(t) == FoldLeft(LAMBDA a, c : BigAdd(MulDigitC(a, 58), BigOf(CharVal[c])), <<>>, t)
LawB58(b) == LET t == Base58(b) IN
   /\ IsBase58(t) /\ UnBase58(t) = b
   /\ Lead(t, 49) = Lead(b, 0)
   /\ DefVal(t) = BigBE(b)
   /\ t # <<>> => ~IsBase58([t EXCEPT ![1] = 48])
   /\ (b # <<>> /\ ~IsZero(b)) => UnBase58(<<49>> \o t) = <<0>> \o b

Bips == {<<p, n, v, d>> : p \in {Ascii("bitcoin-script"), Ascii("a"), Ascii("bitcoin-script:x"), Ascii(" "), Ascii("bitcoin-template")}, n \in {1, 2, 9, 10, 16, 171, 255}, v \in {1, 2, 160, 255}, d \in {<<>>, <<0>>, <<1, 2>>, <<171, 205, 239>>, Rep(255, 40)}}
BipText(c) == BipEncode(c[1], c[2], c[3], c[4])
BipBase == {<<Ascii("bitcoin-script"), 1, 1, <<>>>>, <<Ascii("bitcoin-script"), 1, 2, <<171, 9>>>>, <<Ascii("a"), 16, 171, <<0>>>>}

FamA == {<<"b58", k>> : k \in 0..7} \cup {<<"good", n>> : n \in 0..255} \cup {<<"slip", n, h>> : n \in Nets, h \in Hashes} \cup {<<"len", k>> : k \in 0..30} \cup {<<"odd">>, <<"bip", 0>>} \cup {<<"pub">>}
FamB == {<<"enc", n>> : n \in {-255, -1, 0, 1, 2, 15, 16, 17, 127, 128, 170, 254, 255, 256, 257, 511, 65537}} \cup {<<"dec", c>> : c \in {x \in Bips : x[4] \in {<<>>, <<1, 2>>}}} \cup {<<"bslip", c>> : c \in BipBase} \cup {<<"shape">>}
Families == IF Prop = "C18" THEN FamA ELSE FamB
K1 == Rep(1, 32)
CasesOf(f) ==
  CASE f[1] = "b58"  -> {<<"b58", Rep(0, f[2]) \o x>> : x \in {<<>>, <<1>>, <<57>>, <<58>>, <<255>>, <<1, 0>>, <<13, 36>>, <<13, 35>>, <<255, 255, 255>>, Rep(255, 33), <<1>> \o Rep(0, 24), Rep(97, 60)}}
    [] f[1] = "good" -> IF f[2] \in Nets THEN {<<"addr", Good(f[2], h)>> : h \in Hashes} \cup {<<"pkh", h, f[2] = 0>> : h \in Hashes}
                        ELSE {<<"addr", Good(f[2], [i \in 1..20 |-> i])>>}
    [] f[1] = "slip" -> LET t == Good(f[2], f[3]) IN
          {<<"addr", [t EXCEPT ![p] = c]>> : p \in 1..Len(t), c \in (IF Deep THEN AlphaPlus ELSE Few(t[(Len(t) + 1) \div 2]))}
          \cup {<<"addr", [t EXCEPT ![p] = IF @ \in 97..122 THEN @ - 32 ELSE IF @ \in 65..90 THEN @ + 32 ELSE 49]>> : p \in 1..Len(t)}      \* case
          \cup {<<"addr", Take(t, p - 1) \o Drop(t, p)>> : p \in 1..Len(t)}                                          \* one left out
          \cup {<<"addr", Take(t, p) \o <<t[p]>> \o Drop(t, p)>> : p \in 1..Len(t)}                                    \* one twice
          \cup {<<"addr", Take(t, p - 1) \o <<t[p + 1], t[p]>> \o Drop(t, p + 1)>> : p \in 1..(Len(t) - 1)}              \* two swapped
          \cup {<<"addr", Take(t, p) \o <<c>> \o Drop(t, p)>> : p \in {0, 1, Len(t)}, c \in {49, 50, 32, 10, 48}}
          \cup {<<"addr", Take(t, p)>> : p \in 0..Len(t)} \cup {<<"addr", Drop(t, p)>> : p \in 1..Len(t)} \cup {<<"addr", t \o t>>}
    [] f[1] = "len"  -> {<<"addr", Base58Check(<<n>> \o Rep(k, f[2]))>> : n \in Nets, k \in {0, 5, 255}}
    [] f[1] = "odd"  -> {<<"addr", x>> : x \in {<<>>, <<49>>, Rep(49, 25), Rep(49, 26), Rep(49, 34), Rep(122, 34), Base58(Payload(0, Rep(7, 20)) \o Rep(0, 4)), Base58(Payload(0, Rep(7, 20)) \o Rev(Checksum(Payload(0, Rep(7, 20))))),
                                          Base58(Payload(0, Rep(7, 20)) \o Take(SHA256(Payload(0, Rep(7, 20))), 4)), Base58(Payload(0, Rep(7, 20))), Ascii("bitcoin-script:"), Ascii("bitcoin-script:0101")}}
                        \cup {<<"addr", Base58(LET p == Payload(0, Rep(7, 20)) IN [p \o Checksum(p) EXCEPT ![k] = (@ + d) % 256])>> : k \in 1..25, d \in {1, 128, 255}}
    [] f[1] = "pub"  -> {<<"pub", t, m>> : t \in {HexText(PubFromPriv(K1)), <<>>, Ascii("0"), Ascii("zz"), HexText(Rep(4, 65)), Ascii("02AB")}, m \in BOOLEAN} \cup {<<"key", k, m>> : k \in {K1, Rep(0, 31) \o <<1>>}, m \in BOOLEAN}
    [] f[1] = "bip"  -> {<<"bipv", c>> : c \in {x \in Bips : x[4] \in {<<>>, <<171, 205, 239>>}}}
    [] f[1] = "enc"  -> {<<"enc", p, f[2], v, d>> : p \in {Ascii("bitcoin-script"), Ascii("a:b")}, v \in {-1, 0, 1, 2, 16, 255, 256}, d \in {<<>>, <<0>>, <<171, 205>>}}
    [] f[1] = "dec"  -> {<<"dec", BipText(f[2])>>, <<"dec", BipPayload(f[2][1], f[2][3], f[2][2], f[2][4]) \o BipSum(BipPayload(f[2][1], f[2][2], f[2][3], f[2][4]))>>}
                        \cup {<<"dec", BipEncode(f[2][1], n, v, f[2][4])>> : n \in {0, f[2][2]}, v \in {0, f[2][3]}}
    [] f[1] = "bslip" -> LET t == BipText(f[2]) n == Len(t) IN
          {<<"dec", [t EXCEPT ![p] = c]>> : p \in 1..n, c \in {48, 49, 57, 97, 102, 103, 65, 70, 58, 32, 45, 195} \cup (IF Deep THEN 32..126 ELSE {})}
          \cup {<<"dec", Take(t, p - 1) \o Drop(t, p)>> : p \in 1..n} \cup {<<"dec", Take(t, p) \o <<t[p]>> \o Drop(t, p)>> : p \in 1..n}
          \cup {<<"dec", Take(t, p - 1) \o <<t[p + 1], t[p]>> \o Drop(t, p + 1)>> : p \in 1..(n - 1)}
          \cup {<<"dec", Take(t, p)>> : p \in 0..n} \cup {<<"dec", Drop(t, p)>> : p \in 0..n} \cup {<<"dec", t \o x>> : x \in {<<48>>, <<48, 48>>, <<32>>, <<10>>, t}} \cup {<<"dec", <<x>> \o t>> : x \in {48, 32, 58}}
    [] f[1] = "shape" -> {<<"dec", p \o <<58>> \o b \o BipSum(p \o <<58>> \o b)>> : p \in {Ascii("a"), Ascii("bitcoin-script"), Ascii("a:0101")}, b \in {<<>>, Ascii("0"), Ascii("01"), Ascii("010"), Ascii("0101"), Ascii("01010"), Ascii("010101"), Ascii("0000"), Ascii("ffff00"), Ascii("zzzz"), Ascii("01 1")}}

LawAddr(t) == AddressOK(t) <=> \E n \in Nets : LET h == AddressHash(t) IN IsBase58(t) /\ Len(h) = 20 /\ Len(t) <= 40 /\ Len(UnBase58(t)) = 25 /\ t = Good(n, h)
LawSlip(f, t) == f[1] = "slip" => (AddressOK(t) <=> t = Good(f[2], f[3]))
LawDec(t) == LET r == BipParse(t) IN r.ok => (r.open \/ BipText(<<r.prefix, r.net, r.ver, r.data>>) = t)
LawBip(c) == LET r == BipParse(BipText(c)) IN r.ok /\ r.prefix = c[1] /\ r.net = c[2] /\ r.ver = c[3] /\ r.data = c[4] /\ (StartsWith(c[1], Ascii("bitcoin-script:")) \/ c[1] = Ascii("bitcoin-script") => TextValid(BipText(c)))
LawBSlip(f, t) == f[1] = "bslip" => (BipParse(t).ok => BipParse(t).open \/ t = BipText(f[2]))
Law(f, c) == CASE c[1] = "b58" -> LawB58(c[2]) [] c[1] = "addr" -> LawAddr(c[2]) /\ LawSlip(f, c[2])
               [] c[1] = "pkh" -> AddressOK(AddressOf(c[2], c[3])) /\ AddressHash(AddressOf(c[2], c[3])) = c[2]
               [] c[1] = "dec" -> LawDec(c[2]) /\ LawBSlip(f, c[2]) [] c[1] = "bipv" -> LawBip(c[2]) [] OTHER -> TRUE
CallsOf(f, c) ==
  CASE c[1] = "b58"  -> <<Call("b58cm", [b |-> Hex(c[2])])>>
    [] c[1] = "addr" -> <<Call("addr_parse", [t |-> Hex(c[2])]), Call("addr_valid", [t |-> Hex(c[2])]), Call("c_addr", [t |-> Hex(c[2])])>>
    [] c[1] = "pkh"  -> <<Call("addr_pkh", [h |-> Hex(c[2]), main |-> c[3]])>>
    [] c[1] = "pub"  -> <<Call("addr_pub", [t |-> Hex(c[2]), main |-> c[3]])>>
    [] c[1] = "key"  -> <<Call("addr_key", [priv |-> Hex(c[2]), main |-> c[3]])>>
    [] c[1] = "bipv" -> <<Call("addr_valid", [t |-> Hex(BipText(c[2]))])>>
    [] c[1] = "enc"  -> <<Call("bip_enc", [p |-> Hex(c[2]), n |-> c[3], v |-> c[4], d |-> Hex(c[5])])>>
    [] c[1] = "dec"  -> <<Call("bip_dec", [t |-> Hex(c[2])]), Call("addr_valid", [t |-> Hex(c[2])])>>

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
