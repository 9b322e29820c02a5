------------------------------- MODULE MC_Hash -------------------------------
(* C23: SHA-256, RIPEMD-160 and HMAC-SHA-512 from their definitions equal the     *)
(* functions TLC uses for them (spec/java), on every length around the blocks.     *)
EXTENDS LibPure, Sha2, Ripemd, Emit
CONSTANT Deep
VARIABLE st

MaxLen == IF Deep THEN 260 ELSE 130
Msg(n, k) == CASE k = 1 -> [i \in 1..n |-> (i * 37 + n) % 256] [] k = 2 -> Rep(0, n) [] k = 3 -> Rep(255, n) [] k = 4 -> [i \in 1..n |-> IF i = n THEN 128 ELSE 0]
Fill == IF Deep THEN 1..4 ELSE {1, 4}
Keys == {<<>>, <<0>>, Rep(11, 20), Rep(170, 32), Rep(1, 128), Rep(2, 129), Rep(170, 131)}
\* published vectors
Vectors == << <<"s", <<>>, "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855">>,
              <<"s", Ascii("abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad">>,
              <<"s", Ascii("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"), "248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1">>,
              <<"r", <<>>, "9c1185a5c5e9fc54612808977ee8f548b2258d31">>, <<"r", Ascii("a"), "0bdc9d2d256b3ee9daae347be6f4dc835a467ffe">>,
              <<"r", Ascii("abc"), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc">>, <<"r", Ascii("message digest"), "5d0689ef49d2fae572b881b123a85ffa21595f36">>,
              <<"r", Ascii("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"), "12a053384a9c0c88e405a06c27dcf49ada62eb2b">>,
              <<"m", Rep(11, 20), Ascii("Hi There"), "87aa7cdea5ef619d4ff0b4241a1d6cb02379f4e2ce4ec2787ad0b30545e17cdedaa833b7d6b8a702038b274eaea3f4e4be9d914eeb61f1702e696c203a126854">> >>

Families == {<<"len", n>> : n \in 0..MaxLen} \cup {<<"hmac", k>> : k \in Keys} \cup {<<"vec">>, <<"const">>} \cup (IF Deep THEN {<<"long", n>> : n \in {1000, 4095, 65535}} ELSE {<<"long", 1000>>})
CasesOf(f) ==
  CASE f[1] = "len"  -> {<<"h", Msg(f[2], k)>> : k \in Fill}
    [] f[1] = "long" -> {<<"h", Msg(f[2], 1)>>}
    [] f[1] = "hmac" -> {<<"m", f[2], Msg(n, 1)>> : n \in (IF Deep THEN 0..140 ELSE {0, 1, 37, 69, 111, 112, 127, 128})}
    [] f[1] = "const" -> {<<"k", i>> : i \in 1..80} \cup {<<"i", i>> : i \in 1..8} \cup {<<"r", i>> : i \in 1..4}
    [] f[1] = "vec"  -> {<<"v", i>> : i \in 1..Len(Vectors)}
LawVec(v) == CASE v[1] = "s" -> SHA256(v[2]) = B(v[3]) [] v[1] = "r" -> RIPEMD160(v[2]) = B(v[3]) [] v[1] = "m" -> HMACSHA512(v[2], v[3]) = B(v[4])
Law(f, c) == CASE c[1] = "h" -> (Len(c[2]) <= 4095 => SHA256(c[2]) = Sha256Def(c[2]) /\ RIPEMD160(c[2]) = Ripemd160Def(c[2]))
               [] c[1] = "m" -> HMACSHA512(c[2], c[3]) = HmacSha512Def(c[2], c[3])
               [] c[1] = "k" -> K512[c[2]] = Frac64(Primes[c[2]], 3)
               [] c[1] = "i" -> H512[c[2]] = Frac64(Primes[c[2]], 2)
               [] c[1] = "r" -> KL[c[2] + 1] = Root30(Primes[c[2]], 2) /\ KR[c[2]] = Root30(Primes[c[2]], 3)
               [] c[1] = "v" -> LawVec(Vectors[c[2]])
AesKeys == {Rep(1, 16), Rep(2, 24), Rep(3, 32)}
CallsOf(f, c) == IF c[1] # "h" THEN <<>>
                 ELSE <<Call("hash", [b |-> PlanHex(c[2])])>> \o SetToSeq({Call("seal_rt", [b |-> PlanHex(c[2]), key |-> Hex(k)]) : k \in AesKeys})
                      \o (IF Len(c[2]) < 40 THEN <<Call("unseal_raw", [b |-> PlanHex(c[2])])>> ELSE <<>>)

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
