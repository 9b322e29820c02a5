------------------------------ MODULE MC_Target ------------------------------
(* C17, C25: compact targets against their arithmetic definition, difficulty and  *)
(* hashrate against exact division, hashrate text against the unit table.          *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

\* ---- exact arithmetic, by definition --------------------------------------------
Bits(a) == IF a = <<>> THEN 0 ELSE 8 * (Len(a) - 1) + CHOOSE k \in 1..8 : a[Len(a)] < 2 ^ k /\ a[Len(a)] >= 2 ^ (k - 1)
\* the binary64 nearest to num/den (normal range; ties up: the tests need no more), 8 bytes big-endian
FloatOf(num, den) ==
  IF num = <<>> THEN Rep(0, 8)
  ELSE LET sh == 55 - (Bits(num) - Bits(den))                       \* quotient has 54 .. 56 bits
           n2 == IF sh > 0 THEN BigMul(num, BigPow2(sh)) ELSE num
           d2 == IF sh < 0 THEN BigMul(den, BigPow2(-sh)) ELSE den
           q == DivMod(n2, d2).q
           drop == Bits(q) - 53
           m0 == DivMod(BigAdd(q, BigPow2(drop - 1)), BigPow2(drop)).q
           over == Bits(m0) > 53
           m == IF over THEN DivMod(m0, <<2>>).q ELSE m0
           e == drop - sh + 52 + 1023 + (IF over THEN 1 ELSE 0)          \* exponent bits
           fr == Rev(m \o Rep(0, 7 - Len(m)))                            \* 7 bytes, implicit bit in fr[1]
       IN <<e \div 16, (e % 16) * 16 + (fr[1] % 16)>> \o Drop(fr, 1)
\* f moved by k units in the last place (k a byte string added, big-endian result)
Ulps(f, k) == Rev(AddLE(Rev(f), k))
Up(f, k) == Ulps(f, U64(k))
Down(f, k) == Ulps(f, AddLE([i \in 1..8 |-> 255 - U64(k)[i]], U64(1)))

\* ---- C17 -------------------------------------------------------------------------
Exps == 0..40 \cup {64, 127, 128, 129, 224, 254, 255}
Hi == IF Deep THEN {0, 1, 2, 15, 16, 64, 126, 127, 128, 129, 192, 254, 255} ELSE {0, 1, 127, 128, 129, 255}
Mid == IF Deep THEN {0, 1, 127, 128, 129, 254, 255} ELSE {0, 1, 128, 255}
Lo == IF Deep THEN {0, 1, 2, 3, 127, 128, 254, 255} ELSE {0, 1, 127, 255}
BadTexts == {<<>>, Ascii("1"), Ascii("1d"), Ascii("1d00ff"), Ascii("1d00fff"), Ascii("1d00fffg"), Ascii("1d00ffff0"), Ascii("1d00ffff00"), Ascii("001d00ffff"), Ascii("0x1d00ff"), Ascii(" 1d00ffff"), Ascii("1d00ffff "),
             Ascii("1d 0ffff"), Ascii("-1d00fff"), Ascii("1D00FFFF"), Ascii("1D00ffFf"), Ascii("1d00ffff1d00ffff"), Ascii("gggggggg"), Ascii("1d00\nfff"), <<195, 169, 48, 48, 48, 48, 48, 48>>, Rep(0, 8), Rep(48, 8), Rep(48, 7), Rep(102, 8), Rep(48, 64)}

\* the value, from its definition
DefMag(b) == LET m == BigBE(<<b[2] % 128, b[3], b[4]>>) e == b[1]
             IN IF e >= 3 THEN BigMul(m, BigPow2(8 * (e - 3))) ELSE DivMod(m, BigPow2(8 * (3 - e))).q
\* the canonical compact form of a magnitude
Compact(m) ==
  LET top == m[Len(m)] n == Len(m) + (IF top >= 128 THEN 1 ELSE 0)
      at(k) == IF k > Len(m) \/ k < 1 THEN 0 ELSE m[k]
  IN <<n, at(n), at(n - 1), at(n - 2)>>
CanonicalBits(b) == LET m == Magnitude(b) IN m # <<>> /\ Compact(m) = b
LawT(b) ==
  LET m == Magnitude(b) IN
  /\ m = DefMag(b) /\ m = Norm(m)
  /\ HasHexForm(b) <=> ((b[2] < 128 \/ m = <<>>) /\ BigCmp(m, BigPow2(256)) < 0)
  /\ HasHexForm(b) => Len(TargetHex(b)) = 64 /\ IsHex(TargetHex(b)) /\ BigBE(UnHex(TargetHex(b))) = m
  \* bits are canonical exactly when the mantissa uses its top byte without its sign bit, exponent in range
  /\ CanonicalBits(b) <=> (m # <<>> /\ b[2] < 128 /\ (IF b[1] >= 3 THEN BigLeq(<<0, 128>>, BitsMant(b)) ELSE
                             (b[1] = 2 /\ b[4] = 0 /\ (b[2] > 0 \/ b[3] >= 128)) \/ (b[1] = 1 /\ b[3] = 0 /\ b[4] = 0 /\ b[2] > 0)))
  /\ (m # <<>> /\ Len(m) <= 250) => Magnitude(Compact(m)) = IF Len(m) <= 3 /\ m[Len(m)] < 128 THEN m
                                     ELSE LET k == Len(m) + (IF m[Len(m)] >= 128 THEN 1 ELSE 0) - 3
                                          IN IF k <= 0 THEN m ELSE Norm(Rep(0, k) \o Drop(m, k))      \* three bytes kept
LawD(b) ==
  LET m == Magnitude(b) f == FloatOf(BaseDiffTarget, m) IN
  m # <<>> /\ Len(m) <= 32 =>
    /\ DifficultyOK(b, f) /\ DifficultyOK(b, Up(f, 1)) /\ DifficultyOK(b, Down(f, 1))
    /\ ~DifficultyOK(b, Up(f, 1024)) /\ ~DifficultyOK(b, Down(f, 1024)) /\ ~DifficultyOK(b, [f EXCEPT ![1] = 255 - @]) /\ ~DifficultyOK(b, Rep(0, 8))
    /\ BigCmp(m, BaseDiffTarget) = 0 => f = <<63, 240, 0, 0, 0, 0, 0, 0>>          \* the base target has difficulty 1.0

\* ---- C25 -------------------------------------------------------------------------
Coins == {<<>>, Ascii("BSV"), Ascii("RSV"), Ascii("R"), Ascii("r"), Ascii("rSV"), Ascii("BR"), Ascii(" R"), Ascii("bsv"), Ascii("TR"), <<0, 82>>}
Diffs == {ZERO64, U64(1), U64(22000), <<0, 0, 0, 0, 0, 0, 32, 0>>, <<1, 0, 0, 0, 0, 0, 32, 0>>, Rep(255, 8), <<0, 0, 0, 0, 0, 0, 0, 128>>}
Secs == {FloatOf(<<1>>, <<1>>), FloatOf(<<7>>, <<1>>), FloatOf(<<88, 2>>, <<1>>), FloatOf(<<1>>, <<3>>), FloatOf(<<1>>, BigPow10(9)), FloatOf(BigPow10(12), <<7>>)} \cup (IF Deep THEN {FloatOf(BigPow2(200), <<1>>), FloatOf(<<1>>, BigPow2(200)), FloatOf(<<5>>, <<2>>)} ELSE {})
DefHash(coin, diff, secs) ==
  LET base == DefMag(IF Len(coin) >= 1 /\ coin[1] = 82 THEN <<32, 127, 255, 255>> ELSE <<29, 0, 255, 255>>)
      e == FloatExp(secs)
  IN FloatOf(BigMul(BigMul(Norm(diff), BigPow2(256)), IF e < 0 THEN BigPow2(-e) ELSE <<1>>), BigMul(BigMul(base, FloatMant(secs)), IF e > 0 THEN BigPow2(e) ELSE <<1>>))
LawR(c) == LET f == DefHash(c[1], c[2], c[3]) IN
           /\ HashrateOK(c[1], c[2], c[3], f)
           /\ Norm(c[2]) # <<>> => ~HashrateOK(c[1], c[2], c[3], Up(f, 1024)) /\ ~HashrateOK(c[1], c[2], c[3], Down(f, 1024)) /\ ~HashrateOK(c[1], c[2], c[3], Rep(0, 8))

\* decimal digits of a natural number
RECURSIVE Digits(_)
Digits(a) == IF BigCmp(a, <<10>>) < 0 THEN <<48 + (IF a = <<>> THEN 0 ELSE a[1])>> ELSE LET d == DivMod(a, <<10>>) IN Digits(d.q) \o Digits(d.r)
DefScales == << <<0, "H/s">>, <<3, "kH/s">>, <<6, "MH/s">>, <<9, "GH/s">>, <<12, "TH/s">>, <<15, "PH/s">>, <<18, "EH/s">>, <<21, "ZH/s">> >>
\* num/den >= 10^k
AtLeast(f, k) == LET e == FloatExp(f) IN BigLeq(BigMul(BigPow10(k), IF e < 0 THEN BigPow2(-e) ELSE <<1>>), BigMul(FloatMant(f), IF e > 0 THEN BigPow2(e) ELSE <<1>>))
DefScale(f) == LET S == {i \in 2..8 : AtLeast(f, DefScales[i][1])} IN DefScales[IF S = {} THEN 1 ELSE Max(S)]
\* hundredths, rounded to nearest (half up)
DefHundredths(f, k) == LET e == FloatExp(f)
                           n == BigMul(MulDigitC(FloatMant(f), 200), IF e > 0 THEN BigPow2(e) ELSE <<1>>)
                           d == BigMul(BigPow10(k), IF e < 0 THEN BigPow2(-e) ELSE <<1>>)
                       IN DivMod(BigAdd(n, d), BigMul(d, <<2>>)).q
Shown(h) == LET d == Digits(h) p == Rep(48, Max2(0, 3 - Len(d))) \o d IN Take(p, Len(p) - 2) \o <<46>> \o Drop(p, Len(p) - 2)
DefHuman(f) == LET s == DefScale(f) IN Shown(DefHundredths(f, s[1])) \o <<32>> \o Ascii(s[2])
LawH(f) ==
  LET t == DefHuman(f) s == DefScale(f) h == DefHundredths(f, s[1]) IN
  /\ HumanOK(f, t)
  \* one hundredth more or less is an exact tie or wrong; two are wrong (until a hundredth is below the float's precision)
  /\ BigLeq(h, BigPow2(40)) => ~HumanOK(f, Shown(BigAdd(h, <<2>>)) \o <<32>> \o Ascii(s[2]))
  /\ (BigLeq(<<2>>, h) /\ BigLeq(h, BigPow2(40))) => ~HumanOK(f, Shown(BigSub(h, <<2>>)) \o <<32>> \o Ascii(s[2]))
  /\ \A i \in 1..8 : DefScales[i] # s => ~HumanOK(f, Shown(DefHundredths(f, DefScales[i][1])) \o <<32>> \o Ascii(DefScales[i][2]))
  /\ ~HumanOK(f, Shown(h) \o Ascii(s[2])) /\ ~HumanOK(f, Shown(h) \o <<32, 32>> \o Ascii(s[2])) /\ ~HumanOK(f, <<48>> \o t) /\ ~HumanOK(f, Append(t, 32)) /\ ~HumanOK(f, <<>>)
Nums(k) == {FloatOf(BigPow10(k), <<1>>), FloatOf(BigMul(BigPow10(k), <<9>>), <<10>>), FloatOf(BigMul(BigPow10(k), <<159, 134, 1>>), BigPow10(5)),   \* 1.00000, 0.9, 0.99999
            FloatOf(BigMul(BigPow10(k), <<65, 66, 15>>), BigPow10(6)), FloatOf(BigMul(BigPow10(k), <<3>>), <<1>>), FloatOf(BigMul(BigPow10(k), BigOf(123456)), BigPow10(5)),
            FloatOf(BigMul(BigPow10(k), BigOf(999996)), BigPow10(6)), FloatOf(BigMul(BigPow10(k), BigOf(999994)), BigPow10(6)),
            FloatOf(BigMul(BigPow10(k), <<9>>), <<1>>), FloatOf(BigMul(BigPow10(k), BigOf(1005)), BigPow10(3)), FloatOf(BigMul(BigPow10(k), BigOf(99)), BigPow10(2))}
Near(f) == {f, Up(f, 1), Down(f, 1), Up(f, 2), Down(f, 2)}

Families == IF Prop = "C17" THEN {<<"exp", e, h>> : e \in Exps, h \in Hi} \cup {<<"bad">>}
            ELSE {<<"rate", c>> : c \in Coins} \cup {<<"human", k>> : k \in 0..26} \cup {<<"small">>}
CasesOf(f) ==
  CASE f[1] = "exp"   -> {<<"bits", <<f[2], f[3], m, l>>>> : m \in Mid, l \in Lo}
    [] f[1] = "bad"   -> {<<"text", t>> : t \in BadTexts}
    [] f[1] = "rate"  -> {<<"rate", f[2], d, s>> : d \in Diffs, s \in Secs}
    [] f[1] = "human" -> {<<"human", x>> : x \in UNION {Near(y) : y \in Nums(f[2])}}
    [] f[1] = "small" -> {<<"human", x>> : x \in {Rep(0, 8), Rep(0, 7) \o <<1>>, FloatOf(<<1>>, BigPow10(3)), FloatOf(<<1>>, <<200>>), FloatOf(<<5>>, BigPow10(3)), FloatOf(<<4>>, BigPow10(3)), FloatOf(<<6>>, BigPow10(3)), FloatOf(<<1>>, <<8>>),
                                                 FloatOf(BigPow10(30), <<1>>), FloatOf(BigPow10(60), <<1>>)}}
Law(f, c) == CASE c[1] = "bits" -> LawT(c[2]) /\ ((Deep \/ (c[2][3] \in {0, 255} /\ c[2][4] \in {0, 255})) => LawD(c[2])) [] c[1] = "text" -> TRUE
               [] c[1] = "rate" -> LawR(Tail(c)) [] c[1] = "human" -> LawH(c[2])
CallsOf(f, c) ==
  CASE c[1] = "bits" -> LET t == Hex(HexText(c[2])) IN <<Call("tgt_hex", [t |-> t]), Call("tgt_int", [t |-> t]), Call("diff", [t |-> t])>>
    [] c[1] = "text" -> LET t == Hex(c[2]) IN <<Call("tgt_hex", [t |-> t]), Call("tgt_int", [t |-> t]), Call("diff", [t |-> t])>>
    [] c[1] = "rate" -> <<Call("hashrate", [coin |-> Hex(c[2]), diff |-> Hex(c[3]), secs |-> Hex(c[4])])>>
    [] c[1] = "human" -> <<Call("human", [f |-> Hex(c[2])])>>

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
