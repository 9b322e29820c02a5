------------------------------- MODULE Target -------------------------------
(* Compact difficulty bits, difficulty and hashrate.                           *)
EXTENDS BigNat

\* bits: 4 bytes, big-endian
BitsExp(bits)  == bits[1]
BitsNeg(bits)  == bits[2] >= 128
BitsMant(bits) == BigBE(<<bits[2] % 128, bits[3], bits[4]>>)

\* mantissa * 256^(exponent-3), bytes shifted below zero are dropped
Magnitude(bits) ==
  LET e == BitsExp(bits) m == BitsMant(bits)
  IN IF e >= 3 THEN BigShl(m, e - 3) ELSE Norm(Drop(m, Min2(3 - e, Len(m))))
IsNegative(bits) == BitsNeg(bits) /\ Magnitude(bits) # <<>>
HasHexForm(bits) == ~IsNegative(bits) /\ Len(Magnitude(bits)) <= 32
TargetHex(bits)  == LET m == Magnitude(bits) IN HexText(Rev(m \o Rep(0, 32 - Len(m))))

GenesisBits == <<29, 0, 255, 255>>               \* 1d00ffff
RegtestBits == <<32, 127, 255, 255>>             \* 207fffff
BaseDiffTarget == BigShl(<<255, 255>>, 26)       \* 0xffff * 2^208

DifficultyOK(bits, f) ==
  LET t == Magnitude(bits)
  IN IF t = <<>> THEN TRUE
     ELSE ~FloatNeg(f) /\ ~FloatSpecial(f) /\ FloatNear(f, BaseDiffTarget, t, 44)

\* diff * 2^256 / base target / seconds, seconds = a finite positive float
HashrateOK(coin, diff, secs, f) ==
  LET base == Magnitude(IF StartsWith(coin, Ascii("R")) THEN RegtestBits ELSE GenesisBits)
      e == FloatExp(secs)
      num == BigMul(Norm(diff), BigPow2(256 + (IF e < 0 THEN -e ELSE 0)))
      den == BigMul(BigMul(base, FloatMant(secs)), BigPow2(IF e > 0 THEN e ELSE 0))
  IN IF Norm(diff) = <<>> THEN IsZero(f) ELSE ~FloatNeg(f) /\ ~FloatSpecial(f) /\ FloatNear(f, num, den, 44)

------------------------------------------------------------------------------
Units == << <<21, "ZH/s">>, <<18, "EH/s">>, <<15, "PH/s">>, <<12, "TH/s">>, <<9, "GH/s">>, <<6, "MH/s">>, <<3, "kH/s">> >>
\* f >= 10^k ?
FloatGeq10(f, k) ==
  LET e == FloatExp(f)
      x == BigMul(FloatMant(f), IF e >= 0 THEN BigPow2(e) ELSE <<1>>)
      y == BigMul(BigPow10(k), IF e < 0 THEN BigPow2(-e) ELSE <<1>>)
  IN BigLeq(y, x)
RECURSIVE UnitIdx(_, _)
UnitIdx(f, i) == IF i > Len(Units) THEN 0 ELSE IF FloatGeq10(f, Units[i][1]) THEN i ELSE UnitIdx(f, i + 1)

IsDigit(c) == c \in 48..57
Decimal(t) == FoldLeft(LAMBDA a, c : BigAdd(MulDigitC(a, 10), BigOf(c - 48)), <<>>, t)
\* text is "<digits>.<2 digits> <unit>", the digits rounding f/scale to two decimals
HumanOK(f, text) ==
  LET i == UnitIdx(f, 1)
      unit == Ascii(IF i = 0 THEN "H/s" ELSE Units[i][2])
      k == IF i = 0 THEN 0 ELSE Units[i][1]
      n == Len(text) - Len(unit) - 1               \* length of the number
      e == FloatExp(f)
  IN /\ n >= 4
     /\ Drop(text, n + 1) = unit /\ text[n + 1] = 32
     /\ text[n - 2] = 46
     /\ \A j \in 1..n : j = n - 2 \/ IsDigit(text[j])
     /\ (text[1] # 48 \/ n = 4)
     /\ LET p == Decimal(Take(text, n - 3) \o Slice(text, n - 2, 2))         \* hundredths shown
            sh == IF e < 0 THEN BigPow2(-e) ELSE <<1>>
            x == BigMul(MulDigitC(BigMul(FloatMant(f), IF e >= 0 THEN BigPow2(e) ELSE <<1>>), 200), <<1>>)  \* 200*f
            y == BigMul(BigMul(MulDigitC(p, 2), BigPow10(k)), sh)               \* 2*p*scale
            half == BigMul(BigPow10(k), sh)                                      \* one unit of 2*hundredths
        IN \* |2*100*f - 2*p*scale| <= scale * (1 + tiny) + f * tiny
           BigLeq(BigMul(BigDist(x, y), BigPow2(44)), BigAdd(BigMul(half, BigPow2(44)), BigAdd(half, x)))
=============================================================================
