------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size as little-endian base-256 digits without        *)
(* leading (most significant) zeros.                                            *)
EXTENDS Bytes

RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(Take(a, Len(a) - 1)) ELSE a
RECURSIVE BigOf(_)
BigOf(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BigOf(n \div 256)
BigBE(b) == Norm(Rev(b))

BigShl(a, bytes) == IF a = <<>> THEN <<>> ELSE Rep(0, bytes) \o a
BigAdd(a, b) ==
  LET n == Max2(Len(a), Len(b)) + 1
      pad(x) == x \o Rep(0, n - Len(x))
  IN Norm(AddLE(pad(a), pad(b)))
RECURSIVE MulDigit(_, _, _)
MulDigitC(a, d) ==
  LET r == FoldLeft(LAMBDA acc, x : LET t == x * d + acc.c IN [v |-> Append(acc.v, t % 256), c |-> t \div 256],
                    [v |-> <<>>, c |-> 0], a)
  IN Norm(r.v \o BigOf(r.c))
MulDigit(a, d, k) == BigShl(MulDigitC(a, d), k)
RECURSIVE BigMulFrom(_, _, _)
BigMulFrom(a, b, i) == IF i > Len(b) THEN <<>> ELSE IF b[i] = 0 THEN BigMulFrom(a, b, i + 1) ELSE BigAdd(MulDigit(a, b[i], i - 1), BigMulFrom(a, b, i + 1))
BigMul(a, b) == BigMulFrom(a, b, 1)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
BigCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpFrom(a, b, Len(a))
BigLeq(a, b) == BigCmp(a, b) <= 0

\* 2^e
BigPow2(e) == BigShl(<<2 ^ (e % 8)>>, e \div 8)
RECURSIVE BigPow10(_)
BigPow10(k) == IF k = 0 THEN <<1>> ELSE MulDigitC(BigPow10(k - 1), 10)

RECURSIVE BigSub(_, _)            \* a - b for a >= b
SubFrom(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - acc.w
                                    IN [v |-> Append(acc.v, (t + 256) % 256), w |-> IF t < 0 THEN 1 ELSE 0],
                    [v |-> <<>>, w |-> 0], [i \in 1..Len(a) |-> i])
  IN Norm(r.v)
BigSub(a, b) == SubFrom(a, b)
BigDist(a, b) == IF BigLeq(a, b) THEN BigSub(b, a) ELSE BigSub(a, b)

\* quotient and remainder of a / b by long division, b > 0: each digit is the largest that fits
RECURSIVE Digit(_, _, _, _)
Digit(r, b, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF BigLeq(MulDigitC(b, m), r) THEN Digit(r, b, m, hi) ELSE Digit(r, b, lo, m - 1)
DivMod(a, b) ==
  LET s == FoldLeft(LAMBDA t, x : LET r == Norm(<<x>> \o t.r) IN
                                  IF BigCmp(r, b) < 0 THEN [q |-> Append(t.q, 0), r |-> r]
                                  ELSE LET d == Digit(r, b, 1, 255) IN [q |-> Append(t.q, d), r |-> BigSub(r, MulDigitC(b, d))],
                    [q |-> <<>>, r |-> <<>>], Rev(a))
  IN [q |-> Norm(Rev(s.q)), r |-> s.r]

(* IEEE-754 binary64 as 8 big-endian bytes.  For a finite non-negative number: *)
(* value = mant * 2^exp (exp may be negative)                                   *)
FloatExpBits(f) == (f[1] % 128) * 16 + f[2] \div 16
FloatNeg(f)     == f[1] >= 128
FloatSpecial(f) == FloatExpBits(f) = 2047         \* infinity or NaN
FloatInf(f)     == f = <<127, 240, 0, 0, 0, 0, 0, 0>>
FloatMant(f)    == BigBE(<<(f[2] % 16) + (IF FloatExpBits(f) = 0 THEN 0 ELSE 16)>> \o Drop(f, 2))
FloatExp(f)     == (IF FloatExpBits(f) = 0 THEN 1 ELSE FloatExpBits(f)) - 1075

(* is |f - num/den| <= num/den * 2^-tol ?  (den > 0, f finite non-negative)     *)
FloatNear(f, num, den, tol) ==
  LET e == FloatExp(f)
      x == BigMul(BigMul(FloatMant(f), den), IF e >= 0 THEN BigPow2(e) ELSE <<1>>)
      y == BigMul(num, IF e < 0 THEN BigPow2(-e) ELSE <<1>>)
  IN BigLeq(BigMul(BigDist(x, y), BigPow2(tol)), y)
=============================================================================
