------------------------------- MODULE Bytes -------------------------------
(* Byte strings, little-endian numbers and hex text.  Numbers of 32 and 64  *)
(* bits are kept as little-endian byte strings of 4 and 8 bytes (TLC's own  *)
(* integers have 32 bits).                                                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Prims
LOCAL INSTANCE TLC                       \* TLCEval only: evaluate now rather than on each use

\* total: where s is too short, what there is of it
Take(s, n)     == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
Drop(s, n)     == SubSeq(s, n + 1, Len(s))
Slice(s, o, n) == IF o + n > Len(s) THEN SubSeq(s, o + 1, Len(s)) ELSE SubSeq(s, o + 1, o + n)  \* n bytes from offset o (0-based)
Rep(x, n)      == TLCEval([i \in 1..n |-> x])
Each(F(_), n)  == TLCEval([i \in 1..n |-> F(i)])
StartsWith(s, p) == Len(s) >= Len(p) /\ Take(s, Len(p)) = p
Rev(s)         == Reverse(s)
RECURSIVE ConcatRange(_, _, _)
ConcatRange(ss, lo, hi) == IF lo > hi THEN <<>> ELSE IF lo = hi THEN ss[lo]
                           ELSE LET m == (lo + hi) \div 2 IN ConcatRange(ss, lo, m) \o ConcatRange(ss, m + 1, hi)
Concat(ss)     == ConcatRange(ss, 1, Len(ss))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* index (0-based) of the last element equal to x, or -1 *)
LastIdx(s, x) == LET P == {i \in 1..Len(s) : s[i] = x} IN IF P = {} THEN -1 ELSE Max(P) - 1

(* number of leading elements equal to x *)
RECURSIVE LeadFrom(_, _, _)
LeadFrom(s, x, i) == IF i > Len(s) \/ s[i] # x THEN i - 1 ELSE LeadFrom(s, x, i + 1)
Lead(s, x) == IF s = <<>> THEN 0 ELSE LeadFrom(s, x, 1)

(* little-endian *)
RECURSIVE LE(_, _)
LE(n, k) == IF k = 0 THEN <<>> ELSE <<n % 256>> \o LE(n \div 256, k - 1)
U32(n) == LE(n, 4)
U64(n) == LE(n, 8)
ZERO32 == <<0, 0, 0, 0>>
MAX32  == <<255, 255, 255, 255>>
ZERO64 == Rep(0, 8)

(* the value of little-endian b, or cap + 1 if it is larger than cap *)
RECURSIVE CapFrom(_, _, _, _)
CapFrom(b, cap, i, acc) ==
  IF i = 0 THEN acc
  ELSE CapFrom(b, cap, i - 1,
         IF acc > cap \div 256 THEN cap + 1
         ELSE LET v == acc * 256 + b[i] IN IF v > cap THEN cap + 1 ELSE v)
CapLE(b, cap) == CapFrom(b, cap, Len(b), 0)

IsZero(b) == \A i \in 1..Len(b) : b[i] = 0

(* sum of two little-endian numbers of the same length, modulo 256^length *)
RECURSIVE AddLEc(_, _, _, _)
AddLEc(a, b, i, c) == IF i > Len(a) THEN <<>>
                      ELSE LET t == a[i] + b[i] + c IN <<t % 256>> \o AddLEc(a, b, i + 1, t \div 256)
AddLE(a, b) == AddLEc(a, b, 1, 0)

(* lexicographic order on byte strings; a prefix comes before its extensions *)
RECURSIVE LexLeq(_, _, _)
LexLeq(a, b, i) == IF i > Len(a) THEN TRUE
                   ELSE IF i > Len(b) THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i]
                   ELSE LexLeq(a, b, i + 1)
BytesLeq(a, b) == LexLeq(a, b, 1)
SortBytes(ss)  == SortSeq(ss, LAMBDA a, b : a # b /\ BytesLeq(a, b))

(* hex text *)
HexDigits == Ascii("0123456789abcdef")
HexText(b) == TLCEval([i \in 1..(2 * Len(b)) |->
                LET x == b[(i + 1) \div 2] IN HexDigits[(IF i % 2 = 1 THEN x \div 16 ELSE x % 16) + 1]])
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
IsHexDigits(t) == \A i \in 1..Len(t) : HexVal(t[i]) >= 0
IsHex(t) == Len(t) % 2 = 0 /\ IsHexDigits(t)
UnHex(t) == TLCEval([i \in 1..(Len(t) \div 2) |-> HexVal(t[2 * i - 1]) * 16 + HexVal(t[2 * i])])

SHA256d(b) == SHA256(SHA256(b))
HASH160(b) == RIPEMD160(SHA256(b))

(* split text on a separator character, as many pieces as separators + 1 *)
Split(t, c) ==
  LET cut == <<0>> \o SetToSortSeq({i \in 1..Len(t) : t[i] = c}, <) \o <<Len(t) + 1>>
  IN [i \in 1..(Len(cut) - 1) |-> SubSeq(t, cut[i] + 1, cut[i + 1] - 1)]

NoBytes == <<>>
=============================================================================
