------------------------------- MODULE Curve -------------------------------
(* secp256k1 and ECDSA by their equations, over BigNat.                          *)
EXTENDS BigNat

FieldP == BigBE(B("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"))
OrderN == BigBE(B("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"))
GX == BigBE(B("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"))
GY == BigBE(B("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"))
FoldP == <<209, 3, 0, 0, 1>>                        \* 2^256 mod p = 2^32 + 977
RECURSIVE ModP(_)
ModP(a) == IF Len(a) > 32 THEN ModP(BigAdd(Norm(Take(a, 32)), BigMul(Norm(Drop(a, 32)), FoldP)))
           ELSE IF BigLeq(FieldP, a) THEN BigSub(a, FieldP) ELSE a
ModN(a) == DivMod(a, OrderN).r
AddP(a, b) == ModP(BigAdd(a, b))
SubP(a, b) == ModP(BigAdd(a, BigSub(FieldP, b)))       \* b < p
MulP(a, b) == ModP(BigMul(a, b))
MulN(a, b) == ModN(BigMul(a, b))
Bytes32(a) == Rev(a \o Rep(0, 32 - Len(a)))

Cubic(x) == AddP(MulP(MulP(x, x), x), <<7>>)
OnCurve(q) == MulP(q.y, q.y) = Cubic(q.x)
\* the point of a compressed key, with a hinted root
Odd(a) == a # <<>> /\ a[1] % 2 = 1
Coord(k) == BigBE(Drop(k, 1))
IsKeyForm(k) == Len(k) = 33 /\ k[1] \in {2, 3} /\ BigCmp(Coord(k), FieldP) < 0
Root(k) == BigBE(RootHint(Drop(k, 1)))
\* the hint shows whether x^3+7 is a square: of it and its negation exactly one is (p = 3 mod 4, and it is not 0)
HintGood(k) == LET r == Root(k) s == MulP(r, r) c == Cubic(Coord(k)) IN BigCmp(r, FieldP) < 0 /\ (s = c \/ s = SubP(<<>>, c)) /\ c # <<>>
HasPoint(k) == IsKeyForm(k) /\ MulP(Root(k), Root(k)) = Cubic(Coord(k))
Point(k) == LET r == Root(k) IN [x |-> Coord(k), y |-> IF Odd(r) = (k[1] = 3) THEN r ELSE SubP(<<>>, r)]
Neg(q) == [q EXCEPT !.y = SubP(<<>>, @)]
G == [x |-> GX, y |-> GY]
\* r = a + b for points of different x; r = a + a (no division)
IsSum(a, b, r) == LET dx == SubP(b.x, a.x) dy == SubP(b.y, a.y) IN
   /\ a.x # b.x
   /\ MulP(AddP(AddP(r.x, a.x), b.x), MulP(dx, dx)) = MulP(dy, dy)
   /\ MulP(AddP(r.y, a.y), dx) = MulP(dy, SubP(a.x, r.x))
IsDouble(a, r) == LET n == MulP(<<3>>, MulP(a.x, a.x)) d == AddP(a.y, a.y) IN
   /\ d # <<>>
   /\ MulP(AddP(r.x, AddP(a.x, a.x)), MulP(d, d)) = MulP(n, n)
   /\ MulP(AddP(r.y, a.y), d) = MulP(n, SubP(a.x, r.x))

(* strict DER of (r, s): SEQUENCE of two minimal positive INTEGERs               *)
DerInt(a) == LET b == IF a = <<>> THEN <<0>> ELSE Rev(a) m == IF b[1] >= 128 THEN <<0>> \o b ELSE b IN <<2, Len(m)>> \o m
Der(r, s) == LET t == DerInt(r) \o DerInt(s) IN <<48, Len(t)>> \o t
\* what a byte string must be to be Der(r, s): found by its lengths, then compared
DerParts(d) == IF Len(d) < 8 \/ Len(d) > 72 THEN <<>>
               ELSE LET rl == d[4] IN
                    IF 6 + rl > Len(d) THEN <<>>
                    ELSE LET r == BigBE(Slice(d, 4, rl)) s == BigBE(Drop(d, 6 + rl)) IN IF Der(r, s) = d THEN <<r, s>> ELSE <<>>
HalfN == DivMod(OrderN, <<2>>).q
InRange(a, top) == a # <<>> /\ BigLeq(a, top)
=============================================================================
