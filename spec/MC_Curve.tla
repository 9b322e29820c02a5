------------------------------ MODULE MC_Curve ------------------------------
(* C11, C20: what TLC uses for secp256k1 (spec/java) satisfies the curve's and     *)
(* ECDSA's equations: public keys by induction along k+1 and 2k from G, tweaks,    *)
(* which byte strings are keys, and which signatures verify.                        *)
EXTENDS Curve, Emit, TLC
CONSTANT Deep
VARIABLE st

Minus(a, n) == BigSub(a, BigOf(n))
Scalars == {BigOf(k) : k \in 1..(IF Deep THEN 64 ELSE 8)} \cup {BigPow2(k) : k \in (IF Deep THEN 5..255 ELSE {31, 32, 127, 128, 255})} \cup {Minus(OrderN, k) : k \in 2..(IF Deep THEN 20 ELSE 4)}
           \cup {Norm([i \in 1..32 |-> (i * k + 3) % 251]) : k \in (IF Deep THEN 1..40 ELSE 1..3)} \cup {HalfN, BigAdd(HalfN, <<1>>), Rep(1, 32), Rep(17, 32), Rep(34, 32)}
Pub(a) == PubFromPriv(Bytes32(a))
Xs == {BigOf(k) : k \in 0..(IF Deep THEN 200 ELSE 24)} \cup {Minus(FieldP, k) : k \in 1..6} \cup {BigAdd(FieldP, BigOf(k)) : k \in 0..3} \cup {Rep(255, 32), GX}
Digests == {Rep(0, 32), Rep(255, 32), [i \in 1..32 |-> i * 7], Rev(OrderN), Rep(0, 31) \o <<1>>}
SigKeys == {<<1>>, Rep(17, 32)} \cup (IF Deep THEN {Minus(OrderN, 1), <<2>>, BigPow2(200)} ELSE {})

Families == {<<"scalar", k>> : k \in Scalars} \cup {<<"x", x>> : x \in Xs} \cup {<<"sig", k, d>> : k \in SigKeys, d \in (IF Deep THEN Digests ELSE {Rep(255, 32), [i \in 1..32 |-> i * 7]})} \cup {<<"base">>}
Tweaks == {<<>>, <<1>>, <<2>>, Minus(OrderN, 1), OrderN, Rep(255, 32), Rep(9, 31)}
CasesOf(f) ==
  CASE f[1] = "base" -> {<<"base">>}
    [] f[1] = "scalar" -> {<<"next", f[2]>>, <<"dbl", f[2]>>} \cup {<<"tweak", f[2], t>> : t \in Tweaks \cup {BigSub(OrderN, f[2])}}
    [] f[1] = "x" -> {<<"key", <<b>> \o Bytes32(f[2])>> : b \in 0..4} \cup {<<"key", Take(<<2>> \o Bytes32(f[2]), 32)>>, <<"key", <<2>> \o Bytes32(f[2]) \o <<0>>>>}
    [] f[1] = "sig" ->
         LET good == EcdsaSign(Bytes32(f[2]), f[3]) rs == DerParts(good) r == rs[1] s == rs[2]
             ch == {[good EXCEPT ![p] = v] : p \in (IF Deep THEN 1..Len(good) ELSE {1, 2, 3, 4, 5, 20, Len(good)}), v \in {0, 2, 127, 128}} \cup {[good EXCEPT ![p] = (@ + 1) % 256] : p \in {3, 4, 5, 36, 37, 38, 39, 40, Len(good)}}
             sh == {<<>>, good \o <<0>>, Take(good, Len(good) - 1), Drop(good, 1), <<48, 129, good[2]>> \o Drop(good, 2),
                    <<48, good[2] + 1, 2, good[4] + 1, 0>> \o Drop(good, 4)}
             nu == {Der(r, BigSub(OrderN, s)), Der(s, r), Der(BigAdd(r, <<1>>), s), Der(r, BigAdd(s, <<1>>)), Der(<<>>, s), Der(r, <<>>), Der(OrderN, s), Der(BigAdd(r, OrderN), s), Der(r, OrderN), Der(r, HalfN), Der(r, BigAdd(HalfN, <<1>>)), Der(<<1>>, <<1>>)}
         IN {<<"ver", f[2], f[3], x>> : x \in {good} \cup ch \cup sh \cup nu} \cup {<<"ver", f[2], d, good>> : d \in Digests}

LawNext(k) == LET a == Pub(k) b == Pub(BigAdd(k, <<1>>)) IN HasPoint(a) /\ HasPoint(b) /\
                IF k = <<1>> THEN IsDouble(Point(a), Point(b)) ELSE IsSum(Point(a), G, Point(b))
LawDbl(k) == LET m == ModN(BigAdd(k, k)) IN HasPoint(Pub(k)) /\ HasPoint(Pub(m)) /\ IsDouble(Point(Pub(k)), Point(Pub(m)))
LawTweak(k, t) == LET s == ModN(BigAdd(k, t)) IN AddTweak(Pub(k), Bytes32(t)) = IF BigLeq(OrderN, t) \/ s = <<>> THEN <<>> ELSE Pub(s)
LawKey(b) == ValidPub(b) <=> (IsKeyForm(b) /\ HintGood(b) /\ HasPoint(b))
LawKeyHint(b) == IsKeyForm(b) => HintGood(b)
Inv(s) == BigBE(InvHint(Bytes32(s)))
LawVer(k, d, der) ==
  LET rs == DerParts(der) IN
  EcdsaVerify(Pub(k), d, der) <=>
    /\ rs # <<>>
    /\ InRange(rs[1], Minus(OrderN, 1)) /\ InRange(rs[2], HalfN)
    /\ LET w == Inv(rs[2]) n == MulN(BigAdd(BigBE(d), MulN(rs[1], k)), w)
       IN Assert(MulN(w, rs[2]) = <<1>>, "hint") /\ n # <<>> /\ ModN(Coord(Pub(n))) = rs[1]
Law(f, c) == CASE c[1] = "base" -> OnCurve(G) /\ Pub(<<1>>) = <<IF Odd(GY) THEN 3 ELSE 2>> \o Bytes32(GX) /\ Point(Pub(<<1>>)) = G /\ Point(Pub(Minus(OrderN, 1))) = Neg(G)
               [] c[1] = "next" -> LawNext(c[2]) [] c[1] = "dbl" -> LawDbl(c[2]) [] c[1] = "tweak" -> LawTweak(c[2], c[3])
               [] c[1] = "key" -> LawKey(c[2]) /\ LawKeyHint(c[2]) [] c[1] = "ver" -> LawVer(c[2], c[3], c[4]) /\ (c[4] = EcdsaSign(Bytes32(c[2]), c[3]) => EcdsaVerify(Pub(c[2]), c[3], c[4]))

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>>
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
