-------------------------------- MODULE Sha2 --------------------------------
(* FIPS 180-4 SHA-256 and SHA-512, RFC 2104 HMAC.                                *)
EXTENDS Words

\* parameters: bytes per word, rounds, constants, start value, rotations
P256 == [w |-> 4, n |-> 64, k |-> K256, h |-> H256, S0 |-> <<2, 13, 22>>, S1 |-> <<6, 11, 25>>, s0 |-> <<7, 18, 3>>, s1 |-> <<17, 19, 10>>]
P512 == [w |-> 8, n |-> 80, k |-> K512, h |-> H512, S0 |-> <<28, 34, 39>>, S1 |-> <<14, 18, 41>>, s0 |-> <<1, 8, 7>>, s1 |-> <<19, 61, 6>>]

Big3(x, r) == WXor(WXor(RotR(x, r[1]), RotR(x, r[2])), RotR(x, r[3]))
Small3(x, r) == WXor(WXor(RotR(x, r[1]), RotR(x, r[2])), ShR(x, r[3]))
Ch(x, y, z) == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor(WXor(WAnd(x, y), WAnd(x, z)), WAnd(y, z))

Pad(p, b) == LET blk == 16 * p.w n == Len(b)
                 z == (2 * blk - ((n + 1 + 2 * p.w) % blk)) % blk
             IN b \o <<128>> \o Rep(0, z) \o Rep(0, 2 * p.w - 4) \o Rev(U32(8 * n))
Schedule(p, blk) ==
  FoldLeft(LAMBDA w, t : Append(w, WSum(<<Small3(w[t - 2], p.s1), w[t - 7], Small3(w[t - 15], p.s0), w[t - 16]>>)),
           [t \in 1..16 |-> WordBE(Slice(blk, p.w * (t - 1), p.w))], [i \in 1..(p.n - 16) |-> i + 16])
Compress(p, h, blk) ==
  LET w == Schedule(p, blk)
      r == FoldLeft(LAMBDA v, t :
             LET t1 == WSum(<<v[8], Big3(v[5], p.S1), Ch(v[5], v[6], v[7]), p.k[t], w[t]>>)
                 t2 == WSum(<<Big3(v[1], p.S0), Maj(v[1], v[2], v[3])>>)
             IN <<WSum(<<t1, t2>>), v[1], v[2], v[3], WSum(<<v[4], t1>>), v[5], v[6], v[7]>>,
             h, [t \in 1..p.n |-> t])
  IN [i \in 1..8 |-> WSum(<<h[i], r[i]>>)]
Sha2(p, b) == LET m == Pad(p, b) blk == 16 * p.w
                  h == FoldLeft(LAMBDA h, i : Compress(p, h, Slice(m, blk * (i - 1), blk)), p.h, [i \in 1..(Len(m) \div blk) |-> i])
              IN Concat([i \in 1..8 |-> BytesBE(h[i])])
Sha256Def(b) == Sha2(P256, b)
Sha512Def(b) == Sha2(P512, b)
XorBytes(b, x) == [i \in 1..Len(b) |-> b[i] ^^ x]
HmacSha512Def(key, b) ==
  LET k0 == IF Len(key) > 128 THEN Sha512Def(key) ELSE key
      k == k0 \o Rep(0, 128 - Len(k0))
  IN Sha512Def(XorBytes(k, 92) \o Sha512Def(XorBytes(k, 54) \o b))
=============================================================================
