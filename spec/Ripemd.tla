------------------------------- MODULE Ripemd -------------------------------
(* RIPEMD-160 (Dobbertin, Bosselaers, Preneel 1996).                             *)
EXTENDS Words

\* message word and rotation of step j, left and right line; the word orders are
\* powers of one permutation (and, right, of another one first)
Rho == <<7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8>>
PiP == [i \in 1..16 |-> (9 * (i - 1) + 5) % 16]
RECURSIVE Times(_, _)
Times(r, x) == IF r = 0 THEN x ELSE Times(r - 1, Rho[x + 1])
RL(j) == Times(j \div 16, j % 16)
RR(j) == Times(j \div 16, PiP[(j % 16) + 1])
\* rotation by message word and round
Shifts == << <<11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8>>, <<12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7>>,
             <<13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9>>, <<14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6>>,
             <<15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5>> >>
SL(j) == Shifts[j \div 16 + 1][RL(j) + 1]
SR(j) == Shifts[j \div 16 + 1][RR(j) + 1]
\* constants: integer parts of 2^30 times square (left) and cube (right) roots of 2, 3, 5, 7
\* (written out; MC_Hash checks each against Root30)
Root30(p, e) == WordOf(RootBits(BigMul(BigOf(p), BigPow2(30 * e)), e, 34, <<>>), 2)
KL == <<<<0, 0>>, <<23170, 31129>>, <<28377, 60321>>, <<36635, 48348>>, <<43347, 64846>>>>
KR == <<<<20642, 35814>>, <<23629, 53540>>, <<28016, 16115>>, <<31341, 30441>>, <<0, 0>>>>

F(k, x, y, z) == CASE k = 0 -> WXor(WXor(x, y), z)
                   [] k = 1 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
                   [] k = 2 -> WXor(WOr(x, WNot(y)), z)
                   [] k = 3 -> WOr(WAnd(x, z), WAnd(y, WNot(z)))
                   [] k = 4 -> WXor(x, WOr(y, WNot(z)))
Line(h, x, fk(_), kk, r(_), s(_)) ==
  FoldLeft(LAMBDA v, j : LET t == WSum(<<RotL(WSum(<<v[1], F(fk(j), v[2], v[3], v[4]), x[r(j) + 1], kk[j \div 16 + 1]>>), s(j)), v[5]>>)
                         IN <<v[5], t, v[2], RotL(v[3], 10), v[4]>>, h, [j \in 1..80 |-> j - 1])
CompressR(h, blk) ==
  LET x == [i \in 1..16 |-> WordLE(Slice(blk, 4 * (i - 1), 4))]
      a == Line(h, x, LAMBDA j : j \div 16, KL, RL, SL)
      b == Line(h, x, LAMBDA j : 4 - j \div 16, KR, RR, SR)
  IN [i \in 1..5 |-> WSum(<<h[(i % 5) + 1], a[((i + 1) % 5) + 1], b[((i + 2) % 5) + 1]>>)]
HR == [i \in 1..5 |-> WordBE(<< <<103, 69, 35, 1>>, <<239, 205, 171, 137>>, <<152, 186, 220, 254>>, <<16, 50, 84, 118>>, <<195, 210, 225, 240>> >>[i])]
PadR(b) == b \o <<128>> \o Rep(0, (128 - ((Len(b) + 9) % 64)) % 64) \o U64(8 * Len(b))
Ripemd160Def(b) == LET m == PadR(b)
                       h == FoldLeft(LAMBDA h, i : CompressR(h, Slice(m, 64 * (i - 1), 64)), HR, [i \in 1..(Len(m) \div 64) |-> i])
                   IN Concat([i \in 1..5 |-> BytesLE(h[i])])
=============================================================================
