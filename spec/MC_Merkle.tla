------------------------------ MODULE MC_Merkle ------------------------------
(* C14: the level-by-level root is the tree's root, the proof of every position  *)
(* evaluates to it, and only the right position, leaf and siblings do.            *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

N == IF Deep THEN 40 ELSE 19
Leaf(k) == [i \in 1..32 |-> (k * 41 + i * (k + 3)) % 256]
Leaves(n) == [k \in 1..n |-> Leaf(k)]
\* lists with repetitions: the same transaction at several places, and the last one twice
Repeats == {<<Leaf(1), Leaf(1)>>, <<Leaf(1), Leaf(2), Leaf(2)>>, <<Leaf(1), Leaf(2), Leaf(3), Leaf(3)>>, <<Leaf(1), Leaf(2), Leaf(1), Leaf(2)>>,
            <<Leaf(1), Leaf(1), Leaf(1), Leaf(1), Leaf(1)>>, <<Leaf(1), Leaf(2), Leaf(3), Leaf(4), Leaf(5), Leaf(5)>>, <<Rep(0, 32)>>, <<Rep(0, 32), Rep(0, 32), Rep(255, 32)>>}

(* the tree from the top down: node i of height k covers leaves i*2^k .. ; a right *)
(* child that covers no leaf is its left sibling                                   *)
RECURSIVE Tree(_, _, _)
Tree(h, k, i) == IF k = 0 THEN h[i + 1]
                 ELSE LET l == Tree(h, k - 1, 2 * i)
                      IN Node(l, IF (2 * i + 1) * 2 ^ (k - 1) < Len(h) THEN Tree(h, k - 1, 2 * i + 1) ELSE l)
RECURSIVE Pow2AtLeast(_, _)
Pow2AtLeast(n, k) == IF 2 ^ k >= n THEN k ELSE Pow2AtLeast(n, k + 1)
Root(h) == Tree(h, Pow2AtLeast(Len(h), 0), 0)

Families == {<<"n", n>> : n \in 1..N} \cup {<<"long", k>> : k \in {1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 70}} \cup {<<"rep">>, <<"bad">>}
Branch(k) == [j \in 1..k |-> Leaf(j + 7)]
\* positions as 8 bytes: p = 2^a + d
P2(a, d) == LET x == [i \in 1..8 |-> IF i = a \div 8 + 1 THEN 2 ^ (a % 8) ELSE 0] IN IF d = 0 THEN x ELSE AddLE(x, IF d = 1 THEN U64(1) ELSE Rep(255, 8))
CasesOf(f) ==
  CASE f[1] = "n"    -> {<<"list", Leaves(f[2])>>} \cup {<<"at", Leaves(f[2]), p>> : p \in 0..(f[2] - 1)}
                        \cup {<<"pos", f[2], p>> : p \in {0, 1, f[2] - 1, f[2], 2 ^ Height(f[2]) - 1, 2 ^ Height(f[2]), 2 ^ Height(f[2]) + 1}}
    [] f[1] = "rep"  -> {<<"list", l>> : l \in Repeats} \cup UNION {{<<"at", l, p>> : p \in 0..(Len(l) - 1)} : l \in Repeats} \cup {<<"list", <<>>>>}
    [] f[1] = "long" -> {<<"fit", f[2], P2(a, d)>> : a \in {0, 1, 30, 31, 32, 33, 61, 62, 63} \cup {x \in {f[2] - 1, f[2], f[2] + 1} : x \in 0..63}, d \in -1..1}
                        \cup {<<"fit", f[2], Rep(255, 8)>>, <<"fit", f[2], ZERO64>>, <<"fit", f[2], Rep(0, 7) \o <<128>>>>}
    [] f[1] = "bad"  -> {<<"bad", t, p, k>> : t \in {<<>>, Ascii("0"), Ascii("zz"), Ascii("0g"), Ascii("00 "), <<195, 169>>}, p \in 0..1, k \in 0..2}

LawList(h) == h # <<>> => MerkleRoot(h) = Root(h) /\ Height(Len(h)) = Pow2AtLeast(Len(h), 0)
\* which positions q does a proof of p serve?  those that differ where a node is its own sibling
RECURSIVE Node0(_, _, _)
Node0(h, p, j) == IF j = 0 THEN h[p + 1] ELSE Node0(Level(h), p \div 2, j - 1)
LawAt(h, p) ==
  LET pr == Proof(h, p) r == Root(h) k == Height(Len(h)) IN
  /\ Len(pr) = k
  /\ Climb(h[p + 1], U64(p), pr) = r
  /\ \A q \in 0..(2 ^ k - 1) : Climb(h[p + 1], U64(q), pr) = r
       <=> \A j \in 0..(k - 1) : Bit(U64(p), j) = Bit(U64(q), j) \/ pr[j + 1] = Node0(h, p, j)
  /\ \A j \in 1..k : Climb(h[p + 1], U64(p), [pr EXCEPT ![j][5] = (@ + 1) % 256]) # r
  /\ Climb([h[p + 1] EXCEPT ![32] = (@ + 1) % 256], U64(p), pr) # r
\* p < 2^n for n <= 62
BigIs(p, n) == BigCmp(Norm(p), BigPow2(n)) < 0
LawFit(n, p) == Fits(p, n) <=> (p[8] < 128 /\ (n >= 63 \/ BigIs(p, n)))

Law(f, c) == CASE c[1] = "list" -> LawList(c[2]) [] c[1] = "at" -> LawAt(c[2], c[3]) [] c[1] = "fit" -> LawFit(c[2], c[3]) [] OTHER -> TRUE

Txt(h) == Hex(HexText(Rev(h)))                      \* as people write it
Raw(h) == Hex(HexText(h))
Proof1(n, p) == Call("merkle_proof", [t |-> Txt(Leaf(n)), i |-> Hex(p), l |-> [j \in 1..n |-> Txt(Branch(n)[j])]])
CallsOf(f, c) ==
  CASE c[1] = "list" -> LET h == c[2] l == [i \in 1..Len(h) |-> Txt(h[i])] IN
           IF h = <<>> THEN <<Call("merkle_br", [l |-> <<>>])>>
           ELSE <<Call("merkle_br", [l |-> l]), Call("merkle_all", [l |-> l]),
                  Call("merkle_cb", [h |-> Hex(h[1]), l |-> [i \in 1..Len(h) |-> Raw(h[i])]])>>
    [] c[1] = "at"   -> LET h == c[2] pr == Proof(h, c[3]) IN
           <<Call("merkle_at", [l |-> [i \in 1..Len(h) |-> Txt(h[i])], p |-> c[3], br |-> [j \in 1..Len(pr) |-> Txt(pr[j])]])>>
    [] c[1] = "pos"  -> LET n == Height(c[2]) IN <<Proof1(n, U64(c[3])), Proof1(n + 1, U64(c[3])), Call("merkle_cb", [h |-> Hex(Leaf(c[3])), l |-> [j \in 1..n |-> Raw(Branch(n)[j])]])>>
    [] c[1] = "fit"  -> <<Proof1(c[2], c[3])>>
    [] c[1] = "bad"  -> LET l == IF c[4] = 0 THEN <<>> ELSE IF c[4] = 1 THEN <<Hex(c[2])>> ELSE <<Txt(Leaf(2)), Hex(c[2])>> IN
           <<Call("merkle_proof", [t |-> Txt(Leaf(1)), i |-> Hex(U64(c[3])), l |-> l]), Call("merkle_proof", [t |-> Hex(c[2]), i |-> Hex(U64(c[3])), l |-> [j \in 1..c[4] |-> Txt(Leaf(j))]])>>

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
