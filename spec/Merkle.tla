------------------------------- MODULE Merkle -------------------------------
(* Merkle trees over 32-byte hashes (internal byte order), branches, proofs.   *)
EXTENDS Bytes

Node(a, b) == SHA256d(a \o b)
Level(h) == Each(LAMBDA i : Node(h[2 * i - 1], IF 2 * i <= Len(h) THEN h[2 * i] ELSE h[2 * i - 1]), (Len(h) + 1) \div 2)
RECURSIVE MerkleRoot(_)
MerkleRoot(h) == IF Len(h) = 1 THEN h[1] ELSE MerkleRoot(Level(h))

\* sibling hashes of the leaf at position p (0-based), from the leaves up
Sibling(h, p) == LET q == IF p % 2 = 0 THEN p + 1 ELSE p - 1 IN IF q < Len(h) THEN h[q + 1] ELSE h[p + 1]
RECURSIVE Proof(_, _)
Proof(h, p) == IF Len(h) = 1 THEN <<>> ELSE <<Sibling(h, p)>> \o Proof(Level(h), p \div 2)

RECURSIVE Height(_)
Height(n) == IF n <= 1 THEN 0 ELSE 1 + Height((n + 1) \div 2)

(* evaluate a proof; the position is given by its bits: p is a 64-bit two's    *)
(* complement number, 8 bytes little-endian                                     *)
Bit(p, j) == IF j > 63 THEN 0 ELSE (p[(j \div 8) + 1] \div (2 ^ (j % 8))) % 2
RECURSIVE ClimbFrom(_, _, _, _)
ClimbFrom(x, p, j, branch) ==
  IF j = Len(branch) THEN x
  ELSE ClimbFrom(IF Bit(p, j) = 1 THEN Node(branch[j + 1], x) ELSE Node(x, branch[j + 1]), p, j + 1, branch)
Climb(x, p, branch) == ClimbFrom(x, p, 0, branch)
Fits(p, n) == \A j \in Min2(n, 63)..63 : Bit(p, j) = 0       \* 0 <= p < 2^n
=============================================================================
