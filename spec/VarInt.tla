------------------------------- MODULE VarInt -------------------------------
(* CompactSize integers.  u is the number as 8 little-endian bytes.          *)
EXTENDS Bytes

VarIntEnc(u) ==
  IF IsZero(Drop(u, 1)) /\ u[1] < 253 THEN <<u[1]>>
  ELSE IF IsZero(Drop(u, 2)) THEN <<253>> \o Take(u, 2)
  ELSE IF IsZero(Drop(u, 4)) THEN <<254>> \o Take(u, 4)
  ELSE <<255>> \o u

VarIntOf(n) == VarIntEnc(U64(n))                 \* of a small natural
WithLen(b)  == VarIntOf(Len(b)) \o b             \* a length-prefixed byte string

(* decode at offset o (0-based): n = number of bytes it occupies, 0 if there *)
(* are not enough                                                             *)
VarIntWidth(c) == IF c = 253 THEN 2 ELSE IF c = 254 THEN 4 ELSE IF c = 255 THEN 8 ELSE 0
VarIntAt(b, o) ==
  IF o >= Len(b) THEN [n |-> 0, v |-> ZERO64]
  ELSE LET c == b[o + 1]
           w == VarIntWidth(c)
       IN IF w = 0 THEN [n |-> 1, v |-> <<c>> \o Rep(0, 7)]
          ELSE IF Len(b) < o + 1 + w THEN [n |-> 0, v |-> ZERO64]
          ELSE [n |-> 1 + w, v |-> Slice(b, o + 1, w) \o Rep(0, 8 - w)]
VarIntDec(b) == VarIntAt(b, 0)

VarIntMinimal(b) == VarIntDec(b).n > 0 /\ VarIntEnc(VarIntDec(b).v) = Take(b, VarIntDec(b).n)
=============================================================================
