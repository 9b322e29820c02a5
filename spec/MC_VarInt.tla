------------------------------ MODULE MC_VarInt ------------------------------
(* C04: CompactSize is minimal, injective, prefix-free, and decoding inverts    *)
(* it.  All naturals up to a bound, all powers of two and neighbours, and all    *)
(* forms of any width over a set of telling bytes.                               *)
EXTENDS LibPure, Emit
CONSTANT Deep
VARIABLE st

Top == IF Deep THEN 131072 ELSE 8192
CHUNK == 1024
Tell == {0, 1, 252, 253, 254, 255}
Ctx == {<<>>, <<0>>, <<255, 255>>}

Families == {<<"nat", k>> : k \in 0..(Top \div CHUNK - 1)} \cup {<<"pow", k>> : k \in 0..7}
            \cup {<<"form", c, b>> : c \in {253, 254, 255}, b \in Tell} \cup {<<"one">>}

\* 2^(8k+j) + d as 8 bytes
Pow(k, j, d) == LET p == Rep(0, k) \o <<2 ^ j>> \o Rep(0, 7 - k)
                IN IF d = 0 THEN p ELSE IF d = 1 THEN AddLE(p, U64(1)) ELSE AddLE(p, Rep(255, 8))

\* payloads of width w starting with b: all over Tell for w <= 4, two free positions for 8
Payloads(w, b) ==
  IF w = 2 THEN {<<b, x>> : x \in Tell}
  ELSE IF w = 4 THEN {<<b, x, y, z>> : x, y, z \in Tell}
  ELSE LET S == IF Deep THEN Tell ELSE {0, 255}
       IN {[i \in 1..8 |-> IF i = 1 THEN b ELSE IF i = p THEN x ELSE IF i = q THEN y ELSE z] :
              p \in 2..8, q \in 2..8, x \in S, y \in S, z \in {0, 255}}

CasesOf(f) ==
  CASE f[1] = "nat"  -> {<<"v", U64(n)>> : n \in (f[2] * CHUNK)..((f[2] + 1) * CHUNK - 1)}
    [] f[1] = "pow"  -> {<<"v", Pow(f[2], j, d)>> : j \in 0..7, d \in -1..1}
    [] f[1] = "one"  -> {<<"b", <<x>> \o c>> : x \in 0..255, c \in Ctx} \cup {<<"b", <<>>>>}
    [] f[1] = "form" -> {<<"b", <<f[2]>> \o p>> : p \in Payloads(VarIntWidth(f[2]), f[3])}

Widths == {1, 3, 5, 9}
\* does v fit in k bytes?
FitsIn(v, k) == \A i \in (k + 1)..8 : v[i] = 0

LawV(v) ==
  LET e == VarIntEnc(v) IN
  /\ Len(e) \in Widths
  /\ \A c \in Ctx : VarIntDec(e \o c) = [n |-> Len(e), v |-> v]
  /\ VarIntMinimal(e)
  \* minimal: each longer form is needed because the next shorter one does not reach v
  /\ (Len(e) = 1) <=> (FitsIn(v, 1) /\ v[1] < 253)
  /\ (Len(e) <= 3) <=> FitsIn(v, 2)
  /\ (Len(e) <= 5) <=> FitsIn(v, 4)
  \* no proper prefix decodes
  /\ \A k \in 0..(Len(e) - 1) : VarIntDec(Take(e, k)).n = 0

LawB(b) ==
  LET d == VarIntDec(b) IN
  /\ d.n \in Widths \cup {0}
  /\ d.n = 0 => Len(b) < (IF b = <<>> THEN 1 ELSE 1 + VarIntWidth(b[1]))
  /\ d.n > 0 => /\ d.n <= Len(b)
                /\ Len(VarIntEnc(d.v)) <= d.n
                /\ VarIntDec(Take(b, d.n)) = d                            \* what follows does not matter
                /\ VarIntMinimal(b) <=> Take(b, d.n) = VarIntEnc(d.v)

Law(f, c) == IF c[1] = "v" THEN LawV(c[2]) ELSE LawB(c[2])

Dec(b) == Call("varint_dec", [b |-> Hex(b)])
CallsOf(f, c) ==
  IF c[1] = "v" THEN LET e == VarIntEnc(c[2]) IN
       <<Call("varint_enc", [u |-> Hex(c[2])]), Dec(e), Dec(e \o <<255, 1>>)>>
       \o (IF Len(e) > 1 THEN <<Dec(Take(e, Len(e) - 1))>> ELSE <<>>)
  ELSE <<Dec(c[2])>> \o (IF Len(c[2]) > 1 THEN <<Dec(Take(c[2], Len(c[2]) - 1)), Dec(Append(c[2], 0))>> ELSE <<>>)

Init  == st \in {<<f>> : f \in Families}
Next  == Len(st) = 1 /\ \E c \in CasesOf(st[1]) : st' = <<st[1], c>> /\ EmitCalls(CallsOf(st[1], c))
Holds == Len(st) = 2 => Law(st[1], st[2])
=============================================================================
