------------------------------ MODULE Address ------------------------------
(* Base58Check, P2PKH addresses and BIP276 text.                               *)
EXTENDS Bytes

Alphabet == Ascii("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
CharVal == [c \in 0..255 |-> IF \E i \in 1..58 : Alphabet[i] = c THEN (CHOOSE i \in 1..58 : Alphabet[i] = c) - 1 ELSE -1]

(* d: little-endian digits to base `to'; the digits of d * from + x            *)
MulAdd(d, from, to, x) ==
  LET r == FoldLeft(LAMBDA acc, y : LET t == y * from + acc.c IN [d |-> Append(acc.d, t % to), c |-> t \div to],
                    [d |-> <<>>, c |-> x], d)
      RECURSIVE Spill(_)
      Spill(c) == IF c = 0 THEN <<>> ELSE <<c % to>> \o Spill(c \div to)
  IN r.d \o Spill(r.c)
(* convert big-endian digits from one radix to another, keeping leading zeros; *)
(* two digits at a time                                                        *)
Radix(s, from, to) ==
  LET z == Lead(s, 0)
      t == LET u == Drop(s, z) IN IF Len(u) % 2 = 0 THEN u ELSE <<0>> \o u
      d == FoldLeft(LAMBDA acc, x : MulAdd(acc, from * from, to * to, x), <<>>, Each(LAMBDA i : t[2 * i - 1] * from + t[2 * i], Len(t) \div 2))
      r == Rev(Each(LAMBDA i : IF i % 2 = 1 THEN d[(i + 1) \div 2] % to ELSE d[i \div 2] \div to, 2 * Len(d)))
  IN Rep(0, z) \o Drop(r, Lead(r, 0))

Base58(b) == LET d == Radix(b, 256, 58) IN [i \in 1..Len(d) |-> Alphabet[d[i] + 1]]
IsBase58(t) == \A i \in 1..Len(t) : CharVal[t[i]] >= 0
UnBase58(t) == Radix([i \in 1..Len(t) |-> CharVal[t[i]]], 58, 256)

Checksum(b) == Take(SHA256d(b), 4)
Base58Check(b) == Base58(b \o Checksum(b))

MAINNET == 0
TESTNET == 111
NetByte(mainnet) == IF mainnet THEN MAINNET ELSE TESTNET
AddressOf(h, mainnet) == Base58Check(<<NetByte(mainnet)>> \o h)

(* an acceptable address, and the hash in it *)
AddressOK(t) ==
  /\ Len(t) <= 40 /\ IsBase58(t)
  /\ LET p == UnBase58(t) IN Len(p) = 25 /\ p[1] \in {MAINNET, TESTNET} /\ Checksum(Take(p, 21)) = Drop(p, 21)
AddressHash(t) == Slice(UnBase58(t), 1, 20)

------------------------------------------------------------------------------
COLON == 58
NEWLINE == 10
BipPayload(prefix, net, ver, data) == prefix \o <<COLON>> \o HexText(<<net, ver>> \o data)
BipSum(p) == HexText(Checksum(p))
BipEncode(prefix, net, ver, data) == LET p == BipPayload(prefix, net, ver, data) IN p \o BipSum(p)

BipLower(t) == HexText(UnHex(t))
\* open: an empty prefix, one with a line break, or upper-case digits may be refused
\* the pieces of a BIP276 string: prefix up to the last colon; then network, version, data, checksum
BipParse(t) ==
  LET c == LastIdx(t, COLON)
      prefix == Take(t, Max2(c, 0))
      body == Drop(t, c + 1)
      payload == Take(body, Len(body) - 8)
  IN IF c < 0 \/ Len(body) < 12 \/ ~IsHexDigits(body) \/ Len(body) % 2 # 0
     THEN [ok |-> FALSE, open |-> FALSE]
     ELSE LET v == UnHex(payload)
          IN IF BipSum(BipPayload(prefix, v[1], v[2], Drop(v, 2))) # BipLower(Drop(body, Len(body) - 8)) THEN [ok |-> FALSE, open |-> FALSE]
             ELSE [ok |-> TRUE, open |-> c = 0 \/ (\E i \in 1..c : prefix[i] = NEWLINE) \/ HexText(UnHex(body)) # body,
                   prefix |-> prefix, net |-> v[1], ver |-> v[2], data |-> Drop(v, 2)]

BipScriptPrefix == Ascii("bitcoin-script:")
TextOpen(t)  == StartsWith(t, BipScriptPrefix) /\ BipParse(t).open
TextValid(t) == IF StartsWith(t, BipScriptPrefix) THEN BipParse(t).ok ELSE AddressOK(t)
=============================================================================
