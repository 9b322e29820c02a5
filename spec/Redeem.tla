------------------------------- MODULE Redeem -------------------------------
(* Multisig redeem scripts, BIP32 public derivation, Electrum's form.          *)
(*   rs : [m, keys (33-byte strings)]                                           *)
EXTENDS ScriptTemplates, Address

RedeemScript(rs) ==
  LET ks == SortBytes(rs.keys)
  IN <<OP_BASE + rs.m>> \o Concat([i \in 1..Len(ks) |-> Push(ks[i])]) \o <<OP_BASE + Len(ks), OP_CHECKMULTISIG>>
RedeemHash(rs) == HASH160(RedeemScript(rs))
RedeemAddress(rs) == Base58Check(<<5>> \o RedeemHash(rs))

(* extended keys: 78 bytes: version 4, depth 1, parent 4, number 4, chain 32, key 33 *)
CurveN == B("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
XkKey(x)   == Slice(x, 45, 33)
XkPriv(x)  == XkKey(x)[1] = 0
ScalarOK(k) == ~IsZero(k) /\ k # CurveN /\ BytesLeq(k, CurveN)
XkOK(x) == Len(x) = 78 /\ IF XkPriv(x) THEN ScalarOK(Drop(XkKey(x), 1)) ELSE ValidPub(XkKey(x))
\* public node [depth, chain, pub]
XkNode(x) == [depth |-> x[5], chain |-> Slice(x, 13, 32),
              pub |-> IF XkPriv(x) THEN PubFromPriv(Drop(XkKey(x), 1)) ELSE XkKey(x)]
\* non-hardened child; i is the index, 4 bytes big-endian with top bit 0
Hardened(i) == i[1] >= 128
ChildOK(nd, i) == nd.depth < 255 /\ ~Hardened(i)
Child(nd, i) ==
  LET h == HMACSHA512(nd.chain, nd.pub \o i)
  IN [depth |-> nd.depth + 1, chain |-> Drop(h, 32), pub |-> AddTweak(nd.pub, Take(h, 32))]

XkDecode(t) == LET p == UnBase58(t) IN
  IF Len(t) <= 120 /\ IsBase58(t) /\ Len(p) = 82 /\ Checksum(Take(p, 78)) = Drop(p, 78) THEN Take(p, 78) ELSE <<>>
XkTextOK(t) == Len(t) <= 120 /\ IsBase58(t) /\ XkOK(XkDecode(t))
\* key at a two-level path
PathOK(x, path) == Len(path) = 2 /\ ChildOK(XkNode(x), path[1]) /\ ~Hardened(path[2]) /\ XkNode(x).depth < 254
PathKey(x, path) == Child(Child(XkNode(x), path[1]), path[2]).pub

(* Electrum: OP_m { ff xkey78 i1 i2 (16-bit little-endian) } OP_n CHECKMULTISIG *)
ElPath(d) == << <<0, 0, d[81], d[80]>>, <<0, 0, d[83], d[82]>> >>
ElKeyOK(e) == ~e.op /\ Len(e.d) = 83 /\ e.d[1] = 255 /\ XkOK(Slice(e.d, 1, 78)) /\ PathOK(Slice(e.d, 1, 78), ElPath(e.d))
ElKey(e) == PathKey(Slice(e.d, 1, 78), ElPath(e.d))
ElectrumOK(s) ==
  LET r == Elements(s) n == Len(r.el)
  IN /\ r.ok /\ n >= 4
     /\ r.el[1].op /\ r.el[1].d[1] \in (OP_BASE + 2)..OP_16
     /\ r.el[n - 1].op /\ r.el[n - 1].d[1] = OP_BASE + n - 3 /\ n - 3 <= 16
     /\ IsOp(r.el[n], OP_CHECKMULTISIG)
     /\ \A i \in 2..(n - 2) : ElKeyOK(r.el[i])
ElectrumRS(s) == LET el == Elements(s).el n == Len(el)
                 IN [m |-> el[1].d[1] - OP_BASE, keys |-> [i \in 1..(n - 3) |-> ElKey(el[i + 1])]]
=============================================================================
