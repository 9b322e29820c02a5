--------------------------- MODULE ScriptTemplates ---------------------------
(* Standard templates: how they are recognised and how they are built.         *)
EXTENDS Asm

IsP2PKH(s) == Len(s) = 25 /\ Take(s, 3) = <<OP_DUP, OP_HASH160, 20>> /\ Drop(s, 23) = <<OP_EQUALVERIFY, OP_CHECKSIG>>
IsP2SH(s)  == Len(s) = 23 /\ Take(s, 2) = <<OP_HASH160, 20>> /\ s[23] = OP_EQUAL
IsData(s)  == StartsWith(s, <<OP_RETURN>>) \/ StartsWith(s, <<OP_0, OP_RETURN>>)

IsOp(e, c) == e.op /\ e.d = <<c>>
IsKeyPush(e) == ~e.op /\ \/ Len(e.d) = 33 /\ e.d[1] \in {2, 3}
                         \/ Len(e.d) = 65 /\ e.d[1] \in {4, 6, 7}
IsP2PK(s) == LET r == Elements(s) IN r.ok /\ Len(r.el) = 2 /\ IsKeyPush(r.el[1]) /\ IsOp(r.el[2], OP_CHECKSIG)

IsSmallInt(e) == e.op /\ (e.d[1] = OP_0 \/ e.d[1] \in OP_1..OP_16)
IsMultisig(s) ==
  LET r == Elements(s)
      n == Len(r.el)
  IN r.ok /\ n >= 3 /\ IsSmallInt(r.el[1]) /\ IsSmallInt(r.el[n - 1]) /\ IsOp(r.el[n], OP_CHECKMULTISIG)
     /\ \A i \in 2..(n - 2) : Len(r.el[i].d) > 0

KeyHash(s) == Slice(s, 3, 20)                   \* of a P2PKH script

P2PKH(h)  == <<OP_DUP, OP_HASH160>> \o Push(h) \o <<OP_EQUALVERIFY, OP_CHECKSIG>>
HashPuzzle(secret, h) == <<OP_HASH160>> \o Push(HASH160(secret)) \o <<OP_EQUALVERIFY>> \o P2PKH(h)
DataScript(parts) == <<OP_0, OP_RETURN>> \o EncodeParts(parts)
Unlock(pub, sig, flag) == Push(Append(sig, flag)) \o Push(pub)
=============================================================================
