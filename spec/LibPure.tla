------------------------------ MODULE LibPure ------------------------------
(* Every call of the library that has no object of its own as receiver: what   *)
(* it returns, as a function of its arguments.                                  *)
(*                                                                              *)
(* Arguments a and results are in recorded form (records of JSON strings,       *)
(* numbers and lists): byte strings, text and 32/64-bit numbers are hex         *)
(* strings, see Prims!B and Prims!Hex.                                           *)
(*   Ok(v)  the call succeeds with v         Err  the call returns an error      *)
(*   AnyRes    the call returns (either way): the specification leaves it open      *)
EXTENDS SigHash, Coinbase, Merkle, Redeem, Target

Ok(v) == [k |-> "ok", v |-> v]
Err   == [k |-> "err"]
AnyRes   == [k |-> "any"]
MayRefuse(v) == [k |-> "ok?", v |-> v]
OkIf(c, v) == IF c THEN Ok(v) ELSE Err

BL(l) == Each(LAMBDA i : B(l[i]), Len(l))
HexL(l) == Each(LAMBDA i : Hex(l[i]), Len(l))

(* recorded form of transactions, and back *)
ROpt(x) == IF x = NONE THEN <<>> ELSE <<Hex(x[1])>>
RIn(in) == [txid |-> Hex(in.txid), vout |-> Hex(in.vout), unl |-> Hex(in.unl), seq |-> Hex(in.seq),
            prev |-> ROpt(in.prev), sat |-> Hex(in.sat)]
ROut(o) == [sat |-> Hex(o.sat), lock |-> Hex(o.lock)]
RTx(tx) == [ver |-> Hex(tx.ver), lt |-> Hex(tx.lt), ins |-> Map(RIn, tx.ins), outs |-> Map(ROut, tx.outs)]

DIn(j)  == In(B(j.txid), B(j.vout), B(j.unl), B(j.seq), BL(j.prev), B(j.sat))
DOut(j) == Out(B(j.sat), B(j.lock))
\* a list of inputs or outputs may be given as one to be repeated (j.ri, j.ro times), followed by other inputs (j.ti)
Repeated(l, j, f) == IF f \in DOMAIN j THEN Each(LAMBDA i : l[((i - 1) % Len(l)) + 1], Len(l) * j[f]) ELSE l
DTx(j)  == [ver |-> B(j.ver), lt |-> B(j.lt), ins |-> Repeated(Map(DIn, j.ins), j, "ri") \o (IF "ti" \in DOMAIN j THEN Map(DIn, j.ti) ELSE <<>>), outs |-> Repeated(Map(DOut, j.outs), j, "ro")]

ParseR(b) == LET p == ParseTx(b) IN IF p.ok THEN Ok(RTx(p.tx)) ELSE Err

CanAutoSign(tx, i, pub) ==     \* 0-based
  /\ CanHash(tx, i)
  /\ LET p == tx.ins[i + 1].prev[1] IN IsP2PKH(p) /\ KeyHash(p) = HASH160(pub)

\* signing input a.i, or (a.i < 0) automatically: r.v.ch lists the inputs that changed, with their new unlocking scripts
SignAtOK(a, r) ==
  LET tx  == DTx(a.tx)
      f   == IF a.f = 0 THEN DefaultFlag ELSE a.f
      pub == PubFromPriv(B(a.key))
      mine == IF a.i >= 0 THEN {a.i} ELSE {i \in 0..(Len(tx.ins) - 1) : CanAutoSign(tx, i, pub)}
  IN IF a.i >= 0 /\ ~CanHash(tx, a.i) THEN r.k = "err"
     ELSE /\ r.k = "ok" /\ SameVal(r.v.other, FALSE)
          /\ Len(r.v.ch) = Cardinality(mine) /\ {r.v.ch[k].i : k \in 1..Len(r.v.ch)} = mine
          /\ \A k \in 1..Len(r.v.ch) : IsHexArg(r.v.ch[k].unl) /\ ValidUnlock(tx, r.v.ch[k].i, f, pub, B(r.v.ch[k].unl))

(* text of hex digits as bytes, or an error *)
Is20(t) == IsHex(t) /\ Len(t) = 40

\* ---- one operator per call ------------------------------------------------
Exp(op, a) ==
  CASE op = "varint_enc" -> Ok(Hex(VarIntEnc(B(a.u))))
    [] op = "varint_dec" -> LET r == VarIntDec(B(a.b)) IN Ok([n |-> r.n, v |-> Hex(r.v)])

    [] op = "tx_parse"     -> ParseR(B(a.b))
    [] op = "tx_parse_str" -> IF IsHex(B(a.t)) THEN ParseR(UnHex(B(a.t))) ELSE Err
    [] op = "tx_rt"        -> LET b == B(a.b) p == ParseTx(b)           \* parse, count, serialise again
                              IN IF p.ok THEN Ok([b |-> Hex(TxBytes(p.tx)), ni |-> Len(p.tx.ins), no |-> Len(p.tx.outs)]) ELSE Err
    [] op = "tx_ser"       -> LET tx == DTx(a.tx) b == TxBytes(tx)
                              IN Ok([b |-> Hex(b), hex |-> Hex(HexText(b)), id |-> Hex(TxId(tx))])
    [] op = "tx_count"     -> LET tx == DTx(a.tx)                            \* built by one add after the other
                              IN Ok([ni |-> Len(tx.ins), no |-> Len(tx.outs), gi |-> Len(tx.ins), go |-> Len(tx.outs),
                                     tot |-> Hex(TotalOut(tx)), cb |-> IsCoinbaseTx(tx)])
    [] op = "sign_at"      -> IF a.i >= 0 /\ ~CanHash(DTx(a.tx), a.i) THEN Err ELSE AnyRes        \* see SignAtOK
    [] op = "apply_at"     -> LET tx == DTx(a.tx)                            \* a script other than the one that is there
                              IN OkIf(a.i < Len(tx.ins), [ch |-> << [i |-> a.i, unl |-> Hex(B(a.s))] >>, other |-> FALSE])
    [] op = "in_str"       -> Ok("")                                         \* a description; which text is not specified
    [] op = "out_str"      -> Ok("")
    [] op = "tx_clear"     -> Ok(Hex(TxBytesCleared(DTx(a.tx), a.i, B(a.s))))
    [] op = "in_parse"     -> LET r == InAt(B(a.b), 0) IN IF r.ok THEN Ok([n |-> r.n, in |-> RIn(r.in)]) ELSE Err
    [] op = "in_ser"       -> Ok(Hex(IF a.clear THEN InBytesClear(DIn(a.in)) ELSE InBytes(DIn(a.in))))
    [] op = "out_parse"    -> LET r == OutAt(B(a.b), 0) IN IF r.ok THEN Ok([n |-> r.n, out |-> ROut(r.out)]) ELSE Err
    [] op = "out_ser"      -> LET o == DOut(a.out)
                              IN Ok([b |-> Hex(OutBytes(o)), sh |-> Hex(OutBytes(o)), hex |-> Hex(HexText(o.lock))])
    [] op = "sighash"      -> LET tx == DTx(a.tx) IN OkIf(CanHash(tx, a.i), Hex(SigHashOf(tx, a.i, a.f)))

    [] op = "push_enc"     -> Ok(Hex(EncodeParts(BL(a.l))))
    [] op = "push_prefix"  -> Ok(Hex(PushPrefix(Len(B(a.d)))))
    \* by the length alone (64 bits, little-endian): above 2^32 - 1 there is no way to push
    [] op = "push_prefix_len" -> LET u == B(a.u) IN IF SubSeq(u, 5, 8) # Rep(0, 4) THEN Err
                                 ELSE Ok(Hex(IF u[4] = 0 THEN PushPrefix(u[1] + 256 * u[2] + 65536 * u[3]) ELSE <<78>> \o Take(u, 4)))
    [] op = "push_enc_len" -> IF SubSeq(B(a.u), 5, 8) # Rep(0, 4) THEN Err ELSE AnyRes
    [] op = "push_dec"     -> LET r == Elements(B(a.b)) IN OkIf(r.ok, HexL(Parts(B(a.b))))
    [] op = "push_dec_str" -> IF ~IsHex(B(a.t)) THEN Err ELSE LET b == UnHex(B(a.t)) IN OkIf(Elements(b).ok, HexL(Parts(b)))
    [] op = "push_rt"      -> Ok(HexL(BL(a.l)))                              \* decode(encode(l)), non-empty elements
    [] op = "asm_to"       -> OkIf(Elements(B(a.b)).ok, Hex(ScriptText(B(a.b))))
    [] op = "asm_from"     -> OkIf(TextOK(B(a.t)), Hex(TextScript(B(a.t))))
    [] op = "asm_rt"       -> OkIf(Elements(B(a.b)).ok, Hex(B(a.b)))              \* from(to(b)), minimal pushes
    [] op = "script_hex"   -> Ok(Hex(HexText(B(a.b))))
    [] op = "script_fromhex" -> OkIf(IsHex(B(a.t)), Hex(UnHex(B(a.t))))
    [] op = "classify"     -> LET s == B(a.b)
                              IN Ok([p2pkh |-> IsP2PKH(s), p2sh |-> IsP2SH(s), p2pk |-> IsP2PK(s), data |-> IsData(s),
                                     multisig |-> IsMultisig(s), pkh |-> IF IsP2PKH(s) THEN Hex(KeyHash(s)) ELSE "err"])

    [] op = "c_pub"        -> Ok(Hex(P2PKH(HASH160(B(a.b)))))
    [] op = "c_pubstr"     -> OkIf(IsHex(B(a.t)), Hex(P2PKH(HASH160(UnHex(B(a.t))))))
    [] op = "c_pkh"        -> OkIf(Is20(B(a.t)), Hex(P2PKH(UnHex(B(a.t)))))
    [] op = "c_addr"       -> OkIf(AddressOK(B(a.t)), Hex(P2PKH(AddressHash(B(a.t)))))
    [] op = "o_pkh"        -> OkIf(Is20(B(a.t)), [sat |-> a.sat, lock |-> Hex(P2PKH(UnHex(B(a.t))))])
    [] op = "o_addr"       -> OkIf(AddressOK(B(a.t)), [sat |-> a.sat, lock |-> Hex(P2PKH(AddressHash(B(a.t))))])
    [] op = "o_puzzle"     -> IF ~IsHex(B(a.t)) THEN Err ELSE IF ~Is20(B(a.t)) THEN AnyRes
                              ELSE Ok([sat |-> a.sat, lock |-> Hex(HashPuzzle(B(a.secret), UnHex(B(a.t))))])
    [] op = "o_data"       -> Ok([sat |-> Hex(ZERO64), lock |-> Hex(DataScript(BL(a.l)))])
    [] op = "unlock"       -> Ok(Hex(Unlock(B(a.pub), B(a.sig), a.f)))

    [] op = "merkle_br"    -> Ok(IF a.l = <<>> THEN <<>>
                                 ELSE LET h == Each(LAMBDA i : Rev(UnHex(B(a.l[i]))), Len(a.l))
                                          p == Proof(h, 0)
                                      IN [i \in 1..Len(p) |-> Hex(HexText(p[i]))])
    [] op = "merkle_cb"    -> Ok(Hex(Climb(B(a.h), ZERO64, Each(LAMBDA i : UnHex(B(a.l[i])), Len(a.l)))))
    [] op = "merkle_all"   -> LET h == Each(LAMBDA i : Rev(UnHex(B(a.l[i]))), Len(a.l))      \* branches, then fold
                              IN Ok([root |-> Hex(MerkleRoot(h)), n |-> Height(Len(h))])
    [] op = "merkle_proof" -> IF ~IsHex(B(a.t)) \/ (\E i \in 1..Len(a.l) : ~IsHex(B(a.l[i]))) \/ ~Fits(B(a.i), Len(a.l)) THEN Err
                              ELSE Ok(Hex(HexText(Rev(Climb(Rev(UnHex(B(a.t))), B(a.i),
                                                            Each(LAMBDA i : Rev(UnHex(B(a.l[i]))), Len(a.l)))))))
    [] op = "merkle_at"    -> LET h == Each(LAMBDA i : Rev(UnHex(B(a.l[i]))), Len(a.l))      \* the proof of position p, by the model
                                                                p == Proof(h, a.p)
                              IN IF a.br # [i \in 1..Len(p) |-> Hex(HexText(Rev(p[i])))] THEN [k |-> "bad case"]
                                 ELSE Ok(Hex(HexText(Rev(MerkleRoot(h)))))

    [] op = "coinbase"     -> IF ~CoinbaseOK(B(a.wit), B(a.wallet)) THEN Err
                              ELSE LET tx == CoinbaseTx(B(a.height), B(a.value), B(a.wit), B(a.text), B(a.wallet), B(a.miner), B(a.e1) \o B(a.e2))
                                       full == TxBytes(tx)
                                       n == 42 + Len(CoinbaseData(B(a.height), B(a.text)))
                                   IN Ok([c1 |-> Hex(Take(full, n)), c2 |-> Hex(Drop(full, n + EXTRA)), full |-> Hex(full), tx |-> RTx(tx)])
    [] op = "coinbase_join" -> Ok(Hex(B(a.c1) \o B(a.e1) \o B(a.e2) \o B(a.c2)))
    [] op = "header"       -> Ok(Hex(Header(B(a.ver), UnHex(B(a.prev)), B(a.root), B(a.time), B(a.bits), B(a.nonce))))

    [] op = "tgt_hex"      -> LET t == B(a.t) IN IF ~IsHex(t) \/ Len(t) # 8 THEN Err
                              ELSE OkIf(HasHexForm(UnHex(t)), Hex(TargetHex(UnHex(t))))
    [] op = "tgt_int"      -> LET t == B(a.t) IN IF ~IsHex(t) \/ Len(t) # 8 THEN Err
                              ELSE Ok([neg |-> IsNegative(UnHex(t)), mag |-> Hex(Rev(Magnitude(UnHex(t))))])
    [] op = "diff"         -> LET t == B(a.t) IN IF ~IsHex(t) \/ Len(t) # 8 THEN Err ELSE AnyRes     \* see Agrees
    [] op = "hashrate"     -> AnyRes
    [] op = "human"        -> AnyRes

    [] op = "addr_pkh"     -> IF Len(B(a.h)) # 20 THEN AnyRes ELSE Ok([addr |-> Hex(AddressOf(B(a.h), a.main)), pkh |-> Hex(HexText(B(a.h)))])
    [] op = "addr_pub"     -> IF ~IsHex(B(a.t)) THEN Err
                              ELSE LET h == HASH160(UnHex(B(a.t))) IN Ok([addr |-> Hex(AddressOf(h, a.main)), pkh |-> Hex(HexText(h))])
    [] op = "addr_key"     -> LET h == HASH160(PubFromPriv(B(a.priv))) IN Ok([addr |-> Hex(AddressOf(h, a.main)), pkh |-> Hex(HexText(h))])
    [] op = "addr_parse"   -> OkIf(AddressOK(B(a.t)), [addr |-> a.t, pkh |-> Hex(HexText(AddressHash(B(a.t))))])
    [] op = "addr_valid"   -> IF TextOpen(B(a.t)) THEN AnyRes ELSE Ok(TextValid(B(a.t)))
    [] op = "b58cm"        -> Ok(Hex(Base58Check(B(a.b))))
    [] op = "bip_enc"      -> OkIf(a.n \in 1..255 /\ a.v \in 1..255, Hex(BipEncode(B(a.p), a.n, a.v, B(a.d))))
    [] op = "bip_dec"      -> LET r == BipParse(B(a.t)) IN IF r.ok THEN (IF r.open THEN MayRefuse([p |-> Hex(r.prefix), n |-> r.net, v |-> r.ver, d |-> Hex(r.data)])
                              ELSE Ok([p |-> Hex(r.prefix), n |-> r.net, v |-> r.ver, d |-> Hex(r.data)])) ELSE Err

    [] op = "electrum"     -> LET t == B(a.t) IN IF ~IsHex(t) THEN Err
                              ELSE IF ~ElectrumOK(UnHex(t)) THEN Err
                              ELSE LET rs == ElectrumRS(UnHex(t))
                                   IN IF rs.m > 15 THEN AnyRes
                                      ELSE Ok([m |-> rs.m, n |-> Len(rs.keys), script |-> Hex(RedeemScript(rs))])

    [] op = "hash"         -> LET b == B(a.b) IN Ok([s |-> Hex(SHA256(b)), d |-> Hex(SHA256d(b)), r |-> Hex(RIPEMD160(b)), h |-> Hex(HASH160(b))])
    [] op = "seal_rt"      -> Ok(Hex(B(a.b)))                                     \* decrypt(encrypt(b))
    [] op = "unseal_raw"   -> IF Len(B(a.b)) < 16 THEN Err ELSE AnyRes

    [] op = "rev"          -> Ok(Hex(Rev(B(a.b))))
    [] op = "revhex"       -> LET t == B(a.t) u == IF Len(t) % 2 = 0 THEN t ELSE <<48>> \o t
                                  n == Len(u) \div 2
                              IN Ok(Hex([i \in 1..(2 * n) |-> IF i % 2 = 1 THEN u[2 * n - i] ELSE u[2 * n - i + 2]]))
    [] op = "le"           -> Ok(Hex(B(a.v) \o Rep(0, a.l - 4)))
    [] op = "eq"           -> Ok(B(a.x) = B(a.y))
    [] op = "sort"         -> Ok(HexL(SortBytes(BL(a.l))))
    [] op = "dec32"        -> LET t == B(a.t) IN OkIf(IsHex(t) /\ Len(t) >= 64, Hex(UnHex(Take(t, 64))))

(* does result r (recorded) agree with the specification? *)
Agrees(op, a, r) ==
  LET x == Exp(op, a)
  IN CASE x.k = "ok"  -> SameVal(r, x)
       [] x.k = "err" -> r.k = "err"
       [] x.k = "ok?" -> r.k = "err" \/ SameVal(r, Ok(x.v))               \* may be refused
       [] x.k = "any" ->
            CASE op = "diff"     -> IF IsNegative(UnHex(B(a.t))) \/ Len(Magnitude(UnHex(B(a.t)))) > 32 THEN r.k \in {"ok", "err"}
                                    ELSE IF Magnitude(UnHex(B(a.t))) = <<>> THEN r.k \in {"ok", "err"}
                                    ELSE r.k = "ok" /\ IsHexArg(r.v) /\ DifficultyOK(UnHex(B(a.t)), B(r.v))
              [] op = "sign_at"  -> SignAtOK(a, r)
              [] op = "hashrate" -> r.k = "ok" /\ IsHexArg(r.v) /\ HashrateOK(B(a.coin), B(a.diff), B(a.secs), B(r.v))
              [] op = "human"    -> r.k = "ok" /\ IsHexArg(r.v) /\ HumanOK(B(a.f), B(r.v))
              [] OTHER           -> r.k \in {"ok", "err"}
       [] OTHER -> FALSE

(* "never crashes, never accepts what must be refused": the part of Agrees that *)
(* property C03 is about                                                          *)
Survives(op, a, r) == r.k \in {"ok", "err"} /\ (Exp(op, a).k = "err" => r.k = "err")
=============================================================================
