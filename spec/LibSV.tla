------------------------------- MODULE LibSV -------------------------------
(* The library as a state machine: a world of objects (transactions, scripts,   *)
(* redeem scripts, signers, plain values) that calls create, change and query.  *)
(*                                                                              *)
(*   w : object id -> object          the real objects, as seen by their users  *)
(*   g : ghost state: signatures made so far with what they cover, sealed data  *)
(*                                                                              *)
(* Step(w, g, op, a, r) is the effect of one call with arguments a and recorded *)
(* result r:  ok: r is a result the specification allows;  w, g: the new state. *)
(* Where the specification leaves a choice open (an ECDSA signature, a random   *)
(* initialisation vector) r picks it and the specification says which picks are *)
(* allowed.  Nothing but what a Step says may change in the world: that is the  *)
(* isolation property, and it is checked for every recorded call.               *)
EXTENDS LibPure, TLC

EmptyWorld == [x \in {} |-> <<>>]
EmptyGhost == [sigs |-> {}, sealed |-> {}, ivs |-> {}]

TxObj(tx)     == [t |-> "tx", x |-> tx]
ScriptObj(b)  == [t |-> "script", x |-> b]
RsObj(rs)     == [t |-> "rs", x |-> rs]
SignerObj(s)  == [t |-> "signer", x |-> s]        \* [key (32 bytes), flag]
ValObj(v)     == [t |-> "val", x |-> v]           \* any recorded value

\* recorded form of an object
Render(o) ==
  CASE o.t = "tx"     -> [t |-> "tx", v |-> RTx(o.x)]
    [] o.t = "script" -> [t |-> "script", v |-> Hex(o.x)]
    [] o.t = "rs"     -> [t |-> "rs", v |-> [m |-> o.x.m, keys |-> HexL(SortBytes(o.x.keys))]]   \* as a multiset: a query may sort them
    [] o.t = "signer" -> [t |-> "signer", v |-> [key |-> Hex(o.x.key), flag |-> o.x.flag]]
    [] o.t = "val"    -> [t |-> "val", v |-> o.x]

Put(w, id, o) == (id :> o) @@ w

\* outcomes
Res(ok, w, g, x) == [ok |-> ok, w |-> w, g |-> g, x |-> x]
Query(w, g, r, x) == Res(SameVal(r, x), w, g, x)                                     \* changes nothing
Change(w, g, r, c, id, o, v) ==                                             \* if c: id becomes o, result v; else an error and no change
  IF c THEN Res(SameVal(r, Ok(v)), Put(w, id, o), g, Ok(v)) ELSE Res(r.k = "err", w, g, Err)

AppendIn(tx, in)   == [tx EXCEPT !.ins = Append(@, in)]
AppendOut(tx, out) == [tx EXCEPT !.outs = Append(@, out)]
SetUnl(tx, i, s)   == [tx EXCEPT !.ins[i + 1].unl = s]

\* user edits of a transaction's fields
Edit(tx, f, i, v) ==
  CASE f = "ver"  -> [tx EXCEPT !.ver = v]
    [] f = "lt"   -> [tx EXCEPT !.lt = v]
    [] f = "txid" -> [tx EXCEPT !.ins[i + 1].txid = v]
    [] f = "vout" -> [tx EXCEPT !.ins[i + 1].vout = v]
    [] f = "seq"  -> [tx EXCEPT !.ins[i + 1].seq = v]
    [] f = "isat" -> [tx EXCEPT !.ins[i + 1].sat = v]
    [] f = "unl"  -> [tx EXCEPT !.ins[i + 1].unl = v]
    [] f = "prev" -> [tx EXCEPT !.ins[i + 1].prev = <<v>>]
    [] f = "noprev" -> [tx EXCEPT !.ins[i + 1].prev = NONE]
    [] f = "osat" -> [tx EXCEPT !.outs[i + 1].sat = v]
    [] f = "lock" -> [tx EXCEPT !.outs[i + 1].lock = v]
    [] f = "indel"   -> [tx EXCEPT !.ins = Take(@, i) \o Drop(@, i + 1)]
    [] f = "outdel"  -> [tx EXCEPT !.outs = Take(@, i) \o Drop(@, i + 1)]
    [] f = "inswap"  -> [tx EXCEPT !.ins = [@ EXCEPT ![i + 1] = tx.ins[i + 2], ![i + 2] = tx.ins[i + 1]]]    \* with the next one
    [] f = "outswap" -> [tx EXCEPT !.outs = [@ EXCEPT ![i + 1] = tx.outs[i + 2], ![i + 2] = tx.outs[i + 1]]]
    [] f = "unl+"  -> [tx EXCEPT !.ins[i + 1].unl = @ \o v]                  \* append to the script in place
    [] f = "prev+" -> [tx EXCEPT !.ins[i + 1].prev = <<@[1] \o v>>]
    [] f = "lock+" -> [tx EXCEPT !.outs[i + 1].lock = @ \o v]
    [] f = "unl^"  -> [tx EXCEPT !.ins[i + 1].unl = [@ EXCEPT ![1] = 255 - @]]   \* flip the first byte in place
    [] f = "prev^" -> [tx EXCEPT !.ins[i + 1].prev = <<[@[1] EXCEPT ![1] = 255 - @]>>]
    [] f = "lock^" -> [tx EXCEPT !.outs[i + 1].lock = [@ EXCEPT ![1] = 255 - @]]

EffFlag(s) == IF s.flag = 0 THEN DefaultFlag ELSE s.flag
Pub(s) == PubFromPriv(s.key)
\* the signature inside an unlocking script of the form made by signing
SigIn(s) == Slice(s, 1, s[1] - 1)
SigRec(id, tx, i, flag, pub, s) == [tx |-> id, i |-> i, flag |-> flag, pub |-> pub, der |-> SigIn(s), cov |-> Covered(tx, i, flag)]
GoodUnlock(tx, i, flag, pub, h) == IsHexArg(h) /\ ValidUnlock(tx, i, flag, pub, B(h))

Same(w, g, r) == Res(r.k = "ok", w, g, [k |-> "ok"])

Step(w, g, op, a, r) ==
  LET tx == w[a.id].x IN
  CASE op = "tx_new"    -> Change(w, g, r, TRUE, a.id, TxObj(EmptyTx), "")
    [] op = "tx_load"   -> LET p == ParseTx(B(a.b)) IN Change(w, g, r, p.ok, a.id, IF p.ok THEN TxObj(p.tx) ELSE <<>>, "")
    [] op = "tx_loadbuf" -> LET p == ParseTx(B(w[a.buf].x)) IN Change(w, g, r, p.ok, a.id, IF p.ok THEN TxObj(p.tx) ELSE <<>>, "")
    [] op = "tx_make"   -> Change(w, g, r, TRUE, a.id, TxObj(DTx(a.tx)), "")          \* assembled field by field by its user
    [] op = "signer"    -> Change(w, g, r, TRUE, a.id, SignerObj([key |-> B(a.key), flag |-> a.flag]), "")
    [] op = "val"       -> Change(w, g, r, TRUE, a.id, ValObj(a.v), "")

    \* building
    [] op = "tx_from"   -> Change(w, g, r, IsHex(B(a.script)), a.id,
                             IF IsHex(B(a.script))
                             THEN TxObj(AppendIn(tx, In(B(a.txid), B(a.vout), <<>>, MAX32, <<UnHex(B(a.script))>>, B(a.sat)))) ELSE <<>>, "")
    [] op = "tx_addutxo" -> Change(w, g, r, IsHex(B(a.script)), a.id,                    \* input.NewFromUTXO, AddInput
                             IF IsHex(B(a.script))
                             THEN TxObj(AppendIn(tx, In(B(a.txid), B(a.vout), <<>>, B(a.seq), <<UnHex(B(a.script))>>, B(a.sat)))) ELSE <<>>, "")
    [] op = "tx_addempty" -> Change(w, g, r, TRUE, a.id,                                  \* input.New, AddInput
                               TxObj(AppendIn(tx, In(<<>>, ZERO32, <<>>, MAX32, NONE, ZERO64))), "")
    [] op = "tx_addin"  -> Change(w, g, r, TRUE, a.id, TxObj(AppendIn(tx, DIn(a.in))), "")
    [] op = "tx_addout" -> Change(w, g, r, TRUE, a.id, TxObj(AppendOut(tx, DOut(a.out))), "")
    [] op = "tx_payto"  -> Change(w, g, r, AddressOK(B(a.addr)), a.id,
                             IF AddressOK(B(a.addr)) THEN TxObj(AppendOut(tx, Out(B(a.sat), P2PKH(AddressHash(B(a.addr)))))) ELSE <<>>, "")
    [] op = "tx_apply"  -> Change(w, g, r, a.i \in 0..(Len(tx.ins) - 1), a.id,
                             IF a.i \in 0..(Len(tx.ins) - 1) THEN TxObj(SetUnl(tx, a.i, B(a.s))) ELSE <<>>, "")
    [] op = "tx_edit"   -> Change(w, g, r, TRUE, a.id, TxObj(Edit(tx, a.f, a.i, B(a.v))), "")

    \* queries
    [] op = "tx_info"   -> Query(w, g, r, Ok([ni |-> Len(tx.ins), no |-> Len(tx.outs), gi |-> Len(tx.ins), go |-> Len(tx.outs),
                                              tot |-> Hex(TotalOut(tx)), cb |-> IsCoinbaseTx(tx)]))
    [] op = "tx_bytes"  -> LET b == TxBytes(tx) IN Query(w, g, r, Ok([b |-> Hex(b), hex |-> Hex(HexText(b)), id |-> Hex(TxId(tx))]))
    [] op = "tx_sighash" -> Query(w, g, r, OkIf(CanHash(tx, a.i), IF CanHash(tx, a.i) THEN Hex(SigHashOf(tx, a.i, a.f)) ELSE ""))

    \* signing
    [] op = "tx_sign"   ->
         LET s == w[a.signer].x
             f == EffFlag(s)
         IN IF ~CanHash(tx, a.i) THEN Res(r.k = "err", w, g, Err)
            ELSE IF r.k = "ok" /\ GoodUnlock(tx, a.i, f, Pub(s), r.v)
                 THEN Res(TRUE, Put(w, a.id, TxObj(SetUnl(tx, a.i, B(r.v)))),
                          [g EXCEPT !.sigs = @ \cup {SigRec(a.id, tx, a.i, f, Pub(s), B(r.v))}], r)
                 ELSE Res(FALSE, w, g, "a valid unlocking script")
    [] op = "tx_signauto" ->       \* r.v: the unlocking scripts of all inputs afterwards
         LET s == w[a.signer].x
             f == EffFlag(s)
             pub == Pub(s)
             n == Len(tx.ins)
             mine == {i \in 0..(n - 1) : CanAutoSign(tx, i, pub)}
             good == /\ r.k = "ok" /\ Len(r.v) = n
                     /\ \A i \in 0..(n - 1) : IF i \in mine THEN GoodUnlock(tx, i, f, pub, r.v[i + 1])
                                               ELSE SameVal(r.v[i + 1], Hex(tx.ins[i + 1].unl))
             signed == [tx EXCEPT !.ins = [i \in 1..n |-> IF (i - 1) \in mine THEN [tx.ins[i] EXCEPT !.unl = B(r.v[i])] ELSE tx.ins[i]]]
         IN IF good THEN Res(TRUE, Put(w, a.id, TxObj(signed)),
                             [g EXCEPT !.sigs = @ \cup {SigRec(a.id, tx, i, f, pub, B(r.v[i + 1])) : i \in mine}], r)
            ELSE Res(FALSE, w, g, [signs |-> mine])
    [] op = "tx_signext" ->        \* an external signer that refuses, or returns the transaction a.tx
         IF a.mode = "err" THEN Res(r.k = "err", w, g, Err)
         ELSE Change(w, g, r, TRUE, a.id, TxObj(DTx(a.tx)), "")
    [] op = "tx_verify" ->         \* does the signature made earlier (for whichever input) verify now for input a.i?
         LET known == {q \in g.sigs : q.tx = a.id /\ q.flag = a.f /\ q.pub = B(a.pub) /\ q.der = B(a.der)}
         IN IF known = {} THEN Res(r.k \in {"ok", "err"}, w, g, [k |-> "any"])
            ELSE IF ~CanHash(tx, a.i) THEN Res(r.k = "err", w, g, Err)
            ELSE Query(w, g, r, Ok(\E q \in known : q.cov = Covered(tx, a.i, a.f)))

    \* scripts
    [] op = "s_new"     -> Change(w, g, r, TRUE, a.id, ScriptObj(B(a.b)), "")
    [] op = "s_op"      -> Change(w, g, r, TRUE, a.id, ScriptObj(Append(tx, a.c)), "")
    [] op = "s_push"    -> Change(w, g, r, TRUE, a.id, ScriptObj(tx \o Push(B(a.d))), "")
    [] op = "s_pushhex" -> Change(w, g, r, IsHex(B(a.d)), a.id, IF IsHex(B(a.d)) THEN ScriptObj(tx \o Push(UnHex(B(a.d)))) ELSE <<>>, "")
    [] op = "s_pushs"   -> Change(w, g, r, TRUE, a.id, ScriptObj(tx \o EncodeParts(BL(a.l))), "")
    [] op = "s_push_len" -> Change(w, g, r, FALSE, a.id, <<>>, "")      \* used with lengths that cannot be pushed
    [] op = "s_read"    -> Query(w, g, r, Ok(Hex(HexText(tx))))
    [] op = "s_asm"     -> Query(w, g, r, OkIf(Elements(tx).ok, IF Elements(tx).ok THEN Hex(ScriptText(tx)) ELSE ""))
    [] op = "s_classify" -> Query(w, g, r, Exp("classify", [b |-> Hex(tx)]))

    \* redeem scripts
    [] op = "rs_new"    -> Change(w, g, r, a.m \in 2..16, a.id, RsObj([m |-> a.m, keys |-> <<>>]), "")
    [] op = "rs_make"   -> Change(w, g, r, TRUE, a.id, RsObj([m |-> a.m, keys |-> BL(a.keys)]), "")     \* by its fields
    [] op = "rs_add"    ->
         LET x == IF XkTextOK(B(a.xk)) THEN XkDecode(B(a.xk)) ELSE <<>>
             c == x # <<>> /\ PathOK(x, BL(a.path)) /\ Len(tx.keys) < 16
         IN Change(w, g, r, c, a.id, IF c THEN RsObj([tx EXCEPT !.keys = Append(@, PathKey(x, BL(a.path)))]) ELSE <<>>, "")
    [] op = "rs_load"   ->         \* from Electrum's form
         LET t == B(a.t) ok == IsHex(t) /\ ElectrumOK(UnHex(t))
         IN IF ok /\ ElectrumRS(UnHex(t)).m > 15 /\ r.k = "err" THEN Res(TRUE, w, g, Err)
            ELSE Change(w, g, r, ok, a.id, IF ok THEN RsObj(ElectrumRS(UnHex(t))) ELSE <<>>, "")
    [] op = "rs_script" -> Query(w, g, r, Ok(Hex(RedeemScript(tx))))
    [] op = "rs_hash"   -> Query(w, g, r, Ok(Hex(RedeemHash(tx))))
    [] op = "rs_addr"   -> Query(w, g, r, Ok(Hex(RedeemAddress(tx))))

    \* encryption (a.key: 16, 24 or 32 bytes); sealed remembers what each ciphertext holds
    [] op = "seal"      ->
         LET ct == IF r.k = "ok" /\ IsHexArg(r.v) THEN B(r.v) ELSE <<>>
             iv == Take(ct, 16)
             good == Len(ct) >= 16 /\ iv \notin g.ivs
         IN IF ~good THEN Res(FALSE, w, g, "a ciphertext with a fresh prefix")
            ELSE Res(good, Put(w, a.id, ValObj(r.v)),
                     [g EXCEPT !.ivs = @ \cup {iv}, !.sealed = @ \cup {[key |-> a.key, ct |-> r.v, pt |-> a.b]}],
                     "a ciphertext with a fresh prefix")
    [] op = "sealbuf"   ->         \* the plaintext is in a buffer its user keeps
         LET ct == IF r.k = "ok" /\ IsHexArg(r.v) THEN B(r.v) ELSE <<>>
             iv == Take(ct, 16)
             good == Len(ct) >= 16 /\ iv \notin g.ivs
         IN IF ~good THEN Res(FALSE, w, g, "a ciphertext with a fresh prefix")
            ELSE Res(good, Put(w, a.id, ValObj(r.v)),
                     [g EXCEPT !.ivs = @ \cup {iv}, !.sealed = @ \cup {[key |-> a.key, ct |-> r.v, pt |-> w[a.buf].x]}],
                     "a ciphertext with a fresh prefix")
    [] op = "seal_proc" ->         \* a.n encryptions by a process of their own
         IF r.k # "ok" \/ Len(r.v) # a.n \/ \E i \in 1..Len(r.v) : ~IsHexArg(r.v[i]) THEN Res(FALSE, w, g, "ciphertexts")
         ELSE LET ivs == {Take(B(r.v[i]), 16) : i \in 1..a.n}
              IN Res(Cardinality(ivs) = a.n /\ ivs \cap g.ivs = {} /\ \A v \in ivs : Len(v) = 16, w,
                     [g EXCEPT !.ivs = @ \cup ivs], "ciphertexts with fresh prefixes")
    [] op = "race"      -> Res(FALSE, w, g, "no data race inside the library")
    [] op = "unseal"    ->
         LET m == {q \in g.sealed : q.key = a.key /\ q.ct = w[a.ct].x}
         IN IF m = {} THEN Res(r.k \in {"ok", "err"}, w, g, [k |-> "any"])
            ELSE Res(r.k = "ok" /\ \A q \in m : SameVal(r.v, Hex(B(q.pt))), w, g, m)
    [] op = "iv_stats"  ->         \* the prefixes seen so far do not look constant in any position
         LET vary(p) == Cardinality({v[p] : v \in g.ivs})
         IN Res(Cardinality(g.ivs) < 200 \/ \A p \in 1..16 : vary(p) >= 40, w, g, [p \in 1..16 |-> vary(p)])

    \* calls without receiver: the result is kept as a new object, the arguments too
    [] op = "call"      ->
         Res(Agrees(a.op, a.a, r), Put(Put(w, a.id, ValObj(IF r.k = "ok" THEN r.v ELSE "")), a.arg, ValObj(a.a)), g, Exp(a.op, a.a))
    [] op = "overwrite" -> Res(r.k = "ok", Put(w, a.id, ValObj(r.v)), g, [k |-> "ok"])    \* the user overwrites the bytes of an object
    [] op = "drop"      -> Res(r.k = "ok", [x \in DOMAIN w \ {a.id} |-> w[x]], g, [k |-> "ok"])

StateOps == {"tx_new", "tx_load", "tx_loadbuf", "tx_make", "signer", "val", "tx_from", "tx_addutxo", "tx_addempty", "tx_addin", "tx_addout",
             "tx_payto", "tx_apply", "tx_edit", "tx_info", "tx_bytes", "tx_sighash", "tx_sign", "tx_signauto", "tx_signext", "tx_verify",
             "s_new", "s_op", "s_push", "s_push_len", "s_pushhex", "s_pushs", "s_read", "s_asm", "s_classify",
             "rs_new", "rs_make", "rs_add", "rs_load", "rs_script", "rs_hash", "rs_addr", "seal", "sealbuf", "seal_proc", "race", "unseal", "iv_stats", "call", "overwrite", "drop"}
=============================================================================
