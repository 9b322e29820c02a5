------------------------------- MODULE MC_Hist -------------------------------
(* Histories: the state machine LibSV driven by a small menu of calls, all       *)
(* histories explored (up to states that are alike).  Results the library may     *)
(* choose (signatures, initialisation vectors) are chosen canonically here.        *)
(* Every transition is written out as a test: a history that leads to it, followed *)
(* by the queries of Probe.                                                        *)
EXTENDS LibSV, Samples, Bitwise, Emit
CONSTANT Deep
VARIABLES w, g, h
vars == <<w, g, h>>

K1 == Rep(17, 32)
K2 == Rep(34, 32)
P1 == PubFromPriv(K1)
P2 == PubFromPriv(K2)
H1 == HASH160(P1)
H2 == HASH160(P2)
Id(k) == HexText([i \in 1..32 |-> (k * 37 + i) % 256])
TheIn(k, prev) == In(Id(k), U32(k), <<>>, MAX32, prev, U64(1000 + k))
TheOut(k) == Out(U64(7000 + k), <<81, k>>)
HT(b) == Hex(HexText(b))                           \* hex text, as an argument
E(op, a) == Call(op, a)

\* ---- what the library answers ------------------------------------------------
SignatureOf(tx, i, s) == Unlock(Pub(s), EcdsaSign(s.key, Digest(tx, i, EffFlag(s))), EffFlag(s))
Dummy == [k |-> "ok", v |-> ""]
\* in world ww with ghost state gg
AnswerIn(ww, gg, op, a) ==
  LET tx == ww[a.id].x IN
  CASE op = "tx_sign" -> IF CanHash(tx, a.i) THEN Ok(Hex(SignatureOf(tx, a.i, ww[a.signer].x))) ELSE Err
    [] op = "tx_signauto" -> LET s == ww[a.signer].x
                             IN Ok([i \in 1..Len(tx.ins) |-> IF CanAutoSign(tx, i - 1, Pub(s)) THEN Hex(SignatureOf(tx, i - 1, s)) ELSE Hex(tx.ins[i].unl)])
    [] op \in {"seal", "sealbuf"} -> Ok(Hex((IF Prop = "C22" THEN Take(SHA256(Ascii(a.id)), 16) ELSE Rep(Cardinality(gg.ivs), 16)) \o (IF op = "seal" THEN B(a.b) ELSE B(ww[a.buf].x))))    \* a stand-in
    [] op = "unseal" -> LET m == {q \in gg.sealed : q.key = a.key /\ q.ct = ww[a.ct].x} IN IF m = {} THEN Err ELSE Ok((CHOOSE q \in m : TRUE).pt)
    [] op = "call" -> LET x == Exp(a.op, a.a) IN IF x.k = "ok" THEN x ELSE Err
    [] op = "overwrite" -> Ok(IF a.id \in {"buf", "c", "d"} THEN Hex([i \in 1..Len(B(ww[a.id].x)) |-> B(ww[a.id].x)[i] ^^ 90]) ELSE ww[a.id].x)    \* as the driver does
    [] OTHER -> LET o == Step(ww, gg, op, a, Dummy)
                IN IF "k" \in DOMAIN o.x /\ o.x.k \in {"ok", "err"} THEN o.x ELSE Dummy
Answer(op, a) == AnswerIn(w, g, op, a)

\* ---- menus ---------------------------------------------------------------------
Ids(t) == {id \in DOMAIN w : w[id].t = t}
T == w["t"].x
NI == Len(T.ins)
NO == Len(T.outs)
Ed(f, i, v) == E("tx_edit", [id |-> "t", f |-> f, i |-> i, v |-> v])

\* C10: one signature per flag, any edits
FlagsOf == IF Deep THEN {65, 66, 67, 193, 194, 195, 1, 130} ELSE {65, 66, 67, 193, 195}
SignerOf(f) == Text(Ascii("s") \o HexText(<<f>>))
Setup10 == <<E("tx_make", [id |-> "t", tx |-> RTx([ver |-> U32(1), lt |-> U32(0), ins |-> <<TheIn(1, Some(P2PKH(H1))), TheIn(2, Some(P2PKH(H2)))>>, outs |-> <<TheOut(1), TheOut(2)>>])])>>
           \o SetToSeq({E("signer", [id |-> SignerOf(f), key |-> Hex(K1), flag |-> f]) : f \in FlagsOf})
Menu10 == IF Len(h) - Len(Setup10) >= (IF Deep THEN 5 ELSE 3) THEN {} ELSE
     {E("tx_sign", [id |-> "t", signer |-> SignerOf(f), i |-> i]) : f \in {x \in FlagsOf : g.sigs = {}}, i \in 0..(NI - 1)}
     \cup {Ed("ver", 0, Hex(U32(3 - T.ver[1]))), Ed("lt", 0, Hex(U32(1 - T.lt[1])))}
     \cup {Ed("seq", i, IF T.ins[i + 1].seq = MAX32 THEN Hex(U32(7)) ELSE Hex(MAX32)) : i \in 0..(NI - 1)}
     \cup {Ed("vout", i, Hex([T.ins[i + 1].vout EXCEPT ![4] = 1 - @])) : i \in 0..(NI - 1)}
     \cup {Ed("osat", i, Hex([T.outs[i + 1].sat EXCEPT ![8] = 1 - @])) : i \in 0..(NO - 1)}
     \cup (IF Deep THEN {Ed("isat", i, Hex([T.ins[i + 1].sat EXCEPT ![8] = 1 - @])) : i \in 0..(NI - 1)} ELSE {Ed("isat", 0, Hex([T.ins[1].sat EXCEPT ![8] = 1 - @]))})
     \cup (IF NO < 3 THEN {E("tx_addout", [id |-> "t", out |-> ROut(TheOut(3))])} ELSE {Ed("outdel", 2, "")})
     \cup {Ed("outswap", 0, "")}
\* verify every signature made against every input
RECURSIVE Refs(_, _)
Refs(hh, k) == IF k > Len(hh) THEN <<>>
               ELSE (IF hh[k].op = "tx_sign" THEN <<(k - 1) * 1000>>
                     ELSE IF hh[k].op = "tx_signauto" THEN [i \in 1..3 |-> (k - 1) * 1000 + i - 1] ELSE <<>>) \o Refs(hh, k + 1)
Verifies(hh, n) == LET r == Refs(hh, 1) IN Concat([j \in 1..Len(r) |-> [i \in 1..n |-> E("tx_verify", [id |-> "t", i |-> i - 1, ref |-> r[j]])]])
\* a signature is valid exactly while what it covers is unchanged
Valid(q, i) == CanHash(T, i) /\ EcdsaVerify(q.pub, Digest(T, i, q.flag), q.der)
Inv10 == \A q \in g.sigs : \A i \in 0..(NI - 1) : Valid(q, i) <=> (CanHash(T, i) /\ Covered(T, i, q.flag) = q.cov)

\* C11: signing, with failures, external signers, re-signing
Menu11 ==
     (IF Cardinality(g.sigs) < (IF Deep THEN 3 ELSE 2) THEN {E("tx_sign", [id |-> "t", signer |-> s, i |-> i]) : s \in Ids("signer"), i \in {0, 1, 2, 3}} ELSE {})
     \cup {E("tx_signext", [id |-> "t", mode |-> "err", i |-> 0, auto |-> TRUE]), E("tx_signext", [id |-> "t", mode |-> "err", i |-> 1])}
     \cup {E("tx_signext", [id |-> "t", mode |-> "tx", i |-> 5, tx |-> RTx([T EXCEPT !.lt = U32(9)])])}
     \cup {Ed("noprev", 1, ""), Ed("txid", 0, Hex(<<>>)), Ed("txid", 0, HT(Rep(5, 32))), Ed("prev", 1, "51"), Ed("unl", 0, "5152")}
Setup11 == <<E("tx_make", [id |-> "t", tx |-> RTx([ver |-> U32(1), lt |-> U32(0), ins |-> <<TheIn(1, Some(P2PKH(H1))), TheIn(2, Some(<<81>>)), TheIn(3, NONE)>>, outs |-> <<TheOut(1)>>])]),
             E("signer", [id |-> "a", key |-> Hex(K1), flag |-> 0]), E("signer", [id |-> "b", key |-> Hex(K2), flag |-> 195]), E("signer", [id |-> "c", key |-> Hex(K1), flag |-> 67])>>
\* an unlocking script that a signature record of the current state explains is a good one
Inv11 == \A q \in g.sigs : q.i < NI /\ T.ins[q.i + 1].unl = Unlock(q.pub, q.der, q.flag) /\ CanHash(T, q.i) /\ Covered(T, q.i, q.flag) = q.cov
                           => ValidUnlock(T, q.i, q.flag, q.pub, T.ins[q.i + 1].unl)
\* a signing step changes nothing but unlocking scripts
Step11 == h'[Len(h')].op \in {"tx_sign", "tx_signauto"} =>
            LET t1 == w["t"].x t2 == w'["t"].x
            IN Len(t1.ins) = Len(t2.ins) /\ [t2 EXCEPT !.ins = [i \in 1..Len(t2.ins) |-> [t2.ins[i] EXCEPT !.unl = t1.ins[i].unl]]] = t1
               /\ (h'[Len(h')].op = "tx_sign" => \A i \in 1..Len(t1.ins) : i # h'[Len(h')].a.i + 1 => t1.ins[i].unl = t2.ins[i].unl)

\* C12: inputs of all kinds in any order, several keys in any order
Kinds == {<<"own1", P2PKH(H1)>>, <<"own2", P2PKH(H2)>>, <<"foreign", P2PKH(Rep(7, 20))>>, <<"tail", P2PKH(H1) \o <<81>>>>, <<"text", <<81>>>>}
Stale == Rep(71, 71) \o Rep(33, 33)                  \* an input that has an unlocking script already
WithStale(in) == [in EXCEPT !.unl = Stale, !.seq = U32(5)]
Autos == Cardinality({k \in 1..Len(h) : h[k].op = "tx_signauto"})
Menu12 ==
     (IF NI < 3 /\ (Deep \/ Autos = 0) THEN {E("tx_addin", [id |-> "t", in |-> RIn(TheIn(NI + 1, Some(k[2])))]) : k \in Kinds}
                     \cup {E("tx_addin", [id |-> "t", in |-> RIn(TheIn(NI + 1, NONE))]), E("tx_addin", [id |-> "t", in |-> RIn([TheIn(NI + 1, Some(P2PKH(H1))) EXCEPT !.txid = <<>>])]),
                             E("tx_addin", [id |-> "t", in |-> RIn(TheIn(1, Some(P2PKH(H1))))]),          \* perhaps the outpoint of another input
                             E("tx_addin", [id |-> "t", in |-> RIn(WithStale(TheIn(NI + 1, Some(P2PKH(H1)))))]), E("tx_addin", [id |-> "t", in |-> RIn(WithStale(TheIn(NI + 1, Some(P2PKH(H2)))))])} ELSE {})
     \cup (IF Autos = 1 /\ h[Len(h)].op = "tx_signauto" THEN {Ed("lt", 0, Hex(U32(9)))} \cup (IF Deep THEN {Ed("prev", 0, Hex(P2PKH(H2))), Ed("osat", 0, Hex(U64(1)))} ELSE {}) ELSE {})
     \cup (IF NI >= 1 /\ Autos < 2 THEN {E("tx_signauto", [id |-> "t", signer |-> s]) : s \in Ids("signer")} ELSE {})
Setup12 == <<E("tx_new", [id |-> "t"]), E("tx_addout", [id |-> "t", out |-> ROut(TheOut(1))]),
             E("signer", [id |-> "a", key |-> Hex(K1), flag |-> 0]), E("signer", [id |-> "b", key |-> Hex(K2), flag |-> 195])>>
KeysUsed == {w[h[k].a.signer].x : k \in {j \in 1..Len(h) : h[j].op = "tx_signauto"}}
Inv12 == \A i \in 0..(NI - 1) :
           LET mine == {s \in KeysUsed : CanAutoSign(T, i, Pub(s))}
               after(s) == \E k \in 1..Len(h) : h[k].op = "tx_signauto" /\ w[h[k].a.signer].x = s
                              /\ \A j \in (k + 1)..Len(h) : h[j].op \notin {"tx_addin", "tx_edit"}
           IN IF mine = {} THEN T.ins[i + 1].unl = (IF T.ins[i + 1].seq = U32(5) THEN Stale ELSE <<>>) \/ (\E k \in 1..Len(h) : h[k].op = "tx_edit" /\ h[k].a.f = "prev")
              ELSE \A s \in mine : after(s) => ValidUnlock(T, i, EffFlag(s), Pub(s), T.ins[i + 1].unl)

\* C13: building two transactions
TX(id) == w[id].x
Bound13 == IF Deep THEN 3 ELSE 2
Menu13 ==
  UNION {LET tx == TX(id) IN
     (IF Len(tx.ins) + Len(tx.outs) < Bound13
      THEN {E("tx_from", [id |-> id, txid |-> HT(Rep(9, 32)), vout |-> Hex(U32(1)), script |-> HT(P2PKH(H1)), sat |-> Hex(U64(50))]),
            E("tx_addutxo", [id |-> id, txid |-> HT(Rep(9, 32)), vout |-> Hex(U32(1)), script |-> HT(<<81>>), sat |-> Hex(U64(50)), seq |-> Hex(U32(3))]),
            E("tx_addempty", [id |-> id]),
            E("tx_addin", [id |-> id, in |-> RIn(In(ZeroTxid, MAX32, <<1>>, U32(1), NONE, ZERO64))]),
            E("tx_addout", [id |-> id, out |-> ROut(Out(Rep(255, 8), <<81>>))]),
            E("tx_payto", [id |-> id, addr |-> Hex(AddressOf(H1, FALSE)), sat |-> Hex(U64(300))])} ELSE {})
     \cup {E("tx_payto", [id |-> id, addr |-> Hex([AddressOf(H1, TRUE) EXCEPT ![8] = IF @ = 50 THEN 51 ELSE 50]), sat |-> Hex(U64(300))]),
           E("tx_from", [id |-> id, txid |-> HT(Rep(9, 32)), vout |-> Hex(U32(1)), script |-> Hex(Ascii("5z")), sat |-> Hex(U64(50))]),
           E("tx_apply", [id |-> id, i |-> Len(tx.ins), s |-> "51"]), E("tx_apply", [id |-> id, i |-> 0, s |-> "5152"])} : id \in {"t", "u"}}
     \cup {E("tx_info", [id |-> "u"])}
Setup13 == <<E("tx_new", [id |-> "t"]), E("tx_new", [id |-> "u"])>>
\* appended in order, never lost
Step13 == \A id \in {"t", "u"} : LET a == w[id].x b == w'[id].x n == Len(a.ins) m == Len(a.outs) IN
            /\ b.ver = a.ver /\ b.lt = a.lt
            /\ Len(b.ins) \in {n, n + 1} /\ Len(b.outs) \in {m, m + 1} /\ Len(b.ins) + Len(b.outs) <= n + m + 1
            /\ Take(b.outs, m) = a.outs
            /\ \A i \in 1..n : [b.ins[i] EXCEPT !.unl = <<>>] = [a.ins[i] EXCEPT !.unl = <<>>]
            /\ (h'[Len(h')].op # "tx_apply" => Take(b.ins, n) = a.ins)
Inv13 == \A id \in {"t", "u"} : LET tx == TX(id) IN
            /\ ParseTx(TxBytes(tx)).ok \/ \E i \in 1..Len(tx.ins) : tx.ins[i].txid = <<>>
            /\ IsCoinbaseTx(tx) => Len(tx.ins) = 1

\* C08: appending to scripts
S == w["s"].x
Menu08 ==
  IF Len(S) < (IF Deep THEN 8 ELSE 5)
  THEN {E("s_op", [id |-> "s", c |-> c]) : c \in {0, 1, 76, 118, 255}}
       \cup {E("s_push", [id |-> "s", d |-> d]) : d \in {"", "00", "0102"}}
       \cup {E("s_push", [id |-> "s", d |-> Hex(Rep(65, n)), str |-> TRUE]) : n \in {0, 1}}
       \cup {E("s_pushhex", [id |-> "s", d |-> Hex(Ascii(t))]) : t \in {"ab", "", "a", "zz", "abc0"}}
       \cup {E("s_pushs", [id |-> "s", l |-> l]) : l \in {<<>>, <<"", "01">>, <<"02", "", "03">>}}
       \cup {E("s_pushs", [id |-> "s", l |-> <<"41", "">>, str |-> TRUE]), E("s_push", [id |-> "s", d |-> Hex(Rep(7, 76))])}
  ELSE {}
Setup08 == <<E("s_new", [id |-> "s", b |-> ""]), E("s_new", [id |-> "q", b |-> "51"])>>
Step08 == w["s"].t = "script" /\ StartsWith(w'["s"].x, w["s"].x) /\ w'["q"] = w["q"]

\* C20: redeem scripts from keys added in any order
RK == {<<2>> \o Rep(5, 32), <<3>> \o Rep(5, 32), <<2>> \o Rep(5, 31) \o <<6>>} \cup (IF Deep THEN {<<2>> \o Rep(255, 32)} ELSE {})
Xk(k) == Base58(LET x == <<4, 136, 178, 30, 1>> \o Rep(3, 8) \o Rep(k, 32) \o (IF k = 1 THEN P1 ELSE P2) IN x \o Checksum(x))
Xks == <<Hex(Xk(1)), Hex(Xk(2))>>
ASSUME Prop \notin {"C20", "C21", "C22"} \/ TLCSet(20, Xks)
Path(a, b) == <<Hex(<<0, 0, 0, a>>), Hex(<<0, 0, 1, b>>)>>
R(id) == w[id].x
Menu20 ==
  UNION {(IF Len(R(id).keys) < (IF Deep /\ id = "m" THEN 3 ELSE 2) THEN {E("rs_add", [id |-> id, xk |-> TLCGet(20)[k[1]], path |-> Path(k[2], 1)]) : k \in {<<1, 0>>, <<1, 1>>, <<2, 0>>}} ELSE {})
         \cup {E(q, [id |-> id]) : q \in {"rs_script"}} : id \in {"m", "n"}}
  \cup {E("rs_add", [id |-> "m", xk |-> TLCGet(20)[1], path |-> <<Hex(<<128, 0, 0, 0>>), Hex(ZERO32)>>]), E("rs_add", [id |-> "m", xk |-> Hex(Append(B(TLCGet(20)[1]), 49)), path |-> Path(0, 0)]),
        E("rs_add", [id |-> "n", xk |-> TLCGet(20)[2], path |-> <<Hex(ZERO32)>>])}
Setup20 == <<E("rs_new", [id |-> "m", m |-> 2]), E("rs_new", [id |-> "n", m |-> 2])>>
Multi(s) == SortBytes(s)
Inv20 == /\ SortBytes(R("m").keys) = SortBytes(R("n").keys) <=> RedeemScript(R("m")) = RedeemScript(R("n"))
         /\ \A id \in {"m", "n"} : R(id).keys # <<>> => IsMultisig(RedeemScript(R(id))) /\ Len(RedeemScript(R(id))) = 3 + 34 * Len(R(id).keys)

\* C23: encryptions and decryptions in any order
Menu23 ==
  (IF Cardinality(g.ivs) < 3 THEN {E("seal", [id |-> id, b |-> b, key |-> k]) : id \in {"c", "d"}, b \in {"", "00", "0102"}, k \in {Hex(Rep(1, 16)), Hex(Rep(2, 32))}} ELSE {})
  \cup {E("unseal", [ct |-> id, key |-> k]) : id \in DOMAIN w \cap {"c", "d"}, k \in {Hex(Rep(1, 16)), Hex(Rep(2, 32))}}
Inv23 == Cardinality(g.ivs) = Cardinality(g.sealed)

\* C21: buffers reused, results overwritten, objects edited in place while others live
ASSUME Prop \notin {"C21", "C22"} \/ TLCSet(21, Samples)
Table == TLCGet(21)                                \* Samples, evaluated once
NS == Len(Table)
Fam == IF h = <<>> THEN "" ELSE h[1].op
N == Len(h)
First == CHOOSE i \in 1..NS : Table[i] = Sample(h[1].a.op, h[1].a.a)
Called(k) == Sample(h[k].a.op, h[k].a.a)
CallOf(n, s) == E("call", [id |-> Text(Ascii("r") \o Ascii(n)), arg |-> Text(Ascii("a") \o Ascii(n)), op |-> s.op, a |-> s.a])
Scribble(ids) == {E("overwrite", [id |-> i]) : i \in ids}
OwnIds(k, n) == IF h[k].a.op \in Own THEN {Text(Ascii("r") \o Ascii(n)), Text(Ascii("a") \o Ascii(n))} ELSE {}
\* one call, another, one of the four values overwritten, the first again, its new result overwritten, both again
MenuCalls ==
  CASE N = 1 -> {CallOf("1", Table[i]) : i \in IF Deep THEN 1..NS ELSE {j \in 1..NS : j % 8 = First % 8 \/ Table[j].op = Called(1).op}}
    [] N = 2 -> Scribble(OwnIds(1, "0") \cup OwnIds(2, "1"))
    [] N = 3 -> {CallOf("2", Called(1))}
    [] N = 4 -> IF Deep THEN Scribble(OwnIds(1, "2") \cup OwnIds(1, "0")) ELSE Scribble({x \in OwnIds(1, "2") : x = "r2"})
    [] N = 5 -> {CallOf("3", Called(2))}
    [] N = 6 -> {CallOf("4", Called(1))}
    [] OTHER -> {}
BufTx == [STx(2, 2) EXCEPT !.outs[2].lock = <<>>]
Loaded == {id \in Ids("tx") : id \in {"t", "u"}}
Times(op) == Cardinality({k \in 1..N : h[k].op = op})
Pokes(id) == LET x == w[id].x IN
  UNION {{E("tx_edit", [id |-> id, f |-> "unl+", i |-> i - 1, v |-> "abcd"])} \cup (IF x.ins[i].unl # <<>> THEN {E("tx_edit", [id |-> id, f |-> "unl^", i |-> i - 1, v |-> ""])} ELSE {}) : i \in 1..2}
  \cup UNION {{E("tx_edit", [id |-> id, f |-> "lock+", i |-> i - 1, v |-> "abcd"])} \cup (IF x.outs[i].lock # <<>> THEN {E("tx_edit", [id |-> id, f |-> "lock^", i |-> i - 1, v |-> ""])} ELSE {}) : i \in 1..2}
MenuBuf ==
  IF N > (IF Deep THEN 5 ELSE 4) THEN {} ELSE
     (IF Times("tx_loadbuf") < 2 THEN {E("tx_loadbuf", [id |-> id, buf |-> "buf"]) : id \in {"t", "u"} \ Loaded} ELSE {})
     \cup (IF Times("overwrite") < 2 /\ N > 2 THEN Scribble({"buf"}) ELSE {})
     \cup UNION {Pokes(id) : id \in Loaded}
     \cup (IF N > 1 /\ h[N].op \notin {"tx_bytes"} THEN {E("tx_bytes", [id |-> id]) : id \in Loaded} ELSE {})
MenuSeal ==
  IF N > (IF Deep THEN 7 ELSE 5) THEN {} ELSE
     (IF Times("sealbuf") < 2 THEN {E("sealbuf", [id |-> id, buf |-> "buf", key |-> k]) : id \in {"c", "d"} \ DOMAIN w, k \in {Hex(Rep(1, 16))}} ELSE {})
     \cup (IF Times("overwrite") < 2 /\ N > 2 THEN Scribble(DOMAIN w) ELSE {})
     \cup {E("unseal", [ct |-> id, key |-> Hex(Rep(1, 16))]) : id \in DOMAIN w \cap {"c", "d"}}
ObjTx(k) == [ver |-> U32(1), lt |-> U32(k), ins |-> <<TheIn(k, Some(P2PKH(H1))), TheIn(k + 1, Some(P2PKH(H1)))>>, outs |-> <<TheOut(k), TheOut(k + 1)>>]
SetupObj == <<E("tx_make", [id |-> "t", tx |-> RTx(ObjTx(1))]), E("tx_make", [id |-> "u", tx |-> RTx(ObjTx(3))]), E("signer", [id |-> "s", key |-> Hex(K1), flag |-> 65]),
              E("signer", [id |-> "s2", key |-> Hex(K1), flag |-> 195]),
              E("s_new", [id |-> "p", b |-> "51"]), E("s_new", [id |-> "q", b |-> Hex(P2PKH(H2))]), E("rs_new", [id |-> "m", m |-> 2])>>
MenuObj ==
  IF N - Len(SetupObj) >= (IF Deep THEN 3 ELSE 2) THEN {} ELSE
     UNION {{E("tx_sign", [id |-> id, signer |-> sg, i |-> i]) : i \in {0, 1}, sg \in {"s", "s2"}} \cup {E("tx_signauto", [id |-> id, signer |-> "s"])}
            \cup {E("tx_sighash", [id |-> id, i |-> 1, f |-> f]) : f \in {65, 195}} \cup {E("tx_bytes", [id |-> id])}
            \cup {E("tx_edit", [id |-> id, f |-> f, i |-> 0, v |-> "abcd"]) : f \in {"unl+", "lock+", "prev+"}} \cup {E("tx_edit", [id |-> id, f |-> f, i |-> 0, v |-> ""]) : f \in {"lock^", "prev^"}}
            \cup {E("tx_from", [id |-> id, txid |-> HT(Rep(9, 32)), vout |-> Hex(U32(1)), script |-> HT(P2PKH(H1)), sat |-> Hex(U64(50))]), E("tx_addout", [id |-> id, out |-> ROut(TheOut(9))]),
                   E("tx_apply", [id |-> id, i |-> 1, s |-> "5152"])} : id \in {"t", "u"}}
     \cup {E("s_push", [id |-> id, d |-> "0a0b"]) : id \in {"p", "q"}} \cup {E("s_op", [id |-> "p", c |-> 118]), E("s_asm", [id |-> "q"]), E("s_classify", [id |-> "q"])}
     \cup {E("rs_add", [id |-> "m", xk |-> TLCGet(20)[k], path |-> Path(k, 1)]) : k \in {1, 2}} \cup {E("rs_script", [id |-> "m"])}
Starts21 == {<<CallOf("0", Table[i])>> : i \in 1..NS} \cup {<<E("val", [id |-> "buf", v |-> Hex(TxBytes(BufTx))])>>, <<E("val", [id |-> "buf", v |-> Hex(Rep(200, 20))])>>, SetupObj}
Menu21 == CASE Fam = "call" -> MenuCalls [] Fam = "val" -> (IF h[1].a.v = Hex(Rep(200, 20)) THEN MenuSeal ELSE MenuBuf) [] OTHER -> MenuObj
Probe21(hh) == IF hh[1].op = "call" \/ Len(hh) = 1 THEN <<>> ELSE IF hh[1].op = "val" THEN SetToSeq({E("tx_bytes", [id |-> id]) : id \in Loaded}) ELSE <<E("tx_bytes", [id |-> "t"]), E("tx_bytes", [id |-> "u"]), E("s_read", [id |-> "p"]), E("s_read", [id |-> "q"]), E("rs_script", [id |-> "m"])>>
\* a call changes its own object (and what it creates), nothing else
Names(a) == {a[f] : f \in DOMAIN a \cap {"id", "arg"}}
Step21 == LET e == h'[Len(h')] IN \A id \in DOMAIN w : id \in DOMAIN w' /\ (id \notin Names(e.a) => w'[id] = w[id])
\* what was parsed is what was in the buffer then, with the edits made to it since
Inv21 == \A id \in (IF Fam = "val" THEN Loaded ELSE {}) : LET x == w[id].x IN
            /\ [i \in 1..2 |-> x.ins[i].txid] = [i \in 1..2 |-> BufTx.ins[i].txid]
            /\ \A i \in 1..2 : LET n == Cardinality({k \in 1..N : h[k].op = "tx_edit" /\ h[k].a.id = id /\ h[k].a.f = "unl+" /\ h[k].a.i = i - 1})
                               IN Len(x.ins[i].unl) = 2 + 2 * n /\ x.ins[i].unl[2] = i

\* ---- the machine ------------------------------------------------------------------
Menu == CASE Prop = "C08" -> Menu08 [] Prop = "C10" -> Menu10 [] Prop = "C11" -> Menu11 [] Prop = "C12" -> Menu12
          [] Prop = "C13" -> Menu13 [] Prop = "C20" -> Menu20 [] Prop = "C21" -> Menu21 [] Prop = "C23" -> Menu23
Setup == CASE Prop = "C08" -> Setup08 [] Prop = "C10" -> Setup10 [] Prop = "C11" -> Setup11 [] Prop = "C12" -> Setup12
          [] Prop = "C13" -> Setup13 [] Prop = "C20" -> Setup20 [] Prop = "C23" -> <<>>
Starts == IF Prop = "C21" THEN Starts21 ELSE {Setup}
Probe(hh) == CASE Prop = "C10" -> Verifies(hh, 2)
               [] Prop = "C11" -> Verifies(hh, 1) \o <<E("tx_bytes", [id |-> "t"])>>
               [] Prop = "C12" -> Verifies(hh, 3)
               [] Prop = "C13" -> <<E("tx_info", [id |-> "t"]), E("tx_info", [id |-> "u"])>>
               [] Prop = "C08" -> <<E("s_read", [id |-> "s"])>>
               [] Prop = "C20" -> <<E("rs_script", [id |-> "m"]), E("rs_script", [id |-> "n"]), E("rs_addr", [id |-> "m"]), E("rs_hash", [id |-> "n"])>>
               [] Prop = "C21" -> Probe21(hh)
               [] OTHER -> <<>>
QueryOps == {"tx_info", "tx_bytes", "tx_sighash", "tx_verify", "s_read", "s_asm", "s_classify", "rs_script", "rs_hash", "rs_addr", "unseal"}

\* the world after the calls of Setup
Run(calls) == FoldLeft(LAMBDA s, e : LET o == Step(s.w, s.g, e.op, e.a, IF e.op = "call" THEN Exp(e.a.op, e.a.a) ELSE Dummy) IN [w |-> o.w, g |-> o.g], [w |-> EmptyWorld, g |-> EmptyGhost], calls)
Init == \E start \in Starts : LET s == Run(start) IN w = s.w /\ g = s.g /\ h = start

Do(e) ==
  LET r == Answer(e.op, e.a)
      o == Step(w, g, e.op, e.a, r)
  IN /\ Assert(o.ok, <<"the specification refuses its own answer", e, r>>)
     /\ w' = o.w /\ g' = o.g /\ h' = Append(h, e)
     /\ Prop = "C21" \/ EmitCalls(h' \o Probe(h'))
Next == \E e \in Menu : Do(e)

Holds == CASE Prop = "C10" -> Inv10 [] Prop = "C11" -> Inv11 [] Prop = "C12" -> Inv12 [] Prop = "C13" -> Inv13 [] Prop = "C20" -> Inv20 [] Prop = "C21" -> Inv21 /\ (Menu # {} \/ EmitCalls(h \o Probe21(h)))    \* of the histories only the longest
      [] Prop = "C23" -> Inv23 [] OTHER -> TRUE
\* queries and refused calls change nothing; building and signing change only what they should
StepOK == /\ h'[Len(h')].op \in QueryOps => w' = w
          /\ CASE Prop \in {"C10", "C11", "C12"} -> Step11 [] Prop = "C13" -> Step13 [] Prop = "C08" -> Step08 [] Prop = "C21" -> Step21 [] OTHER -> TRUE
Steps == [][StepOK]_vars
\* states alike: the history is only how they were reached
Same12 == [k \in 1..Len(h) |-> IF h[k].op = "tx_signauto" THEN h[k].a.signer ELSE h[k].op]
Alike == CASE Prop = "C12" -> <<w, Same12>> [] Prop = "C10" -> <<w, g, Len(h)>> [] Prop = "C21" -> <<w, h>> [] OTHER -> <<w, g>>
Spec == Init /\ [][Next]_vars
=============================================================================
