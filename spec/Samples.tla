------------------------------- MODULE Samples -------------------------------
(* Two small calls of every operation that has no object of its own: the menu   *)
(* from which the models of isolation (C21) and concurrency (C22) make their     *)
(* histories.                                                                     *)
EXTENDS LibPure
LOCAL HT(b) == Hex(HexText(b))
LOCAL TT(s) == Hex(Ascii(s))
LOCAL Key(k) == PubFromPriv(Rep(k, 32))
LOCAL Hash20(k) == Rep(k, 20)
LOCAL Tid(k) == HexText([i \in 1..32 |-> (k * 37 + i) % 256])
SIn(k, s) == In(Tid(k), U32(k), s, MAX32, Some(P2PKH(Hash20(k))), U64(1000 + k))
SOut(k)   == Out(U64(7000 + k), <<118, k, 169>>)
STx(n, m) == [ver |-> U32(1), lt |-> U32(n), ins |-> [i \in 1..n |-> SIn(i, <<81, i>>)], outs |-> [i \in 1..m |-> SOut(i)]]
LOCAL STx2 == STx(2, 2)
LOCAL STx1 == STx(1, 1)
LOCAL L3 == <<HT(Rep(1, 32)), HT(Rep(2, 32)), HT(Rep(3, 32))>>
LOCAL Data == <<Hex(<<1>>), Hex(<<>>), Hex(<<2, 3, 4>>)>>
LOCAL Xp(k) == <<4, 136, 178, 30, 0>> \o Rep(0, 8) \o Rep(k, 32) \o Key(k)
LOCAL El(k) == <<255>> \o Xp(k) \o <<0, 0, 1, 0>>
LOCAL Electrum2 == <<82>> \o Push(El(1)) \o Push(El(2)) \o <<82, 174>>
Sample(op, a) == [op |-> op, a |-> a]
Samples == <<
  Sample("varint_enc", [u |-> Hex(U64(7))]), Sample("varint_enc", [u |-> Hex(U64(300))]), Sample("varint_enc", [u |-> Hex(Rep(9, 8))]),
  Sample("varint_dec", [b |-> Hex(<<253, 1, 1>>)]),
  Sample("tx_parse", [b |-> Hex(TxBytes(STx2))]), Sample("tx_parse", [b |-> Hex(TxBytes(STx1))]), Sample("tx_parse_str", [t |-> HT(TxBytes(STx1))]),
  Sample("tx_rt", [b |-> Hex(TxBytes(STx2))]), Sample("tx_rt", [b |-> Hex(TxBytes(STx1))]),
  Sample("tx_ser", [tx |-> RTx(STx2)]), Sample("tx_ser", [tx |-> RTx(STx1)]),
  Sample("tx_clear", [tx |-> RTx(STx2), i |-> 1, s |-> Hex(<<172, 173>>)]), Sample("tx_clear", [tx |-> RTx(STx1), i |-> 0, s |-> Hex(<<>>)]),
  Sample("in_parse", [b |-> Hex(InBytes(SIn(3, <<82>>)))]), Sample("in_parse", [b |-> Hex(InBytes(SIn(4, <<>>)))]),
  Sample("in_ser", [in |-> RIn(SIn(3, <<82>>)), clear |-> FALSE]), Sample("in_ser", [in |-> RIn(SIn(3, <<82>>)), clear |-> TRUE]),
  Sample("out_parse", [b |-> Hex(OutBytes(SOut(5)))]), Sample("out_ser", [out |-> ROut(SOut(5))]), Sample("out_ser", [out |-> ROut(Out(ZERO64, <<>>))]),
  Sample("sighash", [tx |-> RTx(STx2), i |-> 1, f |-> 65]), Sample("sighash", [tx |-> RTx(STx2), i |-> 0, f |-> 195]), Sample("sighash", [tx |-> RTx(STx1), i |-> 0, f |-> 66]), Sample("sighash", [tx |-> RTx(STx1), i |-> 2, f |-> 65]),
  Sample("push_enc", [l |-> Data]), Sample("push_enc", [l |-> <<Hex(Rep(8, 76))>>]), Sample("push_prefix", [d |-> Hex(<<1, 2>>)]), Sample("push_prefix", [d |-> Hex(Rep(1, 80))]),
  Sample("push_dec", [b |-> Hex(<<2, 5, 6, 118, 1, 9>>)]), Sample("push_dec", [b |-> Hex(<<2, 5>>)]), Sample("push_rt", [l |-> <<Hex(<<1>>), Hex(<<2, 3>>)>>]),
  Sample("asm_to", [b |-> Hex(P2PKH(Hash20(6)))]), Sample("asm_from", [t |-> TT("OP_DUP 0102 OP_RETURN")]), Sample("asm_from", [t |-> TT("OP_DUP 010")]),
  Sample("script_hex", [b |-> Hex(<<118, 169>>)]), Sample("script_fromhex", [t |-> TT("76a9")]), Sample("script_fromhex", [t |-> TT("76a")]),
  Sample("classify", [b |-> Hex(P2PKH(Hash20(7)))]), Sample("classify", [b |-> Hex(<<81>> \o Push(Key(1)) \o <<81, 174>>)]),
  Sample("c_pub", [b |-> Hex(Key(1))]), Sample("c_pkh", [t |-> HT(Hash20(9))]), Sample("c_addr", [t |-> Hex(AddressOf(Hash20(9), TRUE))]), Sample("c_addr", [t |-> TT("1BoatSLRHtKNngkdXEeobR76b53LETtpyT2")]),
  Sample("o_pkh", [t |-> HT(Hash20(1)), sat |-> Hex(U64(5))]), Sample("o_addr", [t |-> Hex(AddressOf(Hash20(2), FALSE)), sat |-> Hex(U64(6))]),
  Sample("o_puzzle", [secret |-> TT("abc"), t |-> HT(Hash20(4)), sat |-> Hex(U64(6))]), Sample("o_data", [l |-> Data]), Sample("o_data", [l |-> <<Hex(<<7, 7>>)>>, one |-> TRUE]),
  Sample("unlock", [pub |-> Hex(Key(1)), sig |-> Hex(<<48, 6, 2, 1, 1, 2, 1, 1>>), f |-> 65]), Sample("unlock", [pub |-> Hex(Key(2)), sig |-> Hex(<<48, 6, 2, 1, 2, 2, 1, 1>>), f |-> 195]),
  Sample("merkle_br", [l |-> L3]), Sample("merkle_br", [l |-> Take(L3, 1)]), Sample("merkle_cb", [h |-> Hex(Rep(4, 32)), l |-> Take(L3, 2)]), Sample("merkle_cb", [h |-> Hex(Rep(4, 32)), l |-> <<>>]),
  Sample("merkle_all", [l |-> L3]), Sample("merkle_proof", [t |-> HT(Rep(5, 32)), i |-> Hex(U64(2)), l |-> Take(L3, 2)]), Sample("merkle_proof", [t |-> HT(Rep(5, 32)), i |-> Hex(U64(0)), l |-> <<>>]),
  Sample("coinbase", [height |-> Hex(U32(500000)), value |-> Hex(U64(5000)), wit |-> TT(""), text |-> TT("/pool/"), wallet |-> Hex(AddressOf(Hash20(3), TRUE)), miner |-> Hex(<<1, 2, 3>>), e1 |-> "01020304", e2 |-> "0506070805060708"]),
  Sample("coinbase_join", [c1 |-> "0102", c2 |-> "0304", e1 |-> "05", e2 |-> "06"]),
  Sample("header", [ver |-> Hex(U32(2)), prev |-> HT(Rep(7, 32)), root |-> Hex(Rep(8, 32)), time |-> "01020304", bits |-> "05060708", nonce |-> "090a0b0c"]),
  Sample("tgt_hex", [t |-> TT("1d00ffff")]), Sample("tgt_hex", [t |-> TT("1800ffff")]), Sample("tgt_int", [t |-> TT("1d00ffff")]), Sample("tgt_int", [t |-> TT("03123456")]),
  Sample("addr_pkh", [h |-> Hex(Hash20(5)), main |-> TRUE]), Sample("addr_pkh", [h |-> Hex(Hash20(5)), main |-> FALSE]), Sample("addr_pub", [t |-> HT(Key(2)), main |-> TRUE]),
  Sample("addr_key", [priv |-> Hex(Rep(2, 32)), main |-> FALSE]), Sample("addr_parse", [t |-> Hex(AddressOf(Hash20(6), TRUE))]), Sample("addr_valid", [t |-> Hex(AddressOf(Hash20(6), FALSE))]),
  Sample("addr_valid", [t |-> TT("1BoatSLRHtKNngkdXEeobR76b53LETtpyU")]), Sample("b58cm", [b |-> Hex(<<0, 1, 2>>)]), Sample("b58cm", [b |-> Hex(<<>>)]),
  Sample("bip_enc", [p |-> TT("bitcoin-script"), n |-> 1, v |-> 1, d |-> "76a9"]), Sample("bip_dec", [t |-> Hex(BipEncode(Ascii("bitcoin-script"), 2, 1, <<81>>))]), Sample("bip_enc", [p |-> TT("x"), n |-> 0, v |-> 1, d |-> "76"]),
  Sample("electrum", [t |-> HT(Electrum2)]), Sample("electrum", [t |-> HT(Take(Electrum2, 90))]),
  Sample("hash", [b |-> "616263"]), Sample("hash", [b |-> ""]), Sample("rev", [b |-> "010203"]), Sample("rev", [b |-> ""]), Sample("rev", [b |-> "07"]), Sample("revhex", [t |-> TT("0a1b")]),
  Sample("le", [v |-> Hex(U32(77)), l |-> 4]), Sample("le", [v |-> Hex(U32(77)), l |-> 8]), Sample("eq", [x |-> "0102", y |-> "0102"]), Sample("eq", [x |-> "0102", y |-> "0103"]),
  Sample("dec32", [t |-> HT(Rep(3, 32))])
>>
\* those whose results and arguments are their user's own, to overwrite at will
Own == {"rev", "tx_ser", "tx_clear", "in_ser", "out_ser", "sighash", "varint_enc", "push_enc", "push_prefix", "hash", "merkle_br", "merkle_cb", "merkle_all", "merkle_proof",
        "coinbase", "coinbase_join", "header", "le", "tx_parse", "tx_rt", "in_parse", "out_parse", "tx_parse_str", "c_pub", "c_pkh", "c_addr", "o_pkh", "o_addr",
        "asm_from", "script_fromhex", "addr_pkh", "b58cm", "bip_dec", "bip_enc", "electrum", "asm_to", "script_hex", "unlock", "dec32", "tgt_int", "addr_pub", "addr_key", "addr_parse", "o_puzzle", "o_data", "c_pubstr"}
\* every sample is defined: its result is one the specification gives
SamplesOK == \A i \in 1..Len(Samples) : Exp(Samples[i].op, Samples[i].a).k \in {"ok", "err"}
=============================================================================
