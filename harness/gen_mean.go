package main

import (
	"encoding/base64"
	"encoding/hex"
	"strings"
)

// Contents that mean something somewhere: a field that takes any bytes (or any text) takes these as they are,
// whatever else they look like.

var means = map[string]func(g *G){}

// contents: bytes that look like something, and every first (and last) byte
func (g *G) contents() [][]byte {
	var r [][]byte
	add := func(bs ...[]byte) { r = append(r, bs...) }
	op := func(c ...byte) []byte { return c }
	k, h, d := keys[1+g.Intn(2)], g.pkh(), g.bytes(3+g.Intn(40))
	sig := func() []byte { // the form of a signature, and a flag
		b := g.bytes(64)
		b[0] &= 0x7f
		b[32] &= 0x7f
		b[0] |= 1
		b[32] |= 1
		return cat(op(0x30, 0x44, 2, 32), b[:32], op(2, 32), b[32:])
	}()
	t := g.few()
	x, xp := g.xkey(false, 2), g.xkey(true, 1)
	// keys, hashes, signatures
	add(k.pub, k.pubU, k.priv, cat(op(0), k.priv), cat(k.priv, op(1)), h, k.pkh, sha(d), sha2(d), make([]byte, 20), make([]byte, 32), make([]byte, 33), sig, cat(sig, op(0x41)), cat(sig, op(1)),
		cat(op(6), k.pubU[1:]), k.pub[1:], k.pubU[1:], rev(k.pub), rev(h), push(h), push(k.pub), push(cat(sig, op(0x41))))
	// scripts
	add(p2pkh(h), p2pkh(k.pkh), push(p2pkh(h)), cat(push(k.pub), op(0xac)), cat(push(k.pubU), op(0xac)), cat(op(0xa9, 20), h, op(0x87)), push(cat(op(0xa9, 20), h, op(0x87))),
		cat(op(0x51), push(k.pub), op(0x51, 0xae)), cat(op(0x52), push(keys[0].pub), push(k.pub), op(0x52, 0xae)), cat(push(cat(sig, op(0x41))), push(k.pub)), cat(op(0), push(sig)),
		op(0x6a), op(0, 0x6a), cat(op(0x6a), d), cat(op(0, 0x6a), d), cat(op(0x6a), push(d)), cat(op(0, 0x6a), push(d)), cat(op(0x6a, 0x4c, byte(len(d))), d), cat(op(0x6a), push(d), push(h)),
		cat(p2pkh(h), op(0x6a)), cat(p2pkh(h), op(0x6a), push(d)), cat(op(0x63, 3), []byte("ord"), op(0x51, 0x0a), []byte("text/plain"), op(0), push(d), op(0x68)), cat(op(0xa9), push(h), op(0x88), p2pkh(h)),
		cat(op(0), push(h)), cat(op(0), push(sha(d))), cat(op(0x51), push(sha(d))), op(0x51), op(0), op(0x4f), op(0x60), op(0xac), op(0xae), op(0x61), op(0xff), op(0xab), cat(op(0xab), p2pkh(h)), cat(p2pkh(h), op(0xab)),
		cat(op(4), b32(t.lt), op(0xb1, 0x75), p2pkh(h)), cat(p2pkh(h), op(0x61)), cat(op(0x61), p2pkh(h)), op(0x4c), op(0x4c, 0), op(0x4d, 0, 0), op(0x4e, 0, 0, 0, 0), op(1, 1), op(1, 0), op(1, 0x81), op(1, 0x6a))
	// blocks and their transactions
	add(cat(op(0xaa, 0x21, 0xa9, 0xed), sha(d)), cat(op(0x24, 0xaa, 0x21, 0xa9, 0xed), sha(d)), cat(op(0x6a, 0x24, 0xaa, 0x21, 0xa9, 0xed), sha(d)), cat(op(0x6a, 0x26, 0xaa, 0x21, 0xa9, 0xed), sha(d)), cat(op(0xaa, 0x21, 0xa9), h),
		cat(op(3), b32(uint32(g.Intn(1<<24)))[:3]), cat(op(3), b32(uint32(g.Intn(1<<24)))[:3], d), cat(op(0xfa, 0xbe, 'm', 'm'), sha(d), b64(1)), cat(op(0x6a, 4, 0xac, 0x1e, 0xed, 0x88), push(d)), cat(op(0, 0x6a, 4, 0xac, 0x1e, 0xed, 0x88), push(d)),
		t.ser(), gTx{ver: 1}.ser(), t.ins[0].ser(vi), t.outs[0].ser(vi), cat(b32(1), op(0, 1, 1), t.ser()[5:]), cat(b32(1), op(0, 0, 0, 0, 0, 0xef, 1), t.ins[0].ser(vi)), cat(op(0xf9, 0xbe, 0xb4, 0xd9), d), cat(op(0xe3, 0xe1, 0xf3, 0xe8), d),
		cat(b32(1), sha(d), sha2(d), g.bytes(12)), cat(vi(uint64(len(d))), d), cat(vi(uint64(len(d)+1)), d), op(0xfd, 0xfd, 0), op(0xfe, 0, 0, 1, 0), op(0xff, 0, 0, 0, 0, 1, 0, 0, 0), sha2(nil), sha(nil))
	// addresses and extended keys
	for _, p := range [][]byte{cat(op(0), h), cat(op(0x6f), h), cat(op(5), h), cat(op(0xc4), h), cat(op(0x80), k.priv), cat(op(0x80), k.priv, op(1)), cat(op(0xef), k.priv, op(1)), x, xp} {
		add(p, cat(p, sha2(p)[:4]))
	}
	add(cat(op(0xff), x), cat(op(0xff), x, op(0, 0, 0, 0)), x[45:], x[13:45], xp[45:], electrumScript(2, 1, [][]byte{cat(op(0xff), x, op(0, 0, 1, 0))}))
	// files and text
	add([]byte("\x89PNG\r\n\x1a\n"), []byte("\x1f\x8b\x08\x00\x00"), []byte("%PDF-1.4"), []byte("\xef\xbb\xbfabc"), []byte("\xff\xfea\x00"), []byte("{\"a\":1}"), []byte("[]"), []byte("<html>"), []byte("GIF89a"), []byte("\xff\xd8\xff\xe0"), []byte("PK\x03\x04"),
		[]byte("19HxigV4QyBv3tHpQVcUEQyq1pzZVdoAut"), []byte("1PuQa7K62MiKCtssSLKy1kh56WWU7MtUR5"), []byte("a,b"), []byte("a\x00b"), []byte(" a "), []byte("\n"), []byte("\r\n"), []byte("a\n"), []byte("\x00"), []byte("a\x00"), []byte("\x00a"))
	for _, s := range g.texts() {
		if len(s) < 200 && g.chance(0.5) {
			add([]byte(s))
		}
	}
	ls := []int{1, 2, 20, 21, 25, 32, 33, 34, 35, 36, 38, 64, 65}
	for c := 0; c < 256; c++ {
		b := g.bytes(ls[g.Intn(len(ls))])
		b[0] = byte(c)
		e := g.bytes(ls[1+g.Intn(len(ls)-1)])
		e[len(e)-1] = byte(c)
		add(b, e)
	}
	for _, n := range []int{2, 8, 20, 33} { // all bytes alike, and both ends alike
		c := byte(g.Intn(256))
		b := g.bytes(n)
		b[0], b[n-1] = c, c
		add([]byte(strings.Repeat(string(rune(g.Intn(128))), n)), []byte(strings.Repeat("\xff", n)), b)
		for i := range b {
			b[i] = b[n-1-i]
		}
	}
	return r
}

// texts that look like something
func (g *G) texts() []string {
	var r []string
	add := func(s ...string) { r = append(r, s...) }
	k, h, d := keys[1+g.Intn(2)], g.pkh(), g.bytes(3+g.Intn(30))
	x, xp := g.xkey(false, 2), g.xkey(true, 1)
	hexes := []string{}
	for _, b := range [][]byte{h, k.pub, k.pubU, k.priv, sha(d), d, p2pkh(h), cat([]byte{0}, h), cat([]byte{0x6a}, push(d)), cat([]byte{0, 0x6a}, push(d)), g.few().ser(), cat([]byte{0xaa, 0x21, 0xa9, 0xed}, sha(d)), cat([]byte{0x6a, 0x24, 0xaa, 0x21, 0xa9, 0xed}, sha(d)),
		x, b32(0x1d00ffff), rev(b32(0x1d00ffff)), g.bytes(4), make([]byte, 20), make([]byte, 32), {0}, {1}, {0x6a}, push(h), cat([]byte{0x51}, push(k.pub), []byte{0x51, 0xae}), []byte("text"), electrumScript(2, 1, [][]byte{cat([]byte{0xff}, x, []byte{0, 0, 1, 0})})} {
		hexes = append(hexes, hex.EncodeToString(b))
	}
	for _, s := range hexes {
		add(s, strings.ToUpper(s))
		if g.chance(0.4) {
			add("0x"+s, "0X"+s, " "+s, s+" ", s+"\n", "\n"+s, s+"\x00", "\""+s+"\"", "x"+s, s+"h", "#"+s, "\\x"+s, s[:len(s)-1], s[1:], s[:len(s)/2]+" "+s[len(s)/2:], s[:len(s)/2]+"\n"+s[len(s)/2:], s[:len(s)/2]+":"+s[len(s)/2:], s[:len(s)/2]+"-"+s[len(s)/2:], "0"+s, "00"+s, s+"0", "-"+s, "+"+s, "<"+s+">", s+","+s, s+" OP_DROP", s[:len(s)/2]+strings.ToUpper(s[len(s)/2:]))
		}
		if g.chance(0.15) {
			b, _ := hex.DecodeString(s)
			add(base64.StdEncoding.EncodeToString(b), base64.URLEncoding.EncodeToString(b), base58(b))
		}
	}
	a := addrOf(h, true)
	wif, wifc := base58check(cat([]byte{0x80}, k.priv)), base58check(cat([]byte{0x80}, k.priv, []byte{1}))
	for _, s := range []string{a, addrOf(h, false), base58check(cat([]byte{5}, h)), base58check(cat([]byte{0xc4}, h)), wif, wifc, base58check(x), base58check(xp), bip276("bitcoin-script", 1, 1, p2pkh(h)), bip276("bitcoin-template", 1, 2, d)} {
		add(s, strings.ToUpper(s), strings.ToLower(s))
		if g.chance(0.6) {
			add(" "+s, s+" ", s+"\n", "\t"+s, s+"\x00", "bitcoin:"+s, "bitcoincash:"+s, "\""+s+"\"", s+"?amount=1", "payto:"+s, s+s, s+"="+s, s+":", ":"+s, "0x"+s, hex.EncodeToString([]byte(s)), s[:len(s)-1], s[1:])
		}
	}
	add("bitcoincash:qpm2qsznhks23z7629mms6s4cwef74vcwvy22gdx6a", "bc1qar0srrr7xfkvy5l643lydnw9re59gtzzwf5mdq", "$handle", "user@paymail.com", "OP_DUP OP_HASH160 "+hex.EncodeToString(h)+" OP_EQUALVERIFY OP_CHECKSIG",
		"OP_0", "OP_FALSE OP_RETURN "+hex.EncodeToString(d), "OP_RETURN "+hex.EncodeToString(d), "OP_RETURN", "OP_TRUE", "OP_FALSE", "OP_1 OP_2", "OP_PUSHDATA1 4c", "OP_CODESEPARATOR", "DUP", "0", "1", "-1", "16", "17", "00", "01", "000", "0000", "0x", "0x0", "1e8", "1.5", "021000000000", "10000000",
		"null", "nil", "undefined", "NaN", "true", "false", "m", "m/44'/0'/0'/0/0", "http://example.com/", "https://whatsonchain.com/tx/"+hex.EncodeToString(sha(d)), "/pool/", "${HOME}", "$(x)", "`x`", "../../etc", "a=b&c=d", "%41%42", "&amp;", "\\u0041", "\\x41", "\\n", "<b>",
		"é", "日本語", "ñandú", "😀", "e\u0301", "\u00e9", "\xc3", "\xff\xfe", "\ufeffabc", "\u200b", "\u00a0", "ＡＢ", "ﬁ", "ı", "K", "ſ", "\x7f", "\x80", "\x00", "\x00\x00", "a\x00b", "\r", "\v", "\f", "a b", "a  b", " a", "a ", "  ", "a\tb", "a\nb", "a\r\nb", "a,b", "a;b", "a|b", "a:b", "a/b", "a\\b", "\"\"", "''", "()", "[]", "{}",
		strings.Repeat("0", 64), strings.Repeat("f", 64), strings.Repeat("1", 34), strings.Repeat("0", 40), strings.Repeat("00", 33), strings.Repeat("a", 20), strings.Repeat("A", 64), strings.Repeat("z", 26), strings.Repeat(" ", 20), strings.Repeat("ab", 10))
	for c := 0; c < 256; c++ { // each character, alone, at an end, and within
		if c%2 == 0 || g.chance(0.5) {
			s := string([]byte{byte(c)})
			add([]string{s, s + "a1", "a1" + s, "a" + s + "1", s + s, s + hex.EncodeToString(h), hex.EncodeToString(h) + s}[g.Intn(7)])
		}
	}
	return r
}

func init() {
	rounds := func(g *G, f func(b []byte)) {
		for k := 0; k < g.n(1, 5); k++ {
			for _, b := range g.contents() {
				f(b)
			}
		}
	}
	say := func(g *G, f func(s string)) {
		for k := 0; k < g.n(1, 5); k++ {
			for _, s := range g.texts() {
				f(s)
			}
		}
	}
	// a small transaction with b in one or two of its fields
	with := func(g *G, b []byte, f func(t gTx, i int)) {
		t := g.few()
		i := g.Intn(2)
		switch g.Intn(5) {
		case 0:
			t.ins[i].unl = b
		case 1:
			t.outs[i].lock = b
		case 2:
			t.ins[i].prev = b
		case 3:
			t.ins[i].unl, t.outs[g.Intn(2)].lock = b, b
		default:
			t.ins[i].prev, t.outs[g.Intn(2)].lock = b, b
		}
		f(t, i)
	}
	means["C01"] = func(g *G) {
		rounds(g, func(b []byte) {
			with(g, b, func(t gTx, i int) { g.pure("mean", "tx_ser", "tx", t.form()) })
			g.pure("mean", "tx_clear", "tx", g.few().form(), "i", g.Intn(2), "s", H(b))
			t := g.few()
			if g.chance(0.5) {
				t.ins[0].unl = b
				g.pure("mean", "in_ser", "in", t.ins[0].form())
			} else {
				t.outs[0].lock = b
				g.pure("mean", "out_ser", "out", t.outs[0].form())
			}
			if len(b) == 32 {
				t.ins[1].txid = hex.EncodeToString(b)
				g.pure("mean", "tx_ser", "tx", t.form())
			}
		})
	}
	means["C02"] = func(g *G) {
		rounds(g, func(b []byte) {
			with(g, b, func(t gTx, i int) {
				g.pure("mean", g.either("tx_rt", "tx_parse"), "b", H(t.ser()))
				if g.chance(0.3) {
					g.pure("mean", "tx_parse", "b", H(cat(t.ser(), b)))
				}
			})
			g.pure("mean", "tx_parse", "b", H(b))
			t := g.few()
			t.ins[0].unl, t.outs[0].lock = b, b
			g.pure("mean", "in_parse", "b", H(cat(t.ins[0].ser(vi), g.bytes(g.Intn(2)))))
			g.pure("mean", "out_parse", "b", H(cat(t.outs[0].ser(vi), g.bytes(g.Intn(2)))))
		})
		say(g, func(s string) {
			if len(s) > 60 || g.chance(0.3) {
				g.pure("mean", "tx_parse_str", "t", T(s))
			}
		})
	}
	means["C04"] = func(g *G) {
		rounds(g, func(b []byte) { g.pure("mean", "varint_dec", "b", H(b)) })
	}
	means["C05"] = func(g *G) {
		var last []byte
		rounds(g, func(b []byte) {
			g.pure("mean", "push_enc", "l", HL([][]byte{b}))
			g.pure("mean", "push_dec", "b", H(b))
			g.pure("mean", "push_dec", "b", H(cat(push(b), []byte{0xac})))
			if len(b) > 0 && len(last) > 0 {
				g.pure("mean", "push_rt", "l", HL([][]byte{last, b, {1}}[g.Intn(2):]))
			}
			if g.chance(0.3) {
				g.pure("mean", "push_prefix", "d", H(b))
			}
			last = b
		})
		say(g, func(s string) { g.pure("mean", "push_dec_str", "t", T(s)) })
	}
	means["C06"] = func(g *G) {
		rounds(g, func(b []byte) {
			g.pure("mean", "asm_to", "b", H(b))
			g.pure("mean", "asm_to", "b", H(cat([]byte{0x76}, push(b), []byte{0xac})))
			if len(b) > 0 {
				g.pure("mean", "asm_rt", "b", H(cat([]byte{0x76}, push(b), []byte{0xac})))
				g.pure("mean", "asm_from", "t", T("OP_DUP "+hex.EncodeToString(b)+" "+hex.EncodeToString(b)))
			}
			g.pure("mean", "script_hex", "b", H(b))
			g.pure("mean", "script_fromhex", "t", HH(b))
		})
		say(g, func(s string) {
			g.pure("mean", "asm_from", "t", T(s))
			g.pure("mean", "asm_from", "t", T([]string{"OP_DUP " + s, s + " OP_DUP", "0a " + s + " 0b"}[g.Intn(3)]))
			g.pure("mean", "script_fromhex", "t", T(s))
		})
	}
	means["C07"] = func(g *G) {
		rounds(g, func(b []byte) {
			cl := func(p ...[]byte) { g.pure("mean", "classify", "b", H(cat(p...))) }
			cl(b)
			cl(push(b))
			cl([]byte{0x6a}, b)
			cl([]byte{0, 0x6a}, b)
			cl(b, []byte{0xac})
			cl(push(b), []byte{0xac})
			cl([]byte{0xa9}, push(b), []byte{0x87})
			cl([]byte{0x51}, push(b), []byte{0x51, 0xae})
			cl([]byte{0x51}, push(b), push(keys[0].pub), []byte{0x52, 0xae})
			cl([]byte{0x76, 0xa9}, push(b), []byte{0x88, 0xac})
			if g.chance(0.3) {
				cl(b, p2pkh(g.pkh()))
				cl(p2pkh(g.pkh()), b)
			}
		})
	}
	means["C08"] = func(g *G) {
		var last []byte
		rounds(g, func(b []byte) {
			g.pure("mean", "o_data", "l", HL([][]byte{b}))
			g.pure("mean", "o_data", "l", HL([][]byte{b, last, b}[g.Intn(2):]))
			g.pure("mean", "c_pub", "b", H(b))
			g.pure("mean", "c_pubstr", "t", HH(b))
			g.pure("mean", "c_pkh", "t", HH(b))
			g.pure("mean", "o_puzzle", "secret", H(b), "t", HH(g.pkh()), "sat", le64(g.u64v()))
			if len(b) == 20 {
				g.pure("mean", "o_pkh", "t", HH(b), "sat", le64(g.u64v()))
			}
			g.pure("mean", "unlock", "pub", H(keys[1].pub), "sig", H(b), "f", g.Intn(256))
			if g.chance(0.5) {
				g.pure("mean", "unlock", "pub", H(b), "sig", H(keys[1].pub), "f", 0x41)
			}
			last = b
		})
		say(g, func(s string) {
			for _, op := range []string{"c_pubstr", "c_pkh", "c_addr"} {
				g.pure("mean", op, "t", T(s))
			}
			g.pure("mean", g.either("o_pkh", "o_addr"), "t", T(s), "sat", le64(g.u64v()))
			g.pure("mean", "o_puzzle", "secret", T(s), "t", HH(g.pkh()), "sat", le64(1))
		})
		i := 0
		build := func(op, f, v string, str bool) {
			if i%4 == 0 {
				g.newCase("mean")
				g.do("s_new", "id", "s", "b", H(g.bytes(g.Intn(3))))
			}
			i++
			if str {
				g.do(op, "id", "s", f, v, "str", true)
			} else {
				g.do(op, "id", "s", f, v)
			}
		}
		rounds(g, func(b []byte) { build("s_push", "d", H(b), false) })
		say(g, func(s string) { build("s_push", "d", T(s), true) })
		say(g, func(s string) { build("s_pushhex", "d", T(s), false) })
	}
	means["C09"] = func(g *G) {
		rounds(g, func(b []byte) {
			with(g, b, func(t gTx, i int) {
				g.pure("mean", "sighash", "tx", t.form(), "i", g.Intn(2), "f", stdFlags[g.Intn(12)])
			})
			t := g.few()
			i := g.Intn(2)
			t.ins[i].prev = b
			if len(b) == 32 {
				t.ins[i].txid = hex.EncodeToString(b)
			}
			g.pure("mean", "sighash", "tx", t.form(), "i", i, "f", stdFlags[g.Intn(12)])
		})
	}
	means["C11"] = func(g *G) {
		for _, b := range g.contents() {
			if g.chance(g.part()) {
				with(g, b, func(t gTx, i int) {
					g.pure("mean", "sign_at", "tx", t.form(), "i", i, "f", []int{stdFlags[g.Intn(12)], 0}[g.Intn(2)], "key", H(keys[1+g.Intn(2)].priv))
				})
			}
		}
	}
	means["C12"] = func(g *G) {
		for _, b := range g.contents() {
			if g.chance(g.part()) {
				t := g.few()
				t.ins[0].prev = b
				t.ins[1].prev = p2pkh(keys[1].pkh)
				g.pure("mean", "sign_at", "tx", t.form(), "i", -1, "f", []int{stdFlags[g.Intn(12)], 0}[g.Intn(2)], "key", H(keys[1+g.Intn(2)].priv))
				with(g, b, func(t gTx, i int) {
					g.pure("mean", "sign_at", "tx", t.form(), "i", -1, "f", 0x41, "key", H(keys[1+g.Intn(2)].priv))
				})
			}
		}
	}
	means["C13"] = func(g *G) {
		for _, b := range g.contents() {
			g.newCase("mean")
			g.do("tx_new", "id", "t")
			g.do("tx_from", "id", "t", "txid", T(g.txid()), "vout", le32(g.u32v()), "script", HH(b), "sat", le64(g.u64v()))
			o := g.out()
			o.lock = b
			g.do("tx_addout", "id", "t", "out", o.form())
			if len(b) > 0 {
				g.do("tx_apply", "id", "t", "i", g.Intn(2), "s", H(b))
			}
			if len(b) == 32 {
				g.do("tx_from", "id", "t", "txid", HH(b), "vout", le32(g.u32v()), "script", HH(p2pkh(g.pkh())), "sat", le64(g.u64v()))
			}
			g.do("tx_info", "id", "t")
			g.do("tx_bytes", "id", "t")
			with(g, b, func(t gTx, i int) { g.pure("mean", "tx_count", "tx", t.form()) })
		}
		for _, s := range g.texts() {
			g.newCase("mean")
			g.do("tx_new", "id", "t")
			g.do("tx_payto", "id", "t", "addr", T(s), "sat", le64(g.u64v()))
			g.do("tx_from", "id", "t", "txid", T(g.txid()), "vout", le32(g.u32v()), "script", T(s), "sat", le64(g.u64v()))
			g.do("tx_info", "id", "t")
		}
	}
	means["C14"] = func(g *G) {
		say(g, func(s string) {
			if s != strings.ToLower(s) && isHex(s) {
				return
			}
			g.pure("mean", "merkle_proof", "t", T(s), "i", le64(uint64(g.Intn(2))), "l", TL([]string{g.txid()}))
			g.pure("mean", "merkle_proof", "t", T(g.txid()), "i", le64(uint64(g.Intn(4))), "l", TL([]string{g.txid(), s}))
		})
		rounds(g, func(b []byte) {
			if len(b) == 32 {
				x, p := hex.EncodeToString(b), g.Intn(5)
				l := []string{g.txid(), g.txid(), g.txid(), g.txid(), g.txid()}
				l[p] = x
				g.pure("mean", "merkle_all", "l", TL(l))
				g.pure("mean", "merkle_br", "l", TL(l))
				g.pure("mean", "merkle_cb", "h", H(b), "l", TL(l[:3]))
			}
		})
	}
	means["C15"] = func(g *G) {
		one := func(wit, text string, miner []byte) {
			x, c := g.bytes(12), g.Intn(13)
			g.pure("mean", "coinbase", "height", le32(g.u32v()), "value", le64(g.u64v()), "wit", T(wit), "text", T(text), "wallet", T(g.addr()), "miner", H(miner), "e1", H(x[:c]), "e2", H(x[c:]))
		}
		rounds(g, func(b []byte) {
			h := hex.EncodeToString(b)
			one("", "/m/", b)
			one(h, "/m/", nil)
			one("", string(b), nil)
			switch g.Intn(4) {
			case 0:
				one(h, "x", b)
			case 1:
				one(h, string(b), b)
			case 2:
				one(strings.ToUpper(h), "x", g.bytes(3))
			}
		})
		say(g, func(s string) {
			one("", s, nil)
			one(s, "x", nil)
			x := g.bytes(12)
			g.pure("mean", "coinbase", "height", le32(g.u32v()), "value", le64(g.u64v()), "wit", T(""), "text", T("x"), "wallet", T(s), "miner", H([]byte(s)), "e1", H(x[:4]), "e2", H(x[4:]))
		})
		rounds(g, func(b []byte) {
			x := g.bytes(12)
			g.pure("mean", "coinbase_join", "c1", H(b), "c2", H(g.bytes(5)), "e1", H(x[:4]), "e2", H(x[4:]))
			g.pure("mean", "coinbase_join", "c1", H(g.bytes(5)), "c2", H(b), "e1", H(x[:4]), "e2", H(x[4:]))
		})
	}
	means["C16"] = func(g *G) {
		rounds(g, func(b []byte) {
			f := [][]byte{g.bytes(32), g.bytes(32), g.bytes(4), g.bytes(4), g.bytes(4)}
			f[g.Intn(5)] = b
			if len(b) == 32 {
				f[g.Intn(2)] = b
			}
			g.pure("mean", "header", "ver", le32(g.u32v()), "prev", HH(f[0]), "root", H(f[1]), "time", H(f[2]), "bits", H(f[3]), "nonce", H(f[4]))
		})
		for c := 0; c < 256; c++ { // each first and last byte of each field
			for i, n := range []int{32, 32, 4, 4, 4} {
				f := [][]byte{g.bytes(32), g.bytes(32), g.bytes(4), g.bytes(4), g.bytes(4)}
				f[i][g.Intn(2)*(n-1)] = byte(c)
				g.pure("mean", "header", "ver", le32(g.u32v()), "prev", HH(f[0]), "root", H(f[1]), "time", H(f[2]), "bits", H(f[3]), "nonce", H(f[4]))
			}
		}
	}
	means["C17"] = func(g *G) {
		say(g, func(s string) {
			if b, err := hex.DecodeString(s); err == nil && len(b) == 4 && zeroOrOdd(b) {
				return
			}
			for _, op := range []string{"tgt_hex", "tgt_int", "diff"} {
				g.pure("mean", op, "t", T(s))
			}
		})
		for _, s := range []string{"0x1d00ffff", "1d00ffff", "1D00FFFF"} {
			for i := 0; i <= len(s); i++ {
				for _, c := range []string{" ", "\n", "_", "0", "x", "-", "+", ".", "\x00", "0x", "１"} {
					for _, op := range []string{"tgt_hex", "tgt_int", "diff"} {
						g.pure("mean", op, "t", T(s[:i]+c+s[i:]))
						if i < len(s) {
							g.pure("mean", op, "t", T(s[:i]+c+s[i+1:]))
						}
					}
				}
			}
		}
	}
	means["C18"] = func(g *G) {
		rounds(g, func(b []byte) {
			g.pure("mean", "b58cm", "b", H(b))
			g.pure("mean", "addr_pub", "t", HH(b), "main", g.chance(0.5))
			if len(b) == 20 {
				g.pure("mean", "addr_pkh", "h", H(b), "main", g.chance(0.5))
			}
			for _, t := range []string{base58check(b), base58(b), hex.EncodeToString(b)} {
				g.pure("mean", "addr_parse", "t", T(t))
				g.pure("mean", "addr_valid", "t", T(t))
			}
		})
		say(g, func(s string) {
			g.pure("mean", "addr_parse", "t", T(s))
			if !strings.HasPrefix(s, "\n") {
				g.pure("mean", "addr_valid", "t", T(s))
			}
			g.pure("mean", "addr_pub", "t", T(s), "main", g.chance(0.5))
		})
	}
	means["C19"] = func(g *G) {
		rounds(g, func(b []byte) {
			g.pure("mean", "bip_enc", "p", T("bitcoin-script"), "n", 1+g.Intn(255), "v", 1+g.Intn(255), "d", H(b))
			g.pure("mean", "bip_dec", "t", T(bip276("bitcoin-script", 1+g.Intn(255), 1+g.Intn(255), b)))
		})
		say(g, func(s string) {
			if s == "" || strings.Contains(s, "\n") || strings.HasPrefix(s, ":") {
				return
			}
			g.pure("mean", "bip_enc", "p", T(s), "n", 1+g.Intn(255), "v", 1+g.Intn(255), "d", H(g.bytes(g.Intn(9))))
			g.pure("mean", "bip_dec", "t", T(bip276(s, 1+g.Intn(255), 1+g.Intn(255), g.bytes(g.Intn(9)))))
			g.pure("mean", "bip_dec", "t", T(s))
		})
	}
	means["C20"] = func(g *G) {
		i := 0
		say(g, func(s string) {
			if i%6 == 0 {
				g.newCase("mean")
				g.do("rs_new", "id", "r", "m", 2)
				g.do("rs_add", "id", "r", "xk", T(base58check(g.xkey(false, 1))), "path", pathForm(g.idx(), g.idx()))
			}
			i++
			g.do("rs_add", "id", "r", "xk", T(s), "path", pathForm(0, 0))
			if i%6 == 0 {
				g.do("rs_script", "id", "r")
			}
			g.pure("mean", "electrum", "t", T(s))
		})
		rounds(g, func(b []byte) {
			if i%6 == 0 {
				g.newCase("mean")
				g.do("rs_new", "id", "r", "m", 2)
			}
			i++
			if len(b) == 33 {
				g.do("rs_make", "id", "q", "m", 2, "keys", HL([][]byte{b, cat([]byte{2}, g.bytes(32))}))
				g.do("rs_script", "id", "q")
				g.do("rs_addr", "id", "q")
			}
			g.do("rs_add", "id", "r", "xk", []string{HH(b), T(base58(b)), T(base58check(b))}[g.Intn(3)], "path", pathForm(0, 0))
			if i%6 == 0 {
				g.do("rs_script", "id", "r")
			}
			if len(b) > 0 && b[0] != 0x60 {
				g.pure("mean", "electrum", "t", HH(b))
			}
		})
	}
	means["C23"] = func(g *G) {
		rounds(g, func(b []byte) {
			g.pure("mean", "hash", "b", H(b))
			g.pure("mean", "seal_rt", "key", H(g.bytes(16+8*g.Intn(3))), "b", H(b))
			if len(b) == 32 {
				g.pure("mean", "seal_rt", "key", H(b), "b", H(g.bytes(5)))
			}
		})
		say(g, func(s string) { g.pure("mean", "hash", "b", T(s)) })
	}
	means["C24"] = func(g *G) {
		var last []byte
		rounds(g, func(b []byte) {
			g.pure("mean", "rev", "b", H(b))
			g.pure("mean", "revhex", "t", HH(b))
			g.pure("mean", "dec32", "t", HH(b))
			g.pure("mean", "eq", "x", H(b), "y", H(b))
			g.pure("mean", "eq", "x", H(b), "y", H(last))
			g.pure("mean", "eq", "x", H(b), "y", HH(b))
			g.pure("mean", "eq", "x", H(b), "y", H(cat(b, []byte{0})))
			g.pure("mean", "sort", "l", HL([][]byte{b, last, rev(b)}))
			last = b
		})
		say(g, func(s string) {
			g.pure("mean", "revhex", "t", T(s))
			g.pure("mean", "dec32", "t", T(s))
			g.pure("mean", "eq", "x", T(s), "y", T(strings.ToLower(s)))
			g.pure("mean", "eq", "x", T(s), "y", T(strings.TrimSpace(s)))
			g.pure("mean", "eq", "x", T(s), "y", T(strings.TrimRight(s, "\x00")))
		})
	}
	means["C25"] = func(g *G) {
		say(g, func(s string) {
			g.pure("mean", "hashrate", "coin", T(s), "diff", le64(g.u64v()), "secs", f64(g.secs()))
		})
		for _, c := range []string{"bsv", "Bsv", "rsv", "RBTC", "TBTC", "BTC ", " RSV", "RSV ", "R\x00", "\x00R", "bsvR", "ЯSV", "Ｒ", "RSK", "XRP", "ZCR", "DCR", "Rsv", "RSVR", "RR", "r", "rR", "Rr", "BRC"} {
			for k := 0; k < 4; k++ {
				g.pure("mean", "hashrate", "coin", T(c), "diff", le64(g.u64v()), "secs", f64(g.secs()))
			}
		}
	}
}

// part: of signing calls, which cost more
func (g *G) part() float64 {
	if g.thorough {
		return 1
	}
	return 0.5
}

// bigger: lengths up to 32 MiB
var biggers = map[string]func(g *G){
	"C01": func(g *G) {
		g.vast(10000001, func(b []byte) {
			t := g.few()
			switch g.Intn(3) {
			case 0:
				t.ins[g.Intn(2)].unl = b
			case 1:
				t.outs[g.Intn(2)].lock = b
			default:
				g.pure("huge", "tx_clear", "tx", t.form(), "i", g.Intn(2), "s", H(b))
				return
			}
			g.pure("huge", "tx_ser", "tx", t.form())
		})
	},
	"C02": func(g *G) {
		g.vast(1<<25+1, func(b []byte) {
			t := g.few()
			if g.chance(0.5) {
				t.ins[0].unl = b
				g.pure("huge", "in_parse", "b", H(t.ins[0].ser(vi)))
			} else {
				t.outs[0].lock = b
				g.pure("huge", "out_parse", "b", H(t.outs[0].ser(vi)))
			}
			g.pure("huge", "tx_rt", "b", H(t.ser()))
		})
	},
	"C05": func(g *G) {
		g.vast(1<<25+1, func(b []byte) {
			g.pure("huge", "push_rt", "l", HL([][]byte{{1}, b, {2}}))
			g.pure("huge", "push_dec", "b", H(push(b)[:len(b)]))
		})
	},
	"C06": func(g *G) {
		g.vast(1<<21+1, func(b []byte) {
			g.pure("huge", "asm_rt", "b", H(cat([]byte{0x51}, push(b), []byte{0xac})))
			g.pure("huge", "script_hex", "b", H(b))
		})
	},
	"C07": func(g *G) {
		g.vast(1<<22+1, func(b []byte) {
			g.pure("huge", "classify", "b", H(cat([]byte{0, 0x6a}, push(b))))
			g.pure("huge", "classify", "b", H(cat(push(b), []byte{0xac})))
			g.pure("huge", "classify", "b", H(cat([]byte{0x51}, push(b), []byte{0x51, 0xae})))
		})
	},
	"C08": func(g *G) {
		g.vast(1<<25+1, func(b []byte) {
			g.pure("huge", "o_data", "l", HL([][]byte{b}))
			g.pure("huge", "o_data", "l", HL([][]byte{b, {1}}))
		})
	},
	"C09": func(g *G) {
		g.vast(1<<25+1, func(b []byte) {
			t := g.few()
			if g.chance(0.5) {
				t.ins[1].prev = b
			} else {
				t.outs[1].lock = b
			}
			g.pure("huge", "sighash", "tx", t.form(), "i", 1, "f", stdFlags[g.Intn(2)*2])
		})
	},
	"C15": func(g *G) {
		g.vast(1<<24+1, func(b []byte) {
			w, m := "", b
			if g.chance(0.5) {
				w, m = hex.EncodeToString(b), nil
			}
			g.pure("huge", "coinbase", "height", le32(g.u32v()), "value", le64(g.u64v()), "wit", T(w), "text", T("/m/"), "wallet", T(g.addr()), "miner", H(m), "e1", H(g.bytes(4)), "e2", H(g.bytes(8)))
		})
	},
	"C19": func(g *G) {
		g.vast(1<<18+1, func(b []byte) {
			g.pure("huge", "bip_enc", "p", T("bitcoin-script"), "n", 1, "v", 1+g.Intn(255), "d", H(b))
			g.pure("huge", "bip_dec", "t", T(bip276("bitcoin-script", 1+g.Intn(255), 1, b)))
		})
	},
	"C23": func(g *G) {
		g.vast(1<<25+1, func(b []byte) {
			g.pure("huge", "hash", "b", H(b))
			if len(b) < 1<<23 {
				g.pure("huge", "seal_rt", "key", H(g.bytes(16+8*g.Intn(3))), "b", H(b))
			}
		})
	},
	"C24": func(g *G) {
		g.vast(1<<24+1, func(b []byte) {
			g.pure("huge", "rev", "b", H(b))
			c := exact(b)
			c[[]int{0, len(b) / 2, len(b) - 1, g.Intn(len(b))}[g.Intn(4)]] ^= 1
			g.pure("huge", "eq", "x", H(b), "y", H(c))
			g.pure("huge", "eq", "x", H(b), "y", H(b))
		})
	},
}
