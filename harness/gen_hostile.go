package main

import (
	"encoding/hex"
	"strings"
)

// huge: declared lengths and counts that cannot be true
var huge = [][]byte{
	{0xfd, 0xff, 0xff}, {0xfe, 0xff, 0xff, 0xff, 0xff}, {0xfe, 0, 0, 0, 0x80}, {0xfe, 0xff, 0xff, 0xff, 0x7f}, {0xfe, 0, 0, 0, 0x10},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0xff, 0, 0, 0, 0, 1, 0, 0, 0}, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x40}, {0xff, 0xf6, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f}, {0xfd}, {0xfe}, {0xff}, {0xfd, 0}, {0xfe, 0, 0}, {0xff, 0, 0, 0, 0, 0, 0},
	{0xff, 0, 0, 0, 0, 0, 0, 0, 0x20}, {0xff, 1, 0, 0, 0, 0, 0, 0, 0x10},
}

func electrumScript(m int, n int, keys [][]byte) []byte {
	b := []byte{byte(0x50 + m)}
	for _, k := range keys {
		b = append(b, push(k)...)
	}
	return append(b, byte(0x50+n), 0xae)
}

// garble: a text or byte string changed in one to three places
func (g *G) garble(b []byte) []byte {
	c := exact(b)
	for k := 1 + g.Intn(3); k > 0; k-- {
		if len(c) == 0 {
			return g.bytes(1 + g.Intn(4))
		}
		p := g.Intn(len(c))
		switch g.Intn(7) {
		case 0:
			c = c[:p]
		case 1:
			c = cat(c[:p], g.bytes(1+g.Intn(3)), c[p:])
		case 2:
			c = cat(c[:p], c[p+1:])
		case 3:
			h := huge[g.Intn(len(huge))]
			c = cat(c[:p], h, c[p+1:])
		case 4:
			c = cat(c[:p], []byte{byte(g.pickI(0, 0x4c, 0x4d, 0x4e, 0x51, 0x6a, 0xac, 0xae, 0xff))}, c[p+1:])
		default:
			c[p] = byte(g.Intn(256))
		}
	}
	return c
}

var oddTexts = []string{"", " ", "  ", "\x00", "\n", "0", "00", "0x", "zz", "g", "é", "\xff\xfe", "1", "11", "111111111111111111111111111111111111", "OP_", "OP_RETURN", "op_return",
	"bitcoin-script:", "bitcoin-script:0", "bitcoin-script:01", "bitcoin-script:0101", "bitcoin-script:010100000000", "bitcoin-script::", ":", "::", ":01010000000000", "ERROR",
	"-1", "+1", "1e", "1d00ffff ", " 1d00ffff", "0x1d00ffff", "1D00FFFF", "%s", "\t", "０", "m/0/0", "xpub", "xprv", "l", "O", "I", "0OIl"}

func init() {
	gens["C03"] = func(g *G) {
		g.batch = 30
		fams := []struct {
			name string
			mk   func() []byte
			use  func(b []byte)
		}{
			{"tx", func() []byte { return g.tx(g.Intn(4), g.Intn(4)).ser() }, func(b []byte) {
				if g.chance(0.3) {
					g.pure("tx", "tx_parse_str", "t", HH(b))
				} else {
					g.pure("tx", g.either("tx_parse", "tx_rt"), "b", H(b))
				}
			}},
			{"in", func() []byte { return g.in().ser(vi) }, func(b []byte) { g.pure("in", "in_parse", "b", H(b)) }},
			{"out", func() []byte { return g.out().ser(vi) }, func(b []byte) { g.pure("out", "out_parse", "b", H(b)) }},
			{"varint", func() []byte { return huge[g.Intn(len(huge))] }, func(b []byte) { g.pure("varint", "varint_dec", "b", H(b)) }},
			{"script", func() []byte { return g.elements(g.Intn(6), true) }, func(b []byte) {
				g.pure("dec", g.either("push_dec", "asm_to"), "b", H(b))
				g.pure("classify", "classify", "b", H(b))
				if g.chance(0.2) {
					g.pure("dec", "push_dec_str", "t", HH(b))
				}
			}},
			{"template", func() []byte { t := g.templates(); return t[g.Intn(len(t))] }, func(b []byte) {
				g.pure("classify", "classify", "b", H(b))
				g.pure("dec", "asm_to", "b", H(b))
			}},
			{"electrum", func() []byte { m, n, k := g.electrumParts(); return electrumScript(m, n, k) }, func(b []byte) { g.pure("electrum", "electrum", "t", HH(b)) }},
			{"cipher", func() []byte { return g.bytes(g.Intn(60)) }, func(b []byte) { g.pure("cipher", "unseal_raw", "b", H(b)) }},
			{"asm", func() []byte { return []byte(g.asmText()) }, func(b []byte) { g.pure("asm", "asm_from", "t", H(b)) }},
			{"addr", func() []byte { return []byte(g.addr()) }, func(b []byte) {
				g.pure("addr", g.either("addr_parse", "addr_valid"), "t", H(b))
				g.pure("addr", "c_addr", "t", H(b))
				if g.chance(0.2) {
					g.pure("addr", "o_addr", "t", H(b), "sat", le64(1))
				}
			}},
			{"bip", func() []byte { return []byte(g.bipText()) }, func(b []byte) {
				g.pure("bip", "bip_dec", "t", H(b))
				g.pure("bip", "addr_valid", "t", H(b))
			}},
			{"hex", func() []byte { return []byte(hex.EncodeToString(g.bytes(g.pickI(0, 1, 4, 20, 31, 32, 33, 64)))) }, func(b []byte) {
				for _, op := range []string{"script_fromhex", "c_pubstr", "c_pkh", "tgt_hex", "tgt_int", "diff", "dec32", "tx_parse_str", "push_dec_str", "electrum"} {
					if g.chance(0.35) {
						g.pure("hex", op, "t", H(b))
					}
				}
				if g.chance(0.3) {
					g.pure("hex", "o_pkh", "t", H(b), "sat", le64(5))
					g.pure("hex", "addr_pub", "t", H(b), "main", true)
				}
			}},
		}
		for k := 0; k < g.n(20, 200); k++ { // descriptions
			g.pure("str", "in_str", "in", g.in().form())
			g.pure("str", "in_str", "in", gIn{txid: g.txid(), nilUnl: true, prev: g.script()}.form())
			g.pure("str", "out_str", "out", g.out().form())
		}
		for _, f := range fams {
			for k := 0; k < g.n(70, 1500); k++ {
				b := f.mk()
				if len(b) > 2000 && g.chance(0.9) {
					b = b[:2000]
				}
				f.use(b)
				f.use(g.garble(b))
				f.use(g.garble(b))
				if len(b) > 0 {
					f.use(b[:g.Intn(len(b))])
				}
			}
			for n := 0; n < 4; n++ { // every truncation
				b := f.mk()
				if len(b) > 400 {
					b = b[:400]
				}
				for i := range b {
					f.use(b[:i])
				}
			}
			for _, s := range oddTexts {
				f.use([]byte(s))
			}
			for k := 0; k < g.n(30, 400); k++ {
				f.use(g.bytes(g.Intn(50)))
			}
			for c := 0; c < 256; c++ { // short strings
				f.use([]byte{byte(c)})
			}
		}
		// impossible counts and lengths at each place
		for _, h := range huge {
			t := g.tx(2, 2)
			for i := range t.ins {
				t.ins[i].unl = g.bytes(3)
			}
			for i := range t.outs {
				t.outs[i].lock = g.bytes(3)
			}
			for at := 0; at < 6; at++ {
				hit := 0
				b := t.serw(func(n uint64) []byte {
					hit++
					if hit-1 == at {
						return h
					}
					return vi(n)
				})
				g.pure("huge", "tx_parse", "b", H(b))
				g.pure("huge", "tx_parse", "b", H(cat(b, g.bytes(g.Intn(400)))))
			}
			g.pure("huge", "in_parse", "b", H(cat(g.bytes(36), h, g.bytes(g.Intn(60)))))
			g.pure("huge", "out_parse", "b", H(cat(g.bytes(8), h, g.bytes(g.Intn(60)))))
			g.pure("huge", "varint_dec", "b", H(cat(h, g.bytes(g.Intn(3)))))
		}
		for _, p := range [][]byte{{0x4c, 0xff}, {0x4d, 0xff, 0xff}, {0x4d, 0, 0x80}, {0x4d, 0xff, 0x7f}, {0x4e, 0xff, 0xff, 0xff, 0xff}, {0x4e, 0, 0, 0, 0x80}, {0x4e, 0xff, 0xff, 0xff, 0x7f},
			{0x4e, 0xfb, 0xff, 0xff, 0xff}, {0x4e, 0, 0, 0, 1}, {0x4c}, {0x4d}, {0x4d, 1}, {0x4e}, {0x4e, 1}, {0x4e, 1, 0}, {0x4e, 1, 0, 0}, {0x4c, 0}, {0x4d, 0, 0}, {0x4e, 0, 0, 0, 0}, {0x4b}, {1}} {
			for _, pre := range [][]byte{nil, {0x51}, {0x6a}, {0, 0x6a}, {0x76, 0xa9}} {
				for _, post := range [][]byte{nil, {0xae}, {0xac}, g.bytes(3), {0x51, 0xae}, g.bytes(260)} {
					b := cat(pre, p, post)
					g.pure("pushlen", g.either("push_dec", "asm_to"), "b", H(b))
					g.pure("pushlen", "classify", "b", H(b))
					g.pure("pushlen", "electrum", "t", HH(b))
				}
			}
		}
		// all short scripts over the bytes that matter to the classifiers
		alpha := []byte{0, 1, 0x20, 0x21, 0x41, 0x4c, 0x4d, 0x4e, 0x50, 0x51, 0x52, 0x60, 0x6a, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xae}
		short := [][]byte{nil}
		for n := 1; n <= g.n(2, 3); n++ {
			var next [][]byte
			for _, s := range short {
				if len(s) == n-1 {
					for _, c := range alpha {
						next = append(next, cat(s, []byte{c}))
					}
				}
			}
			short = append(short, next...)
		}
		for _, s := range short {
			g.pure("short", "classify", "b", H(s))
			g.pure("short", "electrum", "t", HH(s))
			g.pure("short", g.either("push_dec", "asm_to"), "b", H(s))
		}
		// input indexes
		for ni := 0; ni <= 4; ni++ { // every shape, index and standard flag
			for no := 0; no <= 4; no++ {
				t := g.wide(ni, no)
				for i := range t.ins {
					t.ins[i].prev = p2pkh(keys[i%2].pkh)
				}
				for i := -1; i <= 5; i++ {
					for _, f := range []int{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x44, 0x01, 0x03, 0x83} {
						g.pure("shape", "sighash", "tx", t.form(), "i", i, "f", f)
					}
				}
				for _, f := range []int{0, 0x43, 0xc3, 0x42} {
					g.newCase("shape")
					g.do("tx_make", "id", "t", "tx", t.form())
					g.do("signer", "id", "s", "key", H(keys[0].priv), "flag", f)
					for i := -1; i <= 5; i++ {
						g.do("tx_sign", "id", "t", "i", i, "signer", "s")
						if f == 0 {
							g.do("tx_apply", "id", "t", "i", i, "s", "51")
						}
					}
					g.do("tx_signauto", "id", "t", "signer", "s")
				}
			}
		}
		for k := 0; k < g.n(40, 400); k++ {
			t := g.sigTx(g.Intn(4), g.Intn(4))
			for _, i := range []int{-1, 0, len(t.ins) - 1, len(t.ins), len(t.ins) + 1, 255, 256, 65536, 2147483647, -2147483648} {
				g.pure("index", "sighash", "tx", t.form(), "i", i, "f", g.flag())
				if i >= -1 {
					g.pure("index", "tx_clear", "tx", t.form(), "i", i, "s", H(g.bytes(3)))
				}
			}
			g.newCase("index")
			g.do("tx_make", "id", "t", "tx", t.form())
			g.do("signer", "id", "s", "key", H(keys[0].priv), "flag", 0)
			for _, i := range []int{len(t.ins), -1, len(t.ins) + 7, 2147483647} {
				g.do("tx_apply", "id", "t", "i", i, "s", H(g.bytes(2)))
				g.do("tx_sign", "id", "t", "i", i, "signer", "s")
				g.do("tx_sighash", "id", "t", "i", i, "f", 0x41)
			}
		}
		// inputs and outputs without scripts
		for k := 0; k < g.n(10, 60); k++ {
			t := g.tx(2, 1)
			t.ins[0].unl, t.ins[0].nilUnl, t.ins[0].prev = nil, true, nil
			t.ins[1].txid = []string{"", "00", strings.Repeat("0", 63) + "g", g.txid() + "00", strings.Repeat("z", 64)}[k%5]
			for i := 0; i < 2; i++ {
				g.pure("bare", "sighash", "tx", gTx{ver: 1, ins: t.ins[:1], outs: t.outs}.form(), "i", i, "f", 0x41)
			}
			g.pure("bare", "tx_ser", "tx", gTx{ver: 1, ins: t.ins[:1], outs: t.outs}.form())
		}
		// Merkle proofs
		for k := 0; k < g.n(60, 800); k++ {
			n := g.Intn(5)
			l := []string{}
			for i := 0; i < n; i++ {
				l = append(l, g.txid())
			}
			t := g.txid()
			switch g.Intn(6) {
			case 0:
				t = badHex(g, t)
			case 1:
				if n > 0 {
					l[g.Intn(n)] = badHex(g, g.txid())
				}
			case 2:
				t = t[:2*g.Intn(32)]
			case 3:
				if n > 0 {
					l[g.Intn(n)] = ""
				}
			}
			i := uint64(g.Intn(1 << uint(n)))
			if g.chance(0.5) {
				i = []uint64{1 << uint(n), 1<<uint(n) + 1, 1 << 63, ^uint64(0), ^uint64(1), 1 << 62, 1 << 32, 1 << 31, 1<<31 + 1, ^uint64(1 << 31)}[g.Intn(10)]
			}
			g.pure("proof", "merkle_proof", "t", T(t), "i", le64(i), "l", TL(l))
		}
		for n := 62; n <= 66; n++ { // proofs as long as an index has bits
			l := []string{}
			for i := 0; i < n; i++ {
				l = append(l, g.txid())
			}
			for _, i := range []uint64{0, 1, 1 << 62, 1<<62 - 1} {
				g.pure("proof", "merkle_proof", "t", T(g.txid()), "i", le64(i), "l", TL(l))
			}
			if n <= 66 {
				for _, i := range []uint64{^uint64(0), 1 << 63} {
					g.pure("proof", "merkle_proof", "t", T(g.txid()), "i", le64(i), "l", TL(l))
				}
			}
		}
		// compact bits of every length
		for n := 0; n <= 20; n++ {
			for _, s := range []string{strings.Repeat("f", n), strings.Repeat("0", n), hex.EncodeToString(g.bytes(12))[:n]} {
				for _, op := range []string{"tgt_hex", "tgt_int", "diff"} {
					g.pure("bits", op, "t", T(s))
				}
			}
		}
		for e := 0; e < 256; e++ {
			for _, m := range []uint32{0, 1, 0x7fffff, 0x800000, 0xffffff} {
				g.pure("bits", []string{"tgt_hex", "tgt_int", "diff"}[(e+int(m))%3], "t", HH([]byte{byte(e), byte(m >> 16), byte(m >> 8), byte(m)}))
			}
		}
		for n := 0; n < 40; n++ {
			g.pure("cipher", "unseal_raw", "b", H(g.bytes(n)))
			g.pure("dec32", "dec32", "t", T(hex.EncodeToString(g.bytes(n))))
			g.pure("dec32", "dec32", "t", T(hex.EncodeToString(g.bytes(40))[:2*n+1]))
		}
		// long inputs
		long := g.n(3000, 15000)
		z := make([]byte, long)
		for _, op := range []string{"push_dec", "asm_to", "classify", "tx_parse", "in_parse", "out_parse", "varint_dec"} {
			for _, c := range []byte{0, 0x51, 0x4c, 0xff, 0x6a} {
				for i := range z {
					z[i] = c
				}
				if g.n(0, 1) == 0 || c == 0x6a || op == "classify" || op == "tx_parse" || op == "push_dec" {
					g.pure("long", op, "b", H(z))
				}
			}
		}
		for _, c := range []string{"0", "f", " ", "1", "z", ":", "O"} {
			s := strings.Repeat(c, long/4)
			for _, op := range []string{"asm_from", "addr_parse", "addr_valid", "bip_dec", "tx_parse_str", "push_dec_str", "script_fromhex", "c_addr", "electrum", "dec32", "tgt_hex"} {
				if op == "asm_from" && len(s) > 6000 {
					s = s[:6000]
				}
				if strings.HasPrefix(op, "addr_") || op == "c_addr" {
					g.pure("long", op, "t", T(s[:600]))
				} else {
					g.pure("long", op, "t", T(s))
				}
			}
		}
		for _, c := range g.cases { // and see others
			c.Mode = "lax"
		}
	}
}

func (g *G) either(a, b string) string {
	if g.chance(0.5) {
		return a
	}
	return b
}

// asmText: script text, mostly well formed
func (g *G) asmText() string {
	var p []string
	for n := g.Intn(6); n > 0; n-- {
		switch g.Intn(5) {
		case 0:
			p = append(p, opNames[g.Intn(len(opNames))])
		case 1:
			p = append(p, oddTexts[g.Intn(len(oddTexts))])
		default:
			p = append(p, hex.EncodeToString(g.bytes(1+g.Intn(20))))
		}
	}
	return strings.Join(p, " ")
}

// bipText: a well-formed BIP276 string
func (g *G) bipText() string {
	p := []string{"bitcoin-script", "bitcoin-script", "bitcoin-template", "x", "a:b", "01", ":", "é"}[g.Intn(8)]
	return bip276(p, g.pickI(0, 1, 2, 9, 10, 16, 100, 127, 128, 255, g.Intn(256)), g.pickI(0, 1, 2, 10, 17, 200, 255, g.Intn(256)), g.filler(g.pickI(0, 0, 1, 2, 10, 25)))
}
func bip276(p string, n, v int, d []byte) string {
	s := p + ":" + hex.EncodeToString(cat([]byte{byte(n), byte(v)}, d))
	return s + hex.EncodeToString(sha2([]byte(s))[:4])
}
