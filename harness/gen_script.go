package main

import (
	"bytes"
	"encoding/hex"
	"strings"
)

// an element of a script: an opcode, a minimal push, or some other push
func (g *G) element(nonMinimal bool) []byte {
	switch g.Intn(8) {
	case 0, 1:
		return []byte{g.opcode()}
	case 2:
		return push(g.bytes(1))
	case 3:
		return push(g.filler(lens[1+g.Intn(len(lens)-1)]))
	case 4:
		if nonMinimal {
			d := g.filler(g.pickI(0, 1, 2, 20, 33, 75, 76, 200, 255, 256))
			switch w := g.Intn(3); {
			case w == 0 && len(d) < 256:
				return cat([]byte{0x4c, byte(len(d))}, d)
			case w == 1:
				return cat([]byte{0x4d, byte(len(d)), byte(len(d) >> 8)}, d)
			default:
				return cat([]byte{0x4e, byte(len(d)), byte(len(d) >> 8), 0, 0}, d)
			}
		}
		return push([]byte{g.opcode()}) // a pushed byte that looks like an opcode
	default:
		return push(g.bytes(1 + g.Intn(40)))
	}
}
func (g *G) opcode() byte {
	c := g.Intn(256)
	if c >= 1 && c <= 78 {
		c = g.pickI(0, 0x51, 0x60, 0x61, 0x6a, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xae, 0xff, 0xf9, 0xba, 0x4f, 0x50)
	}
	return byte(c)
}
func (g *G) elements(n int, nonMinimal bool) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, g.element(nonMinimal)...)
	}
	return b
}

// mutated copies of a byte string: each byte changed, dropped, duplicated, inserted
func (g *G) mutants(b []byte, f func([]byte)) {
	for i := 0; i <= len(b); i++ {
		if i < len(b) {
			for _, d := range []byte{1, 0x80, byte(g.Intn(256))} {
				c := exact(b)
				c[i] ^= d
				f(c)
			}
			c := exact(b)
			c[i]++
			f(c)
			c = exact(b)
			c[i]--
			f(c)
			f(cat(b[:i], b[i+1:]))
			f(cat(b[:i+1], b[i:]))
			f(exact(b[:i]))
		}
		f(cat(b[:i], g.bytes(1), b[i:]))
	}
	f(cat(b, []byte{0}))
	f(cat(b, []byte{0xac}))
	f(cat(b, b))
}

func (g *G) templates() [][]byte {
	k := g.key()
	u2 := cat([]byte{byte(6 + g.Intn(2))}, k.pubU[1:])
	ms := func(m, n int) []byte {
		b := []byte{byte(0x50 + m)}
		if m == 0 {
			b[0] = 0
		}
		for i := 0; i < n; i++ {
			b = append(b, push(mkKey(g.bytes(32)).pub)...)
		}
		return append(b, byte(0x50+n), 0xae)
	}
	return [][]byte{
		p2pkh(g.pkh()), cat([]byte{0xa9, 20}, g.bytes(20), []byte{0x87}),
		cat(push(k.pub), []byte{0xac}), cat(push(k.pubU), []byte{0xac}), cat(push(u2), []byte{0xac}),
		{0x6a}, {0, 0x6a}, cat([]byte{0x6a}, push(g.bytes(5))), cat([]byte{0, 0x6a}, push(g.bytes(5)), push(g.bytes(3))),
		ms(1, 1), ms(2, 3), ms(0, 2), ms(16, 16),
		cat([]byte{0x51}, push(g.bytes(7)), []byte{0x51, 0xae}), {0x51, 0x51, 0xae}, {0, 0, 0xae}, {0x60, 0xa9, 0x60, 0xae},
		cat([]byte{0xa9}, push(g.bytes(20)), []byte{0x88}, p2pkh(g.pkh())),
		cat(push([]byte{0x30, 2, 3}), push(k.pub)),
	}
}

func init() {
	gens["C05"] = func(g *G) {
		for _, l := range append(append([]int{}, lens...), bigLens...) {
			g.pure("prefix", "push_prefix", "d", H(g.filler(l)))
			g.pure("enc", "push_enc", "l", HL([][]byte{g.filler(l)}))
			if l > 0 {
				g.pure("rt", "push_rt", "l", HL([][]byte{g.filler(l)}))
				g.pure("rt", "push_rt", "l", HL([][]byte{g.bytes(1), g.filler(l), g.bytes(2), g.filler(l)}))
			}
		}
		g.pure("enc", "push_enc", "l", L{})
		g.pure("rt", "push_rt", "l", L{})
		for k := 0; k < g.n(150, 2000); k++ {
			var l, l1 [][]byte
			for i := g.Intn(7); i > 0; i-- {
				d := g.filler(lens[g.Intn(len(lens))])
				if g.chance(0.5) {
					d = g.bytes(g.Intn(100))
				}
				l = append(l, d)
				if len(d) > 0 {
					l1 = append(l1, d)
				}
			}
			g.pure("enc", "push_enc", "l", HL(l))
			g.pure("rt", "push_rt", "l", HL(l1))
		}
		dec := func(tag string, b []byte) {
			if g.chance(0.3) {
				g.pure(tag, "push_dec_str", "t", T(hex.EncodeToString(b)))
			} else {
				g.pure(tag, "push_dec", "b", H(b))
			}
		}
		for k := 0; k < g.n(200, 3000); k++ {
			b := g.elements(g.Intn(8), true)
			dec("dec", b)
			if len(b) > 0 {
				dec("trunc", b[:g.Intn(len(b))])
			}
		}
		for _, l := range append(append([]int{}, lens...), bigLens...) { // each form around each length, exact and one off
			d := g.filler(l)
			var forms [][]byte
			if l < 76 {
				forms = append(forms, []byte{byte(l)})
			}
			if l < 256 {
				forms = append(forms, []byte{0x4c, byte(l)})
			}
			if l < 65536 {
				forms = append(forms, []byte{0x4d, byte(l), byte(l >> 8)})
			}
			forms = append(forms, []byte{0x4e, byte(l), byte(l >> 8), byte(l >> 16), 0})
			for _, p := range forms {
				b := cat(p, d)
				dec("form", b)
				dec("form", cat([]byte{0x76}, b))
				dec("form", cat(b, []byte{0x87}))
				dec("form", cat(b, push(g.bytes(2))))
				dec("form", b[:len(b)-1])
				dec("form", p)
				if len(b) > 3 {
					dec("form", b[:len(b)-3])
				}
			}
		}
		for k := 0; k < g.n(60, 600); k++ { // declared lengths far beyond
			pre := g.elements(g.Intn(3), true)
			v := uint32(g.u64v())
			if g.chance(0.3) {
				v = ^uint32(g.Intn(12))
			}
			dec("over", cat(pre, []byte{0x4e}, b32(v), g.bytes(g.Intn(9))))
			dec("over", cat(pre, []byte{0x4d, byte(v), byte(v >> 8)}, g.bytes(g.Intn(9))))
			dec("over", cat(pre, []byte{0x4d}, []byte{byte(0xff - g.Intn(6)), 0xff}, g.bytes(g.Intn(9))))
			dec("over", cat(pre, []byte{0x4c, byte(v)}, g.bytes(g.Intn(9))))
			dec("over", cat(pre, []byte{byte(1 + g.Intn(75))}, g.bytes(g.Intn(9))))
			dec("over", cat(pre, []byte{byte(0x4c + g.Intn(3))}, g.bytes(g.Intn(4))))
		}
		for c := 0; c < 256; c++ {
			dec("one", []byte{byte(c)})
			dec("two", []byte{byte(c), byte(g.Intn(256))})
			dec("three", cat([]byte{byte(c)}, g.bytes(2)))
		}
		for k := 0; k < g.n(100, 2000); k++ {
			dec("random", g.bytes(g.Intn(30)))
		}
		for _, t := range []string{"", "0", "zz", "76a", "0g", " 76", "76 ", "7 6a9", "AC", "Ac76"} {
			g.pure("hex", "push_dec_str", "t", T(t))
		}
		for k := 0; k < g.n(30, 300); k++ {
			g.newCase("append")
			g.do("s_new", "id", "s", "b", H(g.elements(g.Intn(3), true)))
			for j := g.Intn(6); j >= 0; j-- {
				g.appendTo("s")
			}
			g.do("s_read", "id", "s")
		}
		for _, n := range []int{255, 256, 257, 1000, 65536} { // many elements
			l := make([][]byte, n)
			for i := range l {
				l[i] = []byte{byte(i), byte(i >> 8), 7}[:1+i%3]
			}
			g.pure("many", "push_rt", "l", HL(l))
			g.pure("many", "push_enc", "l", HL(l))
			dec("many", bytes.Repeat([]byte{0x76}, n))
			dec("many", cat(bytes.Repeat([]byte{1, 2}, n), []byte{3, 1, 2}))
		}
		g.batch = 1
		g.pure("huge", "push_prefix", "d", "(00*16777215)")
		g.pure("huge", "push_prefix", "d", "(61*16777216)")
		for _, u := range []uint64{0, 75, 76, 255, 256, 65535, 65536, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 2, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<32 + 5, 1<<32 + 16} {
			g.pure("huge", "push_prefix_len", "u", le64(u))
			if u >= 1<<32 {
				g.pure("huge", "push_enc_len", "u", le64(u), "d", H(g.bytes(g.Intn(5))))
				g.newCase("huge")
				g.do("s_new", "id", "s", "b", H(g.elements(g.Intn(3), true)))
				g.do("s_push_len", "id", "s", "u", le64(u), "d", H(g.bytes(g.Intn(5))))
				g.do("s_push_len", "id", "s", "u", le64(u), "one", true)
				g.do("s_read", "id", "s")
			}
		}
		g.pure("huge", "push_enc", "l", L{"(00*16777217)"})
		g.pure("huge", "push_rt", "l", L{"51", "(02*4194304)", "01"})
		if g.thorough {
			for _, l := range []int{1<<24 - 1, 1 << 24} {
				g.pure("huge", "push_prefix", "d", H(g.filler(l)))
				g.pure("huge", "push_enc", "l", HL([][]byte{g.filler(l)}))
			}
			g.pure("huge", "push_rt", "l", HL([][]byte{g.filler(1 << 22), {1}}))
		}
	}

	gens["C06"] = func(g *G) {
		for c := 0; c < 256; c++ {
			if c >= 1 && c <= 78 {
				continue
			}
			b := byte(c)
			g.pure("op", "asm_to", "b", H([]byte{b}))
			g.pure("op", "asm_rt", "b", H([]byte{b}))
			g.pure("op", "asm_rt", "b", H(cat([]byte{0x76}, []byte{b}, push([]byte{b}), []byte{0xac})))
			g.pure("op", "asm_rt", "b", H(push([]byte{b})))
		}
		for _, n := range opNames {
			g.pure("name", "asm_from", "t", T(n))
			g.pure("name", "asm_from", "t", T("0102 "+n+" "+n))
			g.pure("name", "asm_from", "t", T(strings.ToLower(n)))
			g.pure("name", "asm_from", "t", T(n+"X"))
			g.pure("name", "asm_from", "t", T(n[:len(n)-1]))
			g.pure("name", "asm_from", "t", T(n[3:]))
		}
		for k := 0; k < g.n(250, 3000); k++ {
			b := g.elements(g.Intn(9), false)
			g.pure("rt", "asm_rt", "b", H(b))
			g.pure("to", "asm_to", "b", H(b))
			g.pure("hex", "script_hex", "b", H(b))
			g.pure("hex", "script_fromhex", "t", T(hex.EncodeToString(b)))
			g.pure("to", "asm_to", "b", H(g.elements(g.Intn(6), true)))
			g.pure("to", "asm_to", "b", H(g.bytes(g.Intn(20))))
			c := g.bytes(g.Intn(20))
			g.pure("hex", "script_hex", "b", H(c))
			s := hex.EncodeToString(c)
			if len(s) > 0 && g.chance(0.5) {
				i := g.Intn(len(s))
				s = s[:i] + string("gG z.\x00"[g.Intn(6)]) + s[i+g.Intn(2):]
			}
			if g.chance(0.2) {
				s = strings.ToUpper(s)
			}
			g.pure("hex", "script_fromhex", "t", T(s))
		}
		for _, l := range append(append([]int{}, lens[1:]...), bigLens...) {
			if l > 66000 {
				continue
			}
			g.pure("long", "asm_rt", "b", H(cat([]byte{0x76}, push(g.filler(l)), []byte{0x87})))
			g.pure("long", "asm_to", "b", H(push(g.filler(l))))
			g.pure("long", "asm_from", "t", T(hex.EncodeToString(g.filler(l))+" OP_DROP"))
		}
		for _, n := range []int{255, 256, 300, 2000} { // many elements
			var b []byte
			var tk []string
			for i := 0; i < n; i++ {
				e := []byte{0x76}
				if i%3 > 0 {
					e = push(g.bytes(1 + i%3))
				}
				b = append(b, e...)
				tk = append(tk, opNames[g.Intn(len(opNames))], "0a")
			}
			g.pure("many", "asm_rt", "b", H(b))
			g.pure("many", "asm_to", "b", H(b))
			g.pure("many", "asm_from", "t", T(strings.Join(tk, " ")))
			g.pure("many", "asm_from", "t", T(strings.Join(tk, " ")+" OP_NO"))
		}
		for k := 0; k < g.n(250, 3000); k++ { // texts
			var tk []string
			for i := g.Intn(6); i > 0; i-- {
				switch g.Intn(7) {
				case 0, 1, 2:
					tk = append(tk, opNames[g.Intn(len(opNames))])
				case 3, 4:
					s := hex.EncodeToString(g.bytes(1 + g.Intn(80)))
					if g.chance(0.2) {
						s = strings.ToUpper(s)
					}
					tk = append(tk, s)
				case 5:
					tk = append(tk, []string{"", "0", "1", "-1", "OP_", "op_dup", "OP_NOTHING", "xyz", "0x00", "abc", "OP_DUPOP_DUP", "OP_17", "\tOP_DUP", "'a'"}[g.Intn(14)])
				default:
					tk = append(tk, "")
				}
			}
			sep := " "
			if g.chance(0.05) {
				sep = []string{"  ", "\t", ",", "\n"}[g.Intn(4)]
			}
			g.pure("text", "asm_from", "t", T(strings.Join(tk, sep)))
		}
	}

	gens["C07"] = func(g *G) {
		g.batch = 25
		cl := func(b []byte) { g.pure("classify", "classify", "b", H(b)) }
		for k := 0; k < g.n(1, 12); k++ {
			for _, t := range g.templates() {
				cl(t)
				for _, tail := range cutPushes {
					cl(cat(t, tail))
				}
				if len(t) > 200 && k > 0 {
					continue
				}
				if len(t) > 120 {
					for j := 0; j < 60; j++ {
						c := exact(t)
						c[g.Intn(len(c))] ^= byte(1 << uint(g.Intn(8)))
						cl(c)
						cl(t[:g.Intn(len(t))])
					}
					continue
				}
				g.mutants(t, cl)
			}
		}
		// small integers and checkmultisig as opcodes and as pushed bytes, in each position
		for _, a := range []int{0, 1, 0x4f, 0x50, 0x51, 0x52, 0x5f, 0x60, 0x61, 0xff} {
			for _, z := range []int{0, 0x50, 0x51, 0x60, 0x61} {
				for _, m := range []int{0xae, 0xac, 0xaf, 0xad} {
					mid := g.elements(g.Intn(3), false)
					asOp := func(c int) []byte { return []byte{byte(c)} }
					asPush := func(c int) []byte { return push([]byte{byte(c)}) }
					cl(cat(asOp(a), mid, asOp(z), asOp(m)))
					cl(cat(asPush(a), mid, asOp(z), asOp(m)))
					cl(cat(asOp(a), mid, asPush(z), asOp(m)))
					cl(cat(asOp(a), mid, asOp(z), asPush(m)))
					cl(cat(asOp(a), mid, asOp(z), asOp(m), asOp(0x51)))
					cl(cat(asOp(a), asOp(m)))
					cl(cat(asOp(a), mid, asOp(z), asOp(m), cutPushes[g.Intn(len(cutPushes))]))
				}
			}
		}
		// empty pushes inside multisig
		for _, p := range [][]byte{{0x4c, 0}, {0x4d, 0, 0}, {0x4e, 0, 0, 0, 0}} {
			cl(cat([]byte{0x51}, p, []byte{0x51, 0xae}))
			cl(cat([]byte{0x51, 1, 7}, p, []byte{0x51, 0xae}))
			cl(cat(p, []byte{0x51, 0x51, 0xae}))
			cl(cat([]byte{0x51}, p, []byte{0xae}))
			cl(cat([]byte{0x51, 0x51}, p))
			cl(cat(p, []byte{0xac}))
			cl(p)
		}
		for _, n := range []int{15, 16, 17, 20, 255, 256, 257, 1000} { // many elements
			ops := bytes.Repeat([]byte{0x61}, n)
			keys := bytes.Repeat(push(g.bytes(3)), n)
			for _, mid := range [][]byte{ops, keys, cat(keys, []byte{0x4c, 0}), cat(keys, []byte{0x4d, 9})} {
				cl(cat([]byte{0x51}, mid, []byte{0x51, 0xae}))
				cl(cat([]byte{0x51}, mid, []byte{0x61, 0xae}))
				cl(cat([]byte{0, 0x6a}, mid))
				cl(cat([]byte{0x61}, mid, []byte{0x51, 0xae}))
			}
		}
		// key pushes in every form and length
		for _, l := range []int{1, 20, 32, 33, 34, 64, 65, 66, 75} {
			for c := 0; c < 9; c++ {
				d := g.bytes(l)
				d[0] = byte(c)
				cl(cat(push(d), []byte{0xac}))
				cl(cat([]byte{0x4c, byte(l)}, d, []byte{0xac}))
				cl(cat([]byte{0x4d, byte(l), 0}, d, []byte{0xac}))
				if g.chance(0.3) {
					cl(cat(push(d), []byte{0xac, 0xac}))
					cl(cat(push(d), []byte{0xae}))
					cl(cat([]byte{0x61}, push(d), []byte{0xac}))
					cl(cat(push(d), push([]byte{0xac})))
				}
			}
		}
		for c := 0; c < 256; c++ {
			cl([]byte{byte(c)})
			cl([]byte{byte(c), 0x6a})
			cl([]byte{0, byte(c)})
			cl([]byte{0x76, byte(c)})
			cl([]byte{0x76, 0xa9, byte(c)})
			cl([]byte{byte(c), 0x51, 0xae})
		}
		cl(nil)
		for k := 0; k < g.n(600, 10000); k++ {
			cl(g.elements(g.Intn(6), true))
			cl(g.bytes(g.Intn(30)))
			cl(cat([]byte{0x76, 0xa9, 20}, g.bytes(g.Intn(30)), []byte{0x88, 0xac}))
			cl(cat([]byte{0xa9, 20}, g.bytes(17+g.Intn(6)), []byte{0x87}))
		}
		for k := 0; k < g.n(20, 200); k++ { // queries while a script grows
			g.newCase("grow")
			g.do("s_new", "id", "s", "b", "")
			for j := 0; j < 8; j++ {
				g.do("s_classify", "id", "s")
				switch j {
				case 0:
					g.do("s_op", "id", "s", "c", g.pickI(0x76, 0x51, 0, 0x6a, 0xa9))
				case 1:
					g.do("s_op", "id", "s", "c", g.pickI(0xa9, 0x51, 0x6a))
				case 2:
					g.do("s_push", "id", "s", "d", H(g.bytes(g.pickI(20, 33, 65))))
				default:
					g.do("s_op", "id", "s", "c", g.pickI(0x88, 0xac, 0x51, 0xae, 0x87))
				}
			}
			g.do("s_classify", "id", "s")
		}
	}

	gens["C08"] = func(g *G) {
		amt := func() string { return le64(g.u64v()) }
		for k := 0; k < g.n(120, 1500); k++ {
			ky := g.key()
			pub := [][]byte{ky.pub, ky.pubU, g.bytes(33), g.bytes(g.Intn(70))}[g.Intn(4)]
			g.pure("pub", "c_pub", "b", H(pub))
			s := hex.EncodeToString(pub)
			if g.chance(0.3) {
				s = badHex(g, s)
			}
			g.pure("pub", "c_pubstr", "t", T(s))
			h := hex.EncodeToString(g.pkh())
			g.pure("pkh", "c_pkh", "t", T(h))
			g.pure("pkh", "o_pkh", "t", T(h), "sat", amt())
			g.pure("puzzle", "o_puzzle", "secret", H(g.filler(g.pickI(0, 1, 20, 55, 56, 64, 100, 300))), "t", T(h), "sat", amt())
			g.pure("puzzle", "o_puzzle", "secret", H(g.free()), "t", T(h), "sat", amt())
			b := badHex(g, h)
			g.pure("pkh", "c_pkh", "t", T(b))
			g.pure("pkh", "o_pkh", "t", T(b), "sat", amt())
			if len(b) != 40 || !isHex(b) {
				if !isHex(b) || len(b)%2 == 1 {
					g.pure("puzzle", "o_puzzle", "secret", "00", "t", T(b), "sat", amt())
				}
			}
			if g.chance(0.2) {
				h = strings.ToUpper(h)
				g.pure("pkh", "c_pkh", "t", T(h))
			}
			a := g.addr()
			g.pure("addr", "c_addr", "t", T(a))
			g.pure("addr", "o_addr", "t", T(a), "sat", amt())
			bad := mutText(g, a, b58)
			g.pure("addr", "c_addr", "t", T(bad))
			g.pure("addr", "o_addr", "t", T(bad), "sat", amt())
			var l [][]byte
			for j := g.pickI(0, 1, 1, 2, 3, 6); j > 0; j-- {
				l = append(l, g.filler(lens[g.Intn(len(lens))]))
			}
			g.pure("data", "o_data", "l", HL(l))
			if len(l) == 1 {
				g.pure("data", "o_data", "l", HL(l), "one", true)
			}
			g.pure("unlock", "unlock", "pub", H([][]byte{ky.pub, ky.pubU}[g.Intn(2)]), "sig", H(g.bytes(g.pickI(0, 8, 69, 70, 71, 72, 73, 74, 75, 80))), "f", g.Intn(256))
		}
		for _, s := range freeTexts {
			g.pure("puzzle", "o_puzzle", "secret", T(s), "t", HH(g.bytes(20)), "sat", amt())
			g.pure("data", "o_data", "l", TL([]string{s}), "one", true)
			g.pure("data", "o_data", "l", TL([]string{s, "x", s}))
		}
		for _, n := range []int{0, 1, 19, 20, 21, 32, 33} {
			g.pure("pkh", "c_pkh", "t", HH(g.bytes(n)))
			g.pure("pkh", "o_pkh", "t", HH(g.bytes(n)), "sat", amt())
		}
		for _, v := range u64s {
			g.pure("amount", "o_pkh", "t", HH(g.bytes(20)), "sat", le64(v))
			g.pure("amount", "o_addr", "t", T(g.addr()), "sat", le64(v))
			g.pure("amount", "o_puzzle", "secret", H(g.bytes(4)), "t", HH(g.bytes(20)), "sat", le64(v))
		}
		for _, l := range append(append([]int{}, lens...), bigLens...) {
			g.pure("data", "o_data", "l", HL([][]byte{g.filler(l)}))
			g.pure("data", "o_data", "l", HL([][]byte{g.filler(l)}), "one", true)
			g.pure("data", "o_data", "l", HL([][]byte{g.bytes(2), g.filler(l), {}, g.bytes(1)}))
		}
		for _, n := range []int{252, 253, 255, 256, 300, 65536} {
			many := make([][]byte, n)
			for i := range many {
				many[i] = []byte{1, 2, 3}[:i%4]
			}
			g.pure("data", "o_data", "l", HL(many))
		}
		g.batch = 1
		g.pure("huge", "o_data", "l", L{"(61*16777216)", "00"})
		g.batch = 12
		for k := 0; k < g.n(60, 600); k++ { // append histories
			g.newCase("append")
			ids := []string{"s", "t"}
			for _, id := range ids {
				g.do("s_new", "id", id, "b", H(g.script()))
			}
			for j := 2 + g.Intn(8); j > 0; j-- {
				id := ids[g.Intn(2)]
				g.appendTo(id)
				if g.chance(0.3) {
					g.do("s_read", "id", id)
				}
			}
			g.do("s_read", "id", "s")
			g.do("s_read", "id", "t")
		}
	}
}

func isHex(s string) bool { _, err := hex.DecodeString(s); return err == nil }

// badHex: a hex text damaged in one of several ways
func badHex(g *G, s string) string {
	if len(s) == 0 {
		return "z"
	}
	i := g.Intn(len(s))
	switch g.Intn(5) {
	case 0:
		return s[:i] + s[i+1:]
	case 1:
		return s[:i] + string("gzGZ:/@` "[g.Intn(9)]) + s[i+1:]
	case 2:
		return s + "0"
	case 3:
		return " " + s
	default:
		return s[:len(s)-2]
	}
}

// mutText: one character substituted, deleted, inserted, or two swapped
func mutText(g *G, s, alphabet string) string {
	c := string(alphabet[g.Intn(len(alphabet))])
	if len(s) < 2 {
		return s + c
	}
	i := g.Intn(len(s))
	switch g.Intn(7) {
	case 0, 1:
		return s[:i] + c + s[i+1:]
	case 2:
		return s[:i] + s[i+1:]
	case 3:
		return s[:i] + c + s[i:]
	case 4:
		i = g.Intn(len(s) - 1)
		return s[:i] + string(s[i+1]) + string(s[i]) + s[i+2:]
	case 5:
		return s[:i] + string("0OIl +/:\x00\xff\n"[g.Intn(11)]) + s[i+1:]
	default:
		return s + c
	}
}

// appendTo: one call that appends to script id, sometimes one that must fail
func (g *G) appendTo(id string) {
	d := g.filler(lens[g.Intn(len(lens))])
	if g.chance(0.3) {
		d = g.free()
	}
	if g.chance(0.03) {
		d = g.filler(bigLens[g.Intn(len(bigLens))])
	}
	var l [][]byte
	for j := g.Intn(4); j > 0; j-- {
		if g.chance(0.4) {
			l = append(l, g.free())
			continue
		}
		l = append(l, g.filler(g.pickI(0, 1, 20, 75, 76, 256)))
	}
	switch g.Intn(7) {
	case 0:
		g.do("s_op", "id", id, "c", g.Intn(256))
	case 1:
		g.do("s_push", "id", id, "d", H(d))
	case 2:
		g.do("s_push", "id", id, "d", H(d), "str", true)
	case 3:
		g.do("s_pushhex", "id", id, "d", T(hex.EncodeToString(d)))
	case 4:
		g.do("s_pushhex", "id", id, "d", T(badHex(g, hex.EncodeToString(g.bytes(1+g.Intn(30))))))
	case 5:
		g.do("s_pushs", "id", id, "l", HL(l))
	default:
		g.do("s_pushs", "id", id, "l", HL(l), "str", true)
	}
}

// pushes without (all of) their data
var cutPushes = [][]byte{{1}, {5, 1}, {0x4b}, {0x4c}, {0x4c, 3, 1}, {0x4d}, {0x4d, 9}, {0x4d, 2, 0, 1}, {0x4e}, {0x4e, 1, 0, 0}, {0x4e, 2, 0, 0, 0, 1}}
