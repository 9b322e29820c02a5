package main

import (
	"encoding/binary"
	"encoding/hex"
	"math"
	"strings"
)

var zeroTxid = strings.Repeat("0", 64)

func init() {
	gens["C13"] = func(g *G) {
		for k := 0; k < g.n(220, 3500); k++ {
			g.newCase("build")
			ids := []string{"a", "b", "c"}[:1+g.Intn(3)]
			ts := map[string]*gTx{}
			for _, id := range ids {
				ts[id] = &gTx{}
				g.do("tx_new", "id", id)
				g.do("tx_info", "id", id)
			}
			for j := 4 + g.Intn(14); j > 0; j-- {
				id := ids[g.Intn(len(ids))]
				g.buildStep(id, ts[id])
				if g.chance(0.5) {
					g.do("tx_info", "id", ids[g.Intn(len(ids))])
				}
				if g.chance(0.1) {
					g.do("tx_bytes", "id", id)
				}
			}
			for _, id := range ids {
				g.do("tx_info", "id", id)
			}
		}
		// building on a parsed transaction, and many additions
		for k := 0; k < g.n(40, 300); k++ {
			g.newCase("extend")
			t := g.tx(g.Intn(3), g.Intn(3))
			b := t.ser()
			g.do("tx_load", "id", "t", "b", H(b))
			g.do("tx_info", "id", "t")
			for j := 0; j < 6; j++ {
				g.buildStep("t", &t)
				g.do("tx_info", "id", "t")
			}
		}
		for _, n := range []int{30, 70} {
			g.newCase("many")
			t := gTx{}
			g.do("tx_new", "id", "t")
			for j := 0; j < n; j++ {
				if j%2 == 0 {
					g.do("tx_from", "id", "t", "txid", T(g.txid()), "vout", le32(uint32(j)), "script", HH(g.bytes(3)), "sat", le64(uint64(j)))
				} else {
					g.do("tx_payto", "id", "t", "addr", T(g.addr()), "sat", le64(g.u64v()))
				}
			}
			_ = t
			g.do("tx_info", "id", "t")
		}
		g.batch = 1
		for _, c := range [][2]int{{255, 1}, {256, 1}, {1, 256}, {65535, 1}, {65536, 2}, {1, 65535}, {2, 65536}, {70000, 70000}} {
			t := gTx{ver: 1, ins: []gIn{{txid: zeroTxid, vout: 0xffffffff, seq: 0xffffffff}}, outs: []gOut{{g.u64v(), nil}}}
			g.pure("count", "tx_count", "tx", t.times(c[0], c[1]))
		}
		for _, c := range [][2]int{{256, 255}, {256, 256}, {256, 0}, {257, 256}, {65536, 65535}, {65536, 65536}, {65537, 65536}, {65540, 65538}, {70000, 3}, {2, 65536}} {
			t := gTx{ver: 1, ins: []gIn{{txid: zeroTxid, vout: 7, seq: 0xffffffff}}, outs: []gOut{{g.u64v(), nil}}}
			g.pure("count", "apply_at", "tx", t.times(c[0], 1), "i", c[1], "s", H(g.bytes(1+g.Intn(9))))
		}
		g.batch = 12
		// what is a coinbase transaction
		txids := []string{zeroTxid, "", strings.Repeat("0", 63) + "1", "1" + strings.Repeat("0", 63), strings.Repeat("0", 62), strings.Repeat("0", 66), strings.Repeat("f", 64), g.txid()}
		vals := []uint32{0, 1, 0xfffffffe, 0xffffffff}
		for _, id := range txids {
			for _, v := range vals {
				for _, s := range vals {
					g.newCase("coinbase")
					i := gIn{txid: id, vout: v, seq: s}
					t := gTx{ver: 1, ins: []gIn{i}, outs: []gOut{g.out()}}
					g.do("tx_make", "id", "t", "tx", t.form())
					g.do("tx_info", "id", "t")
					if v == 0xffffffff && s == 0xffffffff || g.chance(0.2) {
						g.do("tx_addin", "id", "t", "in", gIn{txid: zeroTxid, vout: v, seq: s}.form())
						g.do("tx_info", "id", "t")
					}
				}
			}
		}
		// totals that wrap
		for k := 0; k < g.n(30, 300); k++ {
			g.newCase("total")
			g.do("tx_new", "id", "t")
			for j := 1 + g.Intn(5); j > 0; j-- {
				g.do("tx_addout", "id", "t", "out", gOut{u64s[g.Intn(len(u64s))], nil}.form())
				g.do("tx_info", "id", "t")
			}
			g.do("tx_edit", "id", "t", "f", "osat", "i", 0, "v", le64(g.u64v()))
			g.do("tx_info", "id", "t")
		}
	}

	gens["C14"] = func(g *G) {
		g.batch = 6
		list := func(n int) []string {
			l := []string{}
			for i := 0; i < n; i++ {
				l = append(l, g.txid())
			}
			if n > 1 && g.chance(0.15) { // equal ids
				l[g.Intn(n)] = l[g.Intn(n)]
			}
			if n > 1 && g.chance(0.15) { // neighbours, or whole runs of them
				k, m := g.Intn(n-1), 1<<uint(g.Intn(4))
				for i := k; i < n && i < k+m+1; i++ {
					l[i] = l[k]
				}
				for i := k / m * m; g.chance(0.5) && i+m < n && i < k/m*m+m; i++ {
					l[i+m] = l[i]
				}
			}
			return l
		}
		sizes := []int{}
		for n := 1; n <= g.n(40, 140); n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 63, 64, 65, 100, 127, 128, 129)
		sizes = append(sizes, 255, 256, 257, 513)
		if g.thorough {
			sizes = append(sizes, 511, 512, 1000, 1023, 1025, 4097)
		}
		for _, n := range sizes {
			for r := 0; r < g.n(2, 6); r++ {
				l := list(n)
				g.pure("branches", "merkle_br", "l", TL(l))
				g.pure("branches", "merkle_all", "l", TL(l))
				pos := []int{0, n - 1, g.Intn(n)}
				if n <= 16 && r == 0 {
					pos = nil
					for p := 0; p < n; p++ {
						pos = append(pos, p)
					}
				}
				for _, p := range pos {
					br := merkleProof(l, p)
					g.pure("at", "merkle_at", "l", TL(l), "p", p, "br", TL(br))
					g.pure("proof", "merkle_proof", "t", T(l[p]), "i", le64(uint64(p)), "l", TL(br))
					if g.chance(0.3) { // another position, too short or too long a proof
						q := uint64(g.Intn(2*n + 2))
						g.pure("proof", "merkle_proof", "t", T(l[p]), "i", le64(q), "l", TL(br))
						if len(br) > 0 {
							g.pure("proof", "merkle_proof", "t", T(l[p]), "i", le64(uint64(p)), "l", TL(br[:len(br)-1]))
						}
						g.pure("proof", "merkle_proof", "t", T(l[p]), "i", le64(uint64(p)), "l", TL(append(append([]string{}, br...), g.txid())))
					}
				}
				// the first position by both evaluators: internal bytes and display text
				br := merkleProof(l, 0)
				t0, _ := hex.DecodeString(l[0])
				in := []string{}
				for _, b := range br {
					x, _ := hex.DecodeString(b)
					in = append(in, hex.EncodeToString(rev(x)))
				}
				g.pure("first", "merkle_cb", "h", H(rev(t0)), "l", TL(in))
				g.pure("first", "merkle_proof", "t", T(l[0]), "i", le64(0), "l", TL(br))
			}
		}
		for k := 0; k < g.n(80, 1500); k++ { // any branches, any position
			n := g.Intn(9)
			l := list(n)
			i := uint64(g.Intn(1 << uint(n)))
			switch g.Intn(5) {
			case 0:
				i = 1 << uint(n)
			case 1:
				i = []uint64{1<<uint(n) + 1, 1 << 63, ^uint64(0), ^uint64(0) << uint(n), 1 << 62, 1 << 32, 1 << 40, uint64(1)<<63 | 1}[g.Intn(8)]
			}
			t := g.txid()
			if g.chance(0.1) {
				t = badHex(g, t)
			}
			if n > 0 && g.chance(0.1) {
				l[g.Intn(n)] = badHex(g, l[0])
			}
			if n > 0 && g.chance(0.1) { // the same hash on both sides
				l[0] = t
				if x, err := hex.DecodeString(t); err == nil && n > 1 && g.chance(0.5) {
					l[1] = hex.EncodeToString(rev(sha2(cat(rev(x), rev(x)))))
				}
			}
			g.pure("any", "merkle_proof", "t", T(t), "i", le64(i), "l", TL(l))
			if isHex(strings.Join(l, "")) {
				ok := true
				for _, b := range l {
					ok = ok && isHex(b)
				}
				if ok {
					g.pure("any", "merkle_cb", "h", H(g.bytes(32)), "l", TL(l))
				}
			}
		}
		for _, n := range []int{16, 17, 30, 31, 32, 33, 34, 40, 48, 62, 63, 64, 65, 70} { // long proofs, positions of any size
			l := list(n)
			t := g.txid()
			for _, i := range []uint64{0, 1, 1 << 15, 1 << 16, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1<<uint(n&63) - 1, 1 << uint(n&63), 1 << uint((n-1)&63), 1<<62 + 5, 1<<63 - 1, 1 << 63, ^uint64(0), g.Uint64() >> uint(g.Intn(40))} {
				g.pure("long", "merkle_proof", "t", T(t), "i", le64(i), "l", TL(l))
			}
			g.pure("long", "merkle_cb", "h", H(g.bytes(32)), "l", TL(l))
		}
		g.pure("empty", "merkle_cb", "h", H(g.bytes(32)), "l", L{})
		g.pure("empty", "merkle_br", "l", L{})
	}

	gens["C15"] = func(g *G) {
		one := func(tag string, height uint32, value uint64, wit, text, wallet string, miner []byte, cut int) {
			x := g.bytes(12)
			g.pure(tag, "coinbase", "height", le32(height), "value", le64(value), "wit", T(wit), "text", T(text), "wallet", T(wallet), "miner", H(miner),
				"e1", H(x[:cut]), "e2", H(x[cut:]))
		}
		wits := func() string {
			if g.chance(0.4) {
				return ""
			}
			return hex.EncodeToString(g.filler(lens[g.Intn(len(lens))]))
		}
		miner := func() []byte {
			if g.chance(0.4) {
				return nil
			}
			return g.filler(lens[g.Intn(len(lens))])
		}
		for n := 0; n <= 130; n++ { // text lengths around the limit
			one("text", g.u32v(), g.u64v(), wits(), string(g.bytes(n)), g.addr(), miner(), g.Intn(13))
		}
		for _, n := range []int{252, 253, 254, 255, 256, 300, 1000, 65536} {
			one("text", g.u32v(), g.u64v(), "", string(g.filler(n)), g.addr(), nil, 6)
		}
		for k := 0; k < g.n(250, 4000); k++ {
			one("any", g.u32v(), g.u64v(), wits(), string(g.filler(g.pickI(0, 1, 20, 60, 83, 84, 85, 86, 100))), g.addr(), miner(), g.Intn(13))
		}
		for _, s := range freeTexts {
			one("free", g.u32v(), g.u64v(), wits(), s, g.addr(), miner(), g.Intn(13))
			one("free", g.u32v(), g.u64v(), wits(), "x", g.addr(), []byte(s), g.Intn(13))
		}
		for _, v := range u64s {
			one("value", uint32(v), v, wits(), "t", g.addr(), miner(), 8)
		}
		for _, n := range append(append([]int{}, lens...), bigLens...) { // commitment and miner id lengths
			one("len", 7, 9, hex.EncodeToString(g.filler(n)), "x", g.addr(), nil, 4)
			one("len", 7, 9, "", "x", g.addr(), g.filler(n), 4)
			one("len", 7, 9, strings.ToUpper(hex.EncodeToString(g.filler(n))), "x", g.addr(), g.filler(n), 4)
		}
		for k := 0; k < g.n(40, 500); k++ { // bad wallets and commitments
			a, w := g.addr(), hex.EncodeToString(g.bytes(1+g.Intn(40)))
			switch g.Intn(3) {
			case 0:
				a = mutText(g, a, b58)
			case 1:
				w = badHex(g, w)
			default:
				a = oddTexts[g.Intn(len(oddTexts))]
			}
			one("bad", g.u32v(), g.u64v(), w, "t", a, miner(), 4)
		}
		for k := 0; k < g.n(40, 400); k++ { // joining any two parts
			g.pure("join", "coinbase_join", "c1", H(g.filler(g.Intn(200))), "c2", H(g.filler(g.Intn(200))), "e1", H(g.bytes(g.Intn(13))), "e2", H(g.bytes(g.Intn(13))))
		}
	}

	gens["C16"] = func(g *G) {
		for k := 0; k < g.n(300, 5000); k++ {
			h := func(n int) []byte {
				if g.chance(0.05) {
					return g.bytes(g.Intn(50))
				}
				return g.bytes(n)
			}
			prev := hex.EncodeToString(h(32))
			if g.chance(0.1) {
				prev = strings.ToUpper(prev)
			}
			if g.chance(0.1) {
				prev = zeroTxid
			}
			g.pure("header", "header", "ver", le32(g.u32v()), "prev", T(prev), "root", H(h(32)), "time", H(h(4)), "bits", H(h(4)), "nonce", H(h(4)))
		}
		for i := 0; i < 80; i++ { // each byte on its own
			b := make([]byte, 80)
			b[i] = byte(1 + g.Intn(255))
			g.pure("byte", "header", "ver", H(b[:4]), "prev", HH(b[4:36]), "root", H(b[36:68]), "time", H(b[68:72]), "bits", H(b[72:76]), "nonce", H(b[76:]))
		}
	}

	gens["C17"] = func(g *G) {
		g.batch = 40
		all := func(tag string, b []byte) {
			for _, op := range []string{"tgt_hex", "tgt_int", "diff"} {
				if op == "diff" && zeroOrOdd(b) {
					continue
				}
				s := hex.EncodeToString(b)
				if g.chance(0.1) {
					s = strings.ToUpper(s)
				}
				g.pure(tag, op, "t", T(s))
			}
		}
		mant := []uint32{0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x123456, 0x7fffff, 0x800000, 0x800001, 0x8000ff, 0x80ffff, 0xffffff, 0xff0000, 0x00ff00, 0x010203}
		for e := 0; e < 256; e++ {
			n := 4
			if e < 6 || (e >= 27 && e <= 36) {
				n = len(mant)
			}
			for j := 0; j < n; j++ {
				m := mant[(j*7+e)%len(mant)]
				if n == len(mant) {
					m = mant[j]
				}
				all("grid", []byte{byte(e), byte(m >> 16), byte(m >> 8), byte(m)})
			}
		}
		for k := 0; k < g.n(300, 12000); k++ {
			b := g.bytes(4)
			if g.chance(0.7) {
				b[0] = byte(g.Intn(36))
			}
			all("any", b)
			if k%4 == 0 { // the same again but for one bit
				c := exact(b)
				c[g.Intn(4)] ^= byte(1 << uint(g.Intn(8)))
				all("near", c)
			}
		}
		for k := 0; k < 32; k++ { // each single bit
			b := []byte{0x1b, 0x35, 0x6a, byte(0x90 + k)}
			all("near", b)
			b[k/8] ^= 1 << uint(k%8)
			all("near", b)
		}
		for _, s := range append(append([]string{}, oddTexts...), "1d00fff", "1d00ffff0", "1d00ffff00", "1d00", "1d00fg00", "1d00ffff\n", "001d00ffff", "1b0404cb", "0", "000", "-d00ffff") {
			for _, op := range []string{"tgt_hex", "tgt_int", "diff"} {
				g.pure("bad", op, "t", T(s))
			}
		}
		for k := 0; k < g.n(60, 600); k++ {
			s := mutText(g, hex.EncodeToString([]byte{byte(3 + g.Intn(28)), 0x12, byte(g.Intn(256)), 7}), "0123456789abcdefABCDEFgG x")
			if b, err := hex.DecodeString(s); err == nil && len(b) == 4 && zeroOrOdd(b) {
				continue
			}
			for _, op := range []string{"tgt_hex", "tgt_int", "diff"} {
				g.pure("bad", op, "t", T(s))
			}
		}
	}

	gens["C25"] = func(g *G) {
		coins := []string{"BSV", "R", "RSV", "r", "", "BTC", "RBSV", "rBSV", "TR", " R", "BSVR", "\xd2"}
		for _, c := range coins {
			for _, d := range u64s {
				g.pure("hashrate", "hashrate", "coin", T(c), "diff", le64(d), "secs", f64(g.secs()))
			}
		}
		for k := 0; k < g.n(300, 5000); k++ {
			g.pure("hashrate", "hashrate", "coin", T(coins[g.Intn(len(coins))]), "diff", le64(g.u64v()), "secs", f64(g.secs()))
		}
		human := func(f float64) { g.pure("human", "human", "f", f64(f)) }
		for p := -3; p <= 27; p++ {
			x := math.Pow(10, float64(p))
			for _, f := range []float64{x, math.Nextafter(x, 0), math.Nextafter(x, math.Inf(1)), 0.99 * x, 0.9994 * x, 0.9996 * x, 1.004 * x, 1.005 * x, 1.0051 * x, 2.5 * x, 9.994 * x, 9.9951 * x, 999.99 * x, 0.5 * x, 1024 * x} {
				human(f)
			}
		}
		for k := 0; k < g.n(300, 8000); k++ {
			human(g.Float64() * math.Pow(10, float64(g.Intn(28))))
		}
		for k := 0; k < g.n(100, 2000); k++ {
			human(float64(g.Intn(2000000)) / 1000 * math.Pow(10, float64(3*g.Intn(8))))
		}
		human(0)
		human(1e30)
		human(1e40)
	}
}

func (g *G) secs() float64 {
	switch g.Intn(4) {
	case 0:
		return []float64{600, 1, 150, 0.5, 60, 1e-3, 1e9, 3, 7, 0.1}[g.Intn(10)]
	case 1:
		return 1 + float64(g.Intn(100000))
	default:
		return math.Pow(10, -6+18*g.Float64())
	}
}
func f64(f float64) string {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, math.Float64bits(f))
	return hex.EncodeToString(b)
}

// targets for which no difficulty is promised: zero, negative, 2^256 and above
func zeroOrOdd(b []byte) bool {
	m := uint32(b[1]&0x7f)<<16 | uint32(b[2])<<8 | uint32(b[3])
	if b[1] >= 128 {
		return true
	}
	if b[0] < 3 {
		m >>= 8 * uint(3-b[0])
	}
	return m == 0 || b[0] > 35
}

// siblings of position p, display order
func merkleProof(l []string, p int) []string {
	h := [][]byte{}
	for _, t := range l {
		b, _ := hex.DecodeString(t)
		h = append(h, rev(b))
	}
	br := []string{}
	for len(h) > 1 {
		q := p ^ 1
		if q >= len(h) {
			q = p
		}
		br = append(br, hex.EncodeToString(rev(h[q])))
		var n [][]byte
		for i := 0; i < len(h); i += 2 {
			j := i + 1
			if j == len(h) {
				j = i
			}
			n = append(n, sha2(cat(h[i], h[j])))
		}
		h, p = n, p/2
	}
	return br
}

// buildStep: one building call, sometimes one that must fail
func (g *G) buildStep(id string, t *gTx) {
	s := g.script()
	if len(s) > 3000 {
		s = s[:100]
	}
	switch g.Intn(12) {
	case 0, 1:
		g.do("tx_from", "id", id, "txid", T(g.txid()), "vout", le32(g.u32v()), "script", HH(s), "sat", le64(g.u64v()))
		t.ins = append(t.ins, gIn{prev: s})
	case 2:
		g.do("tx_from", "id", id, "txid", T(g.txid()), "vout", le32(g.u32v()), "script", T(badHex(g, hex.EncodeToString(g.bytes(g.Intn(9))))), "sat", le64(g.u64v()))
		t.ins = append(t.ins, gIn{}) // perhaps
	case 3:
		g.do("tx_addutxo", "id", id, "txid", T(g.txid()), "vout", le32(g.u32v()), "script", HH(s), "sat", le64(g.u64v()), "seq", le32(g.u32v()))
	case 4:
		if g.chance(0.5) {
			g.do("tx_addempty", "id", id)
		} else {
			g.do("tx_addutxo", "id", id, "txid", T(g.txid()), "vout", le32(1), "script", T(badHex(g, "00ff")), "sat", le64(1), "seq", le32(2))
		}
	case 5:
		i := g.in()
		i.nilUnl = false
		g.do("tx_addin", "id", id, "in", i.form())
	case 6, 7:
		g.do("tx_addout", "id", id, "out", g.out().form())
	case 8, 9:
		g.do("tx_payto", "id", id, "addr", T(g.addr()), "sat", le64(g.u64v()))
	case 10:
		g.do("tx_payto", "id", id, "addr", T(mutText(g, g.addr(), b58)), "sat", le64(g.u64v()))
	default:
		g.do("tx_apply", "id", id, "i", g.Intn(6)-1, "s", H(s))
	}
}
