package main

import (
	"bytes"
	"encoding/hex"
	"sort"
	"strings"
)

// xkey: an extended key, 78 bytes
func (g *G) xkey(priv bool, depth int) []byte {
	k := g.key()
	ver := []byte{0x04, 0x88, 0xb2, 0x1e}
	body := k.pub
	if priv {
		ver, body = []byte{0x04, 0x88, 0xad, 0xe4}, cat([]byte{0}, k.priv)
	}
	if g.chance(0.2) {
		ver = []byte{0x04, 0x35, 0x87, 0xcf}
	}
	return cat(ver, []byte{byte(depth)}, g.bytes(8), g.bytes(32), body)
}

// an extended key that must be refused
func (g *G) badXkey() string {
	x := g.xkey(g.chance(0.3), 2)
	switch g.Intn(8) {
	case 0:
		return mutText(g, base58check(x), b58)
	case 1:
		copy(x[45:], cat([]byte{2}, make([]byte, 31), []byte{5})) // x = 5 is not on the curve
	case 2:
		x[45] = byte(g.pickI(1, 4, 5, 6, 0xff))
	case 3:
		copy(x[45:], make([]byte, 33)) // private key 0
	case 4:
		copy(x[45:], cat([]byte{0}, unhx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")))
	case 5:
		x = x[:77]
	case 6:
		x = append(x, 0)
	default:
		b := cat(x, sha2(x)[:4])
		b[len(b)-1-g.Intn(4)] ^= byte(1 << uint(g.Intn(8)))
		return base58(b)
	}
	return base58check(x)
}
func pathForm(p ...uint32) L {
	l := L{}
	for _, i := range p {
		l = append(l, H([]byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)}))
	}
	return l
}
func (g *G) idx() uint32 {
	return []uint32{0, 1, 2, 7, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, uint32(g.Intn(1 << 16))}[g.Intn(10)]
}

func (g *G) electrumKey() []byte {
	return cat([]byte{0xff}, g.xkey(false, g.Intn(4)), b32(uint32(g.Intn(65536)))[:2], b32(uint32(g.Intn(3000)))[:2])
}
func (g *G) electrumParts() (m, n int, keys [][]byte) {
	n = g.pickI(1, 2, 2, 3, 3, 3, 4, 5)
	if g.chance(0.04) {
		n = g.pickI(15, 16)
	}
	for i := 0; i < n; i++ {
		keys = append(keys, g.electrumKey())
	}
	return g.pickI(2, 2, 2, 3, 4, 15), n, keys
}

func init() {
	gens["C18"] = func(g *G) {
		read := func(tag, a string) {
			g.pure(tag, "addr_parse", "t", T(a))
			g.pure(tag, "addr_valid", "t", T(a))
			switch g.Intn(12) {
			case 0:
				g.pure(tag, "c_addr", "t", T(a))
			case 1:
				g.pure(tag, "o_addr", "t", T(a), "sat", le64(g.u64v()))
			}
		}
		for k := 0; k < g.n(150, 2500); k++ {
			h := g.pkh()
			g.pure("make", "addr_pkh", "h", H(h), "main", g.chance(0.5))
			kk := g.key()
			g.pure("make", "addr_key", "priv", H(kk.priv), "main", g.chance(0.5))
			p := kk.pub
			if g.chance(0.3) {
				p = kk.pubU
			}
			if g.chance(0.1) {
				p = g.bytes(g.Intn(40))
			}
			t := hex.EncodeToString(p)
			if g.chance(0.1) {
				t = badHex(g, t)
			}
			g.pure("make", "addr_pub", "t", T(t), "main", g.chance(0.5))
			read("good", addrOf(h, g.chance(0.5)))
		}
		for z := 0; z <= 20; z++ { // key hashes with leading zero bytes
			h := g.bytes(20)
			for i := 0; i < z; i++ {
				h[i] = 0
			}
			for _, main := range []bool{true, false} {
				g.pure("zeros", "addr_pkh", "h", H(h), "main", main)
				a := addrOf(h, main)
				read("zeros", a)
				read("ones", "1"+a)
				read("ones", "11"+a)
				if a[0] == '1' {
					read("ones", a[1:])
				}
				if strings.HasPrefix(a, "11") {
					read("ones", a[2:])
				}
				read("ones", a+"1")
			}
		}
		for n := 0; n < 256; n++ { // network bytes
			read("net", base58check(cat([]byte{byte(n)}, g.bytes(20))))
		}
		for n := 0; n < 30; n++ { // payload lengths
			for _, v := range []byte{0, 0x6f} {
				read("len", base58check(cat([]byte{v}, g.bytes(n))))
				read("len", base58check(cat([]byte{v}, make([]byte, n), []byte{1})))
			}
			b := g.bytes(n)
			read("len", base58(b))
		}
		for k := 0; k < g.n(20, 200); k++ { // checksums
			b := cat([]byte{byte(g.pickI(0, 0x6f))}, g.pkh())
			c := sha2(b)[:4]
			for i := 0; i < 4; i++ {
				d := exact(c)
				d[i] ^= byte(1 << uint(g.Intn(8)))
				read("sum", base58(cat(b, d)))
			}
			read("sum", base58(cat(b, make([]byte, 4))))
			read("sum", base58(cat(b, sha(b)[:4])))
			read("sum", base58(cat(b, rev(c))))
			read("sum", base58(b))
		}
		g.batch = 40
		for k := 0; k < g.n(1, 8); k++ { // every single-character substitution, deletion, insertion, transposition
			a := addrOf(g.pkh(), k%2 == 0)
			for i := range a {
				for _, c := range b58 {
					if g.thorough || g.chance(0.5) {
						read("subst", a[:i]+string(c)+a[i+1:])
					}
				}
				read("del", a[:i]+a[i+1:])
				read("ins", a[:i]+string(b58[g.Intn(58)])+a[i:])
				read("ins", a[:i]+string(a[i])+a[i:])
				if i > 0 {
					read("swap", a[:i-1]+string(a[i])+string(a[i-1])+a[i+1:])
				}
				read("char", a[:i]+string("0OIl +/:\x00\xff\n-_."[g.Intn(14)])+a[i+1:])
			}
			read("char", " "+a)
			read("char", a+" ")
			read("char", a+"\n")
			read("char", strings.ToLower(a))
			read("char", strings.ToUpper(a))
			read("cut", a[:len(a)/2])
			read("cut", a+a)
		}
		for k := 0; k < g.n(200, 4000); k++ {
			a := g.addr()
			for j := 1 + g.Intn(2); j > 0; j-- {
				a = mutText(g, a, b58)
			}
			read("any", a)
		}
		for k := 0; k < g.n(120, 1500); k++ { // Base58 with checksum of anything
			b := g.bytes(g.pickI(0, 1, 2, 5, 20, 21, 25, 33, 78, g.Intn(90)))
			for i := 0; i < len(b) && i < g.pickI(0, 0, 1, 3, 90); i++ {
				b[i] = 0
			}
			g.pure("b58", "b58cm", "b", H(b))
		}
		for _, s := range oddTexts {
			if !strings.HasPrefix(s, "bitcoin-script:") {
				read("odd", s)
			}
		}
		for k := 0; k < g.n(25, 200); k++ { // a mistyped address never becomes a payment
			g.newCase("pay")
			g.do("tx_new", "id", "t")
			for j := 0; j < 5; j++ {
				a := g.addr()
				if g.chance(0.6) {
					a = mutText(g, a, b58)
				}
				g.do("tx_payto", "id", "t", "addr", T(a), "sat", le64(g.u64v()))
			}
			g.do("tx_bytes", "id", "t")
		}
	}

	gens["C19"] = func(g *G) {
		prefixes := []string{"bitcoin-script", "bitcoin-template", "x", "a b", "01", "0101", "bitcoin-script:", "a:b", "A", "é", "\xff\x00", "%s%d", "(", ".*", strings.Repeat("p", 100), "1:2:3", "bitcoin-script:01", "::", "ERROR"}
		for _, s := range freeTexts {
			if s != "" && !strings.Contains(s, "\n") {
				prefixes = append(prefixes, s)
			}
		}
		dec := func(tag, t string) {
			g.pure(tag, "bip_dec", "t", T(t))
			if strings.HasPrefix(t, "bitcoin-script:") || g.chance(0.05) {
				g.pure(tag, "addr_valid", "t", T(t))
			}
		}
		prefix := func() string {
			if g.chance(0.5) {
				return "bitcoin-script"
			}
			return prefixes[g.Intn(len(prefixes))]
		}
		for n := 0; n <= 257; n++ {
			g.pure("enc", "bip_enc", "p", T("bitcoin-script"), "n", n, "v", 1+g.Intn(255), "d", H(g.bytes(g.Intn(30))))
			g.pure("enc", "bip_enc", "p", T("bitcoin-script"), "n", 1+g.Intn(255), "v", n, "d", H(g.bytes(g.Intn(30))))
			if n < 256 {
				dec("dec", bip276("bitcoin-script", n, 1+g.Intn(255), g.bytes(g.Intn(30))))
				dec("dec", bip276(prefix(), 1+g.Intn(255), n, g.bytes(g.Intn(30))))
			}
		}
		for _, n := range []int{-1, -255, -256, 0, 256, 257, 511, 512, 65536, 2147483647, -2147483648} {
			for _, v := range []int{1, 0, n} {
				g.pure("enc", "bip_enc", "p", T("p"), "n", n, "v", v, "d", H(g.bytes(3)))
				g.pure("enc", "bip_enc", "p", T("p"), "n", v, "v", n, "d", H(g.bytes(3)))
			}
		}
		for _, p := range prefixes {
			for _, l := range []int{0, 1, 2, 25, 75, 256} {
				g.pure("prefix", "bip_enc", "p", T(p), "n", 1+g.Intn(255), "v", 1+g.Intn(255), "d", H(g.filler(l)))
				dec("prefix", bip276(p, 1+g.Intn(255), 1+g.Intn(255), g.filler(l)))
			}
		}
		for k := 0; k < g.n(200, 4000); k++ {
			d := g.filler(g.pickI(0, 1, 3, 4, 5, 25, g.Intn(60), 300))
			p, n, v := prefix(), 1+g.Intn(255), 1+g.Intn(255)
			g.pure("any", "bip_enc", "p", T(p), "n", n, "v", v, "d", H(d))
			s := bip276(p, n, v, d)
			dec("any", s)
			for j := 0; j < 4; j++ {
				dec("mut", mutText(g, s, "0123456789abcdef:"))
			}
			if g.chance(0.3) {
				dec("mut", mutText(g, s, "0123456789ABCDEFgz -"))
			}
			if len(s) > 20 { // whole fields exchanged or dropped
				c := len(p) + 1
				dec("field", s[:c]+s[c+2:c+4]+s[c:c+2]+s[c+4:])
				dec("field", s[:c]+s[c+2:])
				dec("field", s[:len(s)-8])
				dec("field", s[:len(s)-8]+"00000000")
				dec("field", s[c:])
				dec("field", " "+s)
				dec("field", s+" ")
				dec("field", s+"\n")
				dec("field", p+":"+s)
				dec("field", "x"+s)
				dec("field", s+hex.EncodeToString(sha2([]byte(s))[:4]))
			}
		}
		for _, l := range []int{1000, 4096, 65535, 65536, 70001} { // long data
			d := g.filler(l)
			g.pure("long", "bip_enc", "p", T(prefix()), "n", 255, "v", 1, "d", H(d))
			s := bip276(prefix(), 7, 9, d)
			dec("long", s)
			dec("long", s[:len(s)-1]+"x")
			dec("long", mutText(g, s, "0123456789abcdef:"))
		}
		s := bip276("bitcoin-script", 2, 17, []byte{1, 0xab})
		for i := range s { // every altered character and every truncation
			dec("trunc", s[:i])
			for _, c := range "0123456789abcdef:gA" {
				dec("subst", s[:i]+string(c)+s[i+1:])
			}
		}
		for k := 0; k < g.n(60, 600); k++ { // checksum over something slightly different
			d := g.bytes(g.Intn(20))
			p := "bitcoin-script"
			body := hex.EncodeToString(cat([]byte{3, 7}, d))
			for _, over := range []string{body, p + body, p + ":", strings.ToUpper(p + ":" + body), p + ":" + body + ":"} {
				dec("sum", p+":"+body+hex.EncodeToString(sha2([]byte(over))[:4]))
			}
			full := p + ":" + body
			dec("sum", full+hex.EncodeToString(sha([]byte(full))[:4]))
			dec("sum", full+hex.EncodeToString(rev(sha2([]byte(full))[:4])))
			dec("sum", full+hex.EncodeToString(sha2([]byte(full))[28:]))
			dec("sum", full+hex.EncodeToString(sha2([]byte(full))[:5]))
			dec("sum", full+hex.EncodeToString(sha2([]byte(full))[:3]))
			odd := full + "a"
			dec("sum", odd+hex.EncodeToString(sha2([]byte(odd))[:4]))
		}
		for _, o := range oddTexts {
			dec("odd", o)
		}
	}

	gens["C20"] = func(g *G) {
		// one key set added in several orders, with queries in between
		for k := 0; k < g.n(70, 900); k++ {
			g.newCase("orders")
			n := 1 + g.Intn(5)
			if g.chance(0.04) {
				n = 16
			}
			m := 2 + g.Intn(15)
			type add struct {
				xk   string
				path L
			}
			var adds []add
			for i := 0; i < n; i++ {
				adds = append(adds, add{base58check(g.xkey(g.chance(0.15), g.Intn(5))), pathForm(g.idx(), g.idx())})
				if i > 0 && g.chance(0.1) {
					adds[i] = adds[i-1]
				}
			}
			ids := []string{"a", "b", "c"}[:2+g.Intn(2)]
			for _, id := range ids {
				g.do("rs_new", "id", id, "m", m)
			}
			for _, id := range ids {
				for _, j := range g.Perm(n) {
					g.do("rs_add", "id", id, "xk", T(adds[j].xk), "path", adds[j].path)
					if g.chance(0.3) {
						g.do([]string{"rs_script", "rs_hash", "rs_addr"}[g.Intn(3)], "id", ids[g.Intn(len(ids))])
					}
					if g.chance(0.15) {
						g.badAdd(id)
					}
				}
			}
			for j := 0; j < 4; j++ {
				id := ids[g.Intn(len(ids))]
				g.do([]string{"rs_script", "rs_hash", "rs_addr"}[g.Intn(3)], "id", id)
			}
			for _, id := range ids {
				g.do("rs_script", "id", id)
				g.do("rs_addr", "id", id)
			}
		}
		// keys that agree in long prefixes, many of them, repeated ones, in several orders
		for k := 0; k < g.n(80, 900); k++ {
			g.newCase("crafted")
			n := g.pickI(1, 2, 3, 7, 12, 13, 14, 15, 16)
			m := 2 + g.Intn(15)
			base := cat([]byte{byte(2 + g.Intn(2))}, g.bytes(32))
			var ks [][]byte
			for i := 0; i < n; i++ {
				x := exact(base)
				switch g.Intn(8) {
				case 0:
					x = cat([]byte{byte(2 + g.Intn(2))}, g.bytes(32))
				case 1:
					if i > 0 {
						x = exact(ks[g.Intn(i)])
					}
				default:
					p := g.pickI(0, 1, 2, 4, 8, 16, 31, 32)
					if p == 0 {
						x[0] ^= 1
					} else {
						x[p] = byte(g.pickI(0, 1, 2, 0x7f, 0x80, 0xfe, 0xff))
					}
				}
				ks = append(ks, x)
			}
			ids := []string{"a", "b", "c"}
			for t, id := range ids {
				p := [][]byte{}
				for _, j := range g.Perm(n) {
					p = append(p, ks[j])
				}
				if t == 2 { // one in descending order
					sort.Slice(p, func(i, j int) bool { return bytes.Compare(p[i], p[j]) > 0 })
				}
				g.do("rs_make", "id", id, "m", m, "keys", HL(p))
			}
			for _, id := range ids {
				g.do([]string{"rs_script", "rs_hash", "rs_addr"}[g.Intn(3)], "id", id)
				g.do("rs_script", "id", id)
			}
			if n < 16 {
				g.do("rs_add", "id", "a", "xk", T(base58check(g.xkey(false, 1))), "path", pathForm(g.idx(), g.idx()))
			}
			for _, id := range ids {
				g.do("rs_script", "id", id)
			}
		}
		for m := -2; m <= 20; m++ { // thresholds
			g.newCase("m")
			g.do("rs_new", "id", "r", "m", m)
			if m >= 2 && m <= 16 {
				g.do("rs_add", "id", "r", "xk", T(base58check(g.xkey(false, 1))), "path", pathForm(0, uint32(m)))
				g.do("rs_script", "id", "r")
			}
		}
		for _, m := range []int{256, 258, 272, -254, 2147483647, -2147483648} {
			g.newCase("m")
			g.do("rs_new", "id", "r", "m", m)
		}
		for k := 0; k < g.n(2, 10); k++ { // 16 keys and one too many
			g.newCase("full")
			g.do("rs_new", "id", "r", "m", 2+g.Intn(15))
			x := T(base58check(g.xkey(false, 1)))
			for i := 0; i < 18; i++ {
				g.do("rs_add", "id", "r", "xk", x, "path", pathForm(uint32(i*7%5), uint32(i)))
				if i >= 14 {
					g.do("rs_script", "id", "r")
				}
			}
		}
		for k := 0; k < g.n(30, 400); k++ { // refused keys and paths
			g.newCase("bad")
			g.do("rs_new", "id", "r", "m", 2)
			for i := 0; i < 6; i++ {
				g.badAdd("r")
			}
			g.do("rs_add", "id", "r", "xk", T(base58check(g.xkey(false, 253))), "path", pathForm(g.idx(), g.idx()))
			g.do("rs_script", "id", "r")
		}
		// Electrum's form: well formed, equal to adding by hand, and damaged
		for k := 0; k < g.n(60, 800); k++ {
			g.newCase("electrum")
			m, n, keys := g.electrumParts()
			s := electrumScript(m, n, keys)
			t := hex.EncodeToString(s)
			if g.chance(0.1) {
				t = strings.ToUpper(t)
			}
			g.do("rs_load", "id", "e", "t", T(t))
			g.do("rs_script", "id", "e")
			if n < 6 {
				g.do("rs_new", "id", "h", "m", m)
				for _, j := range g.Perm(n) {
					x := keys[j]
					g.do("rs_add", "id", "h", "xk", T(base58check(x[1:79])), "path", pathForm(uint32(x[79])|uint32(x[80])<<8, uint32(x[81])|uint32(x[82])<<8))
				}
				g.do("rs_script", "id", "h")
				g.do("rs_addr", "id", "h")
				g.do("rs_addr", "id", "e")
				g.do("rs_hash", "id", "e")
			}
		}
		for k := 0; k < g.n(80, 1500); k++ {
			m, n, keys := g.electrumParts()
			if n > 5 {
				n, keys = 5, keys[:5]
			}
			el := func(s []byte) { g.pure("damaged", "electrum", "t", HH(s)) }
			el(electrumScript(m, n+g.pickI(-1, 1, 2), keys)) // declares another number of keys
			el(electrumScript(g.pickI(0, 1, -1, 17, 30), n, keys))
			i := g.Intn(n)
			bad := exact(keys[i])
			switch g.Intn(9) {
			case 0:
				bad[0] = byte(g.pickI(0, 1, 0xfe, 4))
			case 1:
				bad = bad[:82]
			case 2:
				bad = append(bad, 0)
			case 3:
				bad[46] = 5
			case 4:
				bad[5] = byte(g.pickI(253, 254, 255)) // depth
			case 5:
				bad = bad[1:]
			case 6:
				bad = bad[:33]
			case 7:
				bad = nil
			default:
				copy(bad[46:], cat([]byte{2}, make([]byte, 31), []byte{5}))
			}
			b := append([][]byte{}, keys...)
			b[i] = bad
			if bad == nil {
				b = append(b[:i], b[i+1:]...)
			}
			el(electrumScript(m, n, b))
			s := electrumScript(m, n, keys)
			el(s[:len(s)-1])
			el(cat(s, []byte{byte(g.pickI(0, 0x51, 0xae, 0xac))}))
			c := exact(s)
			c[len(c)-1] = byte(g.pickI(0xac, 0xad, 0xaf, 0, 0xae^0x80))
			el(c)
			for _, tail := range cutPushes {
				if g.chance(0.2) {
					el(cat(s, tail)) // a push without its data
				}
			}
			el(cat([]byte{1}, s)) // OP_m pushed rather than executed
			el(cat(s[:len(s)-2], []byte{1}, s[len(s)-2:]))
			el(cat(s[:len(s)-1], []byte{1, 0xae}))
			el(cat(s[:1], []byte{0x76}, s[1:]))
			el(g.garble(s))
			g.pure("damaged", "electrum", "t", T(badHex(g, hex.EncodeToString(s))))
		}
		// a key with one byte more or less, anywhere; other forms of the push
		for i := 0; i <= 83; i++ {
			k := g.electrumKey()
			one := func(k []byte) { g.pure("length", "electrum", "t", HH(electrumScript(2, 1, [][]byte{k}))) }
			one(k)
			for _, c := range []byte{0, k[minI(i, 82)], byte(g.Intn(256))} {
				one(cat(k[:i], []byte{c}, k[i:]))
			}
			if i < 83 {
				one(cat(k[:i], k[i+1:]))
				one(cat(k[:i], make([]byte, g.pickI(2, 4, 83)), k[i:]))
				x := k[1:79]
				if i < 78 {
					g.pure("length", "b58cm", "b", H(cat(x[:i], []byte{0}, x[i:])))
					g.newCase("length")
					g.do("rs_new", "id", "r", "m", 2)
					g.do("rs_add", "id", "r", "xk", T(base58check(cat(x[:i], []byte{0}, x[i:]))), "path", pathForm(0, 1))
					g.do("rs_add", "id", "r", "xk", T(base58check(cat(x[:i], x[i+1:]))), "path", pathForm(0, 1))
					g.do("rs_add", "id", "r", "xk", T(base58check(x)), "path", pathForm(0, 1))
					g.do("rs_script", "id", "r")
				}
			}
		}
		for j := 0; j < 4; j++ {
			k := g.electrumKey()
			for _, p := range [][]byte{{0x4c, 83}, {0x4d, 83, 0}, {0x4e, 83, 0, 0, 0}} {
				g.pure("length", "electrum", "t", HH(cat([]byte{0x52}, p, k, []byte{0x51, 0xae})))
			}
		}
	}
}

func (g *G) badAdd(id string) {
	x := base58check(g.xkey(false, 2))
	p := pathForm(g.idx(), g.idx())
	switch g.Intn(7) {
	case 0:
		p = L{}
	case 1:
		p = p[:1]
	case 2:
		p = append(p, p...)[:3]
	case 3:
		p = pathForm(0x80000000|g.idx(), 1)
	case 4:
		p = pathForm(1, 0x80000000|g.idx())
	case 5:
		x = base58check(g.xkey(false, g.pickI(254, 255)))
	default:
		x = g.badXkey()
	}
	g.do("rs_add", "id", id, "xk", T(x), "path", p)
}
