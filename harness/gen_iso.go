package main

import (
	"bytes"
	"encoding/hex"
	"math/rand"
	"sort"
	"strings"
)

// pool: calls without receiver, by operation, taken from the other generators
func (g *G) pool(props ...string) (names []string, by map[string][]M) {
	by = map[string][]M{}
	for _, p := range props {
		s := &G{Rand: rand.New(rand.NewSource(g.Int63())), batch: 12, batches: map[string]*Case{}}
		gens[p](s)
		for _, c := range s.cases {
			for _, e := range c.Ev {
				if _, pure := ops[e.Op]; pure && small(e.A) {
					by[e.Op] = append(by[e.Op], e.A)
				}
			}
		}
	}
	for n := range by {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

// densePool: the same from the calls of every length
func (g *G) densePool(max int) (names []string, by map[string][]M) {
	by = map[string][]M{}
	var props []string
	for p := range denses {
		if p < "C21" || p > "C23" {
			props = append(props, p)
		}
	}
	sort.Strings(props)
	for _, p := range props {
		s := &G{Rand: rand.New(rand.NewSource(g.Int63())), batch: 12, batches: map[string]*Case{}}
		denses[p](s)
		for _, c := range s.cases {
			for _, e := range c.Ev {
				if _, pure := ops[e.Op]; pure && size(e.A) <= max && !repeats(e.A) {
					by[e.Op] = append(by[e.Op], e.A)
				}
			}
		}
	}
	for n := range by {
		names = append(names, n)
	}
	sort.Strings(names)
	return
}

var poolProps = []string{"C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24", "C25"}

func size(v interface{}) (n int) {
	switch x := v.(type) {
	case string:
		if strings.ContainsRune(x, '(') {
			return len(unhx(x))
		}
		return len(x) / 2
	case L:
		for _, e := range x {
			n += size(e)
		}
	case M:
		for _, e := range x {
			n += size(e)
		}
	}
	return
}
func small(a M) bool { return size(a) <= 1500 && !repeats(a) }

// repeats: stands for more than it spells out
func repeats(a M) bool {
	if t, is := a["tx"].(M); is {
		return t["ri"] != nil || t["ro"] != nil || t["ti"] != nil
	}
	return false
}

// plain: arguments without run-length notation, as live arguments are recorded
func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		if strings.ContainsRune(x, '(') {
			return hex.EncodeToString(unhx(x))
		}
	case L:
		r := L{}
		for _, e := range x {
			r = append(r, plain(e))
		}
		return r
	case M:
		r := M{}
		for k, e := range x {
			if k != "nil" {
				r[k] = plain(e)
			}
		}
		return r
	}
	return v
}

// results and arguments that their user may overwrite at will
var ownResult = map[string]bool{"rev": true, "tx_ser": true, "tx_clear": true, "in_ser": true, "out_ser": true, "sighash": true, "varint_enc": true, "push_enc": true, "push_prefix": true,
	"hash": true, "merkle_br": true, "merkle_cb": true, "merkle_all": true, "merkle_proof": true, "coinbase": true, "coinbase_join": true, "header": true, "le": true,
	"tx_parse": true, "tx_rt": true, "in_parse": true, "out_parse": true, "tx_parse_str": true, "c_pub": true, "c_pkh": true, "c_addr": true, "o_pkh": true, "o_addr": true,
	"asm_from": true, "script_fromhex": true, "addr_pkh": true, "b58cm": true, "bip_dec": true, "bip_enc": true, "electrum": true, "asm_to": true, "script_hex": true, "unlock": true,
	"tgt_int": true, "addr_pub": true, "addr_key": true, "addr_parse": true, "o_puzzle": true, "o_data": true, "c_pubstr": true, "push_rt": true, "asm_rt": true}

// bounded: no script longer than 200 bytes
func (t gTx) bounded() gTx {
	for i := range t.ins {
		if len(t.ins[i].unl) > 200 {
			t.ins[i].unl = t.ins[i].unl[:200]
		}
		if len(t.ins[i].prev) > 200 {
			t.ins[i].prev = t.ins[i].prev[:200]
		}
		t.ins[i].nilUnl = false
	}
	for i := range t.outs {
		if len(t.outs[i].lock) > 200 {
			t.outs[i].lock = t.outs[i].lock[:200]
		}
	}
	return t
}

// pokes: in-place edits and appends to the scripts of a parsed transaction
func (g *G) poke(id string, t *gTx) {
	if len(t.ins) > 0 && (len(t.outs) == 0 || g.chance(0.5)) {
		i := g.Intn(len(t.ins))
		if len(t.ins[i].unl) > 0 && g.chance(0.4) {
			g.do("tx_edit", "id", id, "f", "unl^", "i", i, "v", "")
		} else {
			d := g.bytes(1 + g.Intn(40))
			t.ins[i].unl = cat(t.ins[i].unl, d)
			g.do("tx_edit", "id", id, "f", "unl+", "i", i, "v", H(d))
		}
	} else if len(t.outs) > 0 {
		i := g.Intn(len(t.outs))
		if len(t.outs[i].lock) > 0 && g.chance(0.4) {
			g.do("tx_edit", "id", id, "f", "lock^", "i", i, "v", "")
		} else {
			d := g.bytes(1 + g.Intn(40))
			t.outs[i].lock = cat(t.outs[i].lock, d)
			g.do("tx_edit", "id", id, "f", "lock+", "i", i, "v", H(d))
		}
	}
}

func init() {
	gens["C21"] = func(g *G) {
		names, by := g.pool(poolProps...)
		tiny := map[string][]M{} // the smallest arguments of each operation
		for op, l := range by {
			s := append([]M{}, l...)
			sort.SliceStable(s, func(i, j int) bool { return size(s[i]) < size(s[j]) })
			if len(s) > 12 {
				s = s[:12]
			}
			tiny[op] = s
		}
		call := func(n int, op string) {
			a := by[op][g.Intn(len(by[op]))]
			if g.chance(0.3) {
				a = tiny[op][g.Intn(len(tiny[op]))]
			}
			g.do("call", "id", "r"+itoa(n), "arg", "a"+itoa(n), "op", op, "a", plain(a))
		}
		// every operation: called, then its arguments and its result overwritten while others are live
		for k := 0; k < g.n(2, 12); k++ {
			for _, op := range names {
				if op == "sort" { // may reorder the list it is given
					continue
				}
				g.newCase("each")
				call(0, op)
				other := names[g.Intn(len(names))]
				for other == "sort" {
					other = names[g.Intn(len(names))]
				}
				call(1, other)
				call(2, op)
				if ownResult[op] {
					g.do("overwrite", "id", "a0")
					g.do("overwrite", "id", "r2")
					call(3, op)
					g.do("overwrite", "id", "r0")
					g.do("overwrite", "id", "a2")
				}
				call(4, op)
			}
		}
		// every operation on its smallest arguments
		for _, op := range names {
			if op == "sort" || !ownResult[op] {
				continue
			}
			for j, a := range tiny[op] {
				g.newCase("tiny")
				form := plain(a)
				g.do("call", "id", "r", "arg", "a", "op", op, "a", form)
				g.do("overwrite", "id", []string{"r", "a"}[j%2])
				g.do("call", "id", "s", "arg", "b", "op", op, "a", form)
				g.do("overwrite", "id", []string{"a", "r"}[j%2])
				g.do("call", "id", "t", "arg", "c", "op", op, "a", form)
			}
		}
		// long histories over many live results
		for k := 0; k < g.n(25, 300); k++ {
			g.newCase("many")
			var own []int
			for j := 0; j < 14; j++ {
				op := names[g.Intn(len(names))]
				if op == "sort" {
					continue
				}
				call(j, op)
				if ownResult[op] {
					own = append(own, j)
				}
				if len(own) > 0 && g.chance(0.35) {
					g.do("overwrite", "id", g.either("a", "r")+itoa(own[g.Intn(len(own))]))
				}
			}
		}
		// several transactions parsed from one buffer, edited in place, buffer reused
		for k := 0; k < g.n(120, 1500); k++ {
			g.newCase("buffer")
			ids := []string{"t", "u", "v"}[:1+g.Intn(3)]
			t := g.tx(1+g.Intn(3), 1+g.Intn(3)).bounded()
			g.do("val", "id", "buf", "v", hex.EncodeToString(t.ser()))
			ts := map[string]*gTx{}
			for _, id := range ids {
				g.do("tx_loadbuf", "id", id, "buf", "buf")
				c := t
				c.ins = append([]gIn{}, t.ins...)
				c.outs = append([]gOut{}, t.outs...)
				for i := range c.ins {
					c.ins[i].prev = nil
				}
				ts[id] = &c
			}
			over := false
			for j := 0; j < 8; j++ {
				id := ids[g.Intn(len(ids))]
				switch g.Intn(6) {
				case 0:
					if !over {
						g.do("overwrite", "id", "buf")
						over = true
					}
				case 1:
					g.mutate(id, ts[id])
				case 2:
					g.do("tx_bytes", "id", id)
				case 3:
					if len(ts[id].ins) > 0 {
						g.do("tx_sighash", "id", id, "i", g.Intn(len(ts[id].ins)), "f", stdFlags[g.Intn(6)])
					}
				default:
					g.poke(id, ts[id])
				}
			}
			if !over {
				g.do("overwrite", "id", "buf")
			}
			for _, id := range ids {
				g.do("tx_bytes", "id", id)
			}
		}
		// queries, signing and building with several objects live
		for k := 0; k < g.n(60, 700); k++ {
			g.newCase("objects")
			g.do("signer", "id", "s", "key", H(keys[k%4].priv), "flag", stdFlags[g.Intn(6)])
			ts := map[string]*gTx{}
			for _, id := range []string{"t", "u"} {
				t := g.sigTx(1+g.Intn(3), 1+g.Intn(2)).bounded()
				t.ins[0].prev, t.ins[0].txid = p2pkh(keys[k%4].pkh), g.txid()
				g.do("tx_make", "id", id, "tx", t.form())
				ts[id] = &t
			}
			g.do("s_new", "id", "p", "b", H(g.script()[:0]))
			g.do("s_new", "id", "q", "b", H(p2pkh(g.pkh())))
			g.do("rs_new", "id", "m", "m", 2)
			for j := 0; j < 14; j++ {
				id := g.either("t", "u")
				n := len(ts[id].ins)
				switch g.Intn(12) {
				case 0:
					g.do("tx_bytes", "id", id)
				case 1:
					g.do("tx_info", "id", id)
				case 2:
					g.do("tx_sighash", "id", id, "i", g.Intn(n+1), "f", stdFlags[g.Intn(12)])
				case 3:
					g.do("tx_sign", "id", id, "i", g.Intn(n+1), "signer", "s")
				case 4:
					g.do("tx_signauto", "id", id, "signer", "s")
				case 5:
					before := *ts[id]
					g.buildStep(id, ts[id])
					c := g.cur.Ev[len(g.cur.Ev)-1]
					if c.Op == "tx_from" || c.Op == "tx_apply" { // may fail: what the model of this generator has is uncertain
						g.cur.Ev = g.cur.Ev[:len(g.cur.Ev)-1]
						*ts[id] = before
					}
				case 6:
					g.do("s_"+[]string{"read", "asm", "classify"}[g.Intn(3)], "id", g.either("p", "q"))
				case 7:
					d := g.bytes(g.Intn(30))
					g.do("s_push", "id", g.either("p", "q"), "d", H(d))
				case 8:
					g.do("s_op", "id", g.either("p", "q"), "c", 0x51+g.Intn(60))
				case 9:
					g.do("rs_add", "id", "m", "xk", T(base58check(g.xkey(false, 1))), "path", pathForm(g.idx(), g.idx()))
				case 10:
					g.do([]string{"rs_script", "rs_hash", "rs_addr"}[g.Intn(3)], "id", "m")
				default:
					i := g.Intn(n)
					d := g.bytes(3)
					g.do("tx_edit", "id", id, "f", "unl+", "i", i, "v", H(d))
				}
			}
		}
		// encryption: plaintext and ciphertext buffers stay, and can be overwritten
		for k := 0; k < g.n(20, 200); k++ {
			g.newCase("cipher")
			key := H(g.bytes(g.pickI(16, 24, 32)))
			g.do("val", "id", "buf", "v", hex.EncodeToString(g.bytes(g.Intn(80))))
			g.do("sealbuf", "id", "c", "buf", "buf", "key", key)
			g.do("unseal", "ct", "c", "key", key)
			g.do("overwrite", "id", "buf")
			g.do("unseal", "ct", "c", "key", key)
			g.do("sealbuf", "id", "d", "buf", "buf", "key", key)
			g.do("unseal", "ct", "d", "key", key)
			g.do("unseal", "ct", "c", "key", key)
			g.do("overwrite", "id", "c")
			g.do("unseal", "ct", "d", "key", key)
			g.do("unseal", "ct", "c", "key", key)
		}
	}

	gens["C24"] = func(g *G) {
		lens := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257}
		hexd := "0123456789abcdef"
		for k := 0; k < g.n(250, 4000); k++ {
			n := lens[k%len(lens)]
			if g.chance(0.5) {
				n = g.Intn(40)
			}
			g.pure("rev", "rev", "b", H(g.bytes(n)))
			t := make([]byte, n)
			for i := range t {
				t[i] = hexd[g.Intn(16)]
			}
			g.pure("rev", "revhex", "t", H(t))
			g.pure("le", "le", "v", le32(g.u32v()), "l", g.pickI(4, 4, 5, 6, 8, 8, 9, 16, 32, 4+g.Intn(60)))
			x := g.bytes(n)
			y := exact(x)
			switch g.Intn(6) {
			case 0:
			case 1:
				y = g.bytes(n)
			case 2:
				y = append(y, 0)
			case 3:
				if n > 0 {
					y = y[:n-1]
				}
			case 4:
				if n > 0 {
					y[n-1] ^= 1
				}
			default:
				if n > 0 {
					y[g.Intn(n)] ^= byte(1 << uint(g.Intn(8)))
				}
			}
			g.pure("eq", "eq", "x", H(x), "y", H(y))
			g.pure("eq", "eq", "x", H(y), "y", H(x))
			// two differences that cancel in sums, exclusive ors and folds
			if n >= 2 {
				y = exact(x)
				i, j := g.Intn(n), g.Intn(n)
				for j == i {
					j = g.Intn(n)
				}
				d := byte(1 + g.Intn(255))
				switch g.Intn(4) {
				case 0:
					y[i], y[j] = y[i]+d, y[j]-d
				case 1:
					y[i], y[j] = y[i]^d, y[j]^d
				case 2:
					y[i], y[j] = y[i]^0x80, y[j]^0x80
				default:
					y[i], y[j] = y[j], y[i]
				}
				g.pure("eq", "eq", "x", H(x), "y", H(y))
				z := make([]byte, n)
				z[i], z[j] = d, d
				g.pure("eq", "eq", "x", H(z), "y", H(make([]byte, n)))
				z[j] = -d
				g.pure("eq", "eq", "x", H(z), "y", H(make([]byte, n)))
			}
		}
		for _, n := range []int{511, 512, 1000, 1024, 4096, 65535, 65536, 70001} {
			x := g.filler(n)
			g.pure("long", "rev", "b", H(x))
			g.pure("long", "revhex", "t", T(hex.EncodeToString(x)[g.Intn(2):]))
			g.pure("long", "le", "v", le32(g.u32v()), "l", n)
			for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
				y := exact(x)
				y[i] ^= byte(1 << uint(g.Intn(8)))
				g.pure("long", "eq", "x", H(x), "y", H(y))
			}
			g.pure("long", "eq", "x", H(x), "y", H(x))
			g.pure("long", "eq", "x", H(x), "y", H(x[:n-1]))
			g.pure("long", "dec32", "t", HH(x))
			g.pure("long", "dec32", "t", T(hex.EncodeToString(x)[1:]))
		}
		for _, n := range []int{100, 257, 600} { // long lists, with equal elements and common prefixes
			var l [][]byte
			stem := g.bytes(33)
			for i := 0; i < n; i++ {
				l = append(l, cat(stem[:g.pickI(0, 1, 8, 33)], g.bytes(g.Intn(3))))
			}
			g.pure("sort", "sort", "l", HL(l))
		}
		for n := 0; n < 70; n++ { // differing in exactly one position, every position
			x := g.bytes(70)
			y := exact(x)
			y[n] ^= byte(1 << uint(g.Intn(8)))
			g.pure("eq", "eq", "x", H(x), "y", H(y))
			g.pure("eq", "eq", "x", H(x[:n]), "y", H(y[:n]))
			g.pure("eq", "eq", "x", H(x[:n]), "y", H(y[:n+1]))
		}
		var mk func(d int) []byte
		mk = func(d int) []byte {
			alpha := []byte{0, 1, 0x7f, 0x80, 0xff}
			b := []byte{}
			for j := g.Intn(4); j > 0; j-- {
				b = append(b, alpha[g.Intn(5)])
			}
			return b
		}
		for k := 0; k < g.n(250, 4000); k++ {
			l := [][]byte{}
			n := g.pickI(0, 1, 2, 2, 3, 3, 4, 5, 8, 12, 13, 16, 40)
			stem := g.bytes(g.pickI(1, 4, 8, 32))
			for i := 0; i < n; i++ {
				switch g.Intn(5) {
				case 4: // long common prefixes
					l = append(l, cat(stem, mk(0)))
				case 0:
					l = append(l, g.bytes(g.pickI(0, 1, 2, 33)))
				case 1:
					if i > 0 {
						p := l[g.Intn(i)]
						l = append(l, cat(p, mk(1)))
						continue
					}
					fallthrough
				default:
					l = append(l, mk(0))
				}
			}
			if g.chance(0.2) {
				sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i], l[j]) > 0 })
			}
			g.pure("sort", "sort", "l", HL(l))
		}
		for k := 0; k < g.n(200, 2000); k++ {
			n := g.pickI(0, 1, 31, 32, 32, 33, 64, 30+g.Intn(6))
			t := hex.EncodeToString(g.bytes(n))
			switch g.Intn(6) {
			case 0:
				t = badHex(g, t)
			case 1:
				if len(t) > 0 {
					t = t[:len(t)-1]
				}
			case 2:
				t = strings.ToUpper(t)
			}
			g.pure("dec32", "dec32", "t", T(t))
		}
	}

	gens["C23"] = func(g *G) {
		g.batch = 20
		for n := 0; n <= g.n(300, 600); n++ {
			g.pure("hash", "hash", "b", H(g.bytes(n)))
			if n < 130 {
				g.pure("hash", "hash", "b", H(bytes.Repeat([]byte{byte(g.pickI(0, 0x80, 0xff))}, n)))
			}
		}
		for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3000000, 1<<22 + 5} {
			g.pure("hash", "hash", "b", H(g.filler(n)))
		}
		for k := 0; k < g.n(60, 1500); k++ {
			g.pure("hash", "hash", "b", H(g.bytes(g.Intn(2000))))
		}
		for _, n := range []int{0, 1, 2, 3, 47, 48, 49, 1535, 1536, 1537, 4096, 65535, 65536, 100003, 1<<20 - 16, 1 << 20, 1<<20 + 1} {
			for _, kl := range []int{16, 24, 32} {
				g.pure("big", "seal_rt", "key", H(g.bytes(kl)), "b", H(g.filler(n)))
			}
		}
		for n := 0; n < 40; n++ {
			g.pure("short", "unseal_raw", "b", H(g.bytes(n)))
		}
		// histories: several keys, plaintexts sealed again and again, opened in any order
		for k := 0; k < g.n(60, 800); k++ {
			g.newCase("seal")
			ks := []string{H(g.bytes(16)), H(g.bytes(24)), H(g.bytes(32)), H(g.bytes(16))}
			n := 0
			of := []string{}
			pts := [][]byte{{}, g.bytes(1 + g.Intn(4)), g.bytes(g.Intn(300)), bytes.Repeat([]byte{0}, 48)}
			for j := 0; j < 14; j++ {
				if n == 0 || g.chance(0.45) {
					key := ks[g.Intn(4)]
					g.do("seal", "id", "c"+itoa(n), "key", key, "b", hex.EncodeToString(pts[g.Intn(4)]))
					of = append(of, key)
					n++
				} else {
					c := g.Intn(n)
					key := of[c]
					if g.chance(0.2) {
						key = ks[g.Intn(4)]
					}
					g.do("unseal", "ct", "c"+itoa(c), "key", key)
				}
			}
			for c := 0; c < n; c++ {
				g.do("unseal", "ct", "c"+itoa(c), "key", of[c])
			}
		}
		for r := 0; r < g.n(1, 4); r++ { // prefixes: all different, every position varies, also across processes
			g.newCase("prefixes")
			key := H(g.bytes(32))
			pt := H(g.bytes(g.pickI(0, 5, 33)))
			for j := 0; j < g.n(220, 500); j++ {
				g.do("seal", "id", "c", "key", key, "b", pt)
			}
			g.do("unseal", "ct", "c", "key", key)
			g.do("iv_stats")
			for j := 0; j < 3; j++ {
				g.do("seal_proc", "n", 40, "key", key, "b", pt)
			}
			g.do("iv_stats")
		}
	}

	gens["C22"] = func(g *G) {
		names, by := g.pool(poolProps...)
		threads := 8
		group := 0
		any := func(op string) { a := by[op][g.Intn(len(by[op]))]; g.do(op, flat(a)...) }
		grp := func(share func(), thread func(n int)) {
			group++
			pro := &Case{}
			g.cur = pro
			share()
			for n := 0; n < threads; n++ {
				c := &Case{Mode: "conc", Group: group, Share: len(pro.Ev), Tag: "conc"}
				if n == 0 {
					c.Ev = append(c.Ev, pro.Ev...)
				} else {
					for _, e := range pro.Ev {
						c.Ev = append(c.Ev, &Event{Op: e.Op, A: e.A, Ch: L{}})
					}
				}
				g.cases = append(g.cases, c)
				g.cur = c
				thread(n)
			}
		}
		// the first use of everything in this process is concurrent
		grp(func() {}, func(n int) {
			for _, op := range names {
				any(op)
			}
			for k := 0; k < 4; k++ {
				g.soloKind(n, k)
			}
		})
		// one operation hammered by all threads, on equal and on different arguments
		per := 3
		for k := 0; k < len(names); k += per {
			grp(func() {}, func(n int) {
				for j := 0; j < g.n(6, 20); j++ {
					for _, op := range names[k:minI(k+per, len(names))] {
						any(op)
					}
				}
			})
		}
		// calls of every length
		names2, dense := g.densePool(6000)
		per = 4
		for k := 0; k < len(names2); k += per {
			grp(func() {}, func(n int) {
				for j := 0; j < g.n(6, 40); j++ {
					for _, op := range names2[k:minI(k+per, len(names2))] {
						g.do(op, flat(dense[op][g.Intn(len(dense[op]))])...)
					}
				}
			})
		}
		// many threads at once
		threads = 64
		for k := 0; k < len(names); k += 4 {
			grp(func() {}, func(n int) {
				for _, op := range names[k:minI(k+4, len(names))] {
					any(op)
				}
			})
		}
		threads = 40
		for k := 0; k < g.n(26, 290); k++ {
			if k == g.n(2, 20) {
				threads = 8
			}
			var tx, tx2 gTx
			grp(func() {
				tx = g.sigTx(2+g.Intn(3), 1+g.Intn(3)).bounded()
				tx.ins[0].prev, tx.ins[0].txid = p2pkh(keys[0].pkh), g.txid()
				g.do("tx_make", "id", "T", "tx", tx.form())
				tx2 = g.tx(1+g.Intn(2), 1+g.Intn(2)).bounded()
				g.do("tx_load", "id", "U", "b", H(tx2.ser()))
				g.do("s_new", "id", "S", "b", H(p2pkh(g.pkh())))
				t := g.templates()
				g.do("s_new", "id", "R", "b", H(t[g.Intn(len(t))]))
				g.do("signer", "id", "K", "key", H(keys[0].priv), "flag", g.pickI(0x41, 0x43, 0xc1, 0))
			}, func(n int) {
				for j := 0; j < 10; j++ {
					switch g.Intn(6) {
					case 0:
						g.do("tx_bytes", "id", g.either("T", "U"))
					case 1:
						g.do("tx_info", "id", g.either("T", "U"))
					case 2:
						g.do("tx_sighash", "id", "T", "i", g.Intn(len(tx.ins)+1), "f", stdFlags[g.Intn(12)])
					case 3:
						g.do("s_"+[]string{"read", "asm", "classify"}[g.Intn(3)], "id", g.either("S", "R"))
					case 4:
						any(names[g.Intn(len(names))])
					default:
						if j == 0 || g.chance(0.5) {
							own := "o" + itoa(n)
							t := g.sigTx(2, 1).bounded()
							t.ins[0].prev, t.ins[0].txid = p2pkh(keys[0].pkh), g.txid()
							g.do("tx_make", "id", own, "tx", t.form())
							g.do("tx_sign", "id", own, "i", 0, "signer", "K")
							g.do("tx_signauto", "id", own, "signer", "K")
							g.do("tx_bytes", "id", own)
						} else {
							g.soloThread(n)
						}
					}
				}
			})
		}
	}
}

// soloThread: building, encryption and redeem scripts on objects of thread n only
func (g *G) soloThread(n int) { g.soloKind(n, g.Intn(4)) }
func (g *G) soloKind(n, kind int) {
	x := itoa(n)
	switch kind {
	case 0:
		t := gTx{}
		g.do("tx_new", "id", "n"+x)
		for j := 0; j < 4; j++ {
			g.buildStep("n"+x, &t)
		}
		g.do("tx_info", "id", "n"+x)
	case 1:
		g.do("rs_new", "id", "m"+x, "m", 2)
		for j := 0; j < 3; j++ {
			g.do("rs_add", "id", "m"+x, "xk", T(base58check(g.xkey(false, 1))), "path", pathForm(g.idx(), g.idx()))
		}
		g.do("rs_script", "id", "m"+x)
		g.do("rs_addr", "id", "m"+x)
	case 2:
		k := H(g.bytes(16))
		g.do("seal", "id", "c"+x, "key", k, "b", H(g.bytes(g.Intn(90))))
		g.do("unseal", "ct", "c"+x, "key", k)
	default:
		g.do("s_new", "id", "s"+x, "b", "")
		for j := 0; j < 4; j++ {
			g.appendTo("s" + x)
		}
		g.do("s_read", "id", "s"+x)
	}
}

func flat(a M) (kv []interface{}) {
	for k, v := range a {
		kv = append(kv, k, v)
	}
	return
}
func itoa(n int) string {
	if n >= 10 {
		return itoa(n/10) + string(rune('0'+n%10))
	}
	return string(rune('0' + n))
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}
