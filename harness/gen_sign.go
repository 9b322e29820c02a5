package main

import "encoding/hex"

// sigTx: a transaction whose inputs can mostly be signed
func (g *G) sigTx(ni, no int) gTx {
	t := g.tx(ni, no)
	for i := range t.ins {
		in := &t.ins[i]
		in.nilUnl = false
		switch g.Intn(12) {
		case 0:
			in.prev = nil
		case 1:
			in.txid = ""
		case 2:
			in.prev = []byte{}
		case 3, 4, 5:
			in.prev = p2pkh(keys[g.Intn(3)].pkh)
		}
		if len(in.prev) > 3000 && g.chance(0.8) {
			in.prev = in.prev[:300]
		}
	}
	return t
}

var stdFlags = []int{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x01, 0x02, 0x03, 0x81, 0x82, 0x83, 0, 0x40, 0x80, 0xc0, 0x44, 0x5f, 0x61, 0x62, 0x63, 0xe3, 0x22, 0x23, 0x21, 0x1f, 0x9f, 0xff}

func (g *G) flag() int {
	if g.chance(0.75) {
		return stdFlags[g.Intn(len(stdFlags))]
	}
	return g.Intn(256)
}

func init() {
	gens["C09"] = func(g *G) {
		// all 256 flags on a few transactions, at each index
		for k := 0; k < g.n(3, 16); k++ {
			t := g.sigTx(3, g.pickI(0, 1, 2, 3, 4))
			for i := range t.ins {
				if len(t.ins[i].txid) == 0 {
					t.ins[i].txid = g.txid()
				}
				if t.ins[i].prev == nil {
					t.ins[i].prev = p2pkh(g.pkh())
				}
			}
			for f := 0; f < 256; f++ {
				g.pure("flags", "sighash", "tx", t.form(), "i", f%3, "f", f)
				if g.chance(0.3) || g.thorough {
					g.pure("flags", "sighash", "tx", t.form(), "i", (f+1)%3, "f", f)
				}
			}
		}
		for k := 0; k < g.n(350, 6000); k++ {
			t := g.sigTx(g.pickI(0, 1, 1, 2, 3, 4, 6), g.pickI(0, 1, 1, 2, 3, 4))
			for j := 0; j < 3; j++ {
				g.pure("shape", "sighash", "tx", t.form(), "i", g.Intn(len(t.ins)+1), "f", g.flag())
			}
			if g.chance(0.1) {
				g.pure("index", "sighash", "tx", t.form(), "i", g.pickI(-1, len(t.ins), len(t.ins)+1, 1000, 2147483647), "f", g.flag())
			}
		}
		for _, l := range append(append([]int{}, lens...), bigLens...) {
			for _, f := range []int{0x41, 0x43, 0xc1} {
				t := g.sigTx(2, 2)
				t.ins[0].prev, t.ins[0].txid = g.filler(l), g.txid()
				t.outs[0].lock = g.filler(l)
				g.pure("long", "sighash", "tx", t.form(), "i", 0, "f", f)
			}
		}
		for _, v := range u64s {
			t := g.sigTx(1, 1)
			t.ins[0].sat, t.outs[0].sat = v, u64s[g.Intn(len(u64s))]
			g.pure("amount", "sighash", "tx", t.form(), "i", 0, "f", stdFlags[g.Intn(6)])
		}
		for _, c := range []int{252, 253, 300} {
			t := g.wide(c, 2)
			g.pure("wide", "sighash", "tx", t.form(), "i", c-1, "f", 0x41)
			g.pure("wide", "sighash", "tx", t.form(), "i", 1, "f", 0x43)
			g.pure("wide", "sighash", "tx", t.form(), "i", c, "f", 0x41)
			t = g.wide(2, c)
			g.pure("wide", "sighash", "tx", t.form(), "i", 1, "f", 0x41)
			g.pure("wide", "sighash", "tx", t.form(), "i", 1, "f", 0xc2)
		}
		g.batch = 1
		{
			t := g.sigTx(2, 3)
			for i := range t.ins {
				t.ins[i].txid, t.ins[i].prev, t.ins[i].unl = g.txid(), p2pkh(g.pkh()), nil
			}
			for i := range t.outs {
				t.outs[i].lock = g.bytes(i)
			}
			g.pure("huge", "sighash", "tx", t.times(32769, 1), "i", 65536, "f", 0x41)
			g.pure("huge", "sighash", "tx", t.times(32769, 1), "i", 65538, "f", 0xc1)
			g.pure("huge", "sighash", "tx", t.times(32769, 21846), "i", 65537, "f", 0xc3)
			g.pure("huge", "sighash", "tx", t.times(1, 21846), "i", 1, "f", 0xc1)
		}
		g.batch = 12
		for k := 0; k < g.n(40, 400); k++ { // hashing one object again and again while it is edited
			g.newCase("history")
			g.lifecycle("t", 14, func() {
				for j := 0; j < 2; j++ {
					g.do("tx_sighash", "id", "t", "i", g.Intn(4), "f", stdFlags[g.Intn(12)])
				}
			})
		}
	}

	gens["C10"] = func(g *G) {
		for k := 0; k < g.n(70, 700); k++ {
			c := g.newCase("edits")
			ni, no := 1+g.Intn(4), g.Intn(5)
			t := g.sigTx(ni, no)
			for i := range t.ins {
				if t.ins[i].prev == nil || g.chance(0.5) {
					t.ins[i].prev = p2pkh(keys[g.Intn(2)].pkh)
				}
				if len(t.ins[i].prev) > 300 {
					t.ins[i].prev = t.ins[i].prev[:30]
				}
				if t.ins[i].txid == "" {
					t.ins[i].txid = g.txid()
				}
			}
			for i := range t.outs {
				if len(t.outs[i].lock) > 300 {
					t.outs[i].lock = t.outs[i].lock[:30]
				}
			}
			g.do("tx_make", "id", "t", "tx", t.form())
			signers := []int{g.flag(), g.flag(), stdFlags[g.Intn(6)]}
			for j, f := range signers {
				g.do("signer", "id", sid(j), "key", H(keys[j%2].priv), "flag", f)
			}
			type made struct{ ref, i int }
			var sigs []made
			sign := func() {
				i := g.Intn(len(t.ins))
				e := g.do("tx_sign", "id", "t", "signer", sid(g.Intn(3)), "i", i)
				sigs = append(sigs, made{e * 1000, i})
				t.ins[i].unl = []byte{1, 2, 3}
			}
			verify := func(n int) {
				for _, j := range g.Perm(len(sigs)) {
					if n == 0 {
						break
					}
					n--
					g.do("tx_verify", "id", "t", "i", sigs[j].i, "ref", sigs[j].ref)
				}
			}
			for j := 1 + g.Intn(3); j > 0; j-- {
				sign()
			}
			if g.chance(0.3) {
				e := g.do("tx_signauto", "id", "t", "signer", sid(g.Intn(3)))
				for i := range t.ins {
					// inputs that were not signed are looked up as "no signature made" when executed
					sigs = append(sigs, made{e*1000 + i, i})
				}
			}
			verify(3)
			for j := 3 + g.Intn(8); j > 0; j-- {
				if g.chance(0.2) {
					sign()
				} else {
					g.mutateSmall("t", &t)
				}
				verify(2)
			}
			verify(8)
			_ = c
		}
		// one edit of each kind against one signature of each standard flag
		for _, f := range []int{0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x44, 0x01, 0x81, 0x80} {
			for own := 0; own < 3; own++ {
				g.newCase("single edits")
				t := g.tx(3, 2+g.Intn(2))
				for i := range t.ins {
					t.ins[i] = gIn{txid: g.txid(), vout: uint32(i), seq: 5, prev: p2pkh(keys[i%2].pkh), sat: 1000}
				}
				for i := range t.outs {
					t.outs[i] = gOut{uint64(i + 1), p2pkh(g.bytes(20))}
				}
				g.do("signer", "id", "s", "key", H(keys[0].priv), "flag", f)
				g.do("tx_make", "id", "t", "tx", t.form())
				e := g.do("tx_sign", "id", "t", "signer", "s", "i", own)
				v := func() { g.do("tx_verify", "id", "t", "i", own, "ref", e*1000) }
				v()
				ed := func(fl string, i int, val, back string) {
					g.do("tx_edit", "id", "t", "f", fl, "i", i, "v", val)
					v()
					g.do("tx_edit", "id", "t", "f", fl, "i", i, "v", back)
					v()
				}
				ed("ver", 0, le32(t.ver+1), le32(t.ver))
				ed("lt", 0, le32(t.lt+1), le32(t.lt))
				for i, in := range t.ins {
					ed("txid", i, T(g.txid()), T(in.txid))
					ed("vout", i, le32(77), le32(in.vout))
					ed("seq", i, le32(6), le32(in.seq))
					ed("isat", i, le64(1001), le64(in.sat))
					ed("prev", i, H(p2pkh(g.bytes(20))), H(in.prev))
					if i != own {
						g.do("tx_edit", "id", "t", "f", "unl", "i", i, "v", H(g.bytes(9)))
						v()
						g.do("tx_edit", "id", "t", "f", "noprev", "i", i, "v", "")
						v()
					}
				}
				g.do("tx_apply", "id", "t", "i", own, "s", "00")
				v()
				for i, o := range t.outs {
					ed("osat", i, le64(99), le64(o.sat))
					ed("lock", i, H(p2pkh(g.bytes(20))), H(o.lock))
				}
				g.do("tx_addout", "id", "t", "out", g.smallOut().form())
				v()
				g.do("tx_addin", "id", "t", "in", gIn{txid: g.txid(), seq: 1, prev: []byte{1}}.form())
				v()
			}
		}
		// sign all inputs in any order, several times: all valid together
		for k := 0; k < g.n(25, 300); k++ {
			g.newCase("orders")
			n := 2 + g.Intn(4)
			t := g.tx(n, g.Intn(4))
			for i := range t.ins {
				t.ins[i] = gIn{txid: g.txid(), vout: g.u32v(), seq: g.u32v(), prev: p2pkh(keys[i%2].pkh), sat: g.u64v()}
			}
			for i := range t.outs {
				t.outs[i] = g.smallOut()
			}
			g.do("tx_make", "id", "t", "tx", t.form())
			for j := 0; j < 3; j++ {
				g.do("signer", "id", sid(j), "key", H(keys[j%2].priv), "flag", g.flag())
			}
			last := map[int]int{}
			for r := 0; r < 1+g.Intn(2); r++ {
				for _, i := range g.Perm(n) {
					last[i] = g.do("tx_sign", "id", "t", "signer", sid(g.Intn(3)), "i", i) * 1000
				}
				if g.chance(0.3) {
					e := g.do("tx_signauto", "id", "t", "signer", sid(r%2))
					for i := range t.ins {
						if i%2 == r%2 {
							last[i] = e*1000 + i
						}
					}
				}
			}
			for i := 0; i < n; i++ {
				g.do("tx_verify", "id", "t", "i", i, "ref", last[i])
			}
		}
	}

	gens["C11"] = func(g *G) {
		for k := 0; k < g.n(110, 1200); k++ {
			g.newCase("sign")
			t := g.sigTx(g.Intn(5), g.Intn(4))
			g.do("tx_make", "id", "t", "tx", t.form())
			for j := 0; j < 2; j++ {
				ky := g.key()
				f := g.pickI(0, g.flag(), g.Intn(256))
				g.do("signer", "id", sid(j), "key", H(ky.priv), "flag", f)
			}
			for j := 2 + g.Intn(6); j > 0; j-- {
				switch g.Intn(8) {
				case 0:
					g.do("tx_signext", "id", "t", "mode", "err", "i", g.Intn(3), "tx", gTx{}.form())
				case 1:
					if g.chance(0.3) {
						u := g.sigTx(g.Intn(3), g.Intn(3))
						if g.chance(0.3) {
							g.do("tx_signext", "id", "t", "mode", "ok", "i", g.Intn(3), "tx", u.form(), "auto", true)
						} else {
							g.do("tx_signext", "id", "t", "mode", "ok", "i", g.Intn(3), "tx", u.form())
						}
						t = u
					} else {
						g.do("tx_signext", "id", "t", "mode", "err", "i", 0, "tx", gTx{}.form(), "auto", true)
					}
				case 2:
					g.do("tx_sign", "id", "t", "signer", sid(g.Intn(2)), "i", g.pickI(-1, len(t.ins), len(t.ins)+1, 255, 2147483647))
				case 3:
					g.do("tx_apply", "id", "t", "i", g.pickI(-1, 0, len(t.ins), len(t.ins)-1, 2147483647), "s", H(g.bytes(g.Intn(20))))
				default:
					g.do("tx_sign", "id", "t", "signer", sid(g.Intn(2)), "i", g.Intn(len(t.ins)+1))
				}
			}
		}
		// many signatures by one key: all lengths of DER, high bits in r and s
		for k := 0; k < g.n(12, 120); k++ {
			g.newCase("der")
			t := g.sigTx(3, 1)
			for i := range t.ins {
				t.ins[i] = gIn{txid: g.txid(), vout: g.u32v(), seq: g.u32v(), prev: p2pkh(g.bytes(20)), sat: g.u64v()}
			}
			g.do("tx_make", "id", "t", "tx", t.form())
			g.do("signer", "id", "s", "key", H(g.key().priv), "flag", g.pickI(0, 0x41, 0xc3))
			for j := 0; j < 25; j++ {
				g.do("tx_edit", "id", "t", "f", "lt", "v", le32(g.Uint32()))
				g.do("tx_sign", "id", "t", "signer", "s", "i", g.Intn(3))
			}
		}
		for k := 0; k < g.n(2, 10); k++ { // many inputs
			g.newCase("wide")
			t := g.wide(260, 2)
			for i := range t.ins {
				t.ins[i].prev = p2pkh(keys[0].pkh)
			}
			g.do("tx_make", "id", "t", "tx", t.form())
			g.do("signer", "id", "s", "key", H(keys[0].priv), "flag", 0)
			for _, i := range []int{0, 255, 256, 259, 260, 1} {
				g.do("tx_sign", "id", "t", "signer", "s", "i", i)
			}
		}
		g.batch = 1
		for _, c := range [][3]int{{128, 256, 0}, {32768, 65536, 0xc2}, {32768, 65538, 0x41}, {32769, 65537, 0x41}, {32769, 3, 0xc3}} {
			t := g.tx(2, 1)
			for i := range t.ins {
				t.ins[i] = gIn{txid: g.txid(), vout: g.u32v(), seq: g.u32v(), prev: p2pkh(keys[i].pkh), sat: g.u64v()}
			}
			m := t.times(c[0], 1)
			m["ti"] = L{gIn{txid: g.txid(), prev: []byte{0x51}}.form(), gIn{txid: g.txid()}.form()}
			g.pure("huge", "sign_at", "tx", m, "i", c[1], "f", c[2], "key", H(keys[2].priv))
		}
		g.batch = 12
		for _, f := range stdFlags {
			g.newCase("flags")
			t := g.tx(2, 1)
			for i := range t.ins {
				t.ins[i] = gIn{txid: g.txid(), prev: p2pkh(g.bytes(20))}
			}
			g.do("tx_make", "id", "t", "tx", t.form())
			g.do("signer", "id", "s", "key", H(keys[1].priv), "flag", f)
			g.do("tx_sign", "id", "t", "signer", "s", "i", 1)
			g.do("tx_sign", "id", "t", "signer", "s", "i", 0)
		}
	}

	gens["C12"] = func(g *G) {
		for k := 0; k < g.n(110, 1200); k++ {
			g.newCase("auto")
			n := g.pickI(0, 1, 2, 3, 4, 5, 8)
			t := g.tx(n, g.Intn(3))
			own := keys[:3]
			for i := range t.outs {
				t.outs[i] = g.smallOut()
			}
			for i := range t.ins {
				t.ins[i] = gIn{txid: g.txid(), vout: g.u32v(), seq: g.u32v(), prev: g.lookalike(own[g.Intn(3)]), sat: g.u64v()}
				switch g.Intn(10) {
				case 0:
					t.ins[i].txid = ""
				case 1:
					t.ins[i].prev = nil
				case 2, 3:
					t.ins[i].unl = g.bytes(g.Intn(30))
				case 4, 5: // as an earlier signing leaves it
					k := own[g.Intn(3)]
					t.ins[i].unl = cat(push(cat([]byte{0x30}, g.bytes(g.pickI(68, 69, 70)), []byte{0x41})), push(k.pub))
				}
				if i > 0 && g.chance(0.2) { // outpoints that agree, wholly or in part
					o := t.ins[g.Intn(i)]
					t.ins[i].txid = o.txid
					if g.chance(0.6) {
						t.ins[i].vout = o.vout
					}
					if g.chance(0.3) {
						t.ins[i].prev, t.ins[i].sat, t.ins[i].seq = o.prev, o.sat, o.seq
					}
				}
			}
			g.do("tx_make", "id", "t", "tx", t.form())
			for j := 0; j < 3; j++ {
				g.do("signer", "id", sid(j), "key", H(own[j].priv), "flag", g.pickI(0, 0x41, g.flag()))
			}
			for j := 1 + g.Intn(4); j > 0; j-- {
				g.do("tx_signauto", "id", "t", "signer", sid(g.Intn(3)))
				if n > 0 && g.chance(0.3) {
					g.do("tx_edit", "id", "t", "f", "prev", "i", g.Intn(n), "v", H(g.lookalike(own[g.Intn(3)])))
				}
				if len(t.ins) == n && n > 0 && g.chance(0.5) {
					g.edit(n, len(t.outs))
				}
				if g.chance(0.1) {
					g.do("tx_sign", "id", "t", "signer", sid(g.Intn(3)), "i", g.Intn(n+1))
				}
			}
			for _, j := range g.Perm(3) {
				g.do("tx_signauto", "id", "t", "signer", sid(j))
			}
		}
		// positions: exactly one or all but one input is ours
		for n := 1; n <= 5; n++ {
			for p := 0; p < n; p++ {
				for _, most := range []bool{false, true} {
					g.newCase("position")
					t := g.tx(n, 1)
					t.outs[0] = g.smallOut()
					for i := range t.ins {
						t.ins[i] = gIn{txid: g.txid(), prev: p2pkh(keys[1].pkh), seq: 1}
						if (i == p) != most {
							t.ins[i].prev = p2pkh(keys[0].pkh)
						} else if g.chance(0.3) {
							t.ins[i].prev = nil
						}
					}
					g.do("tx_make", "id", "t", "tx", t.form())
					g.do("signer", "id", "s", "key", H(keys[0].priv), "flag", 0)
					g.do("tx_signauto", "id", "t", "signer", "s")
					g.do("tx_signauto", "id", "t", "signer", "s")
				}
			}
		}
		g.batch = 1
		for _, c := range []int{255, 256, 32767, 32768} {
			t := g.tx(2, 1)
			for i := range t.ins {
				t.ins[i] = gIn{txid: g.txid(), vout: g.u32v(), prev: g.bytes(i)}
			}
			m := t.times(c, 1)
			o := gIn{txid: g.txid(), prev: p2pkh(keys[2].pkh)}
			m["ti"] = L{o.form(), t.ins[1].form(), o.form()}
			g.pure("huge", "sign_at", "tx", m, "i", -1, "f", 0xc1, "key", H(keys[2].priv))
		}
		g.batch = 12
		{
			g.newCase("wide")
			t := g.wide(258, 1)
			for i := range t.ins {
				if i%3 == 0 || i > 253 {
					t.ins[i].prev = p2pkh(keys[0].pkh)
				}
			}
			g.do("tx_make", "id", "t", "tx", t.form())
			g.do("signer", "id", "s", "key", H(keys[0].priv), "flag", 0xc1)
			g.do("tx_signauto", "id", "t", "signer", "s")
		}
	}
	_ = hex.EncodeToString
}

// edit: one change of t that leaves its shape and previous scripts alone
func (g *G) edit(ni, no int) {
	switch g.Intn(8) {
	case 0:
		g.do("tx_edit", "id", "t", "f", "ver", "i", 0, "v", le32(g.u32v()))
	case 1:
		g.do("tx_edit", "id", "t", "f", "lt", "i", 0, "v", le32(g.u32v()))
	case 2:
		g.do("tx_edit", "id", "t", "f", "seq", "i", g.Intn(ni), "v", le32(g.u32v()))
	case 3:
		g.do("tx_edit", "id", "t", "f", "isat", "i", g.Intn(ni), "v", le64(g.u64v()))
	case 4:
		g.do("tx_edit", "id", "t", "f", "vout", "i", g.Intn(ni), "v", le32(g.u32v()))
	case 5:
		g.do("tx_edit", "id", "t", "f", "unl", "i", g.Intn(ni), "v", H(g.bytes(g.pickI(0, 1, 5, 100, 107))))
	case 6:
		if no > 0 {
			g.do("tx_edit", "id", "t", "f", "osat", "i", g.Intn(no), "v", le64(g.u64v()))
		}
	default:
		if no > 0 {
			g.do("tx_edit", "id", "t", "f", "lock", "i", g.Intn(no), "v", H(g.bytes(3)))
		}
	}
}

func sid(j int) string { return "s" + string(rune('0'+j)) }
func (g *G) smallOut() gOut {
	return gOut{g.u64v(), p2pkh(g.bytes(20))}
}

// lookalike: a previous script that is, or nearly is, P2PKH for the key
func (g *G) lookalike(k key) []byte {
	p := p2pkh(k.pkh)
	switch g.Intn(18) {
	case 10: // the template inside a longer script
		return cat([][]byte{{0x61}, cat(push(g.bytes(3)), []byte{0x75}), {0x00, 0x6a}, {0xa9}, {0x76}, {0xa8, 0x20}, {0xab}}[g.Intn(7)], p)
	case 11:
		return cat(p, [][]byte{{0x6a}, {0x75}, {0xac}, {0x00}, {0x69}, cat([]byte{0x6a}, push(g.bytes(4))), p}[g.Intn(7)])
	case 12:
		return cat([]byte{0xa9, 20}, g.bytes(20), []byte{0x88}, p) // hash puzzle
	case 13:
		return cat([]byte{0x51}, push(k.pub), []byte{0x51, 0xae})
	case 0:
		return p2pkh(hash160(k.pubU))
	case 1:
		return p2pkh(g.bytes(20))
	case 2:
		return cat(p, []byte{0x61})
	case 3:
		return p[:24]
	case 4:
		c := exact(p)
		c[g.Intn(25)] ^= byte(1 << uint(g.Intn(8)))
		return c
	case 5:
		return cat([]byte{0xa9, 20}, k.pkh, []byte{0x87})
	case 6:
		return cat(push(k.pub), []byte{0xac})
	case 7:
		return cat([]byte{0x76, 0xa9}, push(cat(k.pkh, []byte{1})), []byte{0x88, 0xac})
	case 8:
		return [][]byte{{}, {0x76}, {0x76, 0xa9}, {0x76, 0xa9, 20}, {0x6a}}[g.Intn(5)]
	case 9:
		return cat([]byte{0x76, 0xa9, 0x4c, 20}, k.pkh, []byte{0x88, 0xac})
	default:
		return p
	}
}

// mutateSmall: as mutate, with short scripts only
func (g *G) mutateSmall(id string, t *gTx) {
	for {
		n := len(g.cur.Ev)
		before := *t
		g.mutate(id, t)
		if len(g.cur.Ev) == n {
			continue
		}
		e := g.cur.Ev[n]
		if (e.Op == "tx_addin" || e.Op == "tx_addout" || e.Op == "tx_from") && len(t.ins)+len(t.outs) > 9 {
			g.cur.Ev = g.cur.Ev[:n]
			*t = before
			continue
		}
		return
	}
}
