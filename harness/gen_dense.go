package main

import (
	"encoding/hex"
)

// Every length and count from 0 to 300, and the numbers above that a limit or a buffer may have.

var denses = map[string]func(g *G){}

func upTo(max int) []int {
	var r []int
	for n := 0; n <= 300 && n <= max; n++ {
		r = append(r, n)
	}
	for _, n := range []int{319, 320, 321, 333, 383, 384, 385, 399, 400, 401, 499, 500, 501, 511, 512, 513, 519, 520, 521, 599, 600, 601, 640, 700, 767, 768, 769, 800, 900, 999, 1000, 1001, 1023, 1024, 1025,
		1499, 1500, 1501, 1535, 1536, 1537, 1650, 1651, 1999, 2000, 2001, 2047, 2048, 2049, 2999, 3000, 3001, 4095, 4096, 4097, 4999, 5000, 5001, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385,
		20000, 20001, 32767, 32768, 32769, 50000, 65535, 65536, 65537, 99999, 100000, 100001, 131071, 131072, 131073} {
		if n <= max {
			r = append(r, n)
		}
	}
	return r
}

func (g *G) each(max int, f func(n int)) {
	for _, n := range upTo(max) {
		f(n)
	}
}

// vast: lengths where larger limits and buffers may lie
func (g *G) vast(max int, f func(b []byte)) {
	for _, n := range []int{1 << 18, 1<<18 + 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 + 1, 4000001, 10000001, 1<<24 + 1, 1<<25 + 1} {
		if n <= max {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(n)
			}
			copy(b, g.bytes(20))
			copy(b[n/2:], g.bytes(20))
			copy(b[n-20:], g.bytes(20))
			f(b)
		}
	}
}

// few: a small transaction with no gaps in what signing needs
func (g *G) few() gTx {
	t := gTx{ver: g.u32v(), lt: g.u32v()}
	for i := 0; i < 2; i++ {
		t.ins = append(t.ins, gIn{txid: g.txid(), vout: uint32(g.Intn(4)), seq: g.u32v(), prev: p2pkh(keys[2].pkh), sat: uint64(g.Intn(100000))})
	}
	t.outs = []gOut{{uint64(g.Intn(100000)), p2pkh(g.pkh())}, {uint64(g.Intn(100000)), g.bytes(3)}}
	if g.chance(0.2) {
		g.twist(&t)
	}
	return t
}

// bare: ni inputs and no outputs, small and different
func (g *G) bare(ni, no int) gTx {
	t := gTx{ver: 1, lt: g.u32v()}
	id := g.txid()
	for k := 0; k < ni; k++ {
		if k%50 == 0 {
			id = g.txid()
		}
		t.ins = append(t.ins, gIn{txid: id, vout: uint32(k), seq: uint32(k * 7), prev: []byte{byte(k)}})
	}
	for k := 0; k < no; k++ {
		t.outs = append(t.outs, gOut{uint64(k) << uint(k%40), []byte{}})
	}
	return t
}

// nums: every power of two and its neighbours, and numbers that mean something on the chain
func nums(bits uint) []uint64 {
	var r []uint64
	max := ^uint64(0) >> (64 - bits)
	for k := uint(0); k < bits; k++ {
		for d := uint64(0); d < 3; d++ {
			r = append(r, 1<<k+d-1)
		}
	}
	for _, n := range []uint64{max - 2, max - 1, max, 545, 546, 547, 99999999, 100000000, 100000001, 2500000000, 5000000000, 2099999999999999, 2100000000000000, 2100000000000001,
		499999999, 500000000, 500000001, 1 << 22, 1<<22 | 1<<31, 1<<22 - 1, 16, 17, 128, 144, 2016, 209999, 210000, 227835, 227836, 419999, 420000, 478558, 478559, 556766, 556767, 620537, 620538, 630000, 840000, 1000000} {
		if n <= max {
			r = append(r, n)
		}
	}
	return r
}

// numbered: f with small transactions that have each number in each of their fields
func (g *G) numbered(f func(t gTx, set func(v uint64) gTx, v uint64, field string, i int)) {
	for _, field := range []string{"ver", "lt", "vout", "seq", "isat", "osat"} {
		bits := uint(32)
		if field == "isat" || field == "osat" {
			bits = 64
		}
		for _, v := range nums(bits) {
			t, i := g.few(), g.Intn(2)
			set := func(v uint64) gTx {
				c := t
				c.ins, c.outs = append([]gIn{}, t.ins...), append([]gOut{}, t.outs...)
				switch field {
				case "ver":
					c.ver = uint32(v)
				case "lt":
					c.lt = uint32(v)
				case "vout":
					c.ins[i].vout = uint32(v)
				case "seq":
					c.ins[i].seq = uint32(v)
				case "isat":
					c.ins[i].sat = v
				case "osat":
					c.outs[i].sat = v
				}
				return c
			}
			f(set(v), set, v, field, i)
		}
	}
}

func init() {
	denses["C01"] = func(g *G) {
		g.numbered(func(t gTx, _ func(uint64) gTx, _ uint64, field string, _ int) {
			if field != "isat" {
				g.pure("dense", "tx_ser", "tx", t.form())
			}
		})
		g.each(131073, func(n int) {
			t := g.few()
			t.ins[0].unl = g.filler(n)
			g.pure("dense", "tx_ser", "tx", t.form())
			t = g.few()
			t.outs[1].lock = g.filler(n)
			g.pure("dense", "tx_ser", "tx", t.form())
			t = g.few()
			t.ins[0].unl = g.filler(n)
			g.pure("dense", "tx_clear", "tx", t.form(), "i", 1, "s", H(g.filler(n)))
		})
		g.each(520, func(n int) {
			g.pure("dense", "tx_ser", "tx", g.bare(n, 1).form())
			g.pure("dense", "tx_ser", "tx", g.bare(1, n).form())
			g.pure("dense", "tx_clear", "tx", g.bare(n, 2).form(), "i", n-1, "s", H(g.bytes(3)))
		})
	}
	denses["C02"] = func(g *G) {
		g.numbered(func(t gTx, _ func(uint64) gTx, _ uint64, field string, _ int) {
			if field != "isat" {
				g.pure("dense", "tx_parse", "b", H(t.ser()))
			}
		})
		g.each(131073, func(n int) {
			t := g.few()
			t.ins[g.Intn(2)].unl = g.filler(n)
			g.pure("dense", "tx_rt", "b", H(t.ser()))
			g.pure("dense", "in_parse", "b", H(cat(t.ins[0].ser(vi), g.bytes(g.Intn(3)))))
			t = g.few()
			t.outs[g.Intn(2)].lock = g.filler(n)
			g.pure("dense", "tx_rt", "b", H(t.ser()))
			g.pure("dense", "out_parse", "b", H(cat(t.outs[1].ser(vi), g.bytes(g.Intn(3)))))
		})
		g.each(520, func(n int) {
			g.pure("dense", "tx_rt", "b", H(g.bare(n, 1).ser()))
			g.pure("dense", "tx_rt", "b", H(g.bare(1, n).ser()))
			b := g.bare(n, 2).ser()
			g.pure("dense", "tx_parse", "b", H(b[:len(b)-1]))
			g.pure("dense", "tx_parse", "b", H(cat(b, b[:1])))
			g.pure("dense", "in_parse", "b", H(cat(g.few().ins[0].ser(vi), g.filler(n))))
			g.pure("dense", "out_parse", "b", H(cat(g.few().outs[0].ser(vi), g.filler(n))))
		})
	}
	denses["C04"] = func(g *G) {
		for _, v := range nums(64) {
			g.pure("dense", "varint_enc", "u", le64(v))
			g.pure("dense", "varint_dec", "b", H(cat(vi(v), g.bytes(g.Intn(3)))))
			g.pure("dense", "varint_dec", "b", H(viw(v, 9)))
		}
		g.each(131073, func(n int) {
			g.pure("dense", "varint_enc", "u", le64(uint64(n)))
			g.pure("dense", "varint_dec", "b", H(vi(uint64(n))))
			g.pure("dense", "varint_dec", "b", H(cat(vi(g.u64v()), g.filler(n))))
		})
	}
	denses["C05"] = func(g *G) {
		g.each(131073, func(n int) {
			d := g.filler(n)
			g.pure("dense", "push_prefix", "d", H(d))
			g.pure("dense", "push_enc", "l", HL([][]byte{d, {1}}))
			g.pure("dense", "push_dec", "b", H(cat([]byte{0x51}, push(d), []byte{0xac})))
			g.pure("dense", "push_dec", "b", H(push(d)))
			if n > 0 {
				g.pure("dense", "push_dec", "b", H(push(d)[:len(push(d))-1]))
			}
		})
		g.each(1025, func(n int) {
			l := [][]byte{}
			for i := 0; i < n; i++ {
				l = append(l, []byte{byte(i), 1}[:1+i%2])
			}
			g.pure("dense", "push_rt", "l", HL(l))
			g.pure("dense", "push_dec", "b", H(g.ops(n)))
		})
	}
	denses["C06"] = func(g *G) {
		g.each(131073, func(n int) {
			d := g.filler(n)
			if n > 0 {
				g.pure("dense", "asm_rt", "b", H(cat([]byte{0x51}, push(d), []byte{0xac})))
				g.pure("dense", "asm_from", "t", T("OP_DUP "+hex.EncodeToString(d)))
				g.pure("dense", "asm_from", "t", T("OP_DUP "+hex.EncodeToString(d)[1:]))
			}
			g.pure("dense", "script_hex", "b", H(d))
			g.pure("dense", "script_fromhex", "t", HH(d))
		})
		g.each(1025, func(n int) { g.pure("dense", "asm_rt", "b", H(g.ops(n))) })
	}
	denses["C07"] = func(g *G) {
		g.each(20001, func(n int) {
			d := push(g.filler(n))
			cl := func(p ...[]byte) { g.pure("dense", "classify", "b", H(cat(p...))) }
			cl([]byte{0x6a}, d)
			cl(d, []byte{0xac})
			cl([]byte{0x51}, d, []byte{0x51, 0xae})
			cl([]byte{0xa9}, d, []byte{0x87})
			cl([]byte{0x76, 0xa9}, d, []byte{0x88, 0xac})
			if n <= 1025 {
				cl([]byte{0x52}, g.ops(n), []byte{0x53, 0xae})
				cl(g.ops(n))
			}
		})
	}
	denses["C08"] = func(g *G) {
		g.each(131073, func(n int) {
			d := g.filler(n)
			g.pure("dense", "o_data", "l", HL([][]byte{d}))
			if n <= 10001 {
				g.pure("dense", "c_pub", "b", H(d))
				g.pure("dense", "c_pubstr", "t", HH(d))
				g.pure("dense", "c_pkh", "t", HH(d))
				g.pure("dense", "o_puzzle", "secret", H(d), "t", HH(g.pkh()), "sat", le64(uint64(n)))
			}
			if n <= 520 {
				g.pure("dense", "unlock", "pub", H(keys[2].pub), "sig", H(d), "f", n%256)
				g.newCase("dense")
				g.do("s_new", "id", "s", "b", H(g.filler(n)))
				g.do("s_push", "id", "s", "d", H(d))
				g.do("s_pushhex", "id", "s", "d", HH(d))
				g.do("s_op", "id", "s", "c", n%256)
			}
		})
		g.each(1025, func(n int) {
			l := [][]byte{}
			for i := 0; i < n; i++ {
				l = append(l, []byte{byte(i), 1, 2}[:i%4*3/4])
			}
			g.pure("dense", "o_data", "l", HL(l))
		})
	}
	denses["C09"] = func(g *G) {
		g.numbered(func(t gTx, _ func(uint64) gTx, _ uint64, _ string, i int) {
			g.pure("dense", "sighash", "tx", t.form(), "i", i, "f", stdFlags[g.Intn(12)])
			g.pure("dense", "sighash", "tx", t.form(), "i", 1-i, "f", 0x41)
		})
		g.each(131073, func(n int) {
			t := g.few()
			t.ins[1].prev = g.filler(n)
			g.pure("dense", "sighash", "tx", t.form(), "i", 1, "f", stdFlags[g.Intn(12)])
			t = g.few()
			t.outs[1].lock = g.filler(n)
			g.pure("dense", "sighash", "tx", t.form(), "i", 1, "f", stdFlags[g.Intn(2)*2])
		})
		g.each(520, func(n int) {
			if n > 0 {
				g.pure("dense", "sighash", "tx", g.bare(n, 2).form(), "i", n-1, "f", stdFlags[g.Intn(12)])
				g.pure("dense", "sighash", "tx", g.bare(n, n).form(), "i", n-1, "f", 0x43)
			}
			g.pure("dense", "sighash", "tx", g.bare(2, n).form(), "i", g.Intn(2), "f", stdFlags[g.Intn(12)])
		})
	}
	denses["C11"] = func(g *G) {
		g.numbered(func(t gTx, _ func(uint64) gTx, v uint64, _ string, i int) {
			if g.chance(0.3) {
				g.pure("dense", "sign_at", "tx", t.form(), "i", i, "f", stdFlags[g.Intn(12)], "key", H(keys[v%3].priv))
			}
		})
		g.each(300, func(n int) {
			if n > 40 && n%7 != 0 && n < 250 {
				return
			}
			t := g.few()
			t.ins[0].prev, t.ins[1].unl = g.filler(n), g.filler(n)
			g.pure("dense", "sign_at", "tx", t.form(), "i", 0, "f", stdFlags[g.Intn(12)], "key", H(keys[2].priv))
			g.pure("dense", "sign_at", "tx", t.form(), "i", 1, "f", 0, "key", H(keys[2].priv))
			if n > 0 {
				g.pure("dense", "sign_at", "tx", g.bare(n, 2).form(), "i", n-1, "f", stdFlags[g.Intn(12)], "key", H(keys[1].priv))
			}
		})
	}
	denses["C12"] = func(g *G) {
		g.numbered(func(t gTx, _ func(uint64) gTx, _ uint64, _ string, _ int) {
			if g.chance(0.15) {
				g.pure("dense", "sign_at", "tx", t.form(), "i", -1, "f", stdFlags[g.Intn(12)], "key", H(keys[2].priv))
			}
		})
		for n := 0; n <= 40; n++ {
			t := g.bare(n, 2)
			for i := range t.ins {
				t.ins[i].prev = p2pkh(keys[1+i%2].pkh)
				if i%5 == 4 {
					t.ins[i].prev = p2pkh(g.bytes(20))
				}
			}
			g.pure("dense", "sign_at", "tx", t.form(), "i", -1, "f", stdFlags[g.Intn(12)], "key", H(keys[2].priv))
		}
		g.each(300, func(n int) {
			if n > 40 {
				t := g.bare(n, 2)
				t.ins[n-1].prev, t.ins[n/2].prev = p2pkh(keys[2].pkh), p2pkh(keys[2].pkh)
				g.pure("dense", "sign_at", "tx", t.form(), "i", -1, "f", 0x41, "key", H(keys[2].priv))
			}
		})
	}
	denses["C13"] = func(g *G) {
		for _, v := range nums(64) {
			t := g.few()
			t.outs[0].sat, t.outs[1].sat = v, []uint64{0, 1, v, -v, -v - 1, 1 - v, uint64(g.Intn(1000)), 1 << 63}[g.Intn(8)]
			g.pure("dense", "tx_count", "tx", t.form())
			c := g.few()
			c.ins = c.ins[:1]
			c.ins[0].txid = rep("00", 31)
			c.ins[0].vout, c.ins[0].seq = uint32(v), uint32(g.u64v())
			if g.chance(0.5) {
				c.ins[0].vout, c.ins[0].seq = c.ins[0].seq, c.ins[0].vout
			}
			g.pure("dense", "tx_count", "tx", c.form())
			g.newCase("dense")
			g.do("tx_new", "id", "t")
			g.do("tx_from", "id", "t", "txid", T(g.txid()), "vout", le32(uint32(v)), "script", HH(p2pkh(g.pkh())), "sat", le64(v))
			g.do("tx_payto", "id", "t", "addr", T(g.addr()), "sat", le64(v))
			g.do("tx_info", "id", "t")
		}
		g.each(1025, func(n int) {
			g.pure("dense", "tx_count", "tx", g.bare(n, 1).form())
			g.pure("dense", "tx_count", "tx", g.bare(1, n).form())
			t := g.few()
			g.pure("dense", "apply_at", "tx", t.form(), "i", n%3, "s", H(cat(g.filler(n), []byte{1})))
		})
	}
	denses["C14"] = func(g *G) {
		for n := 1; n <= g.n(260, 520); n++ {
			l := make([]string, n)
			for i := range l {
				l[i] = g.txid()
			}
			g.pure("dense", "merkle_all", "l", TL(l))
			g.pure("dense", "merkle_br", "l", TL(l))
		}
	}
	denses["C15"] = func(g *G) {
		for _, v := range nums(64) {
			g.pure("dense", "coinbase", "height", le32(uint32(v)), "value", le64(v), "wit", T(""), "text", T("/x/"), "wallet", T(addrOf(g.pkh(), true)), "miner", H(nil), "e1", H(g.bytes(6)), "e2", H(g.bytes(6)))
		}
		g.each(131073, func(n int) {
			w := addrOf(g.pkh(), true)
			d := g.filler(n)
			text := make([]byte, n%200)
			for i := range text {
				text[i] = byte('a' + i%26)
			}
			one := func(text, wit, miner []byte) {
				x := g.bytes(12)
				c := g.Intn(13)
				g.pure("dense", "coinbase", "height", le32(uint32(n)), "value", le64(uint64(n)<<uint(n%32)), "wit", HH(wit), "text", H(text), "wallet", T(w), "miner", H(miner), "e1", H(x[:c]), "e2", H(x[c:]))
			}
			one(text, nil, d)
			one(text, d, nil)
			if n <= 300 {
				one(text, d, d)
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(' ' + i%90)
				}
				one(b, nil, nil)
			}
		})
	}
	denses["C16"] = func(g *G) {
		for _, v := range nums(32) {
			g.pure("dense", "header", "ver", le32(uint32(v)), "prev", HH(g.bytes(32)), "root", H(g.bytes(32)), "time", H(b32(uint32(v))), "bits", H(g.bytes(4)), "nonce", H(b32(uint32(v))))
		}
		for n := 0; n <= 100; n++ {
			f := [][]byte{g.bytes(32), g.bytes(32), g.bytes(4), g.bytes(4), g.bytes(4)}
			f[g.Intn(5)] = g.bytes(n)
			g.pure("dense", "header", "ver", le32(g.u32v()), "prev", HH(f[0]), "root", H(f[1]), "time", H(f[2]), "bits", H(f[3]), "nonce", H(f[4]))
		}
	}
	denses["C20"] = func(g *G) {
		x := g.xkey(false, 3)
		for _, v := range nums(32) {
			g.newCase("dense")
			g.do("rs_new", "id", "r", "m", 2)
			if g.chance(0.5) {
				g.do("rs_add", "id", "r", "xk", T(base58check(x)), "path", pathForm(uint32(v), uint32(g.Intn(3))))
			} else {
				g.do("rs_add", "id", "r", "xk", T(base58check(x)), "path", pathForm(uint32(g.Intn(3)), uint32(v)))
			}
			g.do("rs_script", "id", "r")
			if v < 1<<16 {
				k := cat([]byte{0xff}, x, []byte{byte(v), byte(v >> 8), 0, 0})
				if g.chance(0.5) {
					k = cat([]byte{0xff}, x, []byte{1, 0, byte(v), byte(v >> 8)})
				}
				g.pure("dense", "electrum", "t", HH(electrumScript(2, 1, [][]byte{k})))
			}
		}
	}
	denses["C17"] = func(g *G) {
		g.batch = 40
		var mant []uint32
		for k := 0; k < 24; k++ {
			mant = append(mant, 1<<uint(k), 1<<uint(k)-1, 1<<uint(k)|1<<23)
		}
		for e := 0; e <= 40; e++ {
			for _, m := range append(mant, uint32(g.Intn(1<<24)), uint32(g.Intn(1<<24))) {
				b := []byte{byte(e), byte(m >> 16), byte(m >> 8), byte(m)}
				for _, op := range []string{"tgt_hex", "tgt_int", "diff"} {
					if (op != "diff" || !zeroOrOdd(b)) && (e < 36 || op == "tgt_int" || g.chance(0.2)) {
						g.pure("dense", op, "t", HH(b))
					}
				}
			}
		}
	}
	denses["C18"] = func(g *G) {
		g.each(300, func(n int) {
			if n <= 120 {
				g.pure("dense", "b58cm", "b", H(g.bytes(n)))
				g.pure("dense", "addr_valid", "t", T(base58check(g.bytes(n))))
				g.pure("dense", "addr_parse", "t", T(base58check(cat([]byte{byte(n % 2 * 0x6f)}, g.bytes(n)))))
			}
			g.pure("dense", "addr_pub", "t", HH(g.bytes(n)), "main", n%2 == 0)
		})
	}
	denses["C19"] = func(g *G) {
		g.each(20001, func(n int) {
			d := g.filler(n)
			p := []byte("bitcoin-script")
			if n <= 300 {
				for i := range p {
					p[i] = byte('a' + (n+i*7)%26)
				}
				g.pure("dense", "bip_enc", "p", T(rep("ab-", n)[:n+1]), "n", 1+n%255, "v", 1+n/2%255, "d", H(g.bytes(n%40)))
				g.pure("dense", "bip_dec", "t", T(bip276(rep("ab-", n)[:n+1], 1+n%255, 1+n/2%255, g.bytes(n%40))))
			}
			g.pure("dense", "bip_enc", "p", H(p), "n", 1+n%255, "v", 1+n/3%255, "d", H(d))
			t := bip276(string(p), 1+n%255, 1+n/3%255, d)
			g.pure("dense", "bip_dec", "t", T(t))
			g.pure("dense", "addr_valid", "t", T(bip276("bitcoin-script", 1+n%255, 1+n/3%255, d)))
			b := []byte(t)
			k := len(b) - 1 - g.Intn(len(d)*2+8)
			if b[k] = b[k] + 1; b[k] == '9'+1 {
				b[k] = '0'
			}
			g.pure("dense", "bip_dec", "t", H(b))
		})
	}
	denses["C21"] = func(g *G) {
		names, by := g.densePool(1500)
		for _, op := range names {
			if op == "sort" || !ownResult[op] {
				continue
			}
			l := by[op]
			for k := 0; k < g.n(12, 300) && k < len(l); k++ {
				g.newCase("dense")
				a, b := plain(l[g.Intn(len(l))]), plain(l[g.Intn(len(l))])
				g.do("call", "id", "r", "arg", "a", "op", op, "a", a)
				g.do("call", "id", "s", "arg", "b", "op", op, "a", b)
				g.do("overwrite", "id", g.either("r", "a"))
				g.do("call", "id", "t", "arg", "c", "op", op, "a", a)
				g.do("overwrite", "id", g.either("s", "b"))
				g.do("call", "id", "u", "arg", "d", "op", op, "a", b)
			}
		}
	}
	denses["C10"] = func(g *G) {
		// each number in each field, signed; then another number there, and the first again
		g.numbered(func(t gTx, _ func(uint64) gTx, v uint64, field string, i int) {
			w := v ^ 1<<uint(g.Intn(32))
			if g.chance(0.5) {
				w = v + 1
			}
			form := func(v uint64) string {
				if field == "isat" || field == "osat" {
					return le64(v)
				}
				return le32(uint32(v))
			}
			g.newCase("dense")
			g.do("signer", "id", "s", "key", H(keys[1].priv), "flag", stdFlags[g.Intn(6)])
			g.do("tx_make", "id", "t", "tx", t.form())
			j := g.Intn(2)
			k := g.do("tx_sign", "id", "t", "i", j, "signer", "s")
			g.do("tx_edit", "id", "t", "f", field, "i", i, "v", form(w))
			g.do("tx_verify", "id", "t", "i", j, "ref", k*1000)
			g.do("tx_edit", "id", "t", "f", field, "i", i, "v", form(v))
			g.do("tx_verify", "id", "t", "i", j, "ref", k*1000)
		})
		g.each(300, func(n int) {
			if n == 0 || n > 64 && n%5 != 0 && n < 250 {
				return
			}
			f := stdFlags[g.Intn(6)]
			t := g.bare(n, n)
			i := g.Intn(n)
			g.newCase("dense")
			g.do("signer", "id", "s", "key", H(keys[1].priv), "flag", f)
			g.do("tx_make", "id", "t", "tx", t.form())
			k := g.do("tx_sign", "id", "t", "i", i, "signer", "s")
			g.do("tx_verify", "id", "t", "i", i, "ref", k*1000)
			for j := 0; j < 4; j++ { // change one thing and look, then put it back
				at := g.pickI(0, n-1, n/2, g.Intn(n), i)
				field := []string{"osat", "vout", "seq", "lock"}[j]
				v := []string{le64(uint64(at)<<uint(at%40) ^ 1<<uint(g.Intn(64))), le32(uint32(at) ^ 1<<uint(g.Intn(32))), le32(uint32(at*7) ^ 1<<uint(g.Intn(32))), H(g.bytes(1 + g.Intn(3)))}[j]
				was := []string{le64(uint64(at) << uint(at%40)), le32(uint32(at)), le32(uint32(at * 7)), ""}[j]
				g.do("tx_edit", "id", "t", "f", field, "i", at, "v", v)
				g.do("tx_verify", "id", "t", "i", i, "ref", k*1000)
				g.do("tx_edit", "id", "t", "f", field, "i", at, "v", was)
				g.do("tx_verify", "id", "t", "i", i, "ref", k*1000)
			}
		})
	}
	denses["C25"] = func(g *G) {
		for _, v := range nums(64) {
			g.pure("dense", "hashrate", "coin", T([]string{"BTC", "BSV", "BCH", "RSV", "R", ""}[g.Intn(6)]), "diff", le64(v), "secs", f64([]float64{600, 1, 0.5, 120}[g.Intn(4)]))
			g.pure("dense", "human", "f", f64(float64(v)))
			g.pure("dense", "human", "f", f64(float64(v)*1000))
		}
	}
	denses["C23"] = func(g *G) {
		g.each(20001, func(n int) {
			g.pure("dense", "seal_rt", "key", H(g.bytes(16+8*(n%3))), "b", H(g.filler(n)))
			if n > 300 {
				g.pure("dense", "hash", "b", H(g.filler(n)))
			}
		})
	}
	denses["C24"] = func(g *G) {
		g.each(131073, func(n int) {
			x, y := g.filler(n), []byte{}
			g.pure("dense", "rev", "b", H(x))
			if n <= 20001 { // its time is quadratic
				g.pure("dense", "revhex", "t", HH(x))
			}
			if n > 0 {
				if n <= 20001 {
					g.pure("dense", "revhex", "t", T(hex.EncodeToString(x)[1:]))
				}
				y = exact(x)
				y[g.Intn(n)] ^= 1
				g.pure("dense", "eq", "x", H(x), "y", H(y))
				g.pure("dense", "eq", "x", H(x), "y", H(x[:n-1]))
			}
			g.pure("dense", "eq", "x", H(x), "y", H(x))
			g.pure("dense", "dec32", "t", HH(x))
			if n <= 1025 {
				l := [][]byte{}
				for i := 0; i < n; i++ {
					l = append(l, g.bytes(1+g.Intn(3)))
				}
				if n <= 300 {
					g.pure("dense", "sort", "l", HL(l))
				}
				g.pure("dense", "sort", "l", HL([][]byte{y, x, x[:n/2], {0xff}}))
			}
		})
		for _, v := range nums(32) {
			g.pure("dense", "le", "v", le32(uint32(v)), "l", 4+g.Intn(9))
		}
		for n := 4; n <= 300; n++ {
			g.pure("dense", "le", "v", le32(g.u32v()), "l", n)
		}
	}
}

// ops: n small elements
func (g *G) ops(n int) []byte {
	b := []byte{}
	for i := 0; i < n; i++ {
		b = append(b, [][]byte{{0x51}, {1, byte(i)}, {0x76}, {2, 1, byte(i)}}[i%4]...)
	}
	return b
}

func rep(s string, n int) string {
	r := s
	for i := 0; i < n; i++ {
		r += s
	}
	return r
}
