package main

import (
	"encoding/hex"
	"strings"
)

var counts = []int{0, 1, 2, 3, 252, 253, 254, 255, 256}

// shapes calls f with transactions of many shapes, boundary ones included
func (g *G) shapes(n int, f func(t gTx)) {
	for i := 0; i < n; i++ {
		f(g.tx(g.pickI(0, 1, 1, 2, 2, 3, 4, 7), g.pickI(0, 1, 1, 2, 2, 3, 5)))
	}
	for _, c := range counts[4:] {
		f(g.wide(c, 1))
		f(g.wide(1, c))
	}
	f(g.wide(0, 300))
	f(g.wide(300, 0))
	for _, l := range append(append([]int{}, lens...), bigLens...) {
		t := g.tx(2, 2)
		t.ins[g.Intn(2)].unl = g.filler(l)
		f(t)
		t = g.tx(2, 2)
		t.outs[g.Intn(2)].lock = g.filler(l)
		f(t)
	}
	for _, v := range u64s {
		t := g.tx(1, 2)
		t.outs[0].sat = v
		f(t)
	}
}

// lifecycle: a transaction built, edited and looked at again and again
func (g *G) lifecycle(id string, steps int, look func()) {
	t := g.tx(g.Intn(4), g.Intn(4))
	for i := range t.ins {
		t.ins[i].nilUnl = false
	}
	switch g.Intn(3) {
	case 0:
		g.do("tx_make", "id", id, "tx", t.form())
	case 1:
		g.do("tx_load", "id", id, "b", H(t.ser()))
		for i := range t.ins {
			t.ins[i].prev = nil
		}
	default:
		g.do("tx_new", "id", id)
		t.ins, t.outs = nil, nil
	}
	look()
	for k := 0; k < steps; k++ {
		g.mutate(id, &t)
		if g.chance(0.6) {
			look()
		}
	}
	look()
}

// times: t with its inputs (outputs) repeated ni (no) times; only for calls without receiver
func (t gTx) times(ni, no int) M {
	m := t.form()
	m["ri"], m["ro"] = ni, no
	return m
}

// mutate changes the transaction by one building call or edit and keeps t in step
// (only what later choices need: numbers of inputs and outputs, emptiness of scripts)
func (g *G) mutate(id string, t *gTx) {
	small := func() []byte { return g.filler(g.pickI(0, 1, 5, 25, 75, 76, 107, 252, 253)) }
	switch c := g.Intn(12); {
	case c == 0 || (len(t.ins) == 0 && c < 6):
		i := g.in()
		i.nilUnl = false
		if g.chance(0.5) {
			s := g.script()
			g.do("tx_from", "id", id, "txid", T(i.txid), "vout", le32(i.vout), "script", HH(s), "sat", le64(i.sat))
			i.unl, i.prev = nil, s
		} else {
			g.do("tx_addin", "id", id, "in", i.form())
		}
		t.ins = append(t.ins, i)
	case c == 1 || (len(t.outs) == 0 && c < 9):
		o := g.out()
		g.do("tx_addout", "id", id, "out", o.form())
		t.outs = append(t.outs, o)
	case c < 7 && len(t.ins) > 0:
		i := g.Intn(len(t.ins))
		in := &t.ins[i]
		switch g.Intn(9) {
		case 0:
			g.do("tx_edit", "id", id, "f", "txid", "i", i, "v", T(g.txid()))
		case 1:
			g.do("tx_edit", "id", id, "f", "vout", "i", i, "v", le32(g.u32v()))
		case 2:
			g.do("tx_edit", "id", id, "f", "seq", "i", i, "v", le32(g.u32v()))
		case 3:
			g.do("tx_edit", "id", id, "f", "isat", "i", i, "v", le64(g.u64v()))
		case 4:
			in.unl = small()
			g.do("tx_edit", "id", id, "f", "unl", "i", i, "v", H(in.unl))
		case 5:
			in.prev = small()
			g.do("tx_edit", "id", id, "f", "prev", "i", i, "v", H(in.prev))
		case 6:
			d := g.bytes(1 + g.Intn(4))
			in.unl = cat(in.unl, d)
			g.do("tx_edit", "id", id, "f", "unl+", "i", i, "v", H(d))
		case 7:
			if len(in.unl) > 0 {
				g.do("tx_edit", "id", id, "f", "unl^", "i", i, "v", "")
			}
		default:
			s := small()
			in.unl = s
			g.do("tx_apply", "id", id, "i", i, "s", H(s))
		}
	case c < 10 && len(t.outs) > 0:
		i := g.Intn(len(t.outs))
		o := &t.outs[i]
		switch g.Intn(4) {
		case 0:
			g.do("tx_edit", "id", id, "f", "osat", "i", i, "v", le64(g.u64v()))
		case 1:
			o.lock = small()
			g.do("tx_edit", "id", id, "f", "lock", "i", i, "v", H(o.lock))
		case 2:
			d := g.bytes(1 + g.Intn(4))
			o.lock = cat(o.lock, d)
			g.do("tx_edit", "id", id, "f", "lock+", "i", i, "v", H(d))
		default:
			if len(o.lock) > 0 {
				g.do("tx_edit", "id", id, "f", "lock^", "i", i, "v", "")
			}
		}
	default:
		g.rearrange(id, t)
	}
}

// rearrange: version, locktime, and inputs and outputs that go or change places
func (g *G) rearrange(id string, t *gTx) {
	switch c := g.Intn(8); {
	case c == 0 && len(t.ins) > 1:
		i := g.Intn(len(t.ins))
		t.ins = append(append([]gIn{}, t.ins[:i]...), t.ins[i+1:]...)
		g.do("tx_edit", "id", id, "f", "indel", "i", i, "v", "")
	case c == 1 && len(t.outs) > 0:
		i := g.Intn(len(t.outs))
		t.outs = append(append([]gOut{}, t.outs[:i]...), t.outs[i+1:]...)
		g.do("tx_edit", "id", id, "f", "outdel", "i", i, "v", "")
	case c == 2 && len(t.ins) > 1:
		i := g.Intn(len(t.ins) - 1)
		t.ins[i], t.ins[i+1] = t.ins[i+1], t.ins[i]
		g.do("tx_edit", "id", id, "f", "inswap", "i", i, "v", "")
	case c == 3 && len(t.outs) > 1:
		i := g.Intn(len(t.outs) - 1)
		t.outs[i], t.outs[i+1] = t.outs[i+1], t.outs[i]
		g.do("tx_edit", "id", id, "f", "outswap", "i", i, "v", "")
	case c%2 == 0:
		g.do("tx_edit", "id", id, "f", "ver", "v", le32(g.u32v()))
	default:
		g.do("tx_edit", "id", id, "f", "lt", "v", le32(g.u32v()))
	}
}

func init() {
	gens["C01"] = func(g *G) {
		g.batch = 6
		g.shapes(g.n(150, 1500), func(t gTx) {
			g.pure("ser", "tx_ser", "tx", t.form())
			for i := -1; i <= len(t.ins); i++ {
				if (i > 6 && i < len(t.ins)-1) || !g.chance(0.5) {
					continue
				}
				g.pure("clear", "tx_clear", "tx", t.form(), "i", i, "s", H(g.script()))
			}
			for k, i := range t.ins {
				if k < 4 && g.chance(0.3) {
					g.pure("in", "in_ser", "in", i.form(), "clear", g.chance(0.5))
				}
			}
			for k, o := range t.outs {
				if k < 4 && g.chance(0.3) {
					g.pure("out", "out_ser", "out", o.form())
				}
			}
		})
		for _, l := range append(append([]int{}, lens...), bigLens...) {
			t := g.tx(2, 1)
			g.pure("clear", "tx_clear", "tx", t.form(), "i", g.Intn(2), "s", H(g.filler(l)))
			i := g.in()
			i.unl, i.nilUnl = g.filler(l), false
			g.pure("in", "in_ser", "in", i.form(), "clear", false)
			g.pure("in", "in_ser", "in", i.form(), "clear", true)
			g.pure("out", "out_ser", "out", gOut{g.u64v(), g.filler(l)}.form())
		}
		for k := 0; k < g.n(40, 400); k++ { // the same object serialised again and again while it is edited
			g.newCase("history")
			g.lifecycle("t", 12, func() { g.do("tx_bytes", "id", "t") })
		}
		g.batch = 1
		{ // more inputs or outputs than two bytes count
			t := g.tx(2, 3)
			for i := range t.ins {
				t.ins[i].unl = nil
			}
			for i := range t.outs {
				t.outs[i].lock = g.bytes(i)
			}
			g.pure("huge", "tx_ser", "tx", t.times(32768, 1))
			g.pure("huge", "tx_ser", "tx", t.times(1, 21846))
			g.pure("huge", "tx_clear", "tx", t.times(1, 21845), "i", 1, "s", "51")
			g.pure("huge", "tx_clear", "tx", t.times(32769, 1), "i", 65536, "s", "5151")
		}
		if g.thorough {
			for _, c := range []int{65534, 65535, 65536} {
				t := gTx{ver: 2, lt: 7}
				i := g.in()
				i.unl, i.nilUnl, i.prev = nil, false, nil
				for k := 0; k < c; k++ {
					i.vout = uint32(k)
					t.ins = append(t.ins, i)
				}
				g.pure("huge", "tx_rt", "b", H(t.ser()))
				t = gTx{ver: 2, lt: 7}
				for k := 0; k < c; k++ {
					t.outs = append(t.outs, gOut{uint64(k), nil})
				}
				g.pure("huge", "tx_rt", "b", H(t.ser()))
			}
		}
	}

	gens["C02"] = func(g *G) {
		parse := func(tag string, b []byte) {
			switch g.Intn(4) {
			case 0:
				s := hex.EncodeToString(b)
				if g.chance(0.2) {
					s = strings.ToUpper(s)
				}
				g.pure(tag, "tx_parse_str", "t", T(s))
			case 1:
				g.pure(tag, "tx_rt", "b", H(b))
			default:
				g.pure(tag, "tx_parse", "b", H(b))
			}
		}
		g.shapes(g.n(100, 800), func(t gTx) {
			parse("good", t.ser())
			if g.chance(0.4) {
				parse("nonminimal", t.serw(g.wider))
			}
		})
		// parts on their own, followed by anything
		for k := 0; k < g.n(80, 800); k++ {
			i, o := g.in(), g.out()
			vif := vi
			if g.chance(0.3) {
				vif = g.wider
			}
			g.pure("part", "in_parse", "b", H(cat(i.ser(vif), g.bytes(g.pickI(0, 0, 1, 4, 40)))))
			g.pure("part", "out_parse", "b", H(cat(o.ser(vif), g.bytes(g.pickI(0, 0, 1, 4, 40)))))
		}
		for _, l := range append(append([]int{}, lens...), bigLens...) {
			i, o := g.in(), g.out()
			i.unl, o.lock = g.filler(l), g.filler(l)
			g.pure("part", "in_parse", "b", H(cat(i.ser(vi), g.bytes(3))))
			g.pure("part", "out_parse", "b", H(cat(o.ser(vi), g.bytes(3))))
			for _, d := range []int{1, 2, 4, 5} {
				b := i.ser(vi)
				g.pure("part", "in_parse", "b", H(b[:len(b)-d]))
				if b = o.ser(vi); d < len(b) {
					g.pure("part", "out_parse", "b", H(b[:len(b)-d]))
				}
			}
		}
		// every truncation and some extensions
		g.batch = 40
		for k := 0; k < g.n(5, 40); k++ {
			t := g.tx(1+g.Intn(3), 1+g.Intn(3))
			for i := range t.ins {
				t.ins[i].unl = g.filler(g.pickI(0, 3, 25))
			}
			for i := range t.outs {
				t.outs[i].lock = g.filler(g.pickI(0, 3, 25))
			}
			b := t.ser()
			for n := 0; n < len(b); n++ {
				g.pure("trunc", "tx_parse", "b", H(b[:n]))
			}
			for _, n := range []int{1, 2, 4, 8, 9, 41} {
				g.pure("extend", "tx_parse", "b", H(cat(b, g.bytes(n))))
				g.pure("extend", "tx_parse", "b", H(cat(b, make([]byte, n))))
			}
			i, o := t.ins[0].ser(vi), t.outs[0].ser(vi)
			for n := 0; n < len(i); n++ {
				g.pure("trunc", "in_parse", "b", H(i[:n]))
			}
			for n := 0; n < len(o); n++ {
				g.pure("trunc", "out_parse", "b", H(o[:n]))
			}
			s := hex.EncodeToString(b)
			for _, n := range []int{1, 3, 19, 20, 21, len(s) - 1} {
				g.pure("badhex", "tx_parse_str", "t", T(s[:n]))
			}
			for j := 0; j < 12; j++ {
				p := g.Intn(len(s))
				g.pure("badhex", "tx_parse_str", "t", T(s[:p]+string("gzG:/@` \n\x00xX"[j])+s[p+1:]))
			}
			g.pure("badhex", "tx_parse_str", "t", T("0x"+s))
			g.pure("badhex", "tx_parse_str", "t", T(s+" "))
		}
		g.batch = 12
		// declared counts and lengths that do not match
		for k := 0; k < g.n(150, 2000); k++ {
			t := g.tx(1+g.Intn(2), 1+g.Intn(2))
			for i := range t.ins {
				t.ins[i].unl = g.filler(g.pickI(0, 3, 25))
			}
			for i := range t.outs {
				t.outs[i].lock = g.filler(g.pickI(0, 3, 25))
			}
			hit, at := 0, g.Intn(2+len(t.ins)+len(t.outs))
			b := t.serw(func(n uint64) []byte {
				hit++
				if hit-1 != at {
					return vi(n)
				}
				switch g.Intn(6) {
				case 0:
					return vi(n + 1)
				case 1:
					if n > 0 {
						return vi(n - 1)
					}
					return vi(1)
				case 2:
					return vi(g.u64v())
				case 3:
					return cat([]byte{0xff}, b64(^uint64(g.Intn(60))))
				case 4:
					return cat([]byte{0xff}, b64(1<<63-uint64(g.Intn(60))))
				default:
					return viw(n+uint64(1)<<32, 9)
				}
			})
			parse("counts", b)
		}
		for k := 0; k < g.n(100, 1500); k++ { // any byte changed
			t := g.tx(1+g.Intn(2), 1+g.Intn(2))
			b := t.ser()
			for j := 0; j < 3; j++ {
				c := exact(b)
				c[g.Intn(len(c))] = byte(g.pickI(0, 1, 0xfc, 0xfd, 0xfe, 0xff, g.Intn(256)))
				parse("flip", c)
			}
		}
		parse("small", nil)
		for n := 1; n < 12; n++ {
			parse("small", make([]byte, n))
			parse("small", g.bytes(n))
		}
		for k := 0; k < g.n(20, 200); k++ { // parse what was built, edited and serialised
			g.newCase("history")
			g.do("tx_load", "id", "t", "b", H(g.tx(1+g.Intn(3), g.Intn(3)).ser()))
			g.do("tx_load", "id", "u", "b", H(g.tx(1+g.Intn(3), g.Intn(3)).ser()))
			g.do("tx_load", "id", "v", "b", H(g.tx(1, 1).ser()[:30]))
			g.do("tx_bytes", "id", "t")
			g.do("tx_edit", "id", "t", "f", "ver", "v", le32(9))
			g.do("tx_bytes", "id", "u")
			g.do("tx_bytes", "id", "t")
		}
		g.batch = 1
		for _, s := range []string{"01000000fe00000100(00*2686976)(00*5)", "0100000000fe01000100(00*589833)07000000", "01000000fe01000100(00*2686976)(00*5)", "0100000000fe01000100(00*589824)07000000"} {
			g.pure("huge", "tx_rt", "b", s)
		}
		if g.thorough {
			for _, c := range []int{65535, 65536} {
				t := gTx{ver: 1}
				for k := 0; k < c; k++ {
					t.outs = append(t.outs, gOut{uint64(k), nil})
				}
				g.pure("huge", "tx_rt", "b", H(t.ser()))
				g.pure("huge", "tx_rt", "b", H(t.ser()[:c*9]))
			}
		}
	}
}

// wider: a CompactSize form that may be wider than needed
func (g *G) wider(n uint64) []byte {
	w := []int{1, 3, 5, 9}[g.Intn(4)]
	if w < len(vi(n)) {
		w = 9
	}
	return viw(n, w)
}
