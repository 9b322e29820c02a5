package main

func init() {
	gens["C04"] = func(g *G) {
		vals := append([]uint64{}, u64s...)
		for i := 0; i < g.n(300, 4000); i++ {
			vals = append(vals, g.u64v())
		}
		for k := uint(0); k < 64; k++ {
			vals = append(vals, 1<<k, 1<<k-1, 1<<k+1)
		}
		if g.thorough {
			for i := uint64(0); i < 1100; i++ {
				vals = append(vals, i, 65536-550+i)
			}
		}
		for _, v := range vals {
			g.pure("enc", "varint_enc", "u", le64(v))
			for _, w := range []int{1, 3, 5, 9} {
				if (w == 1 && v >= 253) || (w == 3 && v >= 1<<16) || (w == 5 && v >= 1<<32) {
					continue
				}
				if w > len(vi(v)) && g.chance(0.5) {
					continue
				}
				e := viw(v, w)
				g.pure("dec", "varint_dec", "b", H(cat(e, g.bytes(g.pickI(0, 0, 1, 2, 9)))))
			}
		}
		// every first byte, every length up to 10
		for c := 0; c < 256; c++ {
			for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9} {
				if c < 253 && n > 1 && c%17 != 0 {
					continue
				}
				g.pure("first", "varint_dec", "b", H(cat([]byte{byte(c)}, g.bytes(n))))
			}
		}
		g.pure("first", "varint_dec", "b", "")
	}
}
