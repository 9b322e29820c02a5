package main

import (
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"math/big"

	"github.com/bitcoinsv/bsvd/bsvec"
)

// Inputs whose hashes, keys and signatures have rare forms: zero bytes at either end, short integers.
// They are found by trial.

// until: tries f, at most n times, until it says yes
func (g *G) until(n int, f func() bool) bool {
	for i := 0; i < n; i++ {
		if f() {
			return true
		}
	}
	return false
}

// edges: b begins (or ends) with n bytes of value v
func edges(b []byte, n int, v byte, end bool) bool {
	for i := 0; i < n; i++ {
		k := i
		if end {
			k = len(b) - 1 - i
		}
		if b[k] != v {
			return false
		}
	}
	return true
}

// digest01: what input i of t signs with ALL|FORKID
func (t gTx) digest01(i int) []byte {
	var ops, seqs, outs []byte
	at := func(i gIn) []byte { b, _ := hex.DecodeString(i.txid); return cat(rev(b), b32(i.vout)) }
	for _, i := range t.ins {
		ops = append(ops, at(i)...)
		seqs = append(seqs, b32(i.seq)...)
	}
	for _, o := range t.outs {
		outs = append(outs, o.ser(vi)...)
	}
	in := t.ins[i]
	return sha2(cat(b32(t.ver), sha2(ops), sha2(seqs), at(in), vi(uint64(len(in.prev))), in.prev, b64(in.sat), b32(in.seq), sha2(outs), b32(t.lt), b32(0x41)))
}

// childPub: BIP32 child number i of public key and chain code
func childPub(pub, chain []byte, i uint32) (p, c []byte) {
	h := hmac.New(sha512.New, chain)
	n := make([]byte, 4)
	binary.BigEndian.PutUint32(n, i)
	h.Write(cat(pub, n))
	s := h.Sum(nil)
	k, err := bsvec.ParsePubKey(pub, bsvec.S256())
	if err != nil {
		return nil, nil
	}
	x, y := bsvec.S256().ScalarBaseMult(s[:32])
	x, y = bsvec.S256().Add(k.X, k.Y, x, y)
	q := bsvec.PublicKey{Curve: bsvec.S256(), X: x, Y: y}
	return q.SerializeCompressed(), s[32:]
}

// lock times for which the signature of shortTx is short: r or s of 30 bytes or less
var shortLts = []uint32{3481, 26096, 1154519, 1068506}

func shortTx(lt uint32) gTx {
	id := hex.EncodeToString([]byte("\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11\x11"))
	return gTx{ver: 1, ins: []gIn{{txid: id, seq: 0xffffffff, prev: p2pkh(keys[0].pkh), sat: 1}}, outs: []gOut{{1, []byte{0x51}}}, lt: lt}
}

var rares = map[string]func(g *G){}

func init() {
	type edge struct {
		n   int
		v   byte
		end bool
	}
	all := []edge{{1, 0, false}, {1, 0, true}, {2, 0, false}, {2, 0, true}, {1, 0xff, false}, {1, 0xff, true}}
	rares["C01"] = func(g *G) { // transaction ids
		for _, e := range all {
			t := g.tx(1, 1)
			if g.until(1<<19, func() bool { t.lt = g.Uint32(); return edges(sha2(t.ser()), e.n, e.v, e.end) }) {
				g.pure("rare", "tx_ser", "tx", t.form())
			}
		}
	}
	rares["C09"] = func(g *G) { // digests
		for _, e := range all {
			t := g.sigTx(2, 2)
			if g.until(1<<19, func() bool { t.lt = g.Uint32(); return edges(t.digest01(1), e.n, e.v, e.end) }) {
				g.pure("rare", "sighash", "tx", t.form(), "i", 1, "f", 0x41)
			}
		}
	}
	sign := func(g *G) { // signatures over such digests, and short ones
		one := func(t gTx, i int) {
			g.newCase("rare")
			g.do("tx_make", "id", "t", "tx", t.form())
			g.do("signer", "id", "s", "key", H(keys[0].priv), "flag", 0x41)
			if g.chance(0.5) {
				g.do("tx_signauto", "id", "t", "signer", "s")
			} else {
				g.do("tx_sign", "id", "t", "signer", "s", "i", i)
			}
		}
		for _, e := range all {
			t := gTx{ver: 1, ins: []gIn{{txid: g.txid(), prev: p2pkh(keys[0].pkh)}}, outs: []gOut{g.smallOut()}}
			if g.until(1<<19, func() bool { t.lt = g.Uint32(); return edges(t.digest01(0), e.n, e.v, e.end) }) {
				one(t, 0)
			}
		}
		for _, lt := range shortLts {
			one(shortTx(lt), 0)
		}
		priv, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), keys[0].priv)
		for k := 0; k < g.n(3, 20); k++ { // r or s of 31 bytes
			t := gTx{ver: 1, ins: []gIn{{txid: g.txid(), prev: p2pkh(keys[0].pkh)}}, outs: []gOut{g.smallOut()}}
			if g.until(2000, func() bool {
				t.lt = g.Uint32()
				s, err := priv.Sign(t.digest01(0))
				return err == nil && (k%2 == 0 && len(s.R.Bytes()) < 32 || k%2 == 1 && len(s.S.Bytes()) < 32)
			}) {
				one(t, 0)
			}
		}
	}
	rares["C11"], rares["C12"] = sign, sign
	rares["C14"] = func(g *G) { // leaves, nodes and roots with zero bytes
		for _, e := range all {
			l := []string{g.txid(), g.txid(), g.txid()}
			if g.until(1<<19, func() bool {
				l[1] = g.txid()
				a, _ := hex.DecodeString(l[0])
				b, _ := hex.DecodeString(l[1])
				return edges(sha2(cat(rev(a), rev(b))), e.n, e.v, e.end)
			}) {
				g.pure("rare", "merkle_all", "l", TL(l))
				g.pure("rare", "merkle_br", "l", TL([]string{l[2], l[2], l[0], l[1]}))
				g.pure("rare", "merkle_all", "l", TL(l[:2]))
			}
			z := make([]byte, 32)
			g.Read(z[e.n : 32-e.n])
			for k := 0; k < 3; k++ {
				m := []string{g.txid(), g.txid(), g.txid(), g.txid()}
				m[k] = hex.EncodeToString(z)
				g.pure("rare", "merkle_br", "l", TL(m))
				g.pure("rare", "merkle_all", "l", TL(m))
			}
		}
	}
	rares["C18"] = func(g *G) { // key hashes and checksums
		for _, e := range append([]edge{{3, 0, false}}, all...) {
			p := cat([]byte{2}, g.bytes(32))
			if g.until(1<<21, func() bool {
				binary.BigEndian.PutUint32(p[5:], g.Uint32())
				return edges(hash160(p), minI(e.n, 2), e.v, e.end)
			}) {
				g.pure("rare", "addr_pub", "t", HH(p), "main", g.chance(0.5))
				g.pure("rare", "addr_pub", "t", HH(p), "main", true)
			}
			for _, v := range []byte{0, 0x6f} {
				b := cat([]byte{v}, g.pkh())
				if g.until(1<<20, func() bool {
					binary.BigEndian.PutUint32(b[15:], g.Uint32())
					return edges(sha2(b)[:4], minI(e.n, 2), e.v, e.end)
				}) {
					a := base58check(b)
					g.pure("rare", "addr_pkh", "h", H(b[1:]), "main", v == 0)
					g.pure("rare", "addr_parse", "t", T(a))
					g.pure("rare", "addr_valid", "t", T(a))
					c := sha2(b)[:4]
					for i := 0; i < 4; i++ {
						d := exact(c)
						d[i] ^= 1
						bad := base58(cat(b, d))
						g.pure("rare", "addr_parse", "t", T(bad))
						g.pure("rare", "addr_valid", "t", T(bad))
					}
				}
			}
		}
		// private keys with zero bytes in front, and whose public keys have them
		for z := 1; z < 32; z += 5 {
			k := g.bytes(32)
			for i := 0; i < z; i++ {
				k[i] = 0
			}
			k[31] |= 1
			g.pure("rare", "addr_key", "priv", H(k), "main", true)
		}
		for j := 0; j < 3; j++ {
			var k key
			if g.until(3000, func() bool { k = mkKey(g.bytes(32)); return k.pub[1] == 0 || j == 1 && k.pubU[33] == 0 }) {
				g.pure("rare", "addr_key", "priv", H(k.priv), "main", true)
				g.pure("rare", "addr_pub", "t", HH(k.pub), "main", true)
				g.pure("rare", "addr_pub", "t", HH(k.pubU), "main", false)
			}
		}
		// texts of an address plus a multiple of 2^200, with and without its leading 1s
		read := func(t string) {
			g.pure("rare", "addr_parse", "t", H([]byte(t)))
			g.pure("rare", "addr_valid", "t", H([]byte(t)))
		}
		for k := 0; k < g.n(6, 60); k++ {
			v := byte(k % 2 * 0x6f)
			b := cat([]byte{v}, g.pkh())
			b = cat(b, sha2(b)[:4])
			for _, m := range []int64{1, 2, 3, 57, 58, 59, 255, 256, 257, int64(g.Intn(1 << 30))} {
				x := new(big.Int).SetBytes(b)
				x.Add(x, new(big.Int).Lsh(big.NewInt(m), 200))
				t := base58(x.Bytes())
				read(t)
				if v == 0 {
					read("1" + t)
				}
			}
		}
		// texts with a letter outside the alphabet, which mean an address when that letter stands for the digit d
		for k := 0; k < g.n(3, 30); k++ {
			for _, d := range []int64{-1, 0, 58, 59, 128, 254, 255, 256} {
				v := byte((k + int(d)) & 1 * 0x6f)
				g.until(400, func() bool {
					b := cat([]byte{v}, g.pkh())
					b = cat(b, sha2(b)[:4])
					n := len(base58(b))
					p := g.Intn(minI(n-2, 31)) // counted from the last
					if g.chance(0.2) {
						p = 0
					}
					x := new(big.Int).Exp(big.NewInt(58), big.NewInt(int64(p)), nil)
					x.Sub(new(big.Int).SetBytes(b), x.Mul(x, big.NewInt(d)))
					if x.Sign() < 0 {
						return false
					}
					t := []byte(base58(cat(make([]byte, 1-minI(1, int(v))), x.Bytes())))
					if len(t) <= p+1 || t[len(t)-1-p] != '1' {
						return false
					}
					for _, c := range []byte("0OIl \x00\x7f\x80\xff") {
						t[len(t)-1-p] = c
						read(string(t))
					}
					return true
				})
			}
		}
	}
	rares["C20"] = func(g *G) { // derived keys with zero bytes, and ones that agree in their first bytes
		for k := 0; k < g.n(4, 30); k++ {
			x := g.xkey(false, 1)
			i := g.idx() & 0xffff
			p, c := childPub(x[45:], x[13:45], i)
			if p == nil || edges(x[:4], 1, 0xff, false) {
				continue
			}
			first := map[string]uint32{}
			var zero, a, b uint32
			var haveZ, haveP bool
			for j := uint32(0); j < 1500 && !(haveZ && haveP); j++ {
				q, _ := childPub(p, c, j)
				if q[1] == 0 && !haveZ {
					zero, haveZ = j, true
				}
				s := string(q[:3])
				if o, is := first[s]; is && !haveP {
					a, b, haveP = o, j, true
				}
				first[s] = j
			}
			for _, js := range [][]uint32{{zero, a, b}, {b, a, zero}, {a, zero, b}} {
				g.newCase("rare")
				g.do("rs_new", "id", "r", "m", 2)
				for _, j := range js {
					g.do("rs_add", "id", "r", "xk", T(base58check(x)), "path", pathForm(i, j))
				}
				g.do("rs_script", "id", "r")
				g.do("rs_addr", "id", "r")
			}
			var ks [][]byte // the same through Electrum scripts
			for _, j := range []uint32{a, zero, b} {
				ks = append(ks, cat([]byte{0xff}, x, b32(i)[:2], b32(j)[:2]))
			}
			s := electrumScript(2, 3, ks)
			g.pure("rare", "electrum", "t", HH(s))
		}
	}
	rares["C23"] = func(g *G) {
		for _, e := range all {
			b := g.bytes(1 + g.Intn(60))
			for _, f := range []func([]byte) []byte{sha, sha2, hash160} {
				c := exact(b)
				if g.until(1<<19, func() bool { c = cat(b, b32(g.Uint32())); return edges(f(c), e.n, e.v, e.end) }) {
					g.pure("rare", "hash", "b", H(c))
				}
			}
		}
	}
}
