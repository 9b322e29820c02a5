package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"
	"golang.org/x/crypto/ripemd160"
)

// G generates plans.  Nothing here calls the library under test.
type G struct {
	*rand.Rand
	cases    []*Case
	cur      *Case
	thorough bool
	batch    int
	batches  map[string]*Case
}

var gens = map[string]func(g *G){}

func genPlan(prop string, seed int64, tier, out string) {
	f, ok := gens[prop]
	if !ok {
		fatal("no generator for %s", prop)
	}
	h := int64(0)
	for _, c := range prop {
		h = h*31 + int64(c)
	}
	g := &G{Rand: rand.New(rand.NewSource(seed*1000003 + h)), thorough: tier == "thorough", batch: 12, batches: map[string]*Case{}}
	f(g)
	if r := rares[prop]; r != nil {
		r(g)
	}
	if d := denses[prop]; d != nil {
		g.batch = 12
		d(g)
	}
	if m := means[prop]; m != nil {
		g.batch = 12
		m(g)
	}
	if b := biggers[prop]; b != nil {
		g.batch = 1
		b(g)
		g.batch = 12
	}
	if prop == "C03" {
		g.others(seed, tier)
	} else if prop != "C22" {
		g.again()
	}
	w, err := os.Create(out)
	if err != nil {
		fatal("%v", err)
	}
	b := bufio.NewWriterSize(w, 1<<20)
	for i, c := range g.cases {
		if len(c.Ev) == 0 {
			continue
		}
		c.Case = i + 1
		j, err := json.Marshal(c)
		if err != nil {
			fatal("%v", err)
		}
		b.Write(j)
		b.WriteByte('\n')
	}
	b.Flush()
	w.Close()
}

// others: the calls of every other property, of which only "returns" is asked here
func (g *G) others(seed int64, tier string) {
	var props []string
	for p := range gens {
		if p != "C03" && p != "C22" {
			props = append(props, p)
		}
	}
	sort.Strings(props)
	for n, p := range props {
		o := &G{Rand: rand.New(rand.NewSource(seed*999983 + int64(n))), thorough: tier == "thorough", batch: 12, batches: map[string]*Case{}}
		gens[p](o)
		if d := denses[p]; d != nil {
			o.batch = 12
			d(o)
		}
		if m := means[p]; m != nil {
			o.batch = 12
			m(o)
		}
		for _, c := range o.cases {
			c.Mode = "alive"
			for k, e := range c.Ev {
				if e.Op == "seal_proc" || e.Op == "iv_stats" {
					c.Ev = c.Ev[:k]
					break
				}
			}
			g.cases = append(g.cases, c)
		}
	}
}

// again: earlier calls repeated in other company: a call, another of the same operation, one with an argument
// from each, the first once more.  A result depends on the arguments only, whatever was called before.
func (g *G) again() {
	byOp := map[string][]M{}
	var names []string
	for _, c := range g.cases {
		if c.Tag == "huge" || c.Tag == "count" || c.Tag == "dense" {
			continue // slow ones
		}
		for _, e := range c.Ev {
			if _, is := ops[e.Op]; !is {
				continue
			}
			if j, err := json.Marshal(e.A); err != nil || len(j) > 600 {
				continue
			}
			if byOp[e.Op] == nil {
				names = append(names, e.Op)
			}
			byOp[e.Op] = append(byOp[e.Op], e.A)
		}
	}
	sort.Strings(names)
	for _, op := range names {
		l := byOp[op]
		for k := 0; k < g.n(40, 600) && k < 3*len(l); k++ {
			a, b := l[g.Intn(len(l))], l[g.Intn(len(l))]
			g.newCase("again")
			put := func(m M) { // arguments are resolved in place when executed
				c := M{}
				for f, v := range m {
					c[f] = v
				}
				g.cur.Ev = append(g.cur.Ev, &Event{Op: op, A: c, Ch: L{}})
			}
			put(a)
			put(b)
			if s := g.splice(op, a, b); s != nil {
				put(s)
			}
			put(a)
			put(a)
			for j := 0; j < 2; j++ {
				if s := g.near(op, a); s != nil {
					put(s)
					put(a)
				}
			}
		}
	}
}

// nearFields: arguments of which one byte may change to any other (bytes), or one digit to another (text)
var nearBytes = map[string]string{"hash": "b", "rev": "b", "c_pub": "b", "tx_parse": "b", "tx_rt": "b", "in_parse": "b", "out_parse": "b", "push_dec": "b", "asm_to": "b", "classify": "b",
	"script_hex": "b", "varint_enc": "u", "addr_pkh": "h", "eq": "x", "seal_rt": "b", "push_prefix": "d", "unlock": "sig", "b58cm": "b", "bip_enc": "d", "tx_clear": "s", "le": "v", "merkle_cb": "h",
	"coinbase": "text", "coinbase_join": "c2", "header": "root", "o_puzzle": "secret"}
var nearText = map[string]string{"c_pkh": "t", "c_pubstr": "t", "addr_pub": "t", "addr_parse": "t", "addr_valid": "t", "bip_dec": "t", "electrum": "t", "tgt_hex": "t", "tgt_int": "t", "dec32": "t",
	"tx_parse_str": "t", "push_dec_str": "t", "script_fromhex": "t", "asm_from": "t", "merkle_proof": "t", "revhex": "t", "c_addr": "t", "o_addr": "t", "o_pkh": "t"}
var nearList = map[string]bool{"push_enc": true, "sort": true, "o_data": true, "merkle_br": false, "merkle_all": false}

// near: a with one byte or digit changed, all lengths as before
func (g *G) near(op string, a M) M {
	flip := func(h string) (string, bool) {
		b, err := hex.DecodeString(h)
		if err != nil || len(b) == 0 {
			return h, false
		}
		i := g.Intn(len(b))
		b[i] ^= byte(1 << uint(g.Intn(8)))
		return hex.EncodeToString(b), true
	}
	digit := func(h string) (string, bool) {
		b, err := hex.DecodeString(h)
		if err != nil {
			return h, false
		}
		for k := 0; k < 20 && len(b) > 0; k++ {
			i := g.Intn(len(b))
			if b[i] >= '0' && b[i] <= '9' {
				c := byte('1' + g.Intn(9))
				if c != b[i] {
					b[i] = c
					return hex.EncodeToString(b), true
				}
			}
		}
		return h, false
	}
	c := M{}
	for x, v := range a {
		c[x] = v
	}
	ok := false
	if f, is := nearBytes[op]; is {
		c[f], ok = flip(a[f].(string))
	} else if f, is := nearText[op]; is {
		c[f], ok = digit(a[f].(string))
	} else if asBytes, is := nearList[op]; is {
		l := append(L{}, a["l"].(L)...)
		if len(l) == 0 {
			return nil
		}
		i := g.Intn(len(l))
		if asBytes {
			l[i], ok = flip(l[i].(string))
		} else {
			l[i], ok = digit(l[i].(string))
		}
		c["l"] = l
	} else if op == "sighash" {
		c["f"], ok = (a["f"].(int)^(1<<uint(g.Intn(8))))&255, true
	}
	if !ok {
		return nil
	}
	return c
}

// splice: a with one argument as in b
func (g *G) splice(op string, a, b M) M {
	switch op {
	case "coinbase", "coinbase_join", "sighash", "tx_clear", "header", "bip_enc", "eq", "o_pkh", "o_addr", "unlock", "merkle_cb", "addr_pkh", "addr_pub", "addr_key", "c_pub", "seal_rt", "unseal_raw":
	default:
		return nil // arguments that belong together
	}
	var fs []string
	for f := range a {
		if _, is := b[f]; is {
			fs = append(fs, f)
		}
	}
	if len(fs) < 2 {
		return nil
	}
	sort.Strings(fs)
	f := fs[g.Intn(len(fs))]
	if op == "coinbase" && (f == "e1" || f == "e2") {
		return nil
	}
	c := M{}
	for x, v := range a {
		c[x] = v
	}
	c[f] = b[f]
	return c
}

// ---- building cases ----
func (g *G) newCase(tag string) *Case {
	g.cur = &Case{Tag: tag}
	g.cases = append(g.cases, g.cur)
	return g.cur
}
func (g *G) do(op string, kv ...interface{}) int {
	a := M{}
	for i := 0; i < len(kv); i += 2 {
		a[kv[i].(string)] = kv[i+1]
	}
	if (op == "s_push" || op == "s_pushs") && (g.cur.Tag == "dense" || g.cur.Tag == "mean") && g.chance(0.5) {
		a["str"] = true
	}
	g.cur.Ev = append(g.cur.Ev, &Event{Op: op, A: a, Ch: L{}})
	return len(g.cur.Ev) - 1
}

// pure adds a call without state to a batch of such calls
func (g *G) pure(tag, op string, kv ...interface{}) {
	c := g.batches[tag]
	if c == nil || len(c.Ev) >= g.batch {
		c = &Case{Tag: tag}
		g.batches[tag] = c
		g.cases = append(g.cases, c)
	}
	s := g.cur
	g.cur = c
	k := g.do(op, kv...)
	if l, is := c.Ev[k].A["l"].(L); is && op == "o_data" && len(l) == 1 && c.Ev[k].A["one"] == nil { // and by the other function
		g.do(op, "l", l, "one", true)
	}
	g.cur = s
}
func (g *G) n(quick, thorough int) int {
	if g.thorough {
		return thorough
	}
	if q := quick * 5 / 2; quick >= 20 && q <= thorough {
		return q
	}
	return quick
}

// ---- recorded forms ----
func H(b []byte) string { // run-length for long runs
	if len(b) < 120 {
		return hex.EncodeToString(b)
	}
	out := make([]byte, 0, 256)
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] == b[i] {
			j++
		}
		if j-i >= 24 {
			out = append(out, '(')
			out = append(out, hex.EncodeToString(b[i:i+1])...)
			out = append(out, '*')
			out = append(out, strconv.Itoa(j-i)...)
			out = append(out, ')')
		} else {
			out = append(out, hex.EncodeToString(b[i:j])...)
		}
		i = j
	}
	return string(out)
}
func T(s string) string { return H([]byte(s)) }
func HL(l [][]byte) L {
	r := L{}
	for _, b := range l {
		r = append(r, H(b))
	}
	return r
}
func TL(l []string) L {
	r := L{}
	for _, b := range l {
		r = append(r, T(b))
	}
	return r
}
func HH(b []byte) string { return T(hex.EncodeToString(b)) } // text of hex

// ---- random material ----
func (g *G) bytes(n int) []byte { b := make([]byte, n); g.Read(b); return b }

// filler: n bytes, mostly runs for long ones, so that plans stay small
func (g *G) filler(n int) []byte {
	if n <= 100 {
		return g.bytes(n)
	}
	b := make([]byte, n)
	c := byte(g.Intn(256))
	for i := range b {
		b[i] = c
	}
	copy(b, g.bytes(8))
	copy(b[n-8:], g.bytes(8))
	copy(b[n/2:], g.bytes(4))
	return b
}

// texts that something could mistake for something else
var freeTexts = []string{"", "0", "00", "beef", "BEEF", "cafebabe", "0x12", "12", "123", " ", " a", "a ", "\n", "a\n", "\t", "\x00", "a\x00", "é", "日本", "\xff", "%s", "%d%%", "\\", "\"", "'", "OP_RETURN", "OP_0",
	"secret", "1", "-1", "true", "null", "Zm9v", "Zm9vYmE=", "1BoatSLRHtKNngkdXEeobR76b53LETtpyT", "bitcoin-script:0101", "76a914", "6a", "a b", "A", "a", "deadbeefdeadbeefdeadbeefdeadbeefdeadbeef",
	"/mined/", "m/0/1", "<", "&", "+", "\r\n", "\u202e", "\ufeff", "ß", "İ", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"}

func (g *G) free() []byte {
	if g.chance(0.7) {
		return []byte(freeTexts[g.Intn(len(freeTexts))])
	}
	b := []byte(freeTexts[g.Intn(len(freeTexts))])
	b = append(b, freeTexts[g.Intn(len(freeTexts))]...)
	return b
}
func (g *G) chance(p float64) bool { return g.Float64() < p }
func (g *G) pickI(l ...int) int    { return l[g.Intn(len(l))] }
func (g *G) u32v() uint32 {
	switch g.Intn(4) {
	case 0:
		return []uint32{0, 1, 2, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}[g.Intn(11)]
	case 1:
		return uint32(g.Intn(300))
	default:
		return g.Uint32()
	}
}

var u64s = []uint64{0, 1, 252, 253, 254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537, 1<<24 - 1, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1,
	1<<40 + 7, 1<<48 - 1, 1<<53 - 1, 1 << 53, 1<<53 + 1, 1<<56 + 9, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 2, 1<<64 - 1, 2100000000000000, 0x0102030405060708, 0xfd, 0xfe, 0xfdfd, 0xfefefefe}

func (g *G) u64v() uint64 {
	switch g.Intn(5) {
	case 0, 1:
		return u64s[g.Intn(len(u64s))]
	case 2:
		return uint64(g.Intn(100000))
	case 3:
		return g.Uint64() >> uint(g.Intn(64))
	default:
		return g.Uint64()
	}
}
func (g *G) txid() string {
	b := g.bytes(32)
	switch {
	case !g.chance(0.08):
	case g.chance(0.5):
		v := byte(g.pickI(0, 0, 0, 1, 0xff))
		for i := range b {
			b[i] = v
		}
		if g.chance(0.5) {
			b[g.pickI(0, 31)] = byte(g.pickI(0, 1, 0x80, 0xff))
		}
	default: // zeros at one end
		z := 1 + g.Intn(31)
		copy(b[g.pickI(0, 32-z):], make([]byte, z))
	}
	return hex.EncodeToString(b)
}

func sha(b []byte) []byte     { h := sha256.Sum256(b); return h[:] }
func sha2(b []byte) []byte    { return sha(sha(b)) }
func hash160(b []byte) []byte { r := ripemd160.New(); r.Write(sha(b)); return r.Sum(nil) }

type key struct {
	priv, pub, pubU, pkh []byte
}

func mkKey(priv []byte) key {
	_, p := bsvec.PrivKeyFromBytes(bsvec.S256(), priv)
	c := p.SerializeCompressed()
	return key{priv, c, p.SerializeUncompressed(), hash160(c)}
}

var keys []key

func init() {
	for i := 0; i < 4; i++ {
		keys = append(keys, mkKey(sha([]byte{byte(i), 'k'})))
	}
	one := make([]byte, 32)
	one[31] = 1
	keys = append(keys, mkKey(one))
	// a key with a leading zero byte in its private key
	z := sha([]byte("zz"))
	z[0] = 0
	keys = append(keys, mkKey(z))
}
func (g *G) key() key {
	if g.chance(0.8) {
		return keys[g.Intn(len(keys))]
	}
	return mkKey(g.bytes(32))
}

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

func base58(b []byte) string {
	x := new(big.Int).SetBytes(b)
	var out []byte
	m := new(big.Int)
	for x.Sign() > 0 {
		x.DivMod(x, big.NewInt(58), m)
		out = append(out, b58[m.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		out = append(out, '1')
	}
	return string(rev(out))
}
func base58check(b []byte) string { return base58(append(append([]byte{}, b...), sha2(b)[:4]...)) }
func addrOf(h []byte, main bool) string {
	v := byte(0)
	if !main {
		v = 0x6f
	}
	return base58check(append([]byte{v}, h...))
}
func (g *G) addr() string { return addrOf(g.pkh(), g.Intn(2) == 0) }
func (g *G) pkh() []byte {
	switch g.Intn(4) {
	case 0:
		return g.key().pkh
	case 1:
		h := g.bytes(20)
		for i := 0; i < 1+g.Intn(20); i++ {
			h[i] = 0
		}
		return h
	}
	return g.bytes(20)
}
func cat(bs ...[]byte) []byte {
	r := []byte{}
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}
func pushPrefix(n int) []byte {
	switch {
	case n <= 75:
		return []byte{byte(n)}
	case n <= 255:
		return []byte{0x4c, byte(n)}
	case n <= 65535:
		return []byte{0x4d, byte(n), byte(n >> 8)}
	}
	b := []byte{0x4e, 0, 0, 0, 0}
	binary.LittleEndian.PutUint32(b[1:], uint32(n))
	return b
}
func push(d []byte) []byte  { return cat(pushPrefix(len(d)), d) }
func p2pkh(h []byte) []byte { return cat([]byte{0x76, 0xa9, 20}, h, []byte{0x88, 0xac}) }

var lens = []int{0, 1, 2, 74, 75, 76, 77, 252, 253, 254, 255, 256, 257}
var bigLens = []int{65532, 65533, 65534, 65535, 65536, 65537, 70000}

func (g *G) script() []byte {
	switch g.Intn(10) {
	case 0:
		return []byte{}
	case 1, 2:
		return p2pkh(g.pkh())
	case 3:
		return g.filler(lens[g.Intn(len(lens))])
	case 4:
		return cat([]byte{0, 0x6a}, push(g.bytes(g.Intn(90))))
	case 5:
		return cat([]byte{0xa9, 20}, g.bytes(20), []byte{0x87})
	case 6:
		if g.chance(0.1) {
			return g.filler(bigLens[g.Intn(len(bigLens))])
		}
		return g.bytes(g.Intn(40))
	default:
		return g.bytes(g.Intn(60))
	}
}

// ---- transactions ----
type gIn struct {
	txid      string
	vout, seq uint32
	unl       []byte
	nilUnl    bool
	prev      []byte // nil: none
	sat       uint64
}
type gOut struct {
	sat  uint64
	lock []byte
}
type gTx struct {
	ver, lt uint32
	ins     []gIn
	outs    []gOut
}

func vi(n uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	switch {
	case n < 0xfd:
		return b[:1]
	case n < 1<<16:
		return cat([]byte{0xfd}, b[:2])
	case n < 1<<32:
		return cat([]byte{0xfe}, b[:4])
	}
	return cat([]byte{0xff}, b)
}

// viw encodes n in a form of w bytes (1, 3, 5, 9), not necessarily minimal
func viw(n uint64, w int) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	switch w {
	case 1:
		return b[:1]
	case 3:
		return cat([]byte{0xfd}, b[:2])
	case 5:
		return cat([]byte{0xfe}, b[:4])
	}
	return cat([]byte{0xff}, b)
}
func b32(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func b64(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }
func (i gIn) ser(vif func(uint64) []byte) []byte {
	t, _ := hex.DecodeString(i.txid)
	return cat(rev(t), b32(i.vout), vif(uint64(len(i.unl))), i.unl, b32(i.seq))
}
func (o gOut) ser(vif func(uint64) []byte) []byte {
	return cat(b64(o.sat), vif(uint64(len(o.lock))), o.lock)
}
func (t gTx) serw(vif func(uint64) []byte) []byte {
	r := cat(b32(t.ver), vif(uint64(len(t.ins))))
	for _, i := range t.ins {
		r = append(r, i.ser(vif)...)
	}
	r = append(r, vif(uint64(len(t.outs)))...)
	for _, o := range t.outs {
		r = append(r, o.ser(vif)...)
	}
	return append(r, b32(t.lt)...)
}
func (t gTx) ser() []byte { return t.serw(vi) }
func (i gIn) form() M {
	p := L{}
	if i.prev != nil {
		p = append(p, H(i.prev))
	}
	m := M{"txid": T(i.txid), "vout": le32(i.vout), "unl": H(i.unl), "seq": le32(i.seq), "prev": p, "sat": le64(i.sat)}
	if i.nilUnl && len(i.unl) == 0 {
		m["nil"] = true
	}
	return m
}
func (o gOut) form() M { return M{"sat": le64(o.sat), "lock": H(o.lock)} }
func (t gTx) form() M {
	ins, outs := L{}, L{}
	for _, i := range t.ins {
		ins = append(ins, i.form())
	}
	for _, o := range t.outs {
		outs = append(outs, o.form())
	}
	return M{"ver": le32(t.ver), "lt": le32(t.lt), "ins": ins, "outs": outs}
}
func (g *G) in() gIn {
	i := gIn{txid: g.txid(), vout: g.u32v(), seq: g.u32v(), unl: g.script(), sat: g.u64v()}
	if g.chance(0.04) {
		i.txid = strings.ToUpper(i.txid)
	}
	if g.chance(0.25) {
		i.unl, i.nilUnl = nil, g.chance(0.5)
	}
	if g.chance(0.85) {
		i.prev = g.script()
		if i.prev == nil {
			i.prev = []byte{}
		}
	}
	return i
}
func (g *G) out() gOut { return gOut{g.u64v(), g.script()} }
func (g *G) tx(ni, no int) gTx {
	t := gTx{ver: g.u32v(), lt: g.u32v()}
	if g.chance(0.4) {
		t.ver = uint32(1 + g.Intn(2))
	}
	for k := 0; k < ni; k++ {
		t.ins = append(t.ins, g.in())
	}
	for k := 0; k < no; k++ {
		t.outs = append(t.outs, g.out())
	}
	if g.chance(0.3) {
		g.twist(&t)
	}
	return t
}

// twist: inputs and outputs that are special, or alike
func (g *G) twist(t *gTx) {
	if n := len(t.ins); n > 0 {
		a, b := &t.ins[g.Intn(n)], &t.ins[g.Intn(n)]
		switch g.Intn(9) {
		case 0: // as in a coinbase transaction
			a.txid, a.vout = strings.Repeat("0", 64), 0xffffffff
			if g.chance(0.5) {
				a.seq = 0xffffffff
			}
			if g.chance(0.5) {
				a.unl, a.nilUnl = g.bytes(g.pickI(1, 2, 3, 99, 100, 101, 150)), false
			}
		case 1:
			a.txid, a.vout = b.txid, b.vout
		case 2:
			*a = *b
		case 3:
			a.txid, a.vout = b.txid, b.vout^1
		case 4:
			x, _ := hex.DecodeString(b.txid)
			a.txid = hex.EncodeToString(rev(x))
		case 5:
			if a.prev != nil {
				a.unl = a.prev
			}
		case 6:
			a.prev, a.sat = b.prev, b.sat
		default:
			v := uint32(g.pickI(0, 0xffffffff, 0xfffffffe, 0xfffffffd))
			for i := range t.ins {
				t.ins[i].seq = v
			}
		}
	}
	if n := len(t.outs); n > 0 {
		a, b := &t.outs[g.Intn(n)], &t.outs[g.Intn(n)]
		switch g.Intn(7) {
		case 0:
			*a = gOut{1<<64 - 1, []byte{}}
		case 1:
			*a = gOut{0, []byte{}}
		case 2:
			*a = *b
		case 3:
			a.lock = b.lock
		case 4:
			for i := range t.outs {
				t.outs[i] = *a
			}
		case 5:
			if len(t.ins) > 0 && t.ins[0].prev != nil {
				a.lock = t.ins[0].prev
			}
		}
	}
}

// a transaction with many small inputs and outputs
func (g *G) wide(ni, no int) gTx {
	t := gTx{ver: 1, lt: g.u32v()}
	for k := 0; k < ni; k++ {
		t.ins = append(t.ins, gIn{txid: g.txid(), vout: uint32(k), seq: g.u32v(), prev: []byte{}})
	}
	for k := 0; k < no; k++ {
		t.outs = append(t.outs, gOut{uint64(k), g.bytes(k % 3)})
	}
	return t
}
