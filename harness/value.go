// Recorded form of values: see spec/LibPure.tla.  All byte strings, text and
// 32/64-bit numbers are hex strings (numbers little-endian).
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
)

type M = map[string]interface{}
type L = []interface{}
type Raw string // recorded as is
type U32 uint32
type U64 uint64

const longBytes = 2048

func hx(b []byte) string {
	if len(b) > longBytes {
		h := sha256.Sum256(b)
		return fmt.Sprintf("#%d:%s", len(b), hex.EncodeToString(h[:]))
	}
	return hex.EncodeToString(b)
}
func le32(v uint32) string {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, v)
	return hex.EncodeToString(b)
}
func le64(v uint64) string {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return hex.EncodeToString(b)
}

// unhx reads the recorded form, including run-length notation "61(00*3)62".
func unhx(s string) []byte {
	if !strings.ContainsRune(s, '(') {
		b, err := hex.DecodeString(s)
		if err != nil {
			panic(planError("bad hex in plan: " + s))
		}
		return b
	}
	var out []byte
	for len(s) > 0 {
		if s[0] == '(' {
			e := strings.IndexByte(s, ')')
			st := strings.IndexByte(s, '*')
			g := unhx(s[1:st])
			n, err := strconv.Atoi(s[st+1 : e])
			if err != nil {
				panic(planError("bad run in plan"))
			}
			for i := 0; i < n; i++ {
				out = append(out, g...)
			}
			s = s[e+1:]
		} else {
			e := strings.IndexByte(s, '(')
			if e < 0 {
				e = len(s)
			}
			out = append(out, unhx(s[:e])...)
			s = s[e:]
		}
	}
	return out
}

type planError string

func prevForm(s *script.Script) L {
	if s == nil {
		return L{}
	}
	return L{hx(*s)}
}
func scr(s *script.Script) string {
	if s == nil {
		return ""
	}
	return hx(*s)
}
func inForm(i *input.Input) interface{} {
	if i == nil {
		return "nil input"
	}
	return M{"txid": hx([]byte(i.PreviousTxID)), "vout": le32(i.PreviousTxOutIndex), "unl": scr(i.UnlockingScript),
		"seq": le32(i.SequenceNumber), "prev": prevForm(i.PreviousTxScript), "sat": le64(i.PreviousTxSatoshis)}
}
func outForm(o *output.Output) interface{} {
	if o == nil {
		return "nil output"
	}
	return M{"sat": le64(o.Satoshis), "lock": scr(o.LockingScript)}
}
func txForm(t *transaction.Transaction) interface{} {
	if t == nil {
		return "nil transaction"
	}
	ins, outs := L{}, L{}
	for _, i := range t.Inputs {
		ins = append(ins, inForm(i))
	}
	for _, o := range t.Outputs {
		outs = append(outs, outForm(o))
	}
	return M{"ver": le32(t.Version), "lt": le32(t.Locktime), "ins": ins, "outs": outs}
}
func rsForm(r *script.RedeemScript) interface{} {
	if r == nil {
		return "nil redeem script"
	}
	var k []string
	for _, p := range r.PublicKeys {
		k = append(k, string(p))
	}
	sort.Strings(k)
	keys := L{}
	for _, p := range k {
		keys = append(keys, hx([]byte(p)))
	}
	return M{"m": r.SignaturesRequired, "keys": keys}
}

// render gives the recorded form of a live value as it is now.
func render(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return ""
	case Raw:
		return string(x)
	case bool, int:
		return x
	case []byte:
		return hx(x)
	case [32]byte:
		return hx(x[:])
	case string:
		return hx([]byte(x))
	case U32:
		return le32(uint32(x))
	case U64:
		return le64(uint64(x))
	case float64:
		b := make([]byte, 8)
		binary.BigEndian.PutUint64(b, math.Float64bits(x))
		return hex.EncodeToString(b)
	case [][]byte:
		l := L{}
		for _, e := range x {
			l = append(l, hx(e))
		}
		return l
	case []string:
		l := L{}
		for _, e := range x {
			l = append(l, hx([]byte(e)))
		}
		return l
	case L:
		l := L{}
		for _, e := range x {
			l = append(l, render(e))
		}
		return l
	case M:
		m := M{}
		for k, e := range x {
			m[k] = render(e)
		}
		return m
	case *transaction.Transaction:
		return txForm(x)
	case *input.Input:
		return inForm(x)
	case *output.Output:
		return outForm(x)
	case *script.Script:
		return scr(x)
	case *script.RedeemScript:
		return rsForm(x)
	case *address.Address:
		if x == nil {
			return "nil address"
		}
		return M{"addr": hx([]byte(x.AddressString)), "pkh": hx([]byte(x.PublicKeyHash))}
	case *big.Int:
		if x == nil {
			return "nil int"
		}
		return M{"neg": x.Sign() < 0, "mag": hx(x.Bytes())}
	case *Buf:
		return x.render()
	case *ListBuf:
		return x.render()
	case *TextBuf:
		return x.render()
	case *Args:
		return x.render()
	}
	panic(planError(fmt.Sprintf("cannot render %T", v)))
}

// ---- live arguments: buffers with guarded spare capacity --------------------

const spare = 24
const guard = 0xA5

type Buf struct {
	full []byte
	n    int
}

func newBuf(b []byte) *Buf {
	f := make([]byte, len(b)+spare)
	copy(f, b)
	for i := len(b); i < len(f); i++ {
		f[i] = guard
	}
	return &Buf{f, len(b)}
}
func (b *Buf) slice() []byte { return b.full[:b.n] }
func (b *Buf) render() interface{} {
	for _, c := range b.full[b.n:] {
		if c != guard {
			return "spare capacity overwritten: " + hex.EncodeToString(b.full[b.n:])
		}
	}
	return hx(b.full[:b.n])
}
func (b *Buf) scribble() {
	for i := range b.full[:b.n] {
		b.full[i] ^= 0x5a
	}
}

type ListBuf struct {
	full [][]byte
	bufs []*Buf
}

func newListBuf(l [][]byte) *ListBuf {
	x := &ListBuf{full: make([][]byte, len(l)+2)}
	for i, b := range l {
		bb := newBuf(b)
		x.bufs = append(x.bufs, bb)
		x.full[i] = bb.slice()
	}
	return x
}
func (x *ListBuf) slice() [][]byte { return x.full[:len(x.bufs)] }
func (x *ListBuf) render() interface{} {
	l := L{}
	for i, b := range x.bufs {
		r := b.render()
		if len(x.full[i]) != b.n || (b.n > 0 && &x.full[i][0] != &b.full[0]) {
			r = fmt.Sprintf("list element replaced: %x", x.full[i])
		}
		l = append(l, r)
	}
	if x.full[len(x.bufs)] != nil || x.full[len(x.bufs)+1] != nil {
		l = append(l, "list overrun")
	}
	return l
}

type TextBuf struct {
	full []string
	n    int
}

func newTextBuf(l []string) *TextBuf {
	x := &TextBuf{make([]string, len(l)+2), len(l)}
	copy(x.full, l)
	return x
}
func (x *TextBuf) slice() []string { return x.full[:x.n] }
func (x *TextBuf) render() interface{} {
	l := L{}
	for _, s := range x.full[:x.n] {
		l = append(l, hx([]byte(s)))
	}
	if x.full[x.n] != "" || x.full[x.n+1] != "" {
		l = append(l, "list overrun")
	}
	return l
}
