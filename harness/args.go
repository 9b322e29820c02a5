package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/big"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
)

// Args gives a call its arguments: from the recorded form, fresh and of exact
// size, or (live) as objects that stay and are looked at again after each call.
type Args struct {
	rec  M
	live bool
	obj  map[string]interface{} // live arguments by name
	bufs []*Buf                 // guarded buffers inside transactions
}

func newArgs(rec M, live bool) *Args {
	return &Args{rec: rec, live: live, obj: map[string]interface{}{}}
}

func (a *Args) has(n string) bool { _, ok := a.rec[n]; return ok }
func (a *Args) raw(n string) interface{} {
	v, ok := a.rec[n]
	if !ok {
		panic(planError("missing argument " + n))
	}
	return v
}
func (a *Args) str(n string) string {
	s, ok := a.raw(n).(string)
	if !ok {
		panic(planError("argument is not a string: " + n))
	}
	return s
}
func (a *Args) bytes(n string) []byte {
	if a.live {
		if _, ok := a.obj[n]; !ok {
			a.obj[n] = newBuf(unhx(a.str(n)))
		}
		return a.obj[n].(*Buf).slice()
	}
	return exact(unhx(a.str(n)))
}
func exact(b []byte) []byte { c := make([]byte, len(b)); copy(c, b); return c }

// opt is bytes, but nil when empty and the plan says so
func (a *Args) text(n string) string { return string(unhx(a.str(n))) }
func (a *Args) u32(n string) uint32 {
	b := unhx(a.str(n))
	if len(b) != 4 {
		panic(planError("u32 " + n))
	}
	return binary.LittleEndian.Uint32(b)
}
func (a *Args) u64(n string) uint64 {
	b := unhx(a.str(n))
	if len(b) != 8 {
		panic(planError("u64 " + n))
	}
	return binary.LittleEndian.Uint64(b)
}
func (a *Args) f64(n string) float64 {
	return math.Float64frombits(binary.BigEndian.Uint64(unhx(a.str(n))))
}
func num(v interface{}) int {
	switch x := v.(type) {
	case float64:
		return int(x)
	case int:
		return x
	}
	panic(planError(fmt.Sprintf("not a number: %v", v)))
}
func (a *Args) i(n string) int { return num(a.raw(n)) }
func (a *Args) times(n string) int {
	if !a.has(n) {
		return 1
	}
	return a.i(n)
}
func (a *Args) boolean(n string) bool { return a.raw(n).(bool) }
func (a *Args) list(n string) [][]byte {
	if a.live {
		if _, ok := a.obj[n]; !ok {
			a.obj[n] = newListBuf(toBytesList(a.raw(n)))
		}
		return a.obj[n].(*ListBuf).slice()
	}
	return toBytesList(a.raw(n))
}
func (a *Args) texts(n string) []string {
	if a.live {
		if _, ok := a.obj[n]; !ok {
			a.obj[n] = newTextBuf(toTextList(a.raw(n)))
		}
		return a.obj[n].(*TextBuf).slice()
	}
	return toTextList(a.raw(n))
}
func toBytesList(v interface{}) [][]byte {
	r := [][]byte{}
	for _, e := range v.(L) {
		r = append(r, exact(unhx(e.(string))))
	}
	return r
}
func toTextList(v interface{}) []string {
	r := []string{}
	for _, e := range v.(L) {
		r = append(r, string(unhx(e.(string))))
	}
	return r
}
func (a *Args) mkScript(s string) *script.Script {
	b := exact(unhx(s))
	if a.live {
		bb := newBuf(b)
		a.bufs = append(a.bufs, bb)
		b = bb.slice()
	}
	sc := script.Script(b)
	return &sc
}
func (a *Args) mkIn(v interface{}) *input.Input {
	m := &Args{rec: v.(M)}
	i := &input.Input{PreviousTxID: m.text("txid"), PreviousTxOutIndex: m.u32("vout"), PreviousTxSatoshis: m.u64("sat"), SequenceNumber: m.u32("seq")}
	if !m.has("nil") {
		i.UnlockingScript = a.mkScript(m.str("unl"))
	}
	if p := m.raw("prev").(L); len(p) > 0 {
		i.PreviousTxScript = a.mkScript(p[0].(string))
	}
	return i
}
func (a *Args) mkOut(v interface{}) *output.Output {
	m := &Args{rec: v.(M)}
	return &output.Output{Satoshis: m.u64("sat"), LockingScript: a.mkScript(m.str("lock"))}
}
func (a *Args) mkTx(v interface{}) *transaction.Transaction {
	m := &Args{rec: v.(M)}
	t := &transaction.Transaction{Version: m.u32("ver"), Locktime: m.u32("lt")}
	for k := m.times("ri"); k > 0; k-- {
		for _, i := range m.raw("ins").(L) {
			t.Inputs = append(t.Inputs, a.mkIn(i))
		}
	}
	if m.has("ti") {
		for _, i := range m.raw("ti").(L) {
			t.Inputs = append(t.Inputs, a.mkIn(i))
		}
	}
	for k := m.times("ro"); k > 0; k-- {
		for _, o := range m.raw("outs").(L) {
			t.Outputs = append(t.Outputs, a.mkOut(o))
		}
	}
	return t
}
func (a *Args) keep(n string, mk func() interface{}) interface{} {
	if a.live {
		if _, ok := a.obj[n]; !ok {
			a.obj[n] = mk()
		}
		return a.obj[n]
	}
	return mk()
}
func (a *Args) tx(n string) *transaction.Transaction {
	return a.keep(n, func() interface{} { return a.mkTx(a.raw(n)) }).(*transaction.Transaction)
}
func (a *Args) in(n string) *input.Input {
	return a.keep(n, func() interface{} { return a.mkIn(a.raw(n)) }).(*input.Input)
}
func (a *Args) out(n string) *output.Output {
	return a.keep(n, func() interface{} { return a.mkOut(a.raw(n)) }).(*output.Output)
}
func (a *Args) script(n string) *script.Script {
	if a.live {
		s := script.Script(a.bytes(n))
		return &s
	}
	s := script.Script(a.bytes(n))
	return &s
}

// render: the arguments as they are now
func (a *Args) render() interface{} {
	m := M{}
	for k, v := range a.rec {
		if o, ok := a.obj[k]; ok {
			m[k] = render(o)
		} else {
			m[k] = v
		}
	}
	for _, b := range a.bufs {
		if s, ok := b.render().(string); ok && len(s) > 5 && s[:5] == "spare" {
			m["guard"] = s
		}
	}
	return m
}

var _ = big.NewInt
