package main

import (
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
	"errors"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
)

// Obj is a live object of the world of spec/LibSV.tla.
type Obj struct {
	t string
	v interface{} // *Transaction, *Script, *RedeemScript, *InternalSigner, or any live value
}

func (o *Obj) form() interface{} {
	if o.t == "signer" {
		s := o.v.(*signature.InternalSigner)
		return M{"t": "signer", "v": M{"key": hx(pad32(s.PrivateKey.D.Bytes())), "flag": int(s.SigHashFlag)}}
	}
	return M{"t": o.t, "v": render(o.v)}
}
func pad32(b []byte) []byte {
	r := make([]byte, 32)
	copy(r[32-len(b):], b)
	return r
}

type sigRec struct {
	f        int
	pub, der []byte
}

type World struct {
	obj  map[string]*Obj
	last map[string]interface{}
	sigs map[int]sigRec // by event number (and input, for automatic signing: event*1000+input)
	ev   int
}

func newWorld() *World {
	return &World{obj: map[string]*Obj{}, last: map[string]interface{}{}, sigs: map[int]sigRec{}}
}

// changes since the last call, as [id, form] pairs
func (w *World) changes() L {
	ch := L{}
	for id, o := range w.obj {
		f := o.form()
		if l, ok := w.last[id]; !ok || !reflect.DeepEqual(l, f) {
			ch = append(ch, L{id, f})
		}
		w.last[id] = f
	}
	for id := range w.last {
		if _, ok := w.obj[id]; !ok {
			delete(w.last, id)
		}
	}
	return ch
}
func (w *World) get(id string) *Obj {
	o, ok := w.obj[id]
	if !ok {
		panic(planError("no object " + id))
	}
	return o
}
func (w *World) tx(id string) *transaction.Transaction { return w.get(id).v.(*transaction.Transaction) }
func (w *World) sc(id string) *script.Script           { return w.get(id).v.(*script.Script) }
func (w *World) rs(id string) *script.RedeemScript     { return w.get(id).v.(*script.RedeemScript) }

type fakeSigner struct {
	tx  *transaction.Transaction
	err error
}

func (f *fakeSigner) Sign(uint32, *transaction.Transaction) (*transaction.Transaction, error) {
	return f.tx, f.err
}
func (f *fakeSigner) SignAuto(*transaction.Transaction) (*transaction.Transaction, error) {
	return f.tx, f.err
}

var errRefused = errors.New("signer refuses")

func sigOf(s *script.Script) (r sigRec, ok bool) {
	if s == nil || len(*s) < 10 {
		return
	}
	b := *s
	n := int(b[0])
	if n < 2 || len(b) < 1+n+1+33 {
		return
	}
	return sigRec{int(b[n]), exact(b[n+2 : n+2+33]), exact(b[1:n])}, true
}

type sop func(w *World, a *Args) (interface{}, error)

// stateOps: calls on objects of the world; see Step in spec/LibSV.tla
var stateOps map[string]sop

func init() {
	put := func(w *World, a *Args, t string, v interface{}) { w.obj[a.str("id")] = &Obj{t, v} }
	T := func(w *World, a *Args) *transaction.Transaction { return w.tx(a.str("id")) }
	stateOps = map[string]sop{
		"tx_new": func(w *World, a *Args) (interface{}, error) { put(w, a, "tx", transaction.New()); return nil, nil },
		"tx_load": func(w *World, a *Args) (interface{}, error) {
			t, err := transaction.NewFromBytes(a.bytes("b"))
			if err == nil {
				put(w, a, "tx", t)
			}
			return nil, err
		},
		"tx_loadbuf": func(w *World, a *Args) (interface{}, error) {
			t, err := transaction.NewFromBytes(w.get(a.str("buf")).v.(*Buf).slice())
			if err == nil {
				put(w, a, "tx", t)
			}
			return nil, err
		},
		"tx_make": func(w *World, a *Args) (interface{}, error) { put(w, a, "tx", a.tx("tx")); return nil, nil },
		"signer": func(w *World, a *Args) (interface{}, error) {
			k, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), a.bytes("key"))
			put(w, a, "signer", &signature.InternalSigner{PrivateKey: k, SigHashFlag: flagOf(a.i("flag"))})
			return nil, nil
		},
		"val": func(w *World, a *Args) (interface{}, error) {
			put(w, a, "val", newBuf(unhx(a.str("v"))))
			return nil, nil
		},

		"tx_from": func(w *World, a *Args) (interface{}, error) {
			return nil, T(w, a).From(a.text("txid"), a.u32("vout"), a.text("script"), a.u64("sat"))
		},
		"tx_addutxo": func(w *World, a *Args) (interface{}, error) {
			i, err := input.NewFromUTXO(a.text("txid"), a.u32("vout"), a.u64("sat"), a.text("script"), a.u32("seq"))
			if err != nil {
				return nil, err
			}
			T(w, a).AddInput(i)
			return nil, nil
		},
		"tx_addempty": func(w *World, a *Args) (interface{}, error) { T(w, a).AddInput(input.New()); return nil, nil },
		"tx_addin":    func(w *World, a *Args) (interface{}, error) { T(w, a).AddInput(a.in("in")); return nil, nil },
		"tx_addout":   func(w *World, a *Args) (interface{}, error) { T(w, a).AddOutput(a.out("out")); return nil, nil },
		"tx_payto":    func(w *World, a *Args) (interface{}, error) { return nil, T(w, a).PayTo(a.text("addr"), a.u64("sat")) },
		"tx_apply": func(w *World, a *Args) (interface{}, error) {
			return nil, T(w, a).ApplyUnlockingScript(uint32(a.i("i")), a.script("s"))
		},
		"tx_edit": txEdit,

		"tx_info": func(w *World, a *Args) (interface{}, error) {
			t := T(w, a)
			return M{"ni": t.InputCount(), "no": t.OutputCount(), "gi": len(t.GetInputs()), "go": len(t.GetOutputs()),
				"tot": U64(t.GetTotalOutputSatoshis()), "cb": t.IsCoinbase()}, nil
		},
		"tx_bytes": func(w *World, a *Args) (interface{}, error) {
			t := T(w, a)
			return M{"b": t.ToBytes(), "hex": t.ToString(), "id": t.GetTxID()}, nil
		},
		"tx_sighash": func(w *World, a *Args) (interface{}, error) {
			return slice(T(w, a).GetInputSignatureHash(uint32(a.i("i")), flagOf(a.i("f"))))
		},

		"tx_sign": func(w *World, a *Args) (interface{}, error) {
			t := T(w, a)
			i := a.i("i")
			if err := t.Sign(uint32(i), w.get(a.str("signer")).v.(*signature.InternalSigner)); err != nil {
				return nil, err
			}
			if i < 0 || i >= len(t.Inputs) {
				return Raw("signed an input that does not exist"), nil
			}
			u := t.Inputs[i].UnlockingScript
			if r, ok := sigOf(u); ok {
				w.sigs[w.ev*1000] = r
			}
			if u == nil {
				return []byte{}, nil
			}
			return exact(*u), nil
		},
		"tx_signauto": func(w *World, a *Args) (interface{}, error) {
			t := T(w, a)
			if err := t.SignAuto(w.get(a.str("signer")).v.(*signature.InternalSigner)); err != nil {
				return nil, err
			}
			l := L{}
			for k, in := range t.Inputs {
				if r, ok := sigOf(in.UnlockingScript); ok {
					w.sigs[w.ev*1000+k] = r
				}
				l = append(l, Raw(scr(in.UnlockingScript)))
			}
			return l, nil
		},
		"tx_signext": func(w *World, a *Args) (interface{}, error) {
			t := T(w, a)
			f := &fakeSigner{}
			if a.str("mode") == "err" {
				f.err = errRefused
			} else {
				f.tx = a.tx("tx")
			}
			if a.has("auto") {
				return nil, t.SignAuto(f)
			}
			return nil, t.Sign(uint32(a.i("i")), f)
		},
		"tx_verify": func(w *World, a *Args) (interface{}, error) {
			sh, err := T(w, a).GetInputSignatureHash(uint32(a.i("i")), flagOf(a.i("f")))
			if err != nil {
				return nil, err
			}
			sig, err := bsvec.ParseDERSignature(a.bytes("der"), bsvec.S256())
			if err != nil {
				return nil, err
			}
			pub, err := bsvec.ParsePubKey(a.bytes("pub"), bsvec.S256())
			if err != nil {
				return nil, err
			}
			return sig.Verify(rev(sh), pub), nil
		},

		"s_new": func(w *World, a *Args) (interface{}, error) {
			s := script.Script(exact(unhx(a.str("b"))))
			put(w, a, "script", &s)
			return nil, nil
		},
		"s_op": func(w *World, a *Args) (interface{}, error) {
			w.sc(a.str("id")).AppendOpCode(uint8(a.i("c")))
			return nil, nil
		},
		"s_push": func(w *World, a *Args) (interface{}, error) {
			if a.has("str") {
				return nil, w.sc(a.str("id")).AppendPushDataString(a.text("d"))
			}
			return nil, w.sc(a.str("id")).AppendPushData(a.bytes("d"))
		},
		"s_pushhex": func(w *World, a *Args) (interface{}, error) {
			return nil, w.sc(a.str("id")).AppendPushDataHexString(a.text("d"))
		},
		"s_pushs": func(w *World, a *Args) (interface{}, error) {
			if a.has("str") {
				return nil, w.sc(a.str("id")).AppendPushDataStrings(a.texts("l"))
			}
			return nil, w.sc(a.str("id")).AppendPushDataArray(a.list("l"))
		},
		"s_push_len": func(w *World, a *Args) (interface{}, error) {
			d := untouched(a.u64("u"))
			if a.has("one") {
				return nil, w.sc(a.str("id")).AppendPushData(d)
			}
			return nil, w.sc(a.str("id")).AppendPushDataArray([][]byte{a.bytes("d"), d, a.bytes("d")})
		},
		"s_read":     func(w *World, a *Args) (interface{}, error) { return w.sc(a.str("id")).ToString(), nil },
		"s_asm":      func(w *World, a *Args) (interface{}, error) { return text(w.sc(a.str("id")).ToASM()) },
		"s_classify": func(w *World, a *Args) (interface{}, error) { return classify(w.sc(a.str("id"))), nil },

		"rs_new": func(w *World, a *Args) (interface{}, error) {
			r, err := script.NewRedeemScript(a.i("m"))
			if err == nil {
				put(w, a, "rs", r)
			}
			return nil, err
		},
		"rs_make": func(w *World, a *Args) (interface{}, error) {
			put(w, a, "rs", &script.RedeemScript{SignaturesRequired: a.i("m"), PublicKeys: a.list("keys")})
			return nil, nil
		},
		"rs_add": func(w *World, a *Args) (interface{}, error) {
			path := []uint32{}
			for _, p := range a.raw("path").(L) {
				path = append(path, binary.BigEndian.Uint32(unhx(p.(string))))
			}
			return nil, w.rs(a.str("id")).AddPublicKey(a.text("xk"), path)
		},
		"rs_load": func(w *World, a *Args) (interface{}, error) {
			r, err := script.NewRedeemScriptFromElectrum(a.text("t"))
			if err == nil {
				put(w, a, "rs", r)
			}
			return nil, err
		},
		"rs_script": func(w *World, a *Args) (interface{}, error) { return w.rs(a.str("id")).GetRedeemScript(), nil },
		"rs_hash":   func(w *World, a *Args) (interface{}, error) { return w.rs(a.str("id")).GetRedeemScriptHash(), nil },
		"rs_addr":   func(w *World, a *Args) (interface{}, error) { return w.rs(a.str("id")).GetAddress(), nil },

		"seal": func(w *World, a *Args) (interface{}, error) {
			ct, err := crypto.Encrypt(ciph(a), a.bytes("b"))
			if err == nil {
				put(w, a, "val", ct)
			}
			return ct, err
		},
		"sealbuf": func(w *World, a *Args) (interface{}, error) {
			ct, err := crypto.Encrypt(ciph(a), w.get(a.str("buf")).v.(*Buf).slice())
			if err == nil {
				put(w, a, "val", ct)
			}
			return ct, err
		},
		"seal_proc": func(w *World, a *Args) (interface{}, error) {
			return sealInProcess(a.i("n"), a.str("key"), a.str("b")), nil
		},
		"unseal": func(w *World, a *Args) (interface{}, error) {
			var ct []byte
			switch x := w.get(a.str("ct")).v.(type) {
			case []byte:
				ct = x
			case *Buf:
				ct = x.slice()
			}
			return slice(crypto.Decrypt(ciph(a), ct))
		},
		"iv_stats": func(w *World, a *Args) (interface{}, error) { return nil, nil },

		"call": func(w *World, a *Args) (interface{}, error) {
			f, ok := ops[a.str("op")]
			if !ok {
				panic(planError("no op " + a.str("op")))
			}
			in := newArgs(a.raw("a").(M), true)
			w.obj[a.str("arg")] = &Obj{"val", in}
			v, err := f(in)
			if err != nil {
				v = Raw("")
			}
			put(w, a, "val", v)
			return v, err
		},
		"overwrite": func(w *World, a *Args) (interface{}, error) {
			o := w.get(a.str("id"))
			scribble(o.v)
			return Raw0{o.v}, nil
		},
		"drop": func(w *World, a *Args) (interface{}, error) { delete(w.obj, a.str("id")); return nil, nil },
	}
}

// Raw0 renders as the live value it wraps
type Raw0 struct{ v interface{} }

func ciph(a *Args) cipher.Block {
	c, err := aes.NewCipher(unhx(a.str("key")))
	if err != nil {
		panic(planError(err.Error()))
	}
	return c
}

// scribble overwrites every byte slice of a value, including what an append to it would reach
func scribble(v interface{}) {
	switch x := v.(type) {
	case []byte:
		for i := range x {
			x[i] ^= 0x5a
		}
		for i := range x[len(x):cap(x)] {
			x[len(x):cap(x)][i] ^= 0x3c
		}
	case *Buf:
		x.scribble()
	case *ListBuf:
		for _, b := range x.bufs {
			b.scribble()
		}
	case [][]byte:
		for _, b := range x {
			scribble(b)
		}
	case M:
		for _, e := range x {
			scribble(e)
		}
	case L:
		for _, e := range x {
			scribble(e)
		}
	case *script.Script:
		if x != nil {
			scribble([]byte(*x))
		}
	case *Args:
		for _, e := range x.obj { // what is inside transactions, inputs and outputs is in bufs
			switch e.(type) {
			case *Buf, *ListBuf, *TextBuf:
				scribble(e)
			}
		}
		for _, b := range x.bufs {
			b.scribble()
		}
	case []string:
		for i := range x[:cap(x)] {
			x[:cap(x)][i] = "6e6f"
		}
	case *TextBuf:
		for i := range x.full[:x.n] {
			x.full[i] = "6e6f"
		}
	case *big.Int:
		if x != nil {
			x.Add(x, big.NewInt(1))
		}
	case *address.Address:
		if x != nil {
			*x = address.Address{AddressString: "no", PublicKeyHash: "6e6f"}
		}
	case *output.Output:
		if x != nil {
			x.Satoshis ^= 0x5a
			scribble(x.LockingScript)
		}
	case *input.Input:
		if x != nil {
			x.PreviousTxOutIndex ^= 0x5a
			x.SequenceNumber ^= 0x5a
			x.PreviousTxSatoshis ^= 0x5a
			scribble(x.UnlockingScript)
			scribble(x.PreviousTxScript)
		}
	case *transaction.Transaction:
		if x != nil {
			x.Version ^= 0x5a
			x.Locktime ^= 0x5a
			for _, i := range x.Inputs {
				scribble(i)
			}
			for _, o := range x.Outputs {
				scribble(o)
			}
		}
	}
}

func scr0(s *script.Script) []byte {
	if s == nil {
		return nil
	}
	return *s
}

func txEdit(w *World, a *Args) (interface{}, error) {
	t := w.tx(a.str("id"))
	i := 0
	if a.has("i") {
		i = a.i("i")
	}
	need := func(c bool) {
		if !c {
			panic(planError("edit of what is not there"))
		}
	}
	switch a.str("f") {
	case "inswap":
		need(i+1 < len(t.Inputs))
	case "outswap":
		need(i+1 < len(t.Outputs))
	case "txid", "vout", "seq", "isat", "unl", "prev", "noprev", "unl+", "prev+", "indel":
		need(i < len(t.Inputs) && t.Inputs[i] != nil)
	case "osat", "lock", "lock+", "outdel":
		need(i < len(t.Outputs) && t.Outputs[i] != nil)
	case "unl^":
		need(i < len(t.Inputs) && t.Inputs[i] != nil && len(scr0(t.Inputs[i].UnlockingScript)) > 0)
	case "prev^":
		need(i < len(t.Inputs) && t.Inputs[i] != nil && len(scr0(t.Inputs[i].PreviousTxScript)) > 0)
	case "lock^":
		need(i < len(t.Outputs) && t.Outputs[i] != nil && len(scr0(t.Outputs[i].LockingScript)) > 0)
	}
	b := func() []byte { return exact(unhx(a.str("v"))) }
	nw := func() *script.Script { s := script.Script(b()); return &s }
	app := func(p **script.Script) {
		if *p == nil {
			*p = &script.Script{}
		}
		**p = append(**p, b()...)
	}
	switch a.str("f") {
	case "ver":
		t.Version = a.u32("v")
	case "lt":
		t.Locktime = a.u32("v")
	case "txid":
		t.Inputs[i].PreviousTxID = string(b())
	case "vout":
		t.Inputs[i].PreviousTxOutIndex = a.u32("v")
	case "seq":
		t.Inputs[i].SequenceNumber = a.u32("v")
	case "isat":
		t.Inputs[i].PreviousTxSatoshis = a.u64("v")
	case "unl":
		t.Inputs[i].UnlockingScript = nw()
	case "prev":
		t.Inputs[i].PreviousTxScript = nw()
	case "noprev":
		t.Inputs[i].PreviousTxScript = nil
	case "osat":
		t.Outputs[i].Satoshis = a.u64("v")
	case "lock":
		t.Outputs[i].LockingScript = nw()
	case "indel":
		t.Inputs = append(append([]*input.Input{}, t.Inputs[:i]...), t.Inputs[i+1:]...)
	case "outdel":
		t.Outputs = append(append([]*output.Output{}, t.Outputs[:i]...), t.Outputs[i+1:]...)
	case "inswap":
		t.Inputs[i], t.Inputs[i+1] = t.Inputs[i+1], t.Inputs[i]
	case "outswap":
		t.Outputs[i], t.Outputs[i+1] = t.Outputs[i+1], t.Outputs[i]
	case "unl+":
		app(&t.Inputs[i].UnlockingScript)
	case "prev+":
		app(&t.Inputs[i].PreviousTxScript)
	case "lock+":
		app(&t.Outputs[i].LockingScript)
	case "unl^":
		(*t.Inputs[i].UnlockingScript)[0] ^= 0xff
	case "prev^":
		(*t.Inputs[i].PreviousTxScript)[0] ^= 0xff
	case "lock^":
		(*t.Outputs[i].LockingScript)[0] ^= 0xff
	default:
		panic(planError("edit " + a.str("f")))
	}
	return nil, nil
}

// sealInProcess: n encryptions by a fresh process
func sealInProcess(n int, key, b string) L {
	exe, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	out, err := exec.Command(exe, "seal", key, b, fmt.Sprint(n)).Output()
	if err != nil {
		fatal("seal in a fresh process: %v", err)
	}
	l := L{}
	for _, s := range strings.Fields(string(out)) {
		l = append(l, Raw(s))
	}
	return l
}
func sealMain(args []string) {
	c, err := aes.NewCipher(unhx(args[0]))
	if err != nil {
		fatal("%v", err)
	}
	n, _ := strconv.Atoi(args[2])
	for i := 0; i < n; i++ {
		ct, err := crypto.Encrypt(c, unhx(args[1]))
		if err != nil {
			fmt.Println("err")
		} else {
			fmt.Println(hx(ct))
		}
	}
}
