package main

import (
	"crypto/aes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"reflect"
	"strings"
	"sync"
	"syscall"

	"github.com/bitcoinsv/bsvd/bsvec"

	"github.com/libsv/libsv/block"
	"github.com/libsv/libsv/crypto"
	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction"
	"github.com/libsv/libsv/transaction/input"
	"github.com/libsv/libsv/transaction/output"
	"github.com/libsv/libsv/transaction/signature"
	"github.com/libsv/libsv/transaction/signature/sighash"
	"github.com/libsv/libsv/utils"
)

var errNilResult = errors.New("nil result without error")

type opFunc func(a *Args) (interface{}, error)

func must(b []byte, err error) []byte {
	if err != nil {
		panic(err)
	}
	return b
}
func rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

// a successful result that is nil although the call promised an object is recorded as such
func sc(s *script.Script, err error) (interface{}, error) {
	if err == nil && s == nil {
		return Raw("nil script"), nil
	}
	return s, err
}

// ops: calls without a receiver of their own; names and arguments as in spec/LibPure.tla
var ops = map[string]opFunc{
	"varint_enc": func(a *Args) (interface{}, error) { return utils.VarInt(a.u64("u")), nil },
	"varint_dec": func(a *Args) (interface{}, error) {
		v, n := utils.DecodeVarInt(a.bytes("b"))
		if n == 0 {
			v = 0
		}
		return M{"n": n, "v": U64(v)}, nil
	},
	"tx_parse":     func(a *Args) (interface{}, error) { return txRes(transaction.NewFromBytes(a.bytes("b"))) },
	"tx_parse_str": func(a *Args) (interface{}, error) { return txRes(transaction.NewFromString(a.text("t"))) },
	"tx_rt": func(a *Args) (interface{}, error) {
		t, err := transaction.NewFromBytes(a.bytes("b"))
		if err != nil {
			return nil, err
		}
		return M{"b": t.ToBytes(), "ni": t.InputCount(), "no": t.OutputCount()}, nil
	},
	"tx_ser": func(a *Args) (interface{}, error) {
		t := a.tx("tx")
		return M{"b": t.ToBytes(), "hex": t.ToString(), "id": t.GetTxID()}, nil
	},
	"tx_count": func(a *Args) (interface{}, error) {
		f := a.tx("tx")
		t := transaction.New()
		for _, i := range f.Inputs {
			t.AddInput(i)
		}
		for _, o := range f.Outputs {
			t.AddOutput(o)
		}
		return M{"ni": t.InputCount(), "no": t.OutputCount(), "gi": len(t.GetInputs()), "go": len(t.GetOutputs()),
			"tot": U64(t.GetTotalOutputSatoshis()), "cb": t.IsCoinbase()}, nil
	},
	"sign_at": func(a *Args) (interface{}, error) { // the inputs that signing changed, and how
		t, before := a.mkTx(a.raw("tx")), a.mkTx(a.raw("tx"))
		priv, _ := bsvec.PrivKeyFromBytes(bsvec.S256(), a.bytes("key"))
		s := &signature.InternalSigner{PrivateKey: priv, SigHashFlag: flagOf(a.i("f"))}
		var err error
		if a.i("i") < 0 {
			err = t.SignAuto(s)
		} else {
			err = t.Sign(uint32(a.i("i")), s)
		}
		if err != nil {
			return nil, err
		}
		return txChange(before, t), nil
	},
	"apply_at": func(a *Args) (interface{}, error) { // the inputs that attaching a script changed, and how
		t, before := a.mkTx(a.raw("tx")), a.mkTx(a.raw("tx"))
		if err := t.ApplyUnlockingScript(uint32(a.i("i")), script.NewFromBytes(a.bytes("s"))); err != nil {
			return nil, err
		}
		return txChange(before, t), nil
	},
	"in_str":  func(a *Args) (interface{}, error) { _ = a.in("in").String(); return Raw(""), nil },
	"out_str": func(a *Args) (interface{}, error) { _ = a.out("out").String(); return Raw(""), nil },
	"tx_clear": func(a *Args) (interface{}, error) {
		return a.tx("tx").ToBytesWithClearedInputs(a.i("i"), a.bytes("s")), nil
	},
	"in_parse": func(a *Args) (interface{}, error) {
		i, n, err := input.NewFromBytes(a.bytes("b"))
		return M{"n": n, "in": i}, err
	},
	"in_ser": func(a *Args) (interface{}, error) { return a.in("in").ToBytes(a.boolean("clear")), nil },
	"out_parse": func(a *Args) (interface{}, error) {
		o, n, err := output.NewFromBytes(a.bytes("b"))
		return M{"n": n, "out": o}, err
	},
	"out_ser": func(a *Args) (interface{}, error) {
		o := a.out("out")
		return M{"b": o.ToBytes(), "sh": o.GetBytesForSigHash(), "hex": o.GetLockingScriptHexString()}, nil
	},
	"sighash": func(a *Args) (interface{}, error) {
		return slice(a.tx("tx").GetInputSignatureHash(uint32(a.i("i")), flagOf(a.i("f"))))
	},

	"push_enc":        func(a *Args) (interface{}, error) { return slice(script.EncodeParts(a.list("l"))) },
	"push_prefix":     func(a *Args) (interface{}, error) { return slice(script.GetPushDataPrefix(a.bytes("d"))) },
	"push_prefix_len": func(a *Args) (interface{}, error) { return slice(script.GetPushDataPrefix(untouched(a.u64("u")))) },
	"push_enc_len": func(a *Args) (interface{}, error) { // parts around one too long to be pushed
		return slice(script.EncodeParts([][]byte{a.bytes("d"), untouched(a.u64("u")), a.bytes("d")}))
	},
	"push_dec":     func(a *Args) (interface{}, error) { return slices(script.DecodeParts(a.bytes("b"))) },
	"push_dec_str": func(a *Args) (interface{}, error) { return slices(script.DecodeStringParts(a.text("t"))) },
	"push_rt": func(a *Args) (interface{}, error) {
		b, err := script.EncodeParts(a.list("l"))
		if err != nil {
			return nil, err
		}
		return slices(script.DecodeParts(b))
	},
	"asm_to":   func(a *Args) (interface{}, error) { return text(a.script("b").ToASM()) },
	"asm_from": func(a *Args) (interface{}, error) { return sc(script.NewFromASM(a.text("t"))) },
	"asm_rt": func(a *Args) (interface{}, error) {
		s, err := a.script("b").ToASM()
		if err != nil {
			return nil, err
		}
		return sc(script.NewFromASM(s))
	},
	"script_hex":     func(a *Args) (interface{}, error) { return a.script("b").ToString(), nil },
	"script_fromhex": func(a *Args) (interface{}, error) { return sc(script.NewFromHexString(a.text("t"))) },
	"classify":       func(a *Args) (interface{}, error) { return classify(a.script("b")), nil },

	"c_pub":    func(a *Args) (interface{}, error) { return sc(script.NewP2PKHFromPubKeyBytes(a.bytes("b"))) },
	"c_pubstr": func(a *Args) (interface{}, error) { return sc(script.NewP2PKHFromPubKeyStr(a.text("t"))) },
	"c_pkh":    func(a *Args) (interface{}, error) { return sc(script.NewP2PKHFromPubKeyHashStr(a.text("t"))) },
	"c_addr":   func(a *Args) (interface{}, error) { return sc(script.NewP2PKHFromAddress(a.text("t"))) },
	"o_pkh": func(a *Args) (interface{}, error) {
		return outRes(output.NewP2PkhFromPubKeyHash(a.text("t"), a.u64("sat")))
	},
	"o_addr": func(a *Args) (interface{}, error) {
		return outRes(output.NewP2PKHFromAddress(a.text("t"), a.u64("sat")))
	},
	"o_puzzle": func(a *Args) (interface{}, error) {
		return outRes(output.NewHashPuzzle(a.text("secret"), a.text("t"), a.u64("sat")))
	},
	"o_data": func(a *Args) (interface{}, error) {
		l := a.list("l")
		if a.has("one") && len(l) == 1 {
			return outRes(output.NewOpReturn(l[0]))
		}
		return outRes(output.NewOpReturnParts(l))
	},
	"unlock": func(a *Args) (interface{}, error) {
		return sc(script.NewP2PKHUnlockingScript(a.bytes("pub"), a.bytes("sig"), flagOf(a.i("f"))))
	},

	"merkle_br": func(a *Args) (interface{}, error) {
		l := block.GetMerkleBranches(a.texts("l"))
		if l == nil {
			l = []string{}
		}
		return l, nil
	},
	"merkle_cb": func(a *Args) (interface{}, error) {
		return block.BuildMerkleRootFromCoinbase(a.bytes("h"), a.texts("l")), nil
	},
	"merkle_all": func(a *Args) (interface{}, error) {
		l := a.texts("l")
		br := block.GetMerkleBranches(l)
		return M{"root": block.BuildMerkleRootFromCoinbase(rev(must(hex.DecodeString(l[0]))), br), "n": len(br)}, nil
	},
	"merkle_proof": func(a *Args) (interface{}, error) {
		return text(block.MerkleRootFromBranches(a.text("t"), int(int64(a.u64("i"))), a.texts("l")))
	},
	"merkle_at": func(a *Args) (interface{}, error) {
		return text(block.MerkleRootFromBranches(a.texts("l")[a.i("p")], a.i("p"), a.texts("br")))
	},

	"coinbase": func(a *Args) (interface{}, error) {
		e1, e2 := hex.EncodeToString(a.bytes("e1")), hex.EncodeToString(a.bytes("e2"))
		c1, c2, err := block.GetCoinbaseParts(a.u32("height"), a.u64("value"), a.text("wit"), a.text("text"), a.text("wallet"), a.bytes("miner"))
		if err != nil {
			return nil, err
		}
		full := block.BuildCoinbase(c1, c2, e1, e2)
		t, err := transaction.NewFromBytes(full)
		var tx interface{} = t
		if err != nil {
			tx = Raw("coinbase does not parse: " + err.Error())
		}
		return M{"c1": c1, "c2": c2, "full": full, "tx": tx}, nil
	},
	"coinbase_join": func(a *Args) (interface{}, error) {
		return block.BuildCoinbase(a.bytes("c1"), a.bytes("c2"), hex.EncodeToString(a.bytes("e1")), hex.EncodeToString(a.bytes("e2"))), nil
	},
	"header": func(a *Args) (interface{}, error) {
		return block.BuildBlockHeader(a.u32("ver"), a.text("prev"), a.bytes("root"), a.bytes("time"), a.bytes("bits"), a.bytes("nonce")), nil
	},

	"tgt_hex": func(a *Args) (interface{}, error) { return text(block.ExpandTargetFrom(a.text("t"))) },
	"tgt_int": func(a *Args) (interface{}, error) {
		v, err := block.ExpandTargetFromAsInt(a.text("t"))
		return v, err
	},
	"diff": func(a *Args) (interface{}, error) {
		v, err := block.DifficultyFromBits(a.text("t"))
		return v, err
	},
	"hashrate": func(a *Args) (interface{}, error) {
		return block.DifficultyToHashrate(a.text("coin"), a.u64("diff"), a.f64("secs")), nil
	},
	"human": func(a *Args) (interface{}, error) { return utils.HumanHash(a.f64("f")), nil },

	"addr_pkh": func(a *Args) (interface{}, error) {
		return addr(address.NewFromPublicKeyHash(a.bytes("h"), a.boolean("main")))
	},
	"addr_pub": func(a *Args) (interface{}, error) {
		return addr(address.NewFromPublicKeyString(a.text("t"), a.boolean("main")))
	},
	"addr_key": func(a *Args) (interface{}, error) {
		_, pub := bsvec.PrivKeyFromBytes(bsvec.S256(), a.bytes("priv"))
		return addr(address.NewFromPublicKey(pub, a.boolean("main")))
	},
	"addr_parse": func(a *Args) (interface{}, error) { return addr(address.NewFromString(a.text("t"))) },
	"addr_valid": func(a *Args) (interface{}, error) {
		ok, err := address.ValidateAddress(a.text("t"))
		if ok != (err == nil) {
			return Raw("the answer and the error disagree"), nil
		}
		return ok, nil
	},
	"b58cm": func(a *Args) (interface{}, error) { return address.Base58EncodeMissingChecksum(a.bytes("b")), nil },
	"bip_enc": func(a *Args) (interface{}, error) {
		s := address.EncodeBIP276(a.text("p"), a.i("n"), a.i("v"), a.bytes("d"))
		if s == "ERROR" {
			return nil, errors.New(s)
		}
		return s, nil
	},
	"bip_dec": func(a *Args) (interface{}, error) {
		p, v, n, d, err := address.DecodeBIP276(a.text("t"))
		return M{"p": p, "n": n, "v": v, "d": d}, err
	},

	"electrum": func(a *Args) (interface{}, error) {
		rs, err := script.NewRedeemScriptFromElectrum(a.text("t"))
		if err != nil {
			return nil, err
		}
		return M{"m": rs.SignaturesRequired, "n": len(rs.PublicKeys), "script": rs.GetRedeemScript()}, nil
	},

	"hash": func(a *Args) (interface{}, error) {
		b := a.bytes("b")
		return M{"s": crypto.Sha256(b), "d": crypto.Sha256d(b), "r": crypto.Ripemd160(b), "h": crypto.Hash160(b)}, nil
	},
	"seal_rt": func(a *Args) (interface{}, error) {
		c, err := aes.NewCipher(unhx(a.str("key")))
		if err != nil {
			panic(planError(err.Error()))
		}
		ct, err := crypto.Encrypt(c, a.bytes("b"))
		if err != nil {
			return nil, err
		}
		return slice(crypto.Decrypt(c, ct))
	},
	"unseal_raw": func(a *Args) (interface{}, error) {
		c, err := aes.NewCipher(make([]byte, 16))
		if err != nil {
			panic(err)
		}
		return slice(crypto.Decrypt(c, a.bytes("b")))
	},

	"rev":    func(a *Args) (interface{}, error) { return utils.ReverseBytes(a.bytes("b")), nil },
	"revhex": func(a *Args) (interface{}, error) { return utils.ReverseHexString(a.text("t")), nil },
	"le": func(a *Args) (interface{}, error) {
		return utils.GetLittleEndianBytes(a.u32("v"), uint32(a.i("l"))), nil
	},
	"eq":   func(a *Args) (interface{}, error) { return utils.Equals(a.bytes("x"), a.bytes("y")), nil },
	"sort": func(a *Args) (interface{}, error) { return utils.SortByteArrays(a.list("l")), nil },
	"dec32": func(a *Args) (interface{}, error) {
		v, err := utils.Decode32Byte(a.text("t"))
		return v, err
	},
}

func slice(b []byte, err error) (interface{}, error) {
	return b, err
}
func slices(b [][]byte, err error) (interface{}, error) {
	if b == nil {
		b = [][]byte{}
	}
	return b, err
}
func text(s string, err error) (interface{}, error) { return s, err }
func txRes(t *transaction.Transaction, err error) (interface{}, error) {
	if err == nil && t == nil {
		return Raw("nil transaction"), nil
	}
	if err != nil && t != nil {
		return Raw("error and a transaction"), nil
	}
	return t, err
}
func outRes(o *output.Output, err error) (interface{}, error) {
	if err == nil && o == nil {
		return Raw("nil output"), nil
	}
	return o, err
}
func addr(x *address.Address, err error) (interface{}, error) {
	if err == nil && x == nil {
		return Raw("nil address"), nil
	}
	return x, err
}
func classify(s *script.Script) interface{} {
	m := M{"p2pkh": s.IsP2PKH(), "p2sh": s.IsP2SH(), "p2pk": s.IsP2PK(), "data": s.IsData(), "multisig": s.IsMultisigOut()}
	h, err := s.GetPublicKeyHash()
	if err != nil {
		m["pkh"] = Raw("err")
	} else {
		m["pkh"] = h
	}
	return m
}

var _ = strings.Repeat
var _ = binary.LittleEndian

// txChange: the inputs whose unlocking script differs, and whether anything else does
func txChange(before, t *transaction.Transaction) M {
	same := func(i, o *input.Input) bool { return reflect.DeepEqual(inForm(i), inForm(o)) }
	ch := L{}
	other := len(t.Inputs) != len(before.Inputs) || len(t.Outputs) != len(before.Outputs) || t.Version != before.Version || t.Locktime != before.Locktime
	for k, i := range t.Inputs {
		if other {
			break
		}
		o := before.Inputs[k]
		if i == nil || i.UnlockingScript == nil && !same(i, o) {
			other = true
			break
		}
		if !same(i, o) {
			ch = append(ch, M{"i": k, "unl": []byte(*i.UnlockingScript)})
			c := *i
			c.UnlockingScript = o.UnlockingScript
			other = other || !same(&c, o)
		}
	}
	for k, o := range t.Outputs {
		other = other || !reflect.DeepEqual(outForm(o), outForm(before.Outputs[k]))
	}
	return M{"ch": ch, "other": other}
}

// untouched returns a slice of n bytes that takes no memory: the bytes are
// mapped, and never read unless the code under test does.
func untouched(n uint64) []byte {
	reserve.Do(func() {
		var err error
		region, err = syscall.Mmap(-1, 0, 1<<32+16, syscall.PROT_READ, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
		if err != nil {
			fatal("mmap: %v", err)
		}
	})
	return region[:n:n]
}

var reserve sync.Once
var region []byte

// flagOf: the flag, in the way of spelling it with the library's constants that gives another value, if there is one
func flagOf(f int) sighash.Flag {
	base := map[int][]sighash.Flag{0: {sighash.Old}, 1: {sighash.All}, 2: {sighash.None}, 3: {sighash.Single}, 0x40: {sighash.ForkID},
		0x41: {sighash.AllForkID, sighash.All | sighash.ForkID}, 0x42: {sighash.NoneForkID, sighash.None | sighash.ForkID}, 0x43: {sighash.SingleForkID, sighash.Single | sighash.ForkID}}
	ways := base[f]
	if f&0x80 != 0 {
		for _, b := range base[f&^0x80] {
			ways = append(ways, b|sighash.AnyOneCanPay)
		}
		if f&0x40 != 0 {
			for _, b := range base[f&^0xc0] {
				ways = append(ways, b|sighash.AnyOneCanPayForkID)
			}
		}
	}
	for _, w := range ways {
		if int(w) != f {
			return w
		}
	}
	return sighash.Flag(f)
}
