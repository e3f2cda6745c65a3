// cryptodrv exercises the hashing and signing packages.
package main

import (
	stded "crypto/ed25519"
	"math/rand"
	"strconv"
	"sync"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/factory"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/signing"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/signing/mcl"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/crypto/signing/mcl/singlesig"
	"github.com/btcsuite/btcd/btcec"
	"github.com/btcsuite/btcd/chaincfg/chainhash"
	"github.com/herumi/bls-go-binary/bls"
	"verif/harness/trace"
)

var vm = factory.NewVMCrypto()
var B = trace.Bytes

type key struct {
	scheme, id string
	forms      [][]byte
	sign       func(msg []byte) []byte
}

func rb(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func hashes(w *trace.Writer, r *rand.Rand, n int) {
	lens := []int{0, 1, 31, 32, 54, 55, 56, 57, 63, 64, 65, 111, 112, 119, 120, 127, 128, 134, 135, 136, 137, 183, 184, 192, 271, 272, 273}
	for i := 0; i < n; i++ {
		lens = append(lens, r.Intn(300))
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, l := range lens {
		in := rb(r, l)
		for _, alg := range []string{"sha256", "keccak256", "ripemd160"} {
			wg.Add(1)
			go func(in []byte, alg string) { // concurrently: the primitives are stateless
				defer wg.Done()
				var out []byte
				var err error
				arg := append([]byte{}, in...)
				p := trace.Protect(func() {
					switch alg {
					case "sha256":
						out, err = vm.Sha256(arg)
					case "keccak256":
						out, err = vm.Keccak256(arg)
					default:
						out, err = vm.Ripemd160(arg)
					}
				})
				mu.Lock()
				w.Emit(trace.M{"e": "hash", "alg": alg, "in": B(in), "out": B(out), "panic": p != "" || err != nil || string(arg) != string(in)})
				mu.Unlock()
			}(in, alg)
		}
	}
	wg.Wait()
}

func makeKeys(r *rand.Rand) []*key {
	var ks []*key
	for i := 0; i < 2; i++ {
		priv := stded.NewKeyFromSeed(rb(r, 32))
		ks = append(ks, &key{"ed25519", strconv.Itoa(i), [][]byte{priv.Public().(stded.PublicKey)}, func(m []byte) []byte { return stded.Sign(priv, m) }})
		sk, pk := btcec.PrivKeyFromBytes(btcec.S256(), rb(r, 32))
		ks = append(ks, &key{"secp256k1", strconv.Itoa(i), [][]byte{pk.SerializeCompressed(), pk.SerializeUncompressed(), pk.SerializeHybrid()}, func(m []byte) []byte {
			s, err := sk.Sign(chainhash.DoubleHashB(m))
			if err != nil {
				panic(err)
			}
			return s.Serialize()
		}})
		bsk := &bls.SecretKey{}
		lb := rb(r, 32)
		lb[31] &= 0x1f
		if err := bsk.SetLittleEndian(lb); err != nil {
			panic(err)
		}
		ks = append(ks, &key{"bls", strconv.Itoa(i), [][]byte{bsk.GetPublicKey().Serialize()}, func(m []byte) []byte {
			if len(m) == 0 {
				return nil
			}
			return bsk.Sign(string(m)).Serialize()
		}})
	}
	// keys of the repository's own generator and signer
	kg := signing.NewKeyGenerator(mcl.NewSuiteBLS12())
	lb := rb(r, 32)
	lb[31] &= 0x1f
	priv, err := kg.PrivateKeyFromByteArray(lb)
	if err != nil {
		panic(err)
	}
	pub, err := priv.GeneratePublic().ToByteArray()
	if err != nil {
		panic(err)
	}
	ks = append(ks, &key{"bls", "repo", [][]byte{pub}, func(m []byte) []byte {
		s, err := singlesig.NewBlsSigner().Sign(priv, m)
		if err != nil {
			return nil
		}
		return s
	}})
	return ks
}

func mut(r *rand.Rand, b []byte) []byte {
	c := append([]byte{}, b...)
	switch r.Intn(6) {
	case 0:
		return c[:r.Intn(len(c)+1)]
	case 1:
		return append(c, byte(r.Intn(256)))
	case 2:
		for i := range c {
			c[i] = 0
		}
		return c
	default:
		if len(c) > 0 {
			c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
		}
		return c
	}
}

func signatures(w *trace.Writer, r *rand.Rand, n int) {
	ks := makeKeys(r)
	for _, k := range ks {
		f := [][]int{}
		for _, x := range k.forms {
			f = append(f, B(x))
		}
		w.Emit(trace.M{"e": "key", "scheme": k.scheme, "id": k.id, "forms": f})
	}
	msgs := [][]byte{{}, {0}, {1}, {0, 0}, rb(r, 32), rb(r, 100), []byte("hello"), []byte("hello\x00"), []byte("hellp")}
	type sg struct {
		k   *key
		m   []byte
		sig []byte
	}
	var sigs []sg
	for _, k := range ks {
		for _, m := range msgs {
			if len(sigs)%3 == 0 || r.Intn(2) == 0 || len(m) < 2 {
				s := k.sign(m)
				if s == nil {
					continue
				}
				sigs = append(sigs, sg{k, m, s})
				w.Emit(trace.M{"e": "sign", "scheme": k.scheme, "id": k.id, "msg": B(m), "sig": B(s)})
			}
		}
	}
	type call struct {
		scheme          string
		key, msg, sig   []byte
		ok              bool
		panicked        string
	}
	var calls []*call
	for i := 0; i < n; i++ {
		s := sigs[r.Intn(len(sigs))]
		c := &call{scheme: s.k.scheme, key: s.k.forms[r.Intn(len(s.k.forms))], msg: s.m, sig: s.sig}
		if r.Intn(3) > 0 {
			switch r.Intn(7) {
			case 0:
				c.msg = msgs[r.Intn(len(msgs))]
			case 1:
				c.msg = mut(r, c.msg)
			case 2, 3:
				c.sig = mut(r, c.sig)
			case 4:
				c.key = mut(r, c.key)
			case 5:
				o := ks[r.Intn(len(ks))]
				c.key = o.forms[r.Intn(len(o.forms))]
			default:
				c.sig = sigs[r.Intn(len(sigs))].sig
			}
		}
		calls = append(calls, c)
	}
	run := func(c *call) {
		var err error
		k, m, s := append([]byte{}, c.key...), append([]byte{}, c.msg...), append([]byte{}, c.sig...)
		c.panicked = trace.Protect(func() {
			switch c.scheme {
			case "ed25519":
				err = vm.VerifyEd25519(k, m, s)
			case "secp256k1":
				err = vm.VerifySecp256k1(k, m, s)
			default:
				err = vm.VerifyBLS(k, m, s)
			}
		})
		if string(k) != string(c.key) || string(m) != string(c.msg) || string(s) != string(c.sig) {
			c.panicked = "arguments changed"
		}
		c.ok = err == nil && c.panicked == ""
	}
	flush := func() {
		for _, c := range calls {
			w.Emit(trace.M{"e": "verify", "scheme": c.scheme, "key": B(c.key), "msg": B(c.msg), "sig": B(c.sig), "ok": c.ok, "panic": c.panicked != ""})
		}
	}
	for _, c := range calls {
		run(c)
	}
	flush()
	// the same calls from several goroutines at once
	var wg sync.WaitGroup
	ch := make(chan *call, len(calls))
	for _, i := range r.Perm(len(calls)) {
		ch <- calls[i]
	}
	close(ch)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for c := range ch {
				run(c)
			}
		}()
	}
	wg.Wait()
	flush()
}

func scalarOf(b []byte) crypto.Scalar {
	s := mcl.NewScalar()
	if err := s.UnmarshalBinary(b); err != nil {
		panic(err)
	}
	return s
}

func ser(s crypto.Scalar) []byte {
	b, err := s.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

func algebra(w *trace.Writer, r *rand.Rand, n int) {
	var pool [][]byte
	for i := int64(-5); i <= 6; i++ {
		s := mcl.NewScalar()
		s.SetInt64(i)
		pool = append(pool, ser(s))
		a := s
		if i < 0 {
			s2 := mcl.NewScalar()
			s2.SetInt64(-i)
			a = s2
			w.Emit(trace.M{"e": "scalar", "op": "neg", "a": B(ser(a)), "b": []int{}, "r": B(ser(s)), "ok": true, "panic": false})
		} else {
			w.Emit(trace.M{"e": "scalar", "op": "int", "a": []int{int(i)}, "b": []int{}, "r": B(ser(s)), "ok": true, "panic": false})
		}
	}
	for i := 0; i < 6; i++ {
		b := rb(r, 32)
		b[31] &= 0x3f
		pool = append(pool, b)
	}
	ops := []string{"add", "sub", "mul", "neg", "one", "zero", "set", "clone", "div", "inv", "bytes"}
	for i := 0; i < n; i++ {
		a, b := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
		op := ops[r.Intn(len(ops))]
		var x crypto.Scalar
		var err error
		p := trace.Protect(func() {
			sa, sb := scalarOf(a), scalarOf(b)
			switch op {
			case "add":
				x, err = sa.Add(sb)
			case "sub":
				x, err = sa.Sub(sb)
			case "mul":
				x, err = sa.Mul(sb)
			case "neg":
				x = sa.Neg()
			case "one":
				x = sa.One()
			case "zero":
				x = sa.Zero()
			case "set":
				x = sb
				err = x.Set(sa)
			case "clone":
				x = sa.Clone()
				sa.SetInt64(3)
			case "div":
				x, err = sa.Div(sb)
			case "inv":
				x, err = sa.Inv(sb)
			case "bytes":
				x, err = sb.SetBytes(a)
			}
			if op != "clone" && (string(ser(sa)) != string(a) || (op != "set" && string(ser(sb)) != string(b))) {
				panic("operand changed")
			}
		})
		var res []byte
		if p == "" && err == nil {
			res = ser(x)
		}
		w.Emit(trace.M{"e": "scalar", "op": op, "a": B(a), "b": B(b), "r": B(res), "ok": err == nil, "panic": p != ""})
		// decoding
		d := rb(r, []int{32, 32, 32, 31, 33, 0, 1}[r.Intn(7)])
		if len(d) == 32 && r.Intn(3) > 0 {
			d[31] = 0x73
			d[30] = 0xed
			if r.Intn(2) == 0 {
				m := []byte{1, 0, 0, 0, 255, 255, 255, 255, 254, 91, 254, 255, 2, 164, 189, 83, 5, 216, 161, 9, 8, 216, 57, 51, 72, 125, 157, 41, 83, 167, 237, 115}
				copy(d, m)
				d[0] = byte(r.Intn(3))
			}
		}
		s := mcl.NewScalar()
		var derr error
		var ds crypto.Scalar = s
		p = trace.Protect(func() {
			if len(d) > 0 && r.Intn(2) == 0 {
				derr = s.UnmarshalBinary(append([]byte{}, d...))
			} else {
				ds, derr = s.SetBytes(append([]byte{}, d...))
			}
		})
		var dr []byte
		if derr == nil && p == "" {
			dr = ser(ds)
		}
		w.Emit(trace.M{"e": "decode", "a": B(d), "r": B(dr), "ok": derr == nil, "panic": p != ""})
		eq, err := scalarOf(a).Equal(scalarOf(b))
		w.Emit(trace.M{"e": "equal", "a": B(a), "b": B(b), "r": eq, "ok": err == nil, "panic": false})
	}
	pops := []string{"mul", "add", "sub", "neg", "mulmul", "null", "base", "clone", "set", "unmarshal"}
	for i := 0; i < n; i++ {
		g := []string{"G1", "G2"}[r.Intn(2)]
		base := func() crypto.Point {
			if g == "G1" {
				return mcl.NewPointG1()
			}
			return mcl.NewPointG2()
		}
		a, b := pool[r.Intn(12)], pool[r.Intn(12)]
		op := pops[r.Intn(len(pops))]
		var x crypto.Point
		var err error
		var enc []byte
		p := trace.Protect(func() {
			must := func(p crypto.Point, e error) crypto.Point {
				if e != nil {
					panic(e)
				}
				return p
			}
			pa := must(base().Mul(scalarOf(a)))
			pb := must(base().Mul(scalarOf(b)))
			switch op {
			case "mul":
				x = pa
			case "add":
				x, err = pa.Add(pb)
			case "sub":
				x, err = pa.Sub(pb)
			case "neg":
				x = pa.Neg()
			case "mulmul":
				x, err = pa.Mul(scalarOf(b))
			case "null":
				x = pa.Null()
			case "base":
				x = base()
			case "clone":
				x = pa.Clone()
			case "set":
				x = pb
				err = x.Set(pa)
			case "unmarshal":
				var e []byte
				e, err = pa.MarshalBinary()
				x = pb
				if err == nil {
					err = x.UnmarshalBinary(e)
				}
			}
			if err == nil {
				enc, err = x.MarshalBinary()
			}
		})
		w.Emit(trace.M{"e": "point", "g": g, "op": op, "a": B(a), "b": B(b), "ser": B(enc), "ok": err == nil, "panic": p != ""})
	}
}

func main() {
	a := trace.ParseArgs()
	r := a.Rand()
	n := a.Int("n", 100)
	for f := 0; f < a.Int("files", 2); f++ {
		w := trace.NewWriter(a["dir"], "hash"+strconv.Itoa(f))
		hashes(w, r, n/4)
		w.Close()
		w = trace.NewWriter(a["dir"], "sig"+strconv.Itoa(f))
		signatures(w, r, n)
		w.Close()
		w = trace.NewWriter(a["dir"], "alg"+strconv.Itoa(f))
		algebra(w, r, n)
		w.Close()
	}
}
