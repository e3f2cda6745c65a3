// exprdrv evaluates scenario expressions, ordered JSON and reconstructions, and records the results.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strings"

	mei "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/interpreter"
	mer "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/expression/reconstructor"
	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	"verif/harness/trace"
)

type resolver map[string][]byte

func (r resolver) Clone() fr.FileResolver               { return r }
func (r resolver) SetContext(string)                    {}
func (r resolver) ResolveAbsolutePath(v string) string  { return v }
func (r resolver) ResolveFileValue(v string) ([]byte, error) {
	d, ok := r[v]
	if !ok {
		return nil, errors.New("no such file")
	}
	return append([]byte{}, d...), nil
}

var w *trace.Writer
var per, count int
var res = resolver{"a.bin": []byte{0, 1, 2, 255}, "abc": []byte("xyz|1"), "": {}}
var filesJSON []trace.M

func emit(m trace.M) {
	if count%per == 0 {
		w.Next()
	}
	count++
	w.Emit(m)
}

func expr(in []byte) {
	interp := &mei.ExprInterpreter{FileResolver: res}
	var out []byte
	var err error
	p := trace.Protect(func() { out, err = interp.InterpretString(string(in)) })
	emit(trace.M{"e": "expr", "in": trace.Bytes(in), "files": filesJSON, "ok": err == nil, "out": trace.Bytes(out), "panic": p != ""})
}

func tree(o oj.OJsonObject) interface{} {
	switch v := o.(type) {
	case *oj.OJsonString:
		return trace.M{"k": "s", "v": trace.Bytes([]byte(v.Value))}
	case *oj.OJsonBool:
		return trace.M{"k": "b", "v": bool(*v)}
	case *oj.OJsonList:
		l := []interface{}{}
		for _, x := range v.AsList() {
			l = append(l, tree(x))
		}
		return trace.M{"k": "l", "v": l}
	case *oj.OJsonMap:
		l := []interface{}{}
		for _, kv := range v.OrderedKV {
			l = append(l, trace.M{"key": trace.Bytes([]byte(kv.Key)), "val": tree(kv.Value)})
		}
		return trace.M{"k": "m", "v": l}
	}
	return trace.M{"k": fmt.Sprintf("%T", o)}
}

func exprTree(o oj.OJsonObject) {
	interp := &mei.ExprInterpreter{FileResolver: res}
	var out []byte
	var err error
	p := trace.Protect(func() { out, err = interp.InterpretSubTree(o) })
	emit(trace.M{"e": "tree", "in": tree(o), "files": filesJSON, "ok": err == nil, "out": trace.Bytes(out), "panic": p != ""})
}

func ojson(in []byte) {
	none := trace.M{"k": "none"}
	m := trace.M{"e": "oj", "in": trace.Bytes(in), "ok": false, "tree": none, "out": []int{}, "reok": false, "retree": none, "panic": false}
	p := trace.Protect(func() {
		o, err := oj.ParseOrderedJSON(append([]byte{}, in...))
		if err != nil {
			return
		}
		m["ok"] = true
		m["tree"] = tree(o)
		text := oj.JSONString(o)
		m["out"] = trace.Bytes([]byte(text))
		o2, err := oj.ParseOrderedJSON([]byte(text))
		if err == nil {
			m["reok"] = true
			m["retree"] = tree(o2)
		}
	})
	m["panic"] = p != ""
	emit(m)
}

var hints = map[string]mer.ExprReconstructorHint{"none": mer.NoHint, "number": mer.NumberHint, "address": mer.AddressHint, "str": mer.StrHint, "code": mer.CodeHint}

func render(b []byte, hint string) {
	er := &mer.ExprReconstructor{}
	var s string
	p := trace.Protect(func() { s = er.Reconstruct(append([]byte{}, b...), hints[hint]) })
	emit(trace.M{"e": "render", "hint": hint, "in": trace.Bytes(b), "out": trace.Bytes([]byte(s)), "panic": p != ""})
}

func replay(path string, f func([]byte)) {
	fh, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var rec struct{ In []byte2 }
		if err := json.Unmarshal(sc.Bytes(), &rec); err != nil {
			panic(err)
		}
		b := make([]byte, len(rec.In))
		for i, x := range rec.In {
			b[i] = byte(x)
		}
		f(b)
	}
}

type byte2 int

var atoms = []string{"", "0", "1", "5", "255", "256", "-1", "+3", "-129", "0x", "0x1", "0xabcdef", "0b101", "1_000", "1,234", "true", "false", "str:hello", "``x y", "''z", "address:alice", "address:bob#01", "sc:contract", "sc:c#aa", "u8:3", "u16:65535", "u32:77", "u64:12", "i8:-3", "i16:+7", "i32:-70000", "i64:-1", "biguint:1000", "nested:str:abc", "keccak256:1", "file:a.bin", "junk", "i8:", "u8:", "i64:"}

func randExpr(r *rand.Rand, depth int) string {
	s := atoms[r.Intn(len(atoms))]
	if r.Intn(4) == 0 {
		s = []string{"nested:", "keccak256:", "biguint:", "u8:", "u32:", "i8:", "i32:", "-", "+"}[r.Intn(9)] + s
	}
	if r.Intn(6) == 0 {
		digits := "0123456789"
		n := 1 + r.Intn(40)
		b := make([]byte, n)
		for i := range b {
			b[i] = digits[r.Intn(10)]
		}
		s = []string{"", "-", "+", "u64:", "i64:", "i64:-", "i64:+", "biguint:", "nested:", "nested:-"}[r.Intn(10)] + string(b)
	}
	if depth > 0 && r.Intn(3) == 0 {
		s += "|" + randExpr(r, depth-1)
	}
	if r.Intn(8) == 0 && len(s) > 0 { // mutate
		b := []byte(s)
		k := r.Intn(len(b))
		switch r.Intn(3) {
		case 0:
			b[k] = "0x-+:|#_,ab1 \x00\xff"[r.Intn(15)]
		case 1:
			b = append(b[:k], b[k+1:]...)
		default:
			b = append(b[:k], append([]byte{"0x-+:|#_,ab1 f9"[r.Intn(15)]}, b[k:]...)...)
		}
		s = string(b)
	}
	return s
}

func randTree(r *rand.Rand, depth int) oj.OJsonObject {
	k := r.Intn(6)
	if depth == 0 {
		k = 0
	}
	switch {
	case k < 3:
		return &oj.OJsonString{Value: randExpr(r, 1)}
	case k == 3:
		if r.Intn(4) == 0 {
			b := oj.OJsonBool(r.Intn(2) == 0)
			return &b
		}
		return &oj.OJsonString{Value: atoms[r.Intn(30)]}
	case k == 4:
		l := oj.OJsonList{}
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, randTree(r, depth-1))
		}
		return &l
	default:
		m := oj.NewMap()
		for i := r.Intn(5); i > 0; i-- {
			m.Put([]string{"a", "b", "1", "10", "2", "A", "", "aa", "ab", "é", "0-x"}[r.Intn(11)], randTree(r, depth-1))
		}
		return m
	}
}

var strs = []string{"", "a", "abc", `\"`, `\\`, `a\\`, `\\\"`, `x\\\\`, `{`, `}`, `[1,2]`, `,`, `:`, `\n`, "tab\there", "é", `\u0041`, "str:x|1", " ", "//", "100%", "%d%s", "%%", "%!v", "$1", "<&>'", "\x7f\x00", "\u2028", "{{.}}"}

func ws(r *rand.Rand) string {
	return []string{"", "", "", " ", "\n", "\t", "\r\n", "  "}[r.Intn(8)]
}

func doc(r *rand.Rand, depth int) string {
	k := r.Intn(7)
	if depth == 0 {
		k = r.Intn(3)
	}
	switch k {
	case 0, 1:
		return `"` + strs[r.Intn(len(strs))] + `"`
	case 2:
		return []string{"true", "false"}[r.Intn(2)]
	case 3, 4:
		s := "["
		n := r.Intn(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ","
			}
			s += ws(r) + doc(r, depth-1) + ws(r)
		}
		return s + ws(r) + "]"
	default:
		s := "{"
		n := r.Intn(4)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += ","
			}
			s += ws(r) + `"` + strs[r.Intn(len(strs))] + `"` + ws(r) + ":" + ws(r) + doc(r, depth-1) + ws(r)
		}
		return s + ws(r) + "}"
	}
}

func mutate(r *rand.Rand, s string) string {
	if len(s) == 0 {
		return s
	}
	b := []byte(s)
	k := r.Intn(len(b))
	alpha := `"\{}[],: txa1`
	switch r.Intn(4) {
	case 0:
		b[k] = alpha[r.Intn(len(alpha))]
	case 1:
		b = append(b[:k], b[k+1:]...)
	case 2:
		b = append(b[:k], append([]byte{alpha[r.Intn(len(alpha))]}, b[k:]...)...)
	default:
		b = b[:k]
	}
	return string(b)
}

func randBytes(r *rand.Rand) []byte {
	n := []int{0, 1, 1, 2, 3, 8, 10, 11, 14, 15, 16, 20, 31, 32, 33, 40}[r.Intn(16)]
	b := make([]byte, n)
	mode := r.Intn(4)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b[i] = byte(32 + r.Intn(95))
		case 2:
			b[i] = byte(r.Intn(3))
		default:
			b[i] = "abc_019"[r.Intn(7)]
		}
	}
	return b
}

func randAddr(r *rand.Rand) []byte {
	b := make([]byte, 32)
	z := 0
	if r.Intn(2) == 0 {
		z = 8
		if r.Intn(6) == 0 {
			z = 7
		}
	}
	n := r.Intn(33)
	for i := range b {
		switch {
		case i < z:
			b[i] = 0
		case i < z+n:
			b[i] = "abcz_0\x05\xfe"[r.Intn(8)]
		default:
			b[i] = '_'
		}
	}
	if r.Intn(2) == 0 {
		b[31] = []byte{0, 1, 5, 15, 16, 0x66, 0xff, '_', 'a'}[r.Intn(9)]
	}
	return b
}

// longs visits lengths around the boundaries of encodings.
func longs(r *rand.Rand, f func(l int, big bool)) {
	for _, l := range []int{7, 8, 9, 10, 11, 23, 24, 25, 31, 32, 33, 55, 56, 64, 127, 128, 135, 136, 137, 255, 256, 257, 300, 400, 1000} {
		f(l, l > 140)
	}
}

// body is text of l characters (bytes for hexadecimal values) that suits the prefix.
func body(r *rand.Rand, prefix string, l int) string {
	alpha, n := "0123456789", l
	switch {
	case strings.HasSuffix(prefix, "0x"):
		alpha, n = "0123456789abcdefABCDEF", 2*l
	case strings.HasSuffix(prefix, "0b"):
		alpha = "01"
	case strings.HasSuffix(prefix, ":"):
		alpha = "abcz_ 0{}1;"
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = alpha[r.Intn(len(alpha))]
	}
	return string(b)
}

func main() {
	a := trace.ParseArgs()
	r := a.Rand()
	n := a.Int("n", 1000)
	per = a.Int("per", 1000)
	for _, k := range []string{"a.bin", "abc", ""} {
		filesJSON = append(filesJSON, trace.M{"path": trace.Bytes([]byte(k)), "data": trace.Bytes(res[k])})
	}
	w = trace.NewWriter(a["dir"], a["mode"])
	switch a["mode"] {
	case "expr":
		replay(a["gen"], expr)
		longs(r, func(l int, big bool) {
			for _, p := range []string{"0x", "str:", "nested:0x", "nested:str:", "keccak256:0x", "keccak256:str:", "biguint:0x", "address:", "sc:", "str:a|0x", "nested:nested:0x", "u64:0x", "i64:-0x", "+0x", "-0x", "0b"} {
				expr([]byte(p + body(r, p, l)))
			}
			if !big {
				expr([]byte(body(r, "", l)))
				expr([]byte("biguint:" + body(r, "", l)))
				expr([]byte("-" + body(r, "", l)))
			}
		})
		for i := 0; i < n; i++ {
			expr([]byte(randExpr(r, 3)))
			if i%3 == 0 {
				exprTree(randTree(r, 3))
			}
		}
	case "oj":
		replay(a["gen"], ojson)
		for c := 0; c < 256; c++ {
			if c != '"' && c != '\\' {
				b := string([]byte{byte(c)})
				ojson([]byte(`"` + b + `"`))
				ojson([]byte(`["x` + b + `y",{"` + b + `d":"` + b + b + `s"}]`))
			}
		}
		longs(r, func(l int, big bool) {
			if l > 300 {
				return
			}
			q := `"` + body(r, "str:", l) + `"`
			ojson([]byte(q))
			ojson([]byte("[" + q + "," + q + "]"))
			ojson([]byte("{" + q + ":" + q + "}"))
			if l < 70 {
				ojson([]byte(strings.Repeat("[", l) + strings.Repeat("]", l)))
				ojson([]byte(strings.Repeat("{\"a\":", l) + "true" + strings.Repeat("}", l)))
				ojson([]byte(`"` + strings.Repeat(`\\`, l) + `"`))
				ojson([]byte(`"` + strings.Repeat(`\`, l) + `"`))
				m := "{"
				for k := 0; k < l; k++ {
					m += fmt.Sprintf("\"%d\":\"%d\",", r.Intn(l+3), k)
				}
				ojson([]byte(m + `"z":"z"}`))
				ojson([]byte("[" + strings.Repeat("true,", l) + "false]"))
			}
		})
		for i := 0; i < n; i++ {
			d := ws(r) + doc(r, 4) + ws(r)
			ojson([]byte(d))
			ojson([]byte(mutate(r, d)))
			ojson([]byte(mutate(r, mutate(r, d))))
		}
	case "render":
		longs(r, func(l int, big bool) {
			for _, k := range []string{"str:", "0x"} {
				b := []byte(body(r, k, l))
				if k == "0x" {
					r.Read(b)
				}
				for _, h := range []string{"none", "number", "address", "str", "code"} {
					if h != "number" || l <= 64 {
						render(b, h)
					}
				}
			}
		})
		for i := 0; i < n; i++ {
			b := randBytes(r)
			for _, h := range []string{"none", "number", "address", "str", "code"} {
				render(b, h)
			}
			render(randAddr(r), "address")
			er := &mer.ExprReconstructor{}
			x := r.Uint64() >> uint(r.Intn(64))
			xb := big.NewInt(0).SetUint64(x)
			emit(trace.M{"e": "render", "hint": "number", "in": trace.Bytes(xb.Bytes()), "out": trace.Bytes([]byte(er.ReconstructFromUint64(x))), "panic": false})
			xb = big.NewInt(0).SetBytes(b)
			emit(trace.M{"e": "render", "hint": "number", "in": trace.Bytes(xb.Bytes()), "out": trace.Bytes([]byte(er.ReconstructFromBigInt(xb))), "panic": false})
		}
		for x := 0; x < 256; x++ {
			for _, h := range []string{"none", "number", "address", "str", "code"} {
				render([]byte{byte(x)}, h)
			}
			q := make([]byte, 32)
			for i := range q {
				q[i] = '_'
			}
			q[31] = byte(x)
			render(q, "address")
		}
	}
	w.Close()
}
