package sim

import (
	"encoding/binary"
	"fmt"
	"sort"

	"verif/harness/trace"
)

// Outcomes of a function body.
const (
	EndOK   = "ok"
	EndTrap = "trap"
	EndOOG  = "oog"
)

// Rec records what contracts do and what the VM answers.
type Rec struct {
	T      *trace.Writer
	Policy func(f *Frame) string
	Stack  []*Frame
	Events int
	Drain  func() []trace.M
}

// Frame is a running exported function.
type Frame struct {
	R     *Rec
	I     Inst
	Fn    string
	Info  CodeInfo
	Depth int
	Stop  string
	Rets  int // results of nested calls the body may want to look at
	Last  map[string]int64
	Nest  []string
}

// Args are logical arguments, one per letter of the signature; Raw overrides numeric parameters.
type Args struct {
	V   []interface{}
	Raw map[int]int64
}

// Install makes the recorder the handler of all contract code.
func (r *Rec) Install() { Handler = r.handle }

// Emit writes an event.
func (r *Rec) Emit(m trace.M) {
	r.Events++
	switch m["e"] {
	case "enter", "eei", "ret", "leave", "done":
		if r.Drain != nil {
			m["bi"] = r.Drain()
		}
	}
	r.T.Emit(m)
}

func (r *Rec) handle(i Inst, name string) int {
	f := &Frame{R: r, I: i, Fn: name, Info: Parse(i.Code()), Depth: len(r.Stack), Last: map[string]int64{}}
	r.Stack = append(r.Stack, f)
	defer func() { r.Stack = r.Stack[:f.Depth] }()
	r.Emit(trace.M{"e": "enter", "fn": H([]byte(name)), "code": H(i.Code()), "limit": clamp(int64(i.Limit())), "g": clamp(int64(i.Points())), "bp": i.BP()})
	end := r.Policy(f)
	if f.Stop != "" {
		end = f.Stop
	}
	r.Emit(trace.M{"e": "leave", "how": end, "g": clamp(int64(i.Points())), "bp": i.BP()})
	if end == EndOK {
		return 0
	}
	return 1
}

const clampMax = 1 << 30

func clamp(x int64) int64 {
	if x > clampMax {
		return clampMax
	}
	if x < -clampMax {
		return -clampMax
	}
	return x
}

// Burn uses gas the way instructions do.
func (f *Frame) Burn(n uint64) {
	if f.Stop != "" {
		return
	}
	f.I.SetPoints(f.I.Points() + n)
	f.R.Emit(trace.M{"e": "burn", "n": n, "g": clamp(int64(f.I.Points()))})
	f.check()
}

func (f *Frame) check() {
	if f.I.BP() != 0 {
		f.Stop = EndTrap
	} else if f.I.Points() > f.I.Limit() {
		f.I.SetBP(4)
		f.Stop = EndOOG
	}
}

// layout of the memory used for arguments
const (
	inBase  = 64
	outBase = 36864
	outStep = 2048
)

// Call runs an interface function with the given arguments, recording everything.
func (f *Frame) Call(name string, v []interface{}, raw map[int]int64) int64 {
	if f.Stop != "" {
		return 0
	}
	b := Binds[name]
	sig, ok := Sig[name]
	if b == nil || !ok {
		panic("no function " + name)
	}
	mem := f.I.Mem()
	for k := range mem {
		mem[k] = 0xAA
	}
	pos, outPos := inBase, outBase
	put := func(d []byte) int64 {
		p := pos
		if p+len(d) <= len(mem) {
			copy(mem[p:], d)
		}
		pos += len(d) + 3
		return int64(p)
	}
	var a []int64
	for k, t := range []byte(sig) {
		var x interface{}
		if k < len(v) {
			x = v[k]
		}
		switch t {
		case 'a', 'v', 'm', 'B', 'b', 'E', 'e', 's', 'C', 'T':
			d, _ := x.([]byte)
			if n := Fixed[t]; n > 0 && len(d) < n {
				if t == 'v' {
					d = append(make([]byte, n-len(d)), d...)
				} else {
					d = append(append([]byte{}, d...), make([]byte, n-len(d))...)
				}
			}
			a = append(a, put(d))
		case 'k', 'd', 'f', 't':
			d, _ := x.([]byte)
			a = append(a, put(d), int64(len(d)))
		case 'x':
			l, _ := x.([][]byte)
			lens := make([]byte, 4*len(l))
			var all []byte
			for q, y := range l {
				binary.LittleEndian.PutUint32(lens[4*q:], uint32(len(y)))
				all = append(all, y...)
			}
			a = append(a, int64(len(l)), put(lens), put(all))
		case 'o':
			a = append(a, int64(outPos))
			outPos += outStep
		case 'l', 'N', 'h', 'i', 'j', 'L', 'g', 'n':
			switch y := x.(type) {
			case int:
				a = append(a, int64(y))
			case int64:
				a = append(a, y)
			case int32:
				a = append(a, int64(y))
			default:
				a = append(a, 0)
			}
		default:
			panic("signature of " + name)
		}
	}
	for k, x := range raw {
		if k < len(a) {
			a[k] = x
		}
	}
	if len(a) != len(b.I64) {
		panic(fmt.Sprintf("%s: %d parameters, the VM has %d", name, len(a), len(b.I64)))
	}
	win := func(p, n int64) []byte {
		if n <= 0 || p < 0 || p >= int64(len(mem)) {
			return nil
		}
		e := p + n
		if e > int64(len(mem)) {
			e = int64(len(mem))
		}
		return append([]byte{}, mem[p:e]...)
	}
	// windows read and written
	var ins []interface{}
	var outs []int64
	i32 := func(x int64) int64 { return int64(int32(x)) }
	for k, isL := range b.I64 {
		if !isL {
			a[k] = i32(a[k])
		}
	}
	k := 0
	for q, t := range []byte(sig) {
		switch t {
		case 'a', 'v', 'm', 'B', 'b', 'E', 'e':
			ins = append(ins, H(win(a[k], int64(Fixed[t]))))
			k++
		case 's':
			hd := win(a[k], 2)
			n := int64(2)
			if len(hd) == 2 {
				n += int64(hd[1])
			}
			ins = append(ins, H(win(a[k], n)))
			k++
		case 'C':
			ins = append(ins, H(win(a[k], a[k+indexOf(sig[q:], 'l')])))
			k++
		case 'T':
			n := a[k+1]
			if n > 4096 {
				n = 4096
			}
			ins = append(ins, H(win(a[k], 32*n)))
			k++
		case 'k', 'd', 'f', 't':
			ins = append(ins, H(win(a[k], a[k+1])))
			k += 2
		case 'x':
			num, lo, do := a[k], a[k+1], a[k+2]
			l := []interface{}{}
			for z := int64(0); z < num && num < 1<<29 && lo >= 0 && lo <= int64(len(mem)); z++ {
				w := win(lo+4*z, 4)
				w = append(w, make([]byte, 4-len(w))...)
				n := int64(int32(binary.LittleEndian.Uint32(w)))
				if n > 1<<16 { // not modelled: the call is made without it
					a[k] = z
					break
				}
				l = append(l, []interface{}{n, H(win(do, n))})
				if n < 0 {
					break
				}
				do += n
			}
			ins = append(ins, l)
			k += 3
		case 'o':
			outs = append(outs, a[k])
			k++
		default:
			k++
		}
	}
	if ins == nil {
		ins = []interface{}{}
	}
	before := append([]byte{}, mem...)
	ev := trace.M{"f": name, "a": clampAll(a), "q": hex64(a, b.I64), "m": ins}
	ml0 := len(mem)
	nest := Nests(name)
	if nest {
		f.R.Emit(trace.M{"e": "call", "f": name, "a": ev["a"], "q": ev["q"], "m": ins, "ml": ml0})
	}
	done := false
	defer func() {
		if !done {
			e := recover()
			f.R.Emit(trace.M{"e": "panic", "f": name, "a": ev["a"], "q": ev["q"], "m": ins, "ml": ml0, "what": fmt.Sprint(e)})
			panic(e)
		}
	}()
	r := f.I.Invoke(b, a)
	done = true
	after := f.I.Mem()
	// changes, attributed to the output windows
	type w struct{ p, e int64 }
	ord := append([]int64{}, outs...)
	sort.Slice(ord, func(x, y int) bool { return ord[x] < ord[y] })
	end := func(p int64) int64 {
		for _, x := range ord {
			if x > p {
				return x
			}
		}
		return int64(len(after))
	}
	old := func(p int64) byte {
		if p < int64(len(before)) {
			return before[p]
		}
		return 0
	}
	changed := []int64{}
	for p := range after {
		if after[p] != old(int64(p)) {
			changed = append(changed, int64(p))
		}
	}
	covered := 0
	ov := []string{}
	for _, p := range outs {
		e := end(p)
		last := int64(-1)
		for _, c := range changed {
			if c >= p && c < e {
				last = c
				covered++
			}
		}
		if last >= 0 && p >= 0 {
			ov = append(ov, H(after[p:last+1]))
		} else {
			ov = append(ov, "")
		}
	}
	ev["e"] = "eei"
	if nest {
		ev = trace.M{"e": "ret", "f": name}
	}
	ev["o"] = ov
	ev["x"] = len(changed) - covered
	ev["r"] = clamp(r)
	if b.Ret == 2 {
		ev["rq"] = fmt.Sprintf("%016x", uint64(r))
	} else {
		ev["rq"] = ""
	}
	if b.Ret == 0 {
		ev["r"] = 0
	}
	ev["ml"] = ml0
	ev["ml2"] = len(after)
	ev["g"] = clamp(int64(f.I.Points()))
	ev["bp"] = f.I.BP()
	f.R.Emit(ev)
	f.Last[name] = r
	f.check()
	return r
}

func indexOf(s string, c byte) int {
	n := 0
	for k := 0; k < len(s); k++ {
		if s[k] == c {
			return n
		}
		switch s[k] {
		case 'k', 'd', 'f', 't':
			n += 2
		case 'x':
			n += 3
		default:
			n++
		}
	}
	return n
}

func clampAll(a []int64) []int64 {
	r := make([]int64, len(a))
	for k, x := range a {
		if x >= -(1<<31) && x < 1<<31 {
			r[k] = x
		} else {
			r[k] = clamp(x)
		}
	}
	return r
}

func hex64(a []int64, l []bool) []string {
	r := []string{}
	for k, x := range l {
		if x {
			r = append(r, fmt.Sprintf("%016x", uint64(a[k])))
		}
	}
	return r
}

// Direct calls the machine itself the way Go code of a mock contract does; the error does not end the caller.
func (f *Frame) Direct(name string, in trace.M, call func() error) {
	if f.Stop != "" {
		return
	}
	ml0 := len(f.I.Mem())
	f.R.Emit(trace.M{"e": "call", "f": name, "a": []int64{}, "q": []string{}, "m": []string{}, "ml": ml0, "in": in})
	done := false
	defer func() {
		if !done {
			e := recover()
			f.R.Emit(trace.M{"e": "panic", "f": name, "a": []int64{}, "q": []string{}, "m": []string{}, "ml": ml0, "what": fmt.Sprint(e)})
			panic(e)
		}
	}()
	err := call()
	done = true
	r := 0
	if err != nil {
		r = 1
	}
	f.R.Emit(trace.M{"e": "ret", "f": name, "o": []string{}, "x": 0, "r": r, "rq": "", "ml": ml0, "ml2": len(f.I.Mem()), "g": clamp(int64(f.I.Points())), "bp": f.I.BP()})
	f.check()
}
