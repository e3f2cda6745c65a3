// debugdrv sends requests to the real debugger (directly and over HTTP) and records what it answers.
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	ad "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwendebug"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/gin-gonic/gin"
	"verif/harness/sim"
	"verif/harness/trace"
)

type M = trace.M
type L = []interface{}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- the contracts: two versions of one, told apart by what they export ----

func codeOf(names ...string) []byte {
	s := "WSTB\nM 1 1\n"
	for _, n := range names {
		s += "E " + hex.EncodeToString([]byte(n)) + " 0 0\n"
	}
	return []byte(s + "#\n")
}

var codes = map[string][]byte{
	"A":   codeOf("init", "e", "s", "g", "p", "f", "i", "q", "c", "va"),
	"B":   codeOf("init", "e", "s", "g", "p", "f", "i", "q", "c", "vb"),
	"bad": []byte("not a contract"),
}

func contract(i sim.Inst, name string) int {
	sim.LoadBinds() // each request makes a machine, which registers its imports anew
	mem := i.Mem()
	stopped := func() bool {
		if i.BP() == 0 && i.Points() > i.Limit() {
			i.SetBP(4)
		}
		return i.BP() != 0
	}
	inv := func(n string, a ...int64) int64 {
		if stopped() {
			return 0
		}
		b := sim.Binds[n]
		if b == nil {
			panic("no import " + n)
		}
		return i.Invoke(b, a)
	}
	put := func(at int, b []byte) int64 { copy(mem[at:], b); return int64(at) }
	putA := func(at int, b []byte) int64 { put(at, make([]byte, 32)); return put(at, b) }
	finish := func(b []byte) { inv("finish", put(30000, b), int64(len(b))) }
	trim := func(b []byte) []byte { return new(big.Int).SetBytes(b).Bytes() }
	args := [][]byte{}
	for k, n := int64(0), inv("getNumArguments"); k < n && !stopped(); k++ {
		l := inv("getArgument", k, 2000)
		args = append(args, append([]byte{}, mem[2000:2000+l]...))
	}
	switch name {
	case "e":
		for _, a := range args {
			finish(a)
		}
	case "init", "s":
		if len(args)%2 == 1 {
			inv("signalError", put(4000, args[0]), int64(len(args[0])))
		}
		for k := 0; k+1 < len(args); k += 2 {
			inv("storageStore", put(4000, args[k]), int64(len(args[k])), put(6000, args[k+1]), int64(len(args[k+1])))
		}
	case "g":
		for _, a := range args {
			n := inv("storageLoad", put(4000, a), int64(len(a)), 6000)
			if n < 0 {
				n = 0
			}
			finish(mem[6000 : 6000+n])
		}
	case "p":
		v := make([]byte, 32)
		copy(v[32-len(args[1]):], args[1])
		inv("transferValue", putA(4000, args[0]), put(6000, v), 8000, 0)
	case "f":
		inv("signalError", put(4000, args[0]), int64(len(args[0])))
	case "i":
		inv("getCaller", 4000)
		finish(mem[4000:4032])
		finish(trim(mem[4000 : 4000+inv("getCallValue", 4000)]))
		inv("getSCAddress", 4000)
		finish(mem[4000:4032])
		putA(4000, nil)
		inv("getOwnerAddress", 4000)
		finish(mem[4000:4032])
	case "q":
		for _, a := range args {
			putA(4000, a)
			h := inv("bigIntNew", 0)
			inv("bigIntGetExternalBalance", 4000, h)
			finish(trim(mem[5000 : 5000+inv("bigIntGetUnsignedBytes", h, 5000)]))
		}
	case "va":
		finish([]byte("A"))
	case "vb":
		finish([]byte("B"))
	case "c":
		// executeOnDestContext(args[0], function args[1], arguments args[2:])
		to, fn, rest := args[0], args[1], args[2:]
		at := 10000
		for k, a := range rest {
			mem[9000+4*k], mem[9001+4*k], mem[9002+4*k], mem[9003+4*k] = byte(len(a)), byte(len(a)>>8), 0, 0
			at += copy(mem[at:], a)
		}
		putA(6000, nil)
		inv("executeOnDestContext", 100000, putA(4000, to), 6000, put(7000, fn), int64(len(fn)), int64(len(rest)), 9000, 10000)
	}
	if stopped() {
		return 1
	}
	return 0
}

// ---- requests ----

// Req is a request in the words of the specification; texts are what is sent.
type Req struct {
	Op, Via, World, Out string
	DB                  int
	Addr, Balance       string // create
	Nonce               uint64
	From, Value, To     string
	Gas, Price          uint64
	Fn                  string
	Args                []string
	Code, How, Meta     string // code: A, B, bad, none, nothex, nofile; how: hex or path
}

// Res is what came back.
type Res struct {
	OK, Err, Crash bool
	Code           int
	CodeText       string
	Msg            string
	Data           [][]byte
	Addr           []byte
	From           []byte
	Value          *big.Int
	Gas            uint64
	Price          uint64
	Acc            *accRes
	CMeta          []byte // what the machine installs
	CCode          string
	Kept           bool // there is an outcome which says what the answer says
}
type accRes struct {
	Address []byte
	Balance *big.Int
	Nonce   uint64
}

type machine struct {
	dir    string
	url    string
	facade *ad.DebugFacade
	server *ad.DebugFacade
}

func (m *machine) base(q Req) ad.RequestBase {
	return ad.RequestBase{DatabasePath: filepath.Join(m.dir, fmt.Sprintf("db%d", q.DB)), World: q.World, Outcome: q.Out}
}

func (m *machine) deployReq(q Req) ad.DeployRequest {
	d := ad.DeployRequest{ContractRequestBase: m.contractBase(q), CodeMetadata: q.Meta, ArgumentsHex: q.Args}
	switch {
	case q.Code == "none":
	case q.Code == "nothex":
		d.CodeHex = "5g"
	case q.Code == "nofile":
		d.CodePath = filepath.Join(m.dir, "no-such-file")
	case q.How == "path":
		d.CodePath = filepath.Join(m.dir, q.Code+".wasm")
	default:
		d.CodeHex = hex.EncodeToString(codes[q.Code])
	}
	return d
}

func (m *machine) contractBase(q Req) ad.ContractRequestBase {
	return ad.ContractRequestBase{RequestBase: m.base(q), ImpersonatedHex: q.From, Value: q.Value, GasPrice: q.Price, GasLimit: q.Gas}
}

func (m *machine) runReq(q Req) ad.RunRequest {
	return ad.RunRequest{ContractRequestBase: m.contractBase(q), ContractAddressHex: q.To, Function: q.Fn, ArgumentsHex: q.Args}
}

func fill(r *Res, c *ad.ContractResponseBase) {
	r.Err = c.Error != nil
	r.CodeText = c.ReturnCodeString
	if c.Output != nil {
		r.Code, r.Msg, r.Data = int(c.Output.ReturnCode), c.Output.ReturnMessage, c.Output.ReturnData
	}
	if c.Input != nil {
		r.From, r.Value, r.Gas, r.Price = c.Input.CallerAddr, c.Input.CallValue, c.Input.GasProvided, c.Input.GasPrice
	}
}

// installed finds the code which the machine put at an address.
func installed(r *Res, c *ad.ContractResponseBase, at []byte) {
	if c.Output == nil {
		return
	}
	for _, a := range c.Output.OutputAccounts {
		if a != nil && bytes.Equal(a.Address, at) {
			r.CMeta, r.CCode = a.CodeMetadata, "other"
			for n, code := range codes {
				if bytes.Equal(code, a.Code) {
					r.CCode = n
				}
			}
		}
	}
}

func (m *machine) send(q Req) Res {
	if q.Via == "http" {
		return m.post(q)
	}
	r := Res{}
	switch q.Op {
	case "create":
		x, err := m.facade.CreateAccount(ad.CreateAccountRequest{RequestBase: m.base(q), AddressHex: q.Addr, Balance: q.Balance, Nonce: q.Nonce})
		if r.OK = err == nil; r.OK {
			r.Acc = &accRes{x.Account.Address, x.Account.Balance, x.Account.Nonce}
		}
	case "deploy":
		x, err := m.facade.DeploySmartContract(m.deployReq(q))
		if r.OK = err == nil; r.OK {
			fill(&r, &x.ContractResponseBase)
			r.Addr = x.ContractAddress
			installed(&r, &x.ContractResponseBase, r.Addr)
		}
	case "upgrade":
		x, err := m.facade.UpgradeSmartContract(ad.UpgradeRequest{DeployRequest: m.deployReq(q), ContractAddressHex: q.To})
		if r.OK = err == nil; r.OK {
			fill(&r, &x.ContractResponseBase)
			to, _ := hex.DecodeString(q.To)
			installed(&r, &x.ContractResponseBase, to)
		}
	case "run":
		x, err := m.facade.RunSmartContract(m.runReq(q))
		if r.OK = err == nil; r.OK {
			fill(&r, &x.ContractResponseBase)
		}
	case "query":
		x, err := m.facade.QuerySmartContract(ad.QueryRequest{RunRequest: m.runReq(q)})
		if r.OK = err == nil; r.OK {
			fill(&r, &x.ContractResponseBase)
		}
	}
	return r
}

// post sends the request to the server; its fields are those of the documented requests.
func (m *machine) post(q Req) Res {
	b := m.base(q)
	f := M{"DatabasePath": b.DatabasePath, "World": b.World, "Outcome": b.Outcome}
	path := "/" + q.Op
	switch q.Op {
	case "create":
		path = "/account"
		f["AddressHex"], f["Balance"], f["Nonce"] = q.Addr, q.Balance, q.Nonce
	default:
		f["ImpersonatedHex"], f["Value"], f["GasPrice"], f["GasLimit"], f["ArgumentsHex"] = q.From, q.Value, q.Price, q.Gas, q.Args
	}
	switch q.Op {
	case "deploy", "upgrade":
		d := m.deployReq(q)
		f["CodeHex"], f["CodePath"], f["CodeMetadata"] = d.CodeHex, d.CodePath, d.CodeMetadata
	case "run", "query":
		f["Function"] = q.Fn
	}
	if q.Op != "deploy" && q.Op != "create" {
		f["ContractAddressHex"] = q.To
	}
	body, err := json.Marshal(f)
	must(err)
	resp, err := http.Post(m.url+path, "application/json", bytes.NewReader(body))
	must(err)
	defer resp.Body.Close()
	raw, err := ioutil.ReadAll(resp.Body)
	must(err)
	r := Res{OK: resp.StatusCode == http.StatusOK}
	if !r.OK {
		if resp.StatusCode != http.StatusBadRequest {
			r.Crash = true
		}
		return r
	}
	var x struct {
		Data struct {
			Error            json.RawMessage
			Input            *vmcommon.VMInput
			Output           *vmcommon.VMOutput
			ContractAddress  []byte
			ReturnCodeString string
			Account          *accRes
		} `json:"data"`
	}
	must(json.Unmarshal(raw, &x))
	c := ad.ContractResponseBase{Input: x.Data.Input, Output: x.Data.Output, ReturnCodeString: x.Data.ReturnCodeString}
	fill(&r, &c)
	r.Err = len(x.Data.Error) > 0 && string(x.Data.Error) != "null"
	r.Addr, r.Acc = x.Data.ContractAddress, x.Data.Account
	switch q.Op {
	case "deploy":
		installed(&r, &c, r.Addr)
	case "upgrade":
		to, _ := hex.DecodeString(q.To)
		installed(&r, &c, to)
	}
	return r
}

// ---- what is recorded ----

func nat(x uint64) []int { return trace.Bytes(new(big.Int).SetUint64(x).Bytes()) }
func txt(s string) []int { return trace.Bytes([]byte(s)) }
func list(l [][]byte) L {
	r := L{}
	for _, b := range l {
		r = append(r, trace.Bytes(b))
	}
	return r
}
func mag(b *big.Int) interface{} {
	if b == nil {
		return M{"neg": true, "mag": []int{}}
	}
	return trace.Big(b)
}

func event(q Req, r Res) M {
	args := L{}
	for _, a := range q.Args {
		args = append(args, txt(a))
	}
	res := M{"ok": r.OK, "crash": r.Crash, "kept": r.Kept}
	if r.OK {
		if r.Acc != nil {
			res["acc"] = M{"addr": trace.Bytes(r.Acc.Address), "bal": mag(r.Acc.Balance), "nonce": nat(r.Acc.Nonce)}
		} else {
			res["err"], res["code"], res["text"], res["msg"], res["data"] = r.Err, r.Code, r.CodeText, txt(r.Msg), list(r.Data)
			res["addr"], res["from"], res["value"], res["gas"], res["price"] = trace.Bytes(r.Addr), trace.Bytes(r.From), mag(r.Value), nat(r.Gas), nat(r.Price)
			res["cmeta"], res["ccode"] = trace.Bytes(r.CMeta), r.CCode
		}
	}
	return M{"op": q.Op, "via": q.Via, "db": q.DB, "world": q.World, "out": q.Out, "addr": txt(q.Addr), "bal": txt(q.Balance), "nonce": nat(q.Nonce),
		"from": txt(q.From), "value": txt(q.Value), "to": txt(q.To), "gas": nat(q.Gas), "price": nat(q.Price), "fn": q.Fn, "args": args,
		"code": q.Code, "meta": txt(q.Meta), "res": res}
}

// ---- histories ----

type gen struct {
	r         *rand.Rand
	m         *machine
	w         *trace.Writer
	contracts [][]byte
	worlds    []string
	stored    map[[2]string]bool
	dbs       int
}

func (g *gen) n(k int) int             { return g.r.Intn(k) }
func (g *gen) p(pct int) bool          { return g.r.Intn(100) < pct }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }

func addr(first byte, last byte) []byte {
	a := bytes.Repeat([]byte{first}, 32)
	a[31] = last
	return a
}

var users = [][]byte{addr(0x61, 0x61), addr(0xe1, 0x80), addr(0xe1, 0x81), addr(0x20, 0xff)}
var keys = []string{"6b31", "6b", "00", "80", "81", "ff80", "6b3162", "e282ac", "c3"}

func (g *gen) hex(b []byte) string {
	s := hex.EncodeToString(b)
	if g.p(10) {
		return strings.ToUpper(s)
	}
	return s
}
func (g *gen) user() []byte { return users[g.n(len(users))] }
func (g *gen) contract() []byte {
	if len(g.contracts) == 0 || g.p(4) {
		return g.user()
	}
	return g.contracts[g.n(len(g.contracts))]
}
func (g *gen) amount() string {
	return g.pick("", "0", "1", "7", "100", "256", "+3", "007", "340282366920938463463374607431768211456")
}
func (g *gen) value() string {
	return hex.EncodeToString(func() []byte { b := make([]byte, g.n(4)); g.r.Read(b); return b }())
}
func (g *gen) number() string { return g.pick("", "01", "02", "05", "64", "0100") }

func (g *gen) base() Req {
	q := Req{Via: "direct", World: g.worlds[g.n(len(g.worlds))], DB: g.n(g.dbs), Gas: 10000000}
	if g.p(25) {
		q.Via = "http"
	}
	if g.p(20) {
		q.Out = g.pick("x", "default", "out come", g.worlds[0])
	}
	if g.p(2) {
		q.Gas = 0
	} else if g.p(3) {
		q.Gas = 1
	}
	if g.p(20) {
		q.Price = uint64(g.n(3))
	}
	return q
}

func (g *gen) bad(s string) string {
	if g.p(3) {
		return g.pick("", "0", "zz", s+"1", "0x01", " 01", s+" ")
	}
	return s
}
func (g *gen) badNum(s string) string {
	if g.p(3) {
		return g.pick("a", "0x10", "1 ", "1.5", "1_0", "1e3", "+", "12z")
	}
	return s
}

func (g *gen) pairs(odd int) []string {
	l := []string{}
	for k := g.n(3); k > 0; k-- {
		l = append(l, keys[g.n(len(keys))], g.value())
	}
	if g.p(odd) {
		l = append(l, g.value())
	}
	return l
}

func (g *gen) withArgs(q Req) Req {
	if len(q.Args) > 0 {
		k := g.n(len(q.Args))
		q.Args[k] = g.bad(q.Args[k])
	}
	return q
}

func (g *gen) call(q Req) Req {
	q.From, q.To, q.Value = g.bad(g.hex(g.user())), g.bad(g.hex(g.contract())), g.badNum(g.amount())
	q.Fn = g.pick("e", "s", "s", "s", "g", "p", "p", "f", "i", "q", "va", "vb", "c", "c", "zz")
	switch q.Fn {
	case "e", "g", "f":
		q.Args = []string{keys[g.n(len(keys))]}
	case "s":
		q.Args = g.pairs(10)
	case "p":
		to := g.user()
		if g.p(40) {
			to = g.contract()
		}
		q.Args = []string{hex.EncodeToString(to), g.number()}
	case "q":
		q.Args = []string{hex.EncodeToString(g.user()), hex.EncodeToString(g.contract())}
	case "c":
		f := g.pick("s", "s", "e", "g", "va")
		q.Args = []string{hex.EncodeToString(g.contract()), hex.EncodeToString([]byte(f))}
		if f != "va" {
			q.Args = append(q.Args, keys[g.n(len(keys))], g.value())
		}
	}
	return g.withArgs(q)
}

func (g *gen) request() Req {
	q := g.base()
	switch k := g.n(100); {
	case k < 18:
		q.Op, q.Addr, q.Balance = "create", g.bad(g.hex(g.user())), g.badNum(g.amount())
		if g.p(70) {
			q.Nonce = uint64(g.n(4))
		} else if g.p(50) {
			q.Nonce = g.r.Uint64()
		}
	case k < 34:
		q.Op = "deploy"
		q.From, q.Value = g.bad(g.hex(g.user())), g.badNum(g.amount())
		q = g.code(q)
	case k < 44:
		q.Op = "upgrade"
		q.From, q.Value, q.To = g.bad(g.hex(g.user())), g.badNum(g.amount()), g.bad(g.hex(g.contract()))
		q = g.code(q)
	case k < 74:
		q.Op = "run"
		q = g.call(q)
	default:
		q.Op = "query"
		q = g.call(q)
	}
	return q
}

func (g *gen) code(q Req) Req {
	q.Code, q.How = g.pick("A", "A", "B"), g.pick("hex", "path")
	if g.p(8) {
		q.Code = g.pick("bad", "none", "nothex", "nofile")
	}
	q.Meta = g.bad(g.pick("", "", "0100", "0502", "0000", "0006"))
	q.Args = g.pairs(6)
	return g.withArgs(q)
}

func (g *gen) learn(r Res) {
	if len(r.Addr) == 32 {
		for _, a := range g.contracts {
			if bytes.Equal(a, r.Addr) {
				return
			}
		}
		if len(g.contracts) < 5 {
			g.contracts = append(g.contracts, r.Addr)
		}
	}
}

// kept tells whether the outcome of the request is found where the request wants it.
func (m *machine) kept(q Req, r Res) bool {
	raw, err := ioutil.ReadFile(filepath.Join(m.base(q).DatabasePath, "out", q.Out+".json"))
	if err != nil {
		return false
	}
	var x struct {
		ReturnCodeString string
		Output           *vmcommon.VMOutput
		Account          *accRes
	}
	if json.Unmarshal(raw, &x) != nil {
		return false
	}
	if r.Acc != nil {
		return x.Account != nil && bytes.Equal(x.Account.Address, r.Acc.Address) && x.Account.Nonce == r.Acc.Nonce && x.Account.Balance.Cmp(r.Acc.Balance) == 0
	}
	if x.Output == nil || len(x.Output.ReturnData) != len(r.Data) {
		return r.Err
	}
	for i, d := range r.Data {
		if !bytes.Equal(d, x.Output.ReturnData[i]) {
			return false
		}
	}
	return x.ReturnCodeString == r.CodeText && int(x.Output.ReturnCode) == r.Code
}

// spoiled sends a request while the files of the database are cut in half.
func (g *gen) spoiled() {
	q := g.request()
	if q.DB >= g.dbs || !g.stored[[2]string{fmt.Sprint(q.DB), q.World}] {
		return
	}
	old := map[string][]byte{}
	must(filepath.Walk(g.m.base(q).DatabasePath, func(p string, f os.FileInfo, err error) error {
		if err == nil && f.Mode().IsRegular() {
			b, err := ioutil.ReadFile(p)
			must(err)
			old[p] = b
			must(ioutil.WriteFile(p, b[:len(b)/2], 0644))
		}
		return nil
	}))
	r := g.m.send(q)
	for p, b := range old {
		must(ioutil.WriteFile(p, b, 0644))
	}
	g.w.Emit(M{"e": "spoiled", "r": L{event(q, r)}})
}

func (g *gen) do(q Req) {
	r := g.m.send(q)
	g.learn(r)
	r.Kept = r.OK && q.Out != "" && g.m.kept(q, r)
	if r.OK && q.Op != "query" && !strings.ContainsAny(q.World, "./") {
		g.stored[[2]string{fmt.Sprint(q.DB), q.World}] = true
	}
	g.w.Emit(M{"e": "req", "r": L{event(q, r)}})
}

// probe asks every contract of a world for everything.
func (g *gen) probe(db int, world string) {
	for _, c := range g.contracts {
		b := Req{Op: "query", Via: "direct", World: world, DB: db, From: hex.EncodeToString(users[0]), To: hex.EncodeToString(c), Gas: 10000000}
		q := b
		q.Fn, q.Args = "g", keys
		g.do(q)
		q = b
		q.Fn = "i"
		g.do(q)
		q = b
		q.Fn = g.pick("va", "vb")
		g.do(q)
		q = b
		q.Fn = "q"
		for _, a := range append(append([][]byte{}, users...), g.contracts...) {
			q.Args = append(q.Args, hex.EncodeToString(a))
		}
		g.do(q)
	}
}

func (g *gen) probes() {
	for db := 0; db < g.dbs; db++ {
		for _, w := range g.worlds {
			g.probe(db, w)
		}
	}
}

// together sends several requests at once.
func (g *gen) together(k int) {
	qs, rs := make([]Req, k), make([]Res, k)
	for i := range qs {
		qs[i] = g.request()
		if i > 0 && g.p(80) {
			qs[i].World, qs[i].DB = qs[0].World, qs[0].DB
		}
		if g.p(60) {
			qs[i].Via = "http"
		}
	}
	g.m.facade = g.m.server
	var wg sync.WaitGroup
	for i := range qs {
		wg.Add(1)
		go func(i int) { defer wg.Done(); rs[i] = g.m.send(qs[i]) }(i)
	}
	wg.Wait()
	l := L{}
	for i := range qs {
		g.learn(rs[i])
		l = append(l, event(qs[i], rs[i]))
	}
	g.w.Emit(M{"e": "req", "r": l})
}

func (g *gen) start() {
	os.RemoveAll(g.m.dir)
	must(os.MkdirAll(g.m.dir, 0755))
	for n, c := range codes {
		must(ioutil.WriteFile(filepath.Join(g.m.dir, n+".wasm"), c, 0644))
	}
	g.contracts, g.stored = nil, map[[2]string]bool{}
	g.w.Emit(M{"e": "new"})
}

func (g *gen) history(steps, atOnce int) {
	g.start()
	g.dbs = 1 + g.n(2)
	g.worlds = [][]string{{"w1"}, {"w1", "w2"}, {"default", ""}, {"w1", ".."}, {"w1", "./w1", "x/../w1"}, {"a", "../out/x", "sub/a"}, {"A", "a", "a.json"}}[g.n(7)]
	for i := 0; i < 2 || (i < 5 && g.p(60)); i++ {
		q := g.base()
		q.Op, q.Addr, q.Balance = "create", g.hex(g.user()), g.amount()
		g.do(q)
		if g.p(20) {
			continue
		}
		last := q
		q = g.base()
		q.Op, q.From, q.Code, q.How, q.Args = "deploy", q.Addr, "A", "hex", g.pairs(0)
		if g.p(30) {
			q.From = g.hex(g.user())
		}
		if g.p(80) {
			q.World, q.DB, q.Gas = last.World, last.DB, 10000000
		}
		g.do(q)
	}
	for i := 0; i < steps; i++ {
		switch {
		case g.p(atOnce):
			g.together(2 + g.n(3))
		default:
			g.do(g.request())
		}
		if g.p(8) {
			g.spoiled()
		}
		if g.p(12) {
			g.probe(g.n(g.dbs), g.worlds[g.n(len(g.worlds))])
		}
		if g.p(3) {
			g.m.facade = ad.NewDebugFacade() // as by another process
		}
	}
	g.probes()
}

func newAddress(creator []byte, nonce byte) []byte {
	a := append(append(append(make([]byte, 10), 0x11, 0x11, 0x11, 0x11), creator[:15]...), nonce)
	return append(a, creator[30:]...)
}

// named gives the address a name stands for.
func named(s string) string {
	switch s {
	case "u0", "u1":
		return hex.EncodeToString(users[int(s[1]-'0')+1])
	case "c0", "c1":
		return hex.EncodeToString(newAddress(users[int(s[1]-'0')+1], 0))
	}
	return s
}

// replay performs a history of the specification.
func (g *gen) replay(l []Req) {
	g.start()
	g.dbs, g.worlds = 1, []string{"w1", "w2"}
	for k := 0; k < 2; k++ {
		g.contracts = append(g.contracts, newAddress(users[k+1], 0))
	}
	for _, q := range l {
		q.From, q.To, q.Addr = named(q.From), named(q.To), named(q.Addr)
		for k := range q.Args {
			q.Args[k] = named(q.Args[k])
		}
		g.do(q)
	}
	g.probes()
}

func main() {
	a := trace.ParseArgs()
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = ioutil.Discard, ioutil.Discard
	sim.Handler = contract
	dir, err := ioutil.TempDir(a["dir"], "debug")
	must(err)
	defer os.RemoveAll(dir)
	w := trace.NewWriter(a["dir"], a["prefix"])
	defer w.Close()
	m := &machine{dir: filepath.Join(dir, "x"), server: ad.NewDebugFacade()}
	m.facade = m.server
	_, err = m.facade.CreateAccount(ad.CreateAccountRequest{RequestBase: m.base(Req{}), AddressHex: "00"})
	must(err)
	sim.LoadBinds() // installs the handler
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	at := lis.Addr().String()
	lis.Close()
	go func() { must(ad.NewDebugServer(m.server, at).Start()) }()
	m.url = "http://" + at
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", at)
		if err == nil {
			c.Close()
			break
		}
		if i > 500 {
			panic("the server does not start")
		}
		time.Sleep(10 * time.Millisecond)
	}
	r := a.Rand()
	if p := a["gen"]; p != "" {
		f, err := os.Open(p)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for n, per, one := 0, a.Int("per", 100), a.Int("oneof", 1); sc.Scan(); {
			if one > 1 && r.Intn(one) != 0 {
				continue
			}
			if n%per == 0 {
				w.Next()
			}
			n++
			var l []Req
			must(json.Unmarshal(sc.Bytes(), &l))
			g := &gen{r: rand.New(rand.NewSource(r.Int63())), m: m, w: w}
			g.replay(l)
		}
		must(sc.Err())
	}
	hist, files := a.Int("hist", 0), a.Int("files", 1)
	for i := 0; i < hist; i++ {
		if i%((hist+files-1)/files) == 0 {
			w.Next()
		}
		g := &gen{r: rand.New(rand.NewSource(r.Int63())), m: m, w: w}
		g.history(a.Int("steps", 12), a.Int("atonce", 15))
	}
}
