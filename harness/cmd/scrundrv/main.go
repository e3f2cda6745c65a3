// scrundrv runs scenario steps on the real executor and records the blockchain after each of them.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	am "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos"
	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"verif/harness/docs"
	"verif/harness/sim"
	"verif/harness/trace"
)

type M = trace.M
type L = []interface{}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// resolver finds the documents of external steps in a scratch directory.
type resolver struct{ dir string }

func (r resolver) Clone() fr.FileResolver                  { return r }
func (resolver) SetContext(string)                         {}
func (r resolver) ResolveAbsolutePath(v string) string     { return filepath.Join(r.dir, v) }
func (resolver) ResolveFileValue(v string) ([]byte, error) { return nil, errors.New("no such file") }

// ---- the contract ----

const code = "WSTB\nM 1 1\nE 65 0 0\nE 73 0 0\nE 6c 0 0\nE 70 0 0\nE 66 0 0\nE 69 0 0\nE 62 0 0\nE 696e6974 0 0\n#\n"

const callGas = 5000000

// base is what a call costs before the contract runs, without tokens.
var base int64 = -1

func contract(i sim.Inst, name string) int {
	mem := i.Mem()
	stopped := func() bool {
		if i.BP() == 0 && i.Points() > i.Limit() {
			i.SetBP(4)
		}
		return i.BP() != 0
	}
	inv := func(n string, a ...int64) int64 {
		if stopped() {
			return 0
		}
		b := sim.Binds[n]
		if b == nil {
			panic("no import " + n)
		}
		return i.Invoke(b, a)
	}
	put := func(at int, b []byte) int64 { copy(mem[at:], b); return int64(at) }
	finish := func(b []byte) { inv("finish", put(30000, b), int64(len(b))) }
	trim := func(b []byte) []byte { return new(big.Int).SetBytes(b).Bytes() }
	left := int64(0)
	if name == "i" {
		left = inv("getGasLeft")
	}
	args := [][]byte{}
	for k, n := int64(0), inv("getNumArguments"); k < n && !stopped(); k++ {
		l := inv("getArgument", k, 2000)
		args = append(args, append([]byte{}, mem[2000:2000+l]...))
	}
	switch name {
	case "e":
		for _, a := range args {
			finish(a)
		}
	case "s", "init":
		for k := 0; k+1 < len(args); k += 2 {
			inv("storageStore", put(4000, args[k]), int64(len(args[k])), put(6000, args[k+1]), int64(len(args[k+1])))
		}
	case "l":
		if len(args) == 0 {
			break
		}
		topics := args[1:]
		at := 10000
		for k, t := range topics {
			mem[8000+4*k], mem[8001+4*k], mem[8002+4*k], mem[8003+4*k] = byte(len(t)), byte(len(t)>>8), 0, 0
			at += copy(mem[at:], t)
		}
		inv("writeEventLog", int64(len(topics)), 8000, 10000, put(20000, args[0]), int64(len(args[0])))
	case "p":
		v := make([]byte, 32)
		copy(v[32-len(args[1]):], args[1])
		inv("transferValue", put(4000, args[0]), put(6000, v), 8000, 0)
	case "f":
		inv("signalError", put(4000, args[0]), int64(len(args[0])))
	case "i":
		inv("getCaller", 4000)
		finish(mem[4000:4032])
		finish(trim(mem[4000 : 4000+inv("getCallValue", 4000)]))
		inv("getSCAddress", 4000)
		finish(mem[4000:4032])
		copy(mem[4032:4064], make([]byte, 32))
		inv("getOriginalTxHash", 4000)
		finish(mem[4000:4040])
		if base < 0 {
			base = callGas - left
		}
		if uint64(left) > callGas {
			finish([]byte("unlimited"))
		} else {
			more := callGas - left - base
			if more > 2 { // moving an instance costs more the longer it is
				more = 2
			}
			finish(big.NewInt(more).Bytes())
		}
		if n := inv("getESDTTokenName", 4000); n > 0 {
			finish(mem[4000 : 4000+n])
			n = inv("getESDTValue", 4000)
			finish(trim(mem[4000 : 4000+n]))
			finish(new(big.Int).SetUint64(uint64(inv("getESDTTokenNonce"))).Bytes())
			finish(big.NewInt(inv("getESDTTokenType")).Bytes())
		}
	case "b":
		i.SetPoints(i.Limit() + 1)
	}
	if stopped() {
		return 1
	}
	return 0
}

// ---- what is seen ----

func nat(x uint64) []int { return trace.Bytes(new(big.Int).SetUint64(x).Bytes()) }
func big1(b *big.Int) []int {
	if b == nil || b.Sign() < 0 {
		return []int{-1}
	}
	return trace.Bytes(b.Bytes())
}
func bb(b []byte) []int { return trace.Bytes(b) }

func isTokenData(k string) bool {
	return strings.HasPrefix(k, "ELRONDesdt") || strings.HasPrefix(k, "ELRONDnonce") || strings.HasPrefix(k, "ELRONDroleesdt")
}

func account(a *worldmock.Account) M {
	st, tok, last, roles := L{}, L{}, L{}, L{}
	keys := []string{}
	for k := range a.Storage {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if len(a.Storage[k]) > 0 && !isTokenData(k) {
			st = append(st, L{bb([]byte(k)), bb(a.Storage[k])})
		}
	}
	ts, err := a.GetFullMockESDTData()
	must(err)
	names := []string{}
	for n := range ts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := ts[n]
		name := bb([]byte(n))
		sort.Slice(t.Instances, func(a, b int) bool { return t.Instances[a].TokenMetaData.Nonce < t.Instances[b].TokenMetaData.Nonce })
		for _, i := range t.Instances {
			md := i.TokenMetaData
			uri := []int{}
			for _, u := range md.URIs {
				uri = append(uri, bb(u)...)
			}
			tok = append(tok, L{L{name, nat(md.Nonce)}, M{"bal": big1(i.Value), "creator": bb(md.Creator), "roy": nat(uint64(md.Royalties)), "hash": bb(md.Hash),
				"uri": uri, "attr": bb(md.Attributes), "frozen": len(i.Properties) > 0 && i.Properties[0]&1 != 0}})
		}
		if t.LastNonce > 0 {
			last = append(last, L{name, nat(t.LastNonce)})
		}
		if len(t.Roles) > 0 {
			rs := L{}
			for _, r := range t.Roles {
				rs = append(rs, string(r))
			}
			roles = append(roles, L{name, rs})
		}
	}
	return M{"nonce": nat(a.Nonce), "bal": big1(a.Balance), "user": bb(a.Username), "code": bb(a.Code), "owner": bb(a.OwnerAddress), "async": bb([]byte(a.AsyncCallData)),
		"shard": nat(uint64(a.ShardID)), "st": st, "tok": tok, "last": last, "roles": roles}
}

func block(b *worldmock.BlockInfo) interface{} {
	if b == nil {
		return L{}
	}
	seed := []int{}
	if b.RandomSeed != nil {
		seed = bb(b.RandomSeed[:])
	}
	return M{"time": nat(b.BlockTimestamp), "nonce": nat(b.BlockNonce), "round": nat(b.BlockRound), "epoch": nat(uint64(b.BlockEpoch)), "seed": seed}
}

func world(w *worldmock.MockWorld) M {
	a, h, ms := L{}, L{}, L{}
	keys := []string{}
	for k := range w.AcctMap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		a = append(a, L{bb([]byte(k)), account(w.AcctMap[k])})
	}
	for _, x := range w.Blockhashes {
		h = append(h, bb(x))
	}
	for _, m := range w.NewAddressMocks {
		ms = append(ms, L{bb(m.CreatorAddress), nat(m.CreatorNonce), bb(m.NewAddress)})
	}
	return M{"a": a, "cur": block(w.CurrentBlockInfo), "prev": block(w.PreviousBlockInfo), "hashes": h, "mocks": ms}
}

func bl(x [][]byte) L {
	l := L{}
	for _, e := range x {
		l = append(l, bb(e))
	}
	return l
}

func output(o *vmcommon.VMOutput) M {
	if o == nil {
		o = &vmcommon.VMOutput{GasRefund: new(big.Int)}
	}
	logs := L{}
	for _, e := range o.Logs {
		logs = append(logs, M{"a": bb(e.Address), "id": bb(e.Identifier), "topics": bl(e.Topics), "data": bb(e.Data)})
	}
	return M{"code": nat(uint64(o.ReturnCode)), "msg": bb([]byte(o.ReturnMessage)), "data": bl(o.ReturnData), "logs": logs, "gas": nat(o.GasRemaining), "refund": big1(o.GasRefund)}
}

// ---- running ----

// A pair of executors takes the same steps: one without the expectations, to see the results, and one with them.
type machine struct {
	plain, full *am.ArwenTestExecutor
	w           *trace.Writer
	dir         string
	checkGas    bool
	last        *vmcommon.VMOutput
}

func newMachine(w *trace.Writer, dir string) *machine {
	m := &machine{w: w, dir: dir}
	var err error
	m.plain, err = am.NewArwenTestExecutor()
	must(err)
	m.full, err = am.NewArwenTestExecutor()
	must(err)
	sim.LoadBinds()
	sim.Handler = contract
	return m
}

func (m *machine) parse(doc oj.OJsonObject) *mj.Scenario {
	sc := oj.NewMap()
	b := oj.OJsonBool(m.checkGas)
	sc.Put("checkGas", &b)
	sc.Put("gasSchedule", &oj.OJsonString{Value: "dummy"})
	l := oj.OJsonList{doc}
	sc.Put("steps", &l)
	p := mjparse.NewParser(resolver{m.dir})
	s, err := p.ParseScenarioFile([]byte(oj.JSONString(sc)))
	must(err)
	return s
}

func (m *machine) reset() {
	m.plain.Reset()
	m.full.Reset()
	m.w.Emit(M{"e": "reset", "panic": false, "ok": true, "w": world(m.full.World)})
}

// calibrate sees what a plain call costs.
func (m *machine) calibrate() {
	m.prepare(tm("step", "setState", "accounts", tm(users[0], tm("balance", "100"), contracts[0], tm("code", hexOf([]byte(code))))).oj())
	_, ran := m.prepare(tm("step", "scCall", "tx", tm("from", users[0], "to", contracts[0], "function", "i", "gasLimit", fmt.Sprint(callGas), "gasPrice", "0")).oj())
	if !ran {
		panic("no plain call")
	}
	m.plain.Reset()
}

// prepare runs a step where nothing is expected.
func (m *machine) prepare(doc oj.OJsonObject) (o *vmcommon.VMOutput, ran bool) {
	s := m.parse(doc)
	if t, ok := s.Steps[0].(*mj.TxStep); ok {
		t.ExpectedResult = nil
		o, err := m.plain.ExecuteTxStep(t)
		return o, err == nil
	}
	err := m.plain.ExecuteScenario(s, resolver{m.dir})
	return nil, err == nil
}

// files writes the documents of external steps.
func (m *machine) files(l map[string]oj.OJsonObject) {
	for n, d := range l {
		must(ioutil.WriteFile(filepath.Join(m.dir, n), []byte(oj.JSONString(d)), 0644))
	}
}

// step runs a step; files are the documents of external steps.
func (m *machine) step(doc oj.OJsonObject, files map[string]oj.OJsonObject, o *vmcommon.VMOutput, ran bool) bool {
	ds := L{}
	for _, n := range []string{"a.json", "b.json"} {
		if d := files[n]; d != nil {
			ds = append(ds, M{"path": n, "doc": docs.WithBytes(d)})
		}
	}
	ev := M{"e": "step", "in": docs.WithBytes(doc), "checkGas": m.checkGas, "docs": ds, "out": output(o), "ran": ran, "ok": false}
	ok := false
	ev["panic"] = trace.Protect(func() {
		ok = m.full.ExecuteScenario(m.parse(doc), resolver{m.dir}) == nil
	}) != ""
	m.seen(ev, ok)
	return ok
}

func (m *machine) test(doc oj.OJsonObject) {
	p := mjparse.NewParser(resolver{m.dir})
	ts, err := p.ParseTestFile([]byte(oj.JSONString(doc)))
	must(err)
	ev := M{"e": "test", "in": docs.WithBytes(doc)}
	ok := false
	ev["panic"] = trace.Protect(func() { ok = m.full.ExecuteTest(ts[0]) == nil }) != ""
	m.seen(ev, ok)
}

// seen ends an event with the state of the blockchain, where there is one.
func (m *machine) seen(ev M, ok bool) {
	ev["ok"], ev["w"] = ok, M{}
	if trace.Protect(func() { ev["w"] = world(m.full.World) }) != "" {
		ev["panic"] = true
	}
	m.w.Emit(ev)
}

func main() {
	a := trace.ParseArgs()
	os.Stdout, _ = os.Open("/dev/null")
	w := trace.NewWriter(a["dir"], a["prefix"])
	defer w.Close()
	scratch, err := ioutil.TempDir(a["dir"], "files")
	must(err)
	defer os.RemoveAll(scratch)
	m := newMachine(w, scratch)
	m.calibrate()
	r := a.Rand()
	if p := a["gen"]; p != "" {
		f, err := os.Open(p)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		n, per, one := 0, a.Int("per", 400), a.Int("oneof", 1)
		for sc.Scan() {
			var x struct {
				Must  bool        `json:"must"`
				Gas   bool        `json:"gas"`
				Steps []docs.Node `json:"steps"`
			}
			must(json.Unmarshal(sc.Bytes(), &x))
			if skip := one > 1 && r.Intn(one) != 0; skip && !x.Must {
				continue
			}
			if n%per == 0 {
				w.Next()
			}
			n++
			m.checkGas = x.Gas
			m.reset()
			for _, s := range x.Steps {
				d := docs.FromNode(s)
				o, ran := m.prepare(d)
				m.step(d, nil, o, ran)
			}
		}
		must(sc.Err())
	}
	hist, files := a.Int("hist", 0), a.Int("files", 1)
	for i := 0; i < hist; i++ {
		if i%((hist+files-1)/files) == 0 {
			w.Next()
		}
		g := &gen{r: rand.New(rand.NewSource(r.Int63())), m: m, checks: a["prof"] == "checks"}
		g.history(a.Int("steps", 12))
	}
}
