package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
)

// tree is a document that can be changed.
type tree struct {
	kind byte // s, l, m, b
	s    string
	b    bool
	l    []*tree
	k    []string
}

func ts(s string) *tree   { return &tree{kind: 's', s: s} }
func tb(b bool) *tree     { return &tree{kind: 'b', b: b} }
func tl(l ...*tree) *tree { return &tree{kind: 'l', l: l} }
func tm(kv ...interface{}) *tree {
	t := &tree{kind: 'm'}
	for i := 0; i < len(kv); i += 2 {
		switch v := kv[i+1].(type) {
		case string:
			t.put(kv[i].(string), ts(v))
		case *tree:
			t.put(kv[i].(string), v)
		}
	}
	return t
}
func (t *tree) put(k string, v *tree) {
	for i := range t.k {
		if t.k[i] == k {
			t.l[i] = v
			return
		}
	}
	t.k, t.l = append(t.k, k), append(t.l, v)
}
func (t *tree) del(i int) {
	t.l = append(append([]*tree{}, t.l[:i]...), t.l[i+1:]...)
	if t.kind == 'm' {
		t.k = append(append([]string{}, t.k[:i]...), t.k[i+1:]...)
	}
}
func (t *tree) oj() oj.OJsonObject {
	switch t.kind {
	case 's':
		return &oj.OJsonString{Value: t.s}
	case 'b':
		b := oj.OJsonBool(t.b)
		return &b
	case 'l':
		l := oj.OJsonList{}
		for _, x := range t.l {
			l = append(l, x.oj())
		}
		return &l
	}
	m := oj.NewMap()
	for i := range t.k {
		m.Put(t.k[i], t.l[i].oj())
	}
	return m
}

type gen struct {
	r      *rand.Rand
	m      *machine
	checks bool
	ids    int
}

func (g *gen) n(k int) int             { return g.r.Intn(k) }
func (g *gen) p(pct int) bool          { return g.r.Intn(100) < pct }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }

var users = []string{"address:alice", "address:bob", "0x00ff030405060708091011121314151617181920212223242526272829303132"}
var contracts = []string{"sc:one", "sc:two"}

// far takes part in nothing.
const far = "address:far"

var fresh = []string{"sc:new-1", "sc:new-2", "sc:new-3"}
var tokens = []string{"str:TOK-1", "str:NFT-2"}

func hexOf(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	return fmt.Sprintf("0x%x", b)
}
func (g *gen) number() string { return g.pick("0", "1", "2", "5", "100", "256", "0x0a", "1,000") }
func (g *gen) amount() string {
	return g.pick("0", "1", "7", "1000", "20000000", "1000000000", "18446744073709551616", "123,456,789,012,345,678,901")
}
func (g *gen) text() string {
	return g.pick("", "str:A", "str:ab", "0x0102", "5", "u32:7", "str:x|u8:1")
}
func (g *gen) key() string { return g.pick("str:k1", "str:k2", "0x00", "str:ELRONDx", "str:ELROND", "str:xELRONDy", "str:ELRON", "str:key|u16:1") }

func (g *gen) instance(nonce string) *tree {
	i := tm()
	if nonce != "" {
		i.put("nonce", ts(nonce))
	}
	if g.p(85) {
		i.put("balance", ts(g.pick("0", "1", "10", "100", "1000")))
	}
	if nonce == "" || nonce == "0" {
		if g.p(20) {
			i.put("creator", ts("address:alice"))
		}
		return i
	}
	for k, f := range []string{"creator", "address:alice", "royalties", "1500", "hash", "str:hash" + nonce, "uri", "str:uri", "attributes", "str:attr" + nonce} {
		if k%2 == 0 && nonce != "3" {
			i.put(f, ts([]string{"creator", "address:alice", "royalties", "1500", "hash", "str:hash" + nonce, "uri", "str:uri", "attributes", "str:attr" + nonce}[k+1]))
		}
	}
	return i
}

func (g *gen) esdt() *tree {
	e := tm()
	for _, t := range tokens {
		switch g.n(5) {
		case 0:
		case 1:
			e.put(t, ts(g.pick("0", "1", "50", "1000")))
		case 2:
			e.put(t, g.instance(g.pick("", "1", "2")))
		default:
			x := tm()
			l := tl()
			frozen := g.p(20)
			for _, n := range []string{"", "1", "2", "3"} {
				if g.p(40) {
					i := g.instance(n)
					if frozen { // an account may be frozen for a token it holds none of, which cannot be seen
						i.put("balance", ts(g.pick("1", "10", "100", "1000")))
					}
					l.l = append(l.l, i)
				}
			}
			x.put("instances", l)
			if g.p(40) {
				x.put("lastNonce", ts(g.pick("0", "1", "7")))
			}
			if g.p(40) {
				x.put("roles", tl(ts("ESDTRoleLocalMint"), ts("ESDTRoleNFTCreate")))
			}
			if frozen {
				x.put("frozen", ts(g.pick("0", "1", "true", "false")))
			}
			e.put(t, x)
		}
	}
	return e
}

func (g *gen) account(addr string) *tree {
	a := tm()
	if g.p(80) {
		a.put("nonce", ts(g.number()))
	}
	if g.p(90) {
		a.put("balance", ts(g.amount()))
	}
	if g.p(30) {
		a.put("username", ts(g.text()))
	}
	if g.p(60) {
		a.put("esdt", g.esdt())
	}
	if g.p(50) {
		s := tm()
		for i := g.n(4); i > 0; i-- {
			s.put(g.key(), ts(g.text()))
		}
		a.put("storage", s)
	}
	if strings.HasPrefix(addr, "sc:") != g.p(3) {
		a.put("code", ts(hexOf([]byte(code))))
	}
	if g.p(30) {
		a.put("owner", ts(g.pick(users...)))
	}
	if g.p(20) {
		a.put("asyncCallData", ts(g.pick("f@01", "x")))
	}
	if g.p(10) {
		a.put("shard", ts("0"))
	}
	if addr == far {
		a.put("shard", ts(g.pick("0", "1", "255", "70000")))
	}
	return a
}

func (g *gen) block() *tree {
	b := tm()
	for _, f := range []string{"blockTimestamp", "blockNonce", "blockRound", "blockEpoch"} {
		if g.p(60) {
			b.put(f, ts(g.pick("0", "1", "511", "70000")))
		}
	}
	if g.p(30) {
		b.put("blockRandomSeed", ts("0x"+strings.Repeat("0a", 48)))
	}
	return b
}

func (g *gen) set(all bool) *tree {
	s := tm("step", "setState")
	acc := tm()
	for _, a := range append(append([]string{}, users...), contracts...) {
		if g.p(25) || all && g.p(85) {
			acc.put(a, g.account(a))
		}
	}
	if g.p(20) {
		acc.put(far, g.account(far))
	}
	if all || g.p(70) {
		s.put("accounts", acc)
	}
	if g.p(30) {
		s.put("previousBlockInfo", g.block())
	}
	if g.p(40) {
		s.put("currentBlockInfo", g.block())
	}
	if g.p(30) {
		l := tl()
		for i := g.n(3); i > 0; i-- {
			l.l = append(l.l, ts(g.text()))
		}
		s.put("blockHashes", l)
	}
	if g.p(30) {
		x := g.pick(fresh...)
		if g.p(6) {
			x = "address:fresh"
		}
		s.put("newAddresses", tl(tm("creatorAddress", g.pick(users...), "creatorNonce", g.number(), "newAddress", x)))
	}
	return s
}

func (g *gen) args() *tree {
	l := tl()
	for i := g.n(4); i > 0; i-- {
		switch g.n(4) {
		case 0:
			l.l = append(l.l, tl(ts("str:p"), ts("u8:3")))
		case 1:
			l.l = append(l.l, tm("a", "str:x", "b", "u16:4"))
		default:
			l.l = append(l.l, ts(g.text()))
		}
	}
	return l
}

// w is the blockchain as it is.
func (g *gen) w() *worldmock.MockWorld { return g.m.plain.World }

func bytesOf(expr string) string {
	s := &mjparse.Parser{}
	*s = mjparse.NewParser(resolver{})
	b, err := s.ExprInterpreter.InterpretString(expr)
	must(err)
	return string(b)
}

func (g *gen) addr(l ...string) string { return g.pick(l...) }

func (g *gen) tx() *tree {
	kind := g.pick("scCall", "scCall", "scCall", "scCall", "transfer", "transfer", "scQuery", "validatorReward", "scDeploy")
	t := tm()
	from, to := g.pick(users...), g.pick(append(append([]string{}, users...), contracts...)...)
	if kind == "scCall" || kind == "scQuery" {
		to = g.pick(contracts...)
		if g.p(4) {
			to = g.pick(users...)
		}
	}
	if kind == "scDeploy" {
		mocks := g.w().NewAddressMocks
		if len(mocks) == 0 {
			return nil
		}
		m := mocks[g.n(len(mocks))]
		a := g.w().AcctMap[string(m.CreatorAddress)]
		if a == nil || g.w().AcctMap[string(m.NewAddress)] != nil {
			return nil
		}
		announced := false // the first announcement counts
		for _, x := range mocks {
			if string(x.CreatorAddress) == string(m.CreatorAddress) && x.CreatorNonce == a.Nonce {
				announced = g.w().AcctMap[string(x.NewAddress)] == nil
				break
			}
		}
		if !announced {
			return nil
		}
		from = hexOf(m.CreatorAddress)
	}
	sends := kind != "scQuery" && kind != "validatorReward"
	if sends {
		t.put("from", ts(from))
	}
	if kind != "scDeploy" {
		t.put("to", ts(to))
	} else if g.p(20) {
		t.put("to", ts(""))
	}
	acc := g.w().AcctMap[bytesOf(from)]
	value := "0"
	if g.p(50) {
		value = g.amount()
		if acc != nil && g.p(25) {
			value = new(big.Int).Add(acc.Balance, big.NewInt(int64(g.n(3)-1))).String()
			if value[0] == '-' {
				value = "0"
			}
		}
	}
	if sends && kind != "scDeploy" && g.p(40) && acc != nil && g.w().AcctMap[bytesOf(to)] != nil {
		x := tm("tokenIdentifier", g.pick(tokens...), "value", g.pick("0", "1", "1", "5", "50", "1000", "2000"))
		if g.p(50) {
			// what becomes of no units of a semi-fungible token is the protocol's business
			n := g.pick("0", "1", "2", "3")
			if n != "0" {
				x.put("value", ts(g.pick("1", "1", "5", "50", "1000", "2000")))
			}
			x.put("nonce", ts(n))
		}
		t.put("esdt", x)
		if kind == "scCall" {
			value = "0"
		}
	}
	if kind != "scQuery" && (value != "0" || g.p(30)) {
		t.put("value", ts(value))
	}
	switch kind {
	case "scCall", "scQuery":
		f := g.pick("e", "e", "s", "l", "l", "p", "f", "i", "i", "b", "nope")
		if kind == "scQuery" {
			f = g.pick("e", "e", "f", "i", "nope")
		}
		t.put("function", ts(f))
		switch f {
		case "p":
			t.put("arguments", tl(ts(g.pick(append([]string{"address:carol"}, users...)...)), ts(g.pick("1", "5", "100000000000"))))
		case "f":
			t.put("arguments", tl(ts(g.pick("str:no", "str:wrong|str:!"))))
		case "s":
			l := tl()
			for i := g.n(3); i >= 0; i-- {
				l.l = append(l.l, ts(g.pick("str:k1", "str:k2", "0x00", "str:k3", "str:xELRONDy")), ts(g.text()))
			}
			t.put("arguments", l)
		default:
			t.put("arguments", g.args())
		}
	case "scDeploy":
		t.put("contractCode", ts(hexOf([]byte(code))))
		if g.p(50) {
			t.put("arguments", tl(ts(g.pick("str:k1", "str:k2")), ts(g.text())))
		}
	}
	if sends {
		t.put("gasLimit", ts("5,000,000"))
		if g.p(60) {
			t.put("gasPrice", ts(g.pick("0", "1", "2")))
		}
		if kind == "transfer" && g.p(60) && t.l[len(t.l)-1].s != "" {
			t.put("gasLimit", ts("100,000"))
		}
	}
	if g.p(30) {
		t.put("nonce", ts(g.number()))
	}
	g.ids++
	s := tm("step", kind)
	if g.p(80) {
		s.put("txId", ts(g.pick(fmt.Sprint(g.ids), "tx", "a-very-long-identifier-of-a-transaction")))
	}
	s.put("tx", t)
	return s
}

// ---- checks that hold, and the same with something changed ----

func (g *gen) say(t *tree, f string, v []byte) {
	if len(v) > 0 {
		t.put(f, ts(hexOf(v)))
	} else if g.p(30) {
		t.put(f, ts(g.pick("", "", "*")))
	}
	if g.p(4) {
		t.put(f, ts("*"))
	}
}

func (g *gen) sayNat(t *tree, f string, v *big.Int) {
	if v.Sign() > 0 {
		t.put(f, ts(v.String()))
	} else if g.p(30) {
		t.put(f, ts(g.pick("", "0", "*")))
	}
	if g.p(4) {
		t.put(f, ts("*"))
	}
}
func u(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

func (g *gen) checkESDT(a *worldmock.Account) *tree {
	e := tm()
	m, err := a.GetFullMockESDTData()
	must(err)
	names := []string{}
	for n := range m {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := m[n]
		if len(t.Instances) == 0 && t.LastNonce == 0 && len(t.Roles) == 0 && g.p(60) {
			continue
		}
		if len(t.Instances) == 1 && t.Instances[0].TokenMetaData.Nonce == 0 && t.LastNonce == 0 && len(t.Roles) == 0 && g.p(50) {
			e.put(hexOf([]byte(n)), ts(t.Instances[0].Value.String()))
			continue
		}
		x, l := tm(), tl()
		sort.Slice(t.Instances, func(a, b int) bool { return t.Instances[a].TokenMetaData.Nonce < t.Instances[b].TokenMetaData.Nonce })
		for _, i := range t.Instances {
			md := i.TokenMetaData
			y := tm()
			if md.Nonce > 0 || g.p(30) {
				y.put("nonce", ts(u(md.Nonce).String()))
			}
			y.put("balance", ts(i.Value.String()))
			if g.p(50) {
				y.put("creator", ts(hexOf(md.Creator)))
			}
			if g.p(50) {
				y.put("royalties", ts(fmt.Sprint(md.Royalties)))
			}
			if g.p(50) {
				y.put("hash", ts(hexOf(md.Hash)))
			}
			uri := []byte{}
			for _, z := range md.URIs {
				uri = append(uri, z...)
			}
			if g.p(50) {
				y.put("uri", ts(hexOf(uri)))
			}
			if g.p(50) {
				y.put("attributes", ts(hexOf(md.Attributes)))
			}
			l.l = append(l.l, y)
		}
		if len(l.l) == 1 && g.p(40) {
			x = l.l[0]
		} else {
			x.put("instances", l)
		}
		g.sayNat(x, "lastNonce", u(t.LastNonce))
		if len(t.Roles) > 0 || g.p(10) {
			rs := tl()
			for _, r := range t.Roles {
				rs.l = append(rs.l, ts(string(r)))
			}
			x.put("roles", rs)
		}
		if g.p(30) {
			f := len(t.Instances) > 0 && len(t.Instances[0].Properties) > 0 && t.Instances[0].Properties[0]&1 != 0
			x.put("frozen", ts(fmt.Sprint(f)))
		}
		e.put(hexOf([]byte(n)), x)
	}
	return e
}

func (g *gen) check() *tree {
	c := tm()
	keys := []string{}
	for k := range g.w().AcctMap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		a := g.w().AcctMap[k]
		t := tm()
		g.sayNat(t, "nonce", u(a.Nonce))
		g.sayNat(t, "balance", a.Balance)
		g.say(t, "username", a.Username)
		g.say(t, "code", a.Code)
		if g.p(40) {
			g.say(t, "owner", a.OwnerAddress)
		}
		if g.p(40) {
			g.say(t, "asyncCallData", []byte(a.AsyncCallData))
		}
		st := tm()
		sk := []string{}
		for s := range a.Storage {
			sk = append(sk, s)
		}
		sort.Strings(sk)
		for _, s := range sk {
			if len(a.Storage[s]) > 0 && !strings.HasPrefix(s, "ELROND") {
				st.put(hexOf([]byte(s)), ts(hexOf(a.Storage[s])))
			}
		}
		if len(st.k) > 0 || g.p(20) {
			t.put("storage", st)
		}
		e := g.checkESDT(a)
		if len(e.k) > 0 || g.p(20) {
			t.put("esdt", e)
		}
		c.put(hexOf([]byte(k)), t)
	}
	g.maybeSpoil(c)
	return tm("step", "checkState", "accounts", c)
}

func (g *gen) maybeSpoil(c *tree) {
	if !g.p(65) {
		return
	}
	g.spoil(c)
	for g.p(15) {
		g.spoil(c)
	}
}

var anywhere = []string{"", "*", "0", "1", "2", "str:A", "0x0102", "5", "100", "256", "sc:one", "address:alice", "true", "str:hash1"}

func (g *gen) spoil(c *tree) {
	all := []*tree{}
	var walk func(t *tree)
	walk = func(t *tree) {
		if t.kind == 'm' || t.kind == 'l' {
			all = append(all, t)
		}
		for _, x := range t.l {
			walk(x)
		}
	}
	walk(c)
	t := all[g.n(len(all))]
	switch op := g.n(10); {
	case op < 4 && len(t.l) > 0:
		i := g.n(len(t.l))
		if t.l[i].kind == 's' || g.p(20) {
			t.l[i] = ts(g.pick(anywhere...))
		}
	case op < 6 && len(t.l) > 0:
		t.del(g.n(len(t.l)))
	case t.kind == 'l':
		if len(t.l) > 0 && t.l[0].kind == 'm' {
			t.l = append(t.l, tm("nonce", g.pick("1", "2", "3"), "balance", g.pick("0", "1")))
		} else {
			t.l = append(t.l, ts(g.pick(anywhere...)))
		}
	case op < 7:
		t.put("+", ts(""))
	default:
		f := g.pick("nonce", "balance", "username", "code", "owner", "asyncCallData", "storage", "esdt", "lastNonce", "roles", "frozen", "hash", "creator", "uri", "attributes",
			"royalties", "str:k1", "str:TOK-1", "str:NFT-2", "address:bob", "sc:two", "status", "message", "gas", "refund", "out", "logs")
		switch f {
		case "address:bob", "sc:two":
			t.put(f, tm())
		case "roles":
			t.put(f, tl(ts(g.pick("ESDTRoleLocalMint", "r"))))
		default:
			t.put(f, ts(g.pick(anywhere...)))
		}
	}
}

func (g *gen) expect(o *vmcommon.VMOutput) *tree {
	x := tm()
	g.sayNat(x, "status", u(uint64(o.ReturnCode)))
	g.say(x, "message", []byte(o.ReturnMessage))
	if len(o.ReturnData) > 0 || g.p(40) {
		l := tl()
		for _, d := range o.ReturnData {
			l.l = append(l.l, ts(hexOf(d)))
		}
		x.put("out", l)
	}
	if g.p(60) {
		x.put("gas", ts(u(o.GasRemaining).String()))
	}
	if g.p(20) {
		x.put("refund", ts(o.GasRefund.String()))
	}
	if g.p(70) {
		l := tl()
		for _, e := range o.Logs {
			y := tm()
			g.say(y, "address", e.Address)
			g.say(y, "identifier", e.Identifier)
			tp := tl()
			for _, d := range e.Topics {
				tp.l = append(tp.l, ts(hexOf(d)))
			}
			if len(tp.l) > 0 || g.p(50) {
				y.put("topics", tp)
			}
			g.say(y, "data", e.Data)
			l.l = append(l.l, y)
		}
		x.put("logs", l)
	} else if g.p(30) {
		x.put("logs", ts("*"))
	}
	g.maybeSpoil(x)
	return x
}

// valid documents only; a token or key is not checked twice, and the old text form of logs is not interpreted
func (g *gen) valid(t *tree) bool {
	sc := tm("steps", tl(t))
	p := mjparse.NewParser(resolver{})
	s, err := p.ParseScenarioFile([]byte(oj.JSONString(sc.oj())))
	if err != nil {
		return false
	}
	once := map[string]bool{}
	twice := false
	see := func(parts ...interface{}) {
		k := fmt.Sprintf("%q", parts)
		twice = twice || once[k]
		once[k] = true
	}
	switch x := s.Steps[0].(type) {
	case *mj.CheckStateStep:
		for _, a := range x.CheckAccounts.Accounts {
			see(a.Address.Value)
			for _, k := range a.CheckStorage {
				see(a.Address.Value, "s", k.Key.Value)
			}
			for _, e := range a.CheckESDTData {
				see(a.Address.Value, "e", e.TokenIdentifier.Value)
				for _, i := range e.Instances {
					see(a.Address.Value, "e", e.TokenIdentifier.Value, i.Nonce.Value)
				}
			}
		}
	case *mj.TxStep:
		return x.ExpectedResult == nil || x.ExpectedResult.LogHash == ""
	}
	return !twice
}

func clone(t *tree) *tree {
	c := *t
	c.l = nil
	for _, x := range t.l {
		c.l = append(c.l, clone(x))
	}
	c.k = append([]string{}, t.k...)
	return &c
}

func executable(t *tree) bool {
	k := t.l[0].s
	return k == "scCall" || k == "scQuery" || k == "scDeploy"
}

func (g *gen) runTx() {
	t := g.tx()
	if t == nil {
		return
	}
	o, ran := g.m.prepare(t.oj())
	if o != nil && executable(t) && g.p(70) {
		for i := 0; i < 8; i++ {
			c := clone(t)
			c.put("expect", g.expect(o))
			if g.valid(c) {
				t = c
				break
			}
		}
	}
	g.m.step(t.oj(), nil, o, ran)
}

func (g *gen) runCheck() {
	for i := 0; i < 8; i++ {
		if c := g.check(); g.valid(c) {
			g.m.prepare(c.oj())
			g.m.step(c.oj(), nil, nil, false)
			return
		}
	}
}

// an echo whose result is known beforehand, perhaps with gas that cannot be right
func (g *gen) echo() *tree {
	v := g.pick("str:z", "0x01")
	x := tm("out", tl(ts(v)))
	if g.p(50) {
		x.put("gas", ts(g.pick("999999999999", "*")))
	}
	if g.p(10) {
		x.put("out", tl(ts("str:else")))
	}
	return tm("step", "scQuery", "tx", tm("to", g.pick(contracts...), "function", "e", "arguments", tl(ts(v))), "expect", x)
}

func (g *gen) external(depth int) *tree {
	l := tl()
	for i := g.n(3); i >= 0; i-- {
		switch {
		case g.p(15):
			l.l = append(l.l, g.set(false))
		case depth == 0 && g.p(20):
			l.l = append(l.l, tm("step", "externalSteps", "path", "b.json"))
		default:
			l.l = append(l.l, g.echo())
		}
	}
	s := tm("gasSchedule", "dummy", "steps", l)
	if g.p(60) {
		s.put("checkGas", tb(g.p(50)))
	}
	return s
}

func (g *gen) runExternal() {
	files := map[string]oj.OJsonObject{"a.json": g.external(0).oj(), "b.json": g.external(1).oj()}
	s := tm("step", "externalSteps", "path", g.pick("a.json", "a.json", "a.json", "missing.json"))
	// what a failing file leaves behind is not compared with a second run: both executors run it once
	g.m.files(files)
	o, ran := g.m.prepare(s.oj())
	ok := g.m.step(s.oj(), files, o, ran)
	_ = ok
}

func (g *gen) runTest() {
	g.m.plain.Reset()
	pre := tm()
	for _, a := range append(append([]string{}, users...), contracts...) {
		if g.p(85) {
			x := g.account(a)
			if strings.HasPrefix(a, "sc:") {
				x.put("code", ts(hexOf([]byte(code))))
			} else {
				for i := range x.k {
					if x.k[i] == "code" {
						x.del(i)
						break
					}
				}
			}
			pre.put(a, x)
		}
	}
	g.m.prepare(tm("step", "setState", "accounts", pre).oj())
	blocks := tl()
	for i := g.n(3); i > 0; i-- {
		txs, rs := tl(), tl()
		for j := g.n(3); j > 0; j-- {
			t := g.tx()
			if t == nil || t.l[0].s != "scCall" {
				continue
			}
			for k := range t.k {
				if t.k[k] == "txId" {
					t.l[k] = ts(fmt.Sprint(len(txs.l)))
				}
			}
			if t.k[1] != "txId" {
				t.put("txId", ts(fmt.Sprint(len(txs.l))))
			}
			o, ran := g.m.prepare(t.oj())
			if !ran || o == nil {
				continue
			}
			for k := range t.k {
				if t.k[k] == "tx" {
					txs.l = append(txs.l, t.l[k])
				}
			}
			x := g.expect(o)
			for k := len(x.k) - 1; k >= 0; k-- {
				if x.k[k] == "gas" {
					x.del(k)
				}
			}
			rs.l = append(rs.l, x)
		}
		blocks.l = append(blocks.l, tm("transactions", txs, "results", rs))
	}
	d := tm("t", tm("pre", pre, "blocks", blocks, "postState", g.check().l[1]))
	p := mjparse.NewParser(resolver{})
	if ts, err := p.ParseTestFile([]byte(oj.JSONString(d.oj()))); err == nil && oldLogs(ts) == false && g.valid(tm("step", "checkState", "accounts", d.l[0].l[2])) {
		g.m.test(d.oj())
	}
	g.m.reset()
	g.start()
}

func oldLogs(ts []*mj.Test) bool {
	for _, b := range ts[0].Blocks {
		for _, r := range b.Results {
			if r.LogHash != "" {
				return true
			}
		}
	}
	return false
}

func (g *gen) start() {
	s := g.set(true)
	g.m.prepare(s.oj())
	g.m.step(s.oj(), nil, nil, false)
}

func (g *gen) history(steps int) {
	g.m.checkGas = g.p(75)
	g.m.reset()
	g.start()
	for i := 0; i < steps; i++ {
		k := g.n(100)
		switch {
		case g.checks && k < 50, k < 25:
			g.runCheck()
		case k < 80:
			g.runTx()
		case k < 90:
			s := g.set(false)
			g.m.prepare(s.oj())
			g.m.step(s.oj(), nil, nil, false)
		case k < 96:
			g.runExternal()
		default:
			g.runTest()
		}
	}
}
