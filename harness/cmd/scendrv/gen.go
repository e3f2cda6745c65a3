package main

import (
	"fmt"
	"math/rand"

	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
)

// Random documents: objects of the format with random fields; if bad, one value or field may be wrong.
type gen struct {
	r       *rand.Rand
	bad     bool
	spoiled bool
	size    int
}

type field struct{ name, ty string }

func fs(kv ...string) []field {
	l := []field{}
	for i := 0; i < len(kv); i += 2 {
		l = append(l, field{kv[i], kv[i+1]})
	}
	return l
}

var inst = fs("nonce", "u64", "balance", "nat", "creator", "address", "royalties", "royalties", "hash", "bytes", "uri", "tree", "attributes", "bytes")
var cinst = fs("nonce", "cu64", "balance", "cnat", "creator", "cbytes", "royalties", "croyalties", "hash", "cbytes", "uri", "cbytes", "attributes", "cbytes")
var txRest = fs("nonce", "u64", "to", "address")
var types = map[string][]field{
	"scenario":          fs("name", "text", "comment", "text", "checkGas", "bool", "gasSchedule", "schedule", "steps", "steps"),
	"externalSteps":     fs("comment", "text", "path", "text"),
	"setState":          fs("comment", "text", "accounts", "accounts", "newAddresses", "newaddrs", "previousBlockInfo", "block", "currentBlockInfo", "block", "blockHashes", "byteslist"),
	"checkState":        fs("comment", "text", "accounts!", "caccounts"),
	"dumpState":         fs("comment", "text"),
	"account":           fs("comment", "text", "shard", "u64", "nonce", "u64", "balance", "nat", "esdt", "esdts", "username", "bytes", "storage", "storage", "code", "bytes", "owner", "bytes", "asyncCallData", "text"),
	"caccount":          fs("comment", "text", "nonce", "cu64", "balance", "cnat", "esdt", "cesdts", "username", "cbytes", "storage", "cstorage", "code", "cbytes", "owner", "cbytes", "asyncCallData", "cbytes"),
	"inst":              inst,
	"cinst":             cinst,
	"esdt":              append(fs("instances", "insts", "lastNonce", "u64", "roles", "texts", "frozen", "u64"), inst...),
	"cesdt":             append(fs("instances", "cinsts", "lastNonce", "cu64", "roles", "texts", "frozen", "cu64"), cinst...),
	"block":             fs("blockTimestamp", "u64", "blockNonce", "u64", "blockRound", "u64", "blockEpoch", "u64", "blockRandomSeed", "seed"),
	"newaddr":           fs("creatorAddress", "address", "creatorNonce", "u64", "newAddress", "address"),
	"log":               fs("address", "cbytes", "identifier", "cbytes", "topics", "cbyteslist", "data", "cbytes"),
	"result":            fs("out", "cbyteslist", "status", "cint", "message", "cbytes", "logs", "logs", "gas", "cu64", "refund", "cnat"),
	"txesdt":            fs("tokenIdentifier", "bytes", "nonce", "u64", "value", "nat"),
	"scCallTx":          append(fs("from", "address", "function", "text", "value", "nat", "esdt", "txesdt", "arguments", "trees", "gasPrice", "u64", "gasLimit", "u64"), txRest...),
	"scDeployTx":        fs("nonce", "u64", "from", "address", "value", "nat", "esdt", "txesdt", "arguments", "trees", "gasPrice", "u64", "gasLimit", "u64", "contractCode", "bytes"),
	"scQueryTx":         append(fs("function", "text", "arguments", "trees"), txRest...),
	"transferTx":        append(fs("from", "address", "value", "nat", "esdt", "txesdt", "gasPrice", "u64", "gasLimit", "u64"), txRest...),
	"validatorRewardTx": append(fs("value", "nat", "arguments", "trees"), txRest...),
	"header":            fs("gasLimit", "nat", "number", "nat", "difficulty", "nat", "timestamp", "u64", "coinbase", "nat"),
	"test":              fs("checkGas", "bool", "pre", "accounts", "blocks", "blocks", "network", "text", "blockHashes", "byteslist", "postState!", "caccounts"),
}

func (g *gen) n(k int) int             { return g.r.Intn(k) }
func (g *gen) pick(l ...string) string { return l[g.n(len(l))] }
func str(s string) oj.OJsonObject      { return &oj.OJsonString{Value: s} }
func list(l ...oj.OJsonObject) oj.OJsonObject {
	x := oj.OJsonList(l)
	return &x
}

func (g *gen) spoil() bool {
	if g.bad && !g.spoiled && g.n(40) == 0 {
		g.spoiled = true
		return true
	}
	return false
}

func (g *gen) top(ty string) oj.OJsonObject {
	g.size = 0
	if ty == "tests" {
		m := oj.NewMap()
		for i := 0; i < 1+g.n(8)/7; i++ {
			m.Put(fmt.Sprintf("t%d", i), g.val("test"))
		}
		return m
	}
	return g.val(ty)
}

func (g *gen) obj(ty string) *oj.OJsonMap {
	fields := types[ty]
	m := oj.NewMap()
	p := 1 + g.n(4)
	for _, i := range g.r.Perm(len(fields)) {
		f := fields[i]
		if must := f.name[len(f.name)-1] == '!'; must {
			if !g.spoil() {
				m.Put(f.name[:len(f.name)-1], g.val(f.ty))
			}
			continue
		}
		if g.n(4) < p {
			m.Put(f.name, g.val(f.ty))
		}
	}
	if g.spoil() {
		m.Put("extra", str("1"))
	}
	return m
}

func (g *gen) many(k int, ty string) oj.OJsonObject {
	l := []oj.OJsonObject{}
	for i := g.n(k + 1); i > 0; i-- {
		l = append(l, g.val(ty))
	}
	return list(l...)
}

func (g *gen) entries(k int, key func() string, ty string, check bool) oj.OJsonObject {
	m := oj.NewMap()
	for i := g.n(k + 1); i > 0; i-- {
		m.Put(key(), g.val(ty))
	}
	if check && g.n(4) == 0 {
		m.Put("+", str(g.pick("", "", "x")))
	}
	return m
}

func (g *gen) address() string {
	return g.pick("address:a", "address:b", "sc:c", "sc:d#05", "address:long_name_of_account#ff", "0x0102030405060708091011121314151617181920212223242526272829303132", "``thirty_two_characters_of_letters", "keccak256:1")
}
func (g *gen) bytes() string {
	return g.pick("", "0x01", "0xabcdef", "str:text", "``quoted", "123,456", "-5", "u32:77", "i8:-3", "biguint:300", "nested:str:ab", "true", "false", "0b101", "str:a|u8:5", "keccak256:str:x", "address:a", "0x0011")
}
func (g *gen) number() string {
	return g.pick("", "0", "1", "7", "1,000", "100_000", "0xff", "0x0001", "18446744073709551615", "u64:12", "true", "0b11", "4294967296", "000012")
}

func (g *gen) val(ty string) oj.OJsonObject {
	if fields := types[ty]; fields != nil {
		switch ty {
		case "esdt", "cesdt":
			if g.n(3) == 0 {
				if ty == "cesdt" {
					return g.val("cnat")
				}
				return g.val("nat")
			}
		case "externalSteps", "setState", "checkState", "dumpState":
			m := g.obj(ty)
			m.Put("step", str(ty))
			return m
		}
		if g.spoil() {
			return list(str("x"))
		}
		return g.obj(ty)
	}
	if g.spoil() {
		no := oj.OJsonBool(false)
		bads := []oj.OJsonObject{&no, list(&no), list(str("?")), str("?!"), oj.NewMap(), str("*")}
		return bads[g.n(len(bads))]
	}
	if ty[0] == 'c' && ty != "caccounts" && g.n(5) == 0 && ty != "cbyteslist" {
		return str("*")
	}
	switch ty {
	case "text":
		return str(g.pick("", "a", "some words", "f", "x_1", "50% of %s", "<&>'$1"))
	case "texts":
		return g.many(3, "text")
	case "bool":
		b := oj.OJsonBool(g.n(2) == 0)
		return &b
	case "schedule":
		return str(g.pick("default", "dummy", "v1", "v2", "v3"))
	case "u64", "cu64":
		return str(g.number())
	case "royalties", "croyalties":
		return str(g.pick("", "0", "5", "10000", "0x10"))
	case "nat", "cnat":
		return str(g.pick(g.number(), "340282366920938463463374607431768211456", "1,000,000,000,000,000,000,000"))
	case "cint":
		return str(g.pick("", "0", "4", "10", "-1", "-128", "0xff", "0x00ff", "255", "+200"))
	case "bytes":
		return str(g.bytes())
	case "byteslist":
		return g.many(3, "bytes")
	case "address":
		return str(g.address())
	case "tree", "cbytes":
		switch g.n(8) {
		case 0:
			return g.many(3, "tree")
		case 1:
			m := oj.NewMap()
			for i := g.n(3); i > 0; i-- {
				m.Put(fmt.Sprint(g.n(12)), g.val("tree"))
			}
			return m
		}
		return str(g.bytes())
	case "trees":
		return g.many(4, "tree")
	case "cbyteslist":
		return g.many(4, "cbytes")
	case "seed":
		return list(str("keccak256:"+g.number()), str("0x000102030405060708090a0b0c0d0e0f"))
	case "insts":
		return g.many(3, "inst")
	case "cinsts":
		return g.many(3, "cinst")
	case "esdts":
		return g.entries(3, g.bytes, "esdt", false)
	case "cesdts":
		return g.entries(3, g.bytes, "cesdt", true)
	case "storage":
		return g.entries(4, g.bytes, "tree", false)
	case "cstorage":
		return g.entries(4, g.bytes, "cbytes", true)
	case "accounts":
		return g.entries(3, g.address, "account", false)
	case "caccounts":
		return g.entries(3, g.address, "caccount", true)
	case "newaddrs":
		return g.many(2, "newaddr")
	case "logs":
		switch g.n(6) {
		case 0:
			return str("*")
		case 1:
			return str([]string{"0x1dcc4de8", "0", "ab"}[g.n(3)])
		}
		return g.many(3, "log")
	case "steps":
		l := []oj.OJsonObject{}
		for i := g.n(5); i >= 0; i-- {
			l = append(l, g.step())
		}
		return list(l...)
	case "blocks":
		l := []oj.OJsonObject{}
		for i := g.n(8) / 7; i >= 0; i-- {
			l = append(l, g.block())
		}
		return list(l...)
	}
	panic(ty)
}

func (g *gen) step() oj.OJsonObject {
	ty := g.pick("externalSteps", "setState", "setState", "checkState", "checkState", "dumpState", "scCall", "scCall", "scDeploy", "scQuery", "transfer", "validatorReward")
	if types[ty] != nil {
		return g.val(ty)
	}
	parts := []func(*oj.OJsonMap){
		func(m *oj.OJsonMap) { m.Put("step", str(ty)) },
		func(m *oj.OJsonMap) { m.Put("tx", g.val(ty+"Tx")) },
	}
	if g.n(2) == 0 {
		parts = append(parts, func(m *oj.OJsonMap) { m.Put("txId", g.val("text")) })
	}
	if g.n(3) == 0 {
		parts = append(parts, func(m *oj.OJsonMap) { m.Put("comment", g.val("text")) })
	}
	if ty[:2] == "sc" && g.n(4) > 0 || g.spoil() {
		parts = append(parts, func(m *oj.OJsonMap) { m.Put("expect", g.val("result")) })
	}
	if g.spoil() {
		parts = parts[:1]
	}
	m := oj.NewMap()
	for _, i := range g.r.Perm(len(parts)) {
		parts[i](m)
	}
	return m
}

func (g *gen) block() oj.OJsonObject {
	m := oj.NewMap()
	txs, rs := []oj.OJsonObject{}, []oj.OJsonObject{}
	for i := g.n(4); i > 0; i-- {
		ty := g.pick("scCallTx", "scDeployTx")
		t := g.obj(ty)
		if ty == "scDeployTx" {
			t.Put("to", str(""))
		}
		txs = append(txs, t)
		rs = append(rs, g.val("result"))
	}
	if g.spoil() {
		rs = append(rs, g.val("result"))
	}
	m.Put("transactions", list(txs...))
	m.Put("results", list(rs...))
	if g.n(2) == 0 {
		m.Put("blockHeader", g.val("header"))
	}
	return m
}
