// worlddrv drives the modelled blockchain (mock/world) and records what it did, with its whole state after every step.
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"

	worldmock "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mock/world"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	"verif/harness/trace"
)

type M = trace.M

var w *trace.Writer

func hx(b []byte) string { return hex.EncodeToString(b) }
func uh(s string) []byte { b, err := hex.DecodeString(s); must(err); return b }
func must(err error) {
	if err != nil {
		panic(err)
	}
}
func nat(u uint64) []int { return trace.Bytes(new(big.Int).SetUint64(u).Bytes()) }
func bi(b *big.Int) M {
	if b == nil {
		return M{"neg": true, "mag": []int{0}, "nil": true}
	}
	return trace.Big(b)
}

const (
	tokPrefix  = "ELRONDesdt"
	rolePrefix = "ELRONDroleesdt"
	lastPrefix = "ELRONDnonce"
)

// codec reads and writes the stored forms of tokens, without the code under test.
func tok(t *esdt.ESDigitalToken) M {
	m := M{"v": bi(t.Value), "ty": int(t.Type), "nonce": []int{}, "name": "", "more": "", "props": props(t)}
	if md := t.TokenMetaData; md != nil {
		m["nonce"] = nat(md.Nonce)
		m["name"] = hx(md.Name)
		m["more"] = more(t)
	}
	return m
}
func more(t *esdt.ESDigitalToken) string {
	md := t.TokenMetaData
	s := ""
	if md != nil && (len(md.Creator) > 0 || md.Royalties > 0 || len(md.Hash) > 0 || len(md.URIs) > 0 || len(md.Attributes) > 0) {
		s = fmt.Sprintf("%x/%d/%x/%x/%x", md.Creator, md.Royalties, md.Hash, md.URIs, md.Attributes)
	}
	return s
}
func props(t *esdt.ESDigitalToken) string {
	if len(t.Properties) > 0 || len(t.Reserved) > 0 {
		return fmt.Sprintf("%x/%x", t.Properties, t.Reserved)
	}
	return ""
}

func pairs(m map[string]interface{}) [][]interface{} {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := [][]interface{}{}
	for _, k := range ks {
		r = append(r, []interface{}{k, m[k]})
	}
	return r
}

// account renders an account.
func account(a *worldmock.Account) M {
	st, tk, rl, la := map[string]interface{}{}, map[string]interface{}{}, map[string]interface{}{}, map[string]interface{}{}
	for k, v := range a.Storage {
		if len(v) == 0 {
			continue
		}
		b := []byte(k)
		switch {
		case bytes.HasPrefix(b, []byte(tokPrefix)):
			t := &esdt.ESDigitalToken{}
			if err := t.Unmarshal(v); err != nil {
				tk[hx(b[len(tokPrefix):])] = "undecodable"
				continue
			}
			tk[hx(b[len(tokPrefix):])] = tok(t)
		case bytes.HasPrefix(b, []byte(rolePrefix)):
			t := &esdt.ESDTRoles{}
			if err := t.Unmarshal(v); err != nil {
				rl[hx(b[len(rolePrefix):])] = []string{"undecodable"}
				continue
			}
			rl[hx(b[len(rolePrefix):])] = hexes(t.Roles)
		case bytes.HasPrefix(b, []byte(lastPrefix)):
			la[hx(b[len(lastPrefix):])] = trace.Bytes(v)
		default:
			st[hx(b)] = hx(v)
		}
	}
	return M{"ex": a.Exists, "nonce": nat(a.Nonce), "bal": bi(a.Balance), "st": pairs(st), "tok": pairs(tk), "roles": pairs(rl), "last": pairs(la),
		"code": trace.Bytes(a.Code), "hash": hx(a.CodeHash), "meta": hx(a.CodeMetadata), "owner": hx(a.OwnerAddress), "user": hx(a.Username),
		"shard": int(a.ShardID), "sc": a.IsSmartContract, "async": hx([]byte(a.AsyncCallData)), "reward": bi(a.DeveloperReward)}
}
func hexes(l [][]byte) []string {
	r := []string{}
	for _, x := range l {
		r = append(r, hx(x))
	}
	return r
}
func post(b *worldmock.MockWorld) [][]interface{} {
	m := map[string]interface{}{}
	for k, a := range b.AcctMap {
		x := account(a)
		if k != string(a.Address) {
			x["shard"] = -1
		}
		m[hx([]byte(k))] = x
	}
	return pairs(m)
}
func res(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// emit records an event with the state after it; a panic is an event the specification has no place for.
func emit(b *worldmock.MockWorld, m M, f func()) {
	if p := trace.Protect(f); p != "" {
		m["e"], m["panic"] = "panic", p
	}
	m["post"] = post(b)
	w.Emit(m)
}

func replay(b *worldmock.MockWorld, h []map[string]interface{}) {
	for _, s := range h {
		a, x, v := s["a"].(string), s["x"].(string), s["v"].(string)
		switch a {
		case "update":
			o := &vmcommon.OutputAccount{Address: uh(x), StorageUpdates: map[string]*vmcommon.StorageUpdate{"\x01": {Offset: []byte{1}, Data: uh(v)}}}
			m := M{"e": "update", "outs": []M{{"a": x, "deployer": "", "nonce": []int{}, "code": []int{}, "st": [][]string{{"01", v}}, "data": "", "hasdelta": false, "hasbal": false}}, "dels": []string{}}
			emit(b, m, func() { m["res"] = res(b.UpdateAccounts(map[string]*vmcommon.OutputAccount{string(uh(x)): o}, nil)) })
		case "save":
			m := M{"e": "save", "a": x, "k": "01", "v": v}
			emit(b, m, func() { m["res"] = res(b.AcctMap.GetAccount(uh(x)).AccountDataHandler().SaveKeyValue([]byte{1}, uh(v))) })
		case "backup":
			emit(b, M{"e": "backup"}, b.CreateStateBackup)
		case "revert":
			i := int(s["i"].(float64))
			m := M{"e": "revert", "i": i}
			emit(b, m, func() { m["res"] = res(b.RevertToSnapshot(i)) })
		case "commit":
			m := M{"e": "commit"}
			emit(b, m, func() { m["res"] = res(b.CommitChanges()) })
		case "rollback":
			m := M{"e": "rollback"}
			emit(b, m, func() { m["res"] = res(b.RollbackChanges()) })
		}
	}
	m := M{"e": "snap"}
	emit(b, m, func() { m["res"] = b.GetSnapshot() })
}

type gen struct {
	*rand.Rand
	b     *worldmock.MockWorld
	addrs [][]byte
	names [][]byte
	keys  []string
	mocks [][]byte
	snap  bool
}

func (g *gen) bytes(n int) []byte { r := make([]byte, n); g.Read(r); return r }
func (g *gen) addr() []byte       { return g.addrs[g.Intn(len(g.addrs))] }
func (g *gen) known() *worldmock.Account {
	var l []string
	for k := range g.b.AcctMap {
		l = append(l, k)
	}
	if len(l) == 0 {
		return nil
	}
	sort.Strings(l)
	return g.b.AcctMap[l[g.Intn(len(l))]]
}
func (g *gen) nonce() uint64 {
	switch g.Intn(8) {
	case 0:
		return 0
	case 1:
		return 255 + uint64(g.Intn(3))
	case 2:
		return g.Uint64() >> 1
	}
	return uint64(g.Intn(6))
}
func (g *gen) big(neg bool) *big.Int {
	r := new(big.Int)
	switch g.Intn(6) {
	case 0:
	case 1:
		r.SetBytes(g.bytes(1 + g.Intn(20)))
	case 2:
		r.SetUint64(g.Uint64())
	default:
		r.SetInt64(int64(g.Intn(1000)))
	}
	if neg && g.Intn(3) == 0 {
		r.Neg(r)
	}
	return r
}
func (g *gen) code() []byte {
	if g.Intn(2) == 0 {
		return nil
	}
	return g.bytes(1 + g.Intn(9))
}
func (g *gen) key() string { return g.keys[g.Intn(len(g.keys))] }
func (g *gen) val() []byte {
	if g.Intn(4) == 0 {
		return []byte{}
	}
	return g.bytes(1 + g.Intn(5))
}
func (g *gen) name() []byte { return g.names[g.Intn(len(g.names))] }
func (g *gen) token(name []byte, nonce uint64) *esdt.ESDigitalToken {
	t := &esdt.ESDigitalToken{Value: g.big(false), Type: uint32(g.Intn(2))}
	if g.Intn(3) > 0 {
		t.TokenMetaData = &esdt.MetaData{Nonce: nonce, Name: name}
		if g.Intn(2) == 0 {
			t.TokenMetaData.Creator = g.bytes(g.Intn(4))
			t.TokenMetaData.Royalties = uint32(g.Intn(3))
			t.TokenMetaData.Hash = g.bytes(g.Intn(3))
			t.TokenMetaData.URIs = [][]byte{g.bytes(2)}
			t.TokenMetaData.Attributes = g.bytes(g.Intn(3))
		}
		if g.Intn(12) == 0 {
			t.TokenMetaData.Nonce = g.nonce()
		}
	}
	if g.Intn(4) == 0 {
		t.Properties = g.bytes(2)
	}
	return t
}

func (g *gen) out(a []byte) (*vmcommon.OutputAccount, M) {
	o := &vmcommon.OutputAccount{Address: append([]byte{}, a...), Nonce: g.nonce(), StorageUpdates: map[string]*vmcommon.StorageUpdate{}}
	st := [][]string{}
	for _, i := range g.Perm(len(g.keys))[:g.Intn(len(g.keys))] {
		k, v := g.keys[i], g.val()
		o.StorageUpdates[k] = &vmcommon.StorageUpdate{Offset: []byte(k), Data: v}
		st = append(st, []string{hx([]byte(k)), hx(v)})
	}
	m := M{"a": hx(a), "nonce": nat(o.Nonce), "st": st, "hasdelta": false, "hasbal": false, "data": "", "deployer": ""}
	if g.Intn(2) == 0 {
		o.CodeDeployerAddress = append([]byte{}, g.addr()...)
		m["deployer"] = hx(o.CodeDeployerAddress)
	}
	switch g.Intn(5) {
	case 0:
		o.Balance = g.big(true)
		m["hasbal"], m["bal"] = true, bi(o.Balance)
	case 1:
	default:
		o.BalanceDelta = g.big(true)
		m["hasdelta"], m["delta"] = true, bi(o.BalanceDelta)
		if g.Intn(2) == 0 {
			o.Balance = g.big(true)
			m["hasbal"], m["bal"] = true, bi(o.Balance)
		}
	}
	o.Code = g.code()
	m["code"] = trace.Bytes(o.Code)
	for i := g.Intn(3); i > 0; i-- {
		o.OutputTransfers = append(o.OutputTransfers, vmcommon.OutputTransfer{Data: g.bytes(g.Intn(3)), Value: big.NewInt(1)})
	}
	if len(o.OutputTransfers) > 0 {
		m["data"] = hx(o.OutputTransfers[0].Data)
	}
	return o, m
}

func (g *gen) info() (*worldmock.BlockInfo, interface{}) {
	if g.Intn(6) == 0 {
		return nil, []int{}
	}
	i := &worldmock.BlockInfo{BlockTimestamp: g.nonce(), BlockNonce: g.nonce(), BlockRound: g.nonce(), BlockEpoch: uint32(g.nonce()), RandomSeed: &[48]byte{}}
	g.Read(i.RandomSeed[:])
	return i, M{"nonce": nat(i.BlockNonce), "round": nat(i.BlockRound), "time": nat(i.BlockTimestamp), "epoch": nat(uint64(i.BlockEpoch)), "seed": hx(i.RandomSeed[:])}
}

func (g *gen) step() {
	b := g.b
	a := g.addr()
	acc := g.known()
	n := g.Intn(48)
	if g.snap {
		n = []int{0, 0, 12, 12, 15, 15, 15, 16, 20, 21, 23, 25, 26, 28, 36, 37, 38, 39, 40, 42, 44, 45}[g.Intn(22)]
	}
	switch n {
	case 0, 1, 2, 3, 4, 5:
		outs, ms := map[string]*vmcommon.OutputAccount{}, []M{}
		for _, i := range g.Perm(len(g.addrs))[:g.Intn(4)] {
			o, m := g.out(g.addrs[i])
			outs[string(o.Address)] = o
			ms = append(ms, m)
		}
		dels, ds := [][]byte{}, []string{}
		if g.Intn(6) == 0 {
			dels, ds = append(dels, a), append(ds, hx(a))
		}
		m := M{"e": "update", "outs": ms, "dels": ds}
		emit(b, m, func() { m["res"] = res(b.UpdateAccounts(outs, dels)) })
		// what was given is no longer the world's business
		for _, o := range outs {
			if o.BalanceDelta != nil {
				o.BalanceDelta.Add(o.BalanceDelta, big.NewInt(7))
			}
		}
		return
	case 6:
		v := g.big(true)
		m := M{"e": "ubal", "a": hx(a), "v": bi(v)}
		emit(b, m, func() { m["res"] = res(b.UpdateBalance(a, v)) })
	case 7, 8:
		v := g.big(true)
		m := M{"e": "udelta", "a": hx(a), "v": bi(v)}
		emit(b, m, func() { m["res"] = res(b.UpdateBalanceWithDelta(a, v)) })
	case 9, 10, 11:
		l, p := g.nonce(), uint64(g.Intn(3))
		m := M{"e": "before", "a": hx(a), "limit": nat(l), "price": nat(p)}
		emit(b, m, func() { m["res"] = res(b.UpdateWorldStateBefore(a, l, p)) })
	case 12, 13, 14:
		emit(b, M{"e": "backup"}, b.CreateStateBackup)
	case 15, 16, 17, 18, 19:
		i := g.Intn(4)
		if g.Intn(2) == 0 {
			i = b.GetSnapshot()
		}
		if g.Intn(20) == 0 {
			i = -2
		}
		m := M{"e": "revert", "i": i}
		emit(b, m, func() { m["res"] = res(b.RevertToSnapshot(i)) })
	case 20:
		m := M{"e": "commit"}
		emit(b, m, func() { m["res"] = res(b.CommitChanges()) })
	case 21, 22:
		m := M{"e": "rollback"}
		emit(b, m, func() { m["res"] = res(b.RollbackChanges()) })
	case 23, 24:
		m := M{"e": "snap"}
		emit(b, m, func() { m["res"] = b.GetSnapshot() })
	case 25:
		m := M{"e": "create", "a": hx(a)}
		emit(b, m, func() { b.AcctMap.CreateAccount(a, b) })
	case 26:
		c, o := g.bytes(1+g.Intn(9)), g.addr()
		m := M{"e": "createsc", "a": hx(a), "owner": hx(o), "code": trace.Bytes(c)}
		emit(b, m, func() { b.AcctMap.CreateSmartContractAccount(o, a, c, b) })
	case 27:
		if g.Intn(3) == 0 {
			m := M{"e": "delete", "a": hx(a)}
			emit(b, m, func() { b.AcctMap.DeleteAccount(a) })
		} else {
			m := M{"e": "remove", "a": hx(a)}
			emit(b, m, func() { m["res"] = res(b.AccountsAdapter.RemoveAccount(a)) })
		}
	case 28:
		x := &worldmock.Account{Exists: g.Intn(2) == 0, Address: append([]byte{}, a...), Nonce: g.nonce(), Balance: g.big(false), BalanceDelta: new(big.Int), Storage: map[string][]byte{},
			Code: g.code(), CodeHash: g.bytes(g.Intn(3)), CodeMetadata: g.bytes(g.Intn(3)), OwnerAddress: append([]byte{}, g.addr()...), Username: g.bytes(g.Intn(3)),
			DeveloperReward: g.big(false), ShardID: uint32(g.Intn(3)), IsSmartContract: g.Intn(2) == 0, MockWorld: b}
		for i := g.Intn(3); i > 0; i-- {
			x.Storage[g.key()] = g.val()
		}
		m := M{"e": "put", "a": hx(a), "r": account(x)}
		emit(b, m, func() {
			if g.Intn(2) == 0 {
				b.AcctMap.PutAccount(x)
			} else {
				must(b.AccountsAdapter.SaveAccount(x))
			}
		})
	case 29:
		g.blocks()
	case 30:
		on := !(b.Err != nil) && g.Intn(2) == 0
		emit(b, M{"e": "seterr", "on": on}, func() {
			b.Err = nil
			if on {
				b.Err = errors.New("given")
			}
		})
	case 31:
		ms := []M{}
		b.NewAddressMocks = nil
		for i := g.Intn(4); i > 0; i-- {
			x := &worldmock.NewAddressMock{CreatorAddress: g.addr(), CreatorNonce: uint64(g.Intn(3)), NewAddress: g.bytes(32)}
			b.NewAddressMocks = append(b.NewAddressMocks, x)
			ms = append(ms, M{"c": hx(x.CreatorAddress), "n": nat(x.CreatorNonce), "a": hx(x.NewAddress)})
		}
		emit(b, M{"e": "mocks", "m": ms}, func() {})
	case 32, 33:
		c, k := g.addr(), g.nonce()
		if g.Intn(2) == 0 {
			k = uint64(g.Intn(3))
		}
		m := M{"e": "newaddr", "c": hx(c), "n": nat(k), "low": hx([]byte{byte(k)})}
		emit(b, m, func() {
			r, err := b.NewAddress(c, k, []byte{5, 0})
			m["res"], m["created"] = hx(r), hx(b.LastCreatedContractAddress)
			if err != nil {
				m["res"] = "error"
			}
		})
	case 34:
		k, v := g.bytes(1)[:1], g.bytes(2)
		k[0] &= 1
		switch g.Intn(3) {
		case 0:
			emit(b, M{"e": "savecomp", "k": hx(k), "v": hx(v)}, func() { b.SaveCompiledCode(k, v) })
		case 1:
			if g.Intn(4) == 0 {
				emit(b, M{"e": "clearcomp"}, b.ClearCompiledCodes)
				break
			}
			fallthrough
		default:
			m := M{"e": "qc", "k": hx(k), "res": "none"}
			emit(b, m, func() {
				if ok, c := b.GetCompiledCode(k); ok {
					m["res"] = hx(c)
				}
			})
		}
	case 35:
		if g.Intn(12) == 0 {
			emit(b, M{"e": "clear"}, b.Clear)
		}
	}
	if acc != nil {
		x := hx(acc.Address)
		switch n {
		case 36, 37, 38:
			k, v := g.key(), g.val()
			m := M{"e": "save", "a": x, "k": hx([]byte(k)), "v": hx(v)}
			emit(b, m, func() { m["res"] = res(acc.AccountDataHandler().SaveKeyValue([]byte(k), v)) })
		case 39, 40, 41:
			name, nn := g.name(), uint64(0)
			if g.Intn(2) == 0 {
				nn = uint64(g.Intn(3) * 200)
			}
			k := worldmock.MakeTokenKey(name, nn)
			_ = worldmock.MakeTokenKey(g.name(), 1)
			v := g.big(true)
			m := M{"e": "settok", "a": x, "name": hx(name), "nonce": nat(nn), "v": bi(v)}
			emit(b, m, func() {
				if v.IsUint64() && g.Intn(2) == 0 {
					m["res"] = res(acc.SetTokenBalanceUint64(k, v.Uint64()))
				} else if b.BuiltinFuncs != nil && g.Intn(2) == 0 {
					m["res"] = res(b.BuiltinFuncs.SetTokenBalance(acc.Address, k, v))
				} else {
					m["res"] = res(acc.SetTokenBalance(k, v))
				}
			})
		case 42, 43:
			name, nn := g.name(), uint64(g.Intn(3)*200)
			t := g.token(name, nn)
			k := worldmock.MakeTokenKey(name, nn)
			m := M{"e": "setdata", "a": x, "name": hx(name), "nonce": nat(nn), "t": tok(t)}
			emit(b, m, func() { m["res"] = res(acc.SetTokenData(k, t)) })
		case 44:
			name, roles := g.name(), [][]byte{}
			for i := g.Intn(3); i >= 0; i-- {
				roles = append(roles, g.bytes(2))
			}
			m := M{"e": "setroles", "a": x, "name": hx(name), "roles": hexes(roles)}
			emit(b, m, func() { m["res"] = res(acc.SetTokenRoles(name, roles)) })
		case 45:
			name, k := g.name(), g.nonce()
			m := M{"e": "setlast", "a": x, "name": hx(name), "nonce": nat(k)}
			emit(b, m, func() { m["res"] = res(acc.SetLastNonces(map[string]uint64{string(name): k})) })
		case 46:
			v := g.big(false)
			add := g.Intn(2) == 0
			m := M{"e": "subbal", "a": x, "v": bi(v)}
			if add {
				m["e"] = "addbal"
			}
			emit(b, m, func() {
				if add {
					m["res"] = res(acc.AddToBalance(v))
				} else {
					m["res"] = res(acc.SubFromBalance(v))
				}
			})
		case 47:
			from := g.addr()
			if g.Intn(2) == 0 {
				from = acc.OwnerAddress
			}
			switch g.Intn(5) {
			case 0:
				m := M{"e": "claim", "a": x, "from": hx(from)}
				emit(b, m, func() {
					r, err := acc.ClaimDeveloperRewards(from)
					m["res"] = res(err)
					if err == nil {
						m["v"] = bi(r)
					}
				})
			case 1:
				to := append([]byte{}, g.addr()...)
				if g.Intn(3) == 0 {
					to = to[:31]
				}
				m := M{"e": "chown", "a": x, "from": hx(from), "to": hx(to)}
				emit(b, m, func() { m["res"] = res(acc.ChangeOwnerAddress(from, to)) })
			case 2:
				v := g.big(false)
				emit(b, M{"e": "reward", "a": x, "v": bi(v)}, func() { acc.AddToDeveloperReward(v) })
			case 3:
				v := g.bytes(g.Intn(4))
				emit(b, M{"e": "user", "a": x, "v": hx(v)}, func() { acc.SetUserName(v) })
			case 4:
				v := uint64(g.Intn(4))
				emit(b, M{"e": "incnonce", "a": x, "v": nat(v)}, func() { acc.IncreaseNonce(v) })
			}
		}
	}
	if g.Intn(3) == 0 {
		g.query()
	}
}

func (g *gen) blocks() {
	b := g.b
	m := M{"e": "blocks"}
	b.CurrentBlockInfo, m["cur"] = g.info()
	b.PreviousBlockInfo, m["prev"] = g.info()
	b.Blockhashes = nil
	hs := []string{}
	for i := g.Intn(4); i > 0; i-- {
		x := g.bytes(3)
		b.Blockhashes = append(b.Blockhashes, x)
		hs = append(hs, hx(x))
	}
	m["hashes"] = hs
	b.StateRootHash = g.bytes(4)
	m["root"] = hx(b.StateRootHash)
	emit(b, m, func() {})
}

func infoOf(nonce, round, time uint64, epoch uint32, seed []byte) M {
	return M{"nonce": nat(nonce), "round": nat(round), "time": nat(time), "epoch": nat(uint64(epoch)), "seed": hx(seed)}
}

func (g *gen) query() {
	b := g.b
	a := g.addr()
	switch g.Intn(6) {
	case 0:
		m := M{"e": "qb"}
		emit(b, m, func() {
			m["cur"] = infoOf(b.CurrentNonce(), b.CurrentRound(), b.CurrentTimeStamp(), b.CurrentEpoch(), b.CurrentRandomSeed())
			m["prev"] = infoOf(b.LastNonce(), b.LastRound(), b.LastTimeStamp(), b.LastEpoch(), b.LastRandomSeed())
			m["root"] = hx(b.GetStateRootHash())
			at := [][]interface{}{}
			for i := 0; i < 4; i++ {
				n := g.nonce()
				if g.Intn(2) == 0 {
					n = b.CurrentNonce() - uint64(g.Intn(4))
				}
				h, err := b.GetBlockhash(n)
				r := hx(h)
				if err != nil {
					r = "error"
				}
				at = append(at, []interface{}{nat(n), r})
			}
			m["at"] = at
		})
	case 1:
		name, nn := g.name(), uint64(g.Intn(3)*200)
		m := M{"e": "qt", "a": hx(a), "name": hx(name), "nonce": nat(nn)}
		emit(b, m, func() {
			t, err := b.GetESDTToken(a, name, nn)
			m["res"] = res(err)
			if err == nil {
				m["t"] = tok(t)
					if acc := b.AcctMap.GetAccount(a); acc != nil {
					v, err := acc.GetTokenBalance(worldmock.MakeTokenKey(name, nn))
					must(err)
					m["bal"] = bi(v)
				}
			}
		})
	case 2:
		if acc := g.known(); acc != nil {
			m := M{"e": "full", "a": hx(acc.Address)}
			emit(b, m, func() {
				f, err := acc.GetFullMockESDTData()
				m["res"] = res(err)
				o := map[string]interface{}{}
				for k, d := range f {
					in := []M{}
					for _, t := range d.Instances {
						x := tok(t)
						in = append(in, x)
					}
					o[hx([]byte(k))] = M{"id": hx(d.TokenIdentifier), "last": nat(d.LastNonce), "roles": hexes(d.Roles), "inst": in}
				}
				m["full"] = pairs(o)
				ks := []string{}
				for _, k := range acc.GetTokenKeys() {
					ks = append(ks, hx(k[len(tokPrefix):]))
				}
				sort.Strings(ks)
				m["keys"] = ks
			})
		}
	default:
		m := M{"e": "q", "a": hx(a)}
		emit(b, m, func() {
			st := [][]string{}
			for i := 0; i < 2; i++ {
				k := g.key()
				v, err := b.GetStorageData(a, []byte(k))
				r := hx(v)
				if err != nil {
					r = "error"
				}
				st = append(st, []string{hx([]byte(k)), r})
			}
			m["st"] = st
			m["shard"], m["sc"] = int(b.GetShardOfAddress(a)), b.IsSmartContract(a)
			p, err := b.IsPayable(a)
			must(err)
			m["payable"] = p
			_, err = b.AccountsAdapter.GetExistingAccount(a)
			m["exists"] = err == nil
			u, err := b.GetUserAccount(a)
			m["user"] = res(err)
			if err == nil {
				m["nonce"], m["bal"], m["code"], m["hash"] = nat(u.GetNonce()), bi(u.GetBalance()), trace.Bytes(u.(*worldmock.Account).GetCode()), hx(u.GetCodeHash())
				m["meta"], m["owner"], m["name"] = hx(u.GetCodeMetadata()), hx(u.GetOwnerAddress()), hx(u.GetUserName())
				m["getcode"] = trace.Bytes(b.GetCode(u))
			}
			s, err := b.GetAllState(a)
			m["all"] = res(err)
			o := map[string]interface{}{}
			for k, v := range s {
				if len(v) > 0 && !bytes.HasPrefix([]byte(k), []byte("ELROND")) {
					o[hx([]byte(k))] = hx(v)
				}
			}
			m["state"] = pairs(o)
			m["bycode"] = "none"
			if acc := b.AcctMap.GetAccount(a); acc != nil && len(acc.CodeHash) > 0 {
				m["bycode"] = hx(b.AccountsAdapter.(*worldmock.MockAccountsAdapter).GetCode(acc.CodeHash))
			}
		})
	}
}

func main() {
	args := trace.ParseArgs()
	w = trace.NewWriter(args["dir"], args["prefix"])
	per := args.Int("per", 4000)
	if p := args["gen"]; p != "" {
		f, err := os.Open(p)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		w.Next()
		n := 0
		for sc.Scan() {
			var h []map[string]interface{}
			must(json.Unmarshal(sc.Bytes(), &h))
			b := worldmock.NewMockWorld()
			w.Emit(M{"e": "new"})
			emit(b, M{"e": "create", "a": "aa"}, func() { b.AcctMap.CreateAccount([]byte{0xaa}, b) })
			replay(b, h)
			n += len(h) + 3
			if n > per {
				w.Next()
				n = 0
			}
		}
	}
	hist := args.Int("hist", 0)
	r := args.Rand()
	for k := 0; k < hist; k++ {
		if k%(1+hist/args.Int("files", 8)) == 0 {
			w.Next()
		}
		g := &gen{Rand: r, b: worldmock.NewMockWorld(), snap: args["prof"] == "snap"}
		for i := 0; i < 4; i++ {
			a := g.bytes(32)
			if i%2 == 0 {
				copy(a, make([]byte, 8))
			}
			if i == 3 {
				copy(a, g.addrs[0][:20])
			}
			g.addrs = append(g.addrs, a)
		}
		g.names = [][]byte{[]byte("T"), []byte("TOKEN-1a2b3c"), append([]byte("T"), 200)}
		g.keys = []string{"k", "key2", "\x00", string(g.bytes(4)), ""}
		w.Emit(M{"e": "new"})
		if k%2 == 0 {
			must(g.b.InitBuiltinFunctions(gasMap()))
		}
		g.blocks()
		for i := 0; i < args.Int("len", 120); i++ {
			g.step()
		}
	}
	w.Close()
}
