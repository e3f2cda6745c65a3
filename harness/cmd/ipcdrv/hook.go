package main

import (
	"errors"
	"math/big"
	"reflect"
	"sync"

	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	"verif/harness/trace"
)

// log is the trace of a session, shared by both its sides.
type sessionLog struct {
	mu sync.Mutex
	t  *trace.Writer
}

func (l *sessionLog) emit(m M) {
	if l.t == nil {
		return
	}
	l.mu.Lock()
	l.t.Emit(m)
	l.mu.Unlock()
}

func errText(err error) string {
	if err == nil || reflect.ValueOf(err).IsZero() {
		return ""
	}
	return canon(err.Error())
}

// account is the node's own kind of account.
type account struct {
	Addr, CodeHash, RootHash, Owner, User, Meta []byte
	Nonce                                       uint64
	Balance, Reward                             *big.Int
}

func (a *account) GetCodeMetadata() []byte                         { return a.Meta }
func (a *account) GetCodeHash() []byte                             { return a.CodeHash }
func (a *account) GetRootHash() []byte                             { return a.RootHash }
func (a *account) AccountDataHandler() vmcommon.AccountDataHandler { return nil }
func (a *account) AddToBalance(*big.Int) error                     { return nil }
func (a *account) GetBalance() *big.Int                            { return a.Balance }
func (a *account) ClaimDeveloperRewards([]byte) (*big.Int, error)  { return nil, nil }
func (a *account) GetDeveloperReward() *big.Int                    { return a.Reward }
func (a *account) ChangeOwnerAddress([]byte, []byte) error         { return nil }
func (a *account) SetOwnerAddress([]byte)                          {}
func (a *account) GetOwnerAddress() []byte                         { return a.Owner }
func (a *account) SetUserName([]byte)                              {}
func (a *account) GetUserName() []byte                             { return a.User }
func (a *account) AddressBytes() []byte                            { return a.Addr }
func (a *account) IncreaseNonce(uint64)                            {}
func (a *account) GetNonce() uint64                                { return a.Nonce }
func (a *account) IsInterfaceNil() bool                            { return a == nil }

// accountOf describes an account by what it answers.
func accountOf(a vmcommon.UserAccountHandler) string {
	if a == nil || reflect.ValueOf(a).IsNil() {
		return "nil"
	}
	return canon([]interface{}{a.AddressBytes(), a.GetNonce(), a.GetBalance(), a.GetDeveloperReward(), a.GetCodeHash(), a.GetRootHash(),
		a.GetOwnerAddress(), a.GetUserName(), a.GetCodeMetadata()})
}

// hook answers at random and records what it was asked and what it answered.
type hook struct {
	l *sessionLog
	f *filler
}

func (h *hook) err() error {
	if h.f.r.Intn(4) == 0 {
		for {
			if b := h.f.bytes(); len(b) > 0 {
				return errors.New(string(b))
			}
		}
	}
	return nil
}

// done records a call.
func (h *hook) done(fn string, args []interface{}, err error, res ...interface{}) {
	h.l.emit(M{"e": "hook", "fn": fn, "args": describe(args), "res": describe(res), "err": errText(err)})
}

func describe(vs []interface{}) string {
	for i, v := range vs {
		if a, ok := v.(vmcommon.UserAccountHandler); ok {
			vs[i] = accountOf(a)
		}
	}
	return short(canon(vs))
}

type args = []interface{}

func (h *hook) NewAddress(a []byte, n uint64, t []byte) ([]byte, error) {
	r, e := h.f.bytes(), h.err()
	h.done("NewAddress", args{a, n, t}, e, r)
	return r, e
}
func (h *hook) GetStorageData(a []byte, k []byte) ([]byte, error) {
	r, e := h.f.bytes(), h.err()
	h.done("GetStorageData", args{a, k}, e, r)
	return r, e
}
func (h *hook) GetBlockhash(n uint64) ([]byte, error) {
	r, e := h.f.bytes(), h.err()
	h.done("GetBlockhash", args{n}, e, r)
	return r, e
}
func (h *hook) LastNonce() uint64 {
	r := h.f.u64()
	h.done("LastNonce", args{}, nil, r)
	return r
}
func (h *hook) LastRound() uint64 {
	r := h.f.u64()
	h.done("LastRound", args{}, nil, r)
	return r
}
func (h *hook) LastTimeStamp() uint64 {
	r := h.f.u64()
	h.done("LastTimeStamp", args{}, nil, r)
	return r
}
func (h *hook) LastRandomSeed() []byte {
	r := h.f.bytes()
	h.done("LastRandomSeed", args{}, nil, r)
	return r
}
func (h *hook) LastEpoch() uint32 {
	r := uint32(h.f.u64())
	h.done("LastEpoch", args{}, nil, r)
	return r
}
func (h *hook) GetStateRootHash() []byte {
	r := h.f.bytes()
	h.done("GetStateRootHash", args{}, nil, r)
	return r
}
func (h *hook) CurrentNonce() uint64 {
	r := h.f.u64()
	h.done("CurrentNonce", args{}, nil, r)
	return r
}
func (h *hook) CurrentRound() uint64 {
	r := h.f.u64()
	h.done("CurrentRound", args{}, nil, r)
	return r
}
func (h *hook) CurrentTimeStamp() uint64 {
	r := h.f.u64()
	h.done("CurrentTimeStamp", args{}, nil, r)
	return r
}
func (h *hook) CurrentRandomSeed() []byte {
	r := h.f.bytes()
	h.done("CurrentRandomSeed", args{}, nil, r)
	return r
}
func (h *hook) CurrentEpoch() uint32 {
	r := uint32(h.f.u64())
	h.done("CurrentEpoch", args{}, nil, r)
	return r
}
func (h *hook) ProcessBuiltInFunction(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	o, e := h.f.output(), h.err()
	if e != nil {
		o = nil
	}
	h.done("ProcessBuiltInFunction", args{in}, e, o)
	return o, e
}
func (h *hook) GetBuiltinFunctionNames() vmcommon.FunctionNames {
	r := vmcommon.FunctionNames{}
	for n := h.f.r.Intn(5); n > 0; n-- {
		r[h.f.name()] = struct{}{}
	}
	h.done("GetBuiltinFunctionNames", args{}, nil, r)
	return r
}
func (h *hook) GetAllState(a []byte) (map[string][]byte, error) {
	r, e := map[string][]byte{}, h.err()
	for n := h.f.r.Intn(5); n > 0; n-- {
		r[string(h.f.bytes())] = h.f.bytes()
	}
	if e != nil {
		r = nil
	}
	h.done("GetAllState", args{a}, e, r)
	return r, e
}
func (h *hook) GetUserAccount(a []byte) (vmcommon.UserAccountHandler, error) {
	var e error
	if h.f.r.Intn(5) == 0 {
		e = h.err()
	}
	if e != nil || h.f.r.Intn(8) == 0 {
		h.done("GetUserAccount", args{a}, e, "nil")
		return nil, e
	}
	r := h.f.account()
	h.done("GetUserAccount", args{a}, nil, r)
	return r, nil
}
func (h *hook) GetCode(a vmcommon.UserAccountHandler) []byte {
	r := h.f.bytes()
	h.done("GetCode", args{a}, nil, r)
	return r
}
func (h *hook) GetShardOfAddress(a []byte) uint32 {
	r := uint32(h.f.u64())
	h.done("GetShardOfAddress", args{a}, nil, r)
	return r
}
func (h *hook) IsSmartContract(a []byte) bool {
	r := h.f.r.Intn(2) == 0
	h.done("IsSmartContract", args{a}, nil, r)
	return r
}
func (h *hook) IsPayable(a []byte) (bool, error) {
	r, e := h.f.r.Intn(2) == 0, h.err()
	h.done("IsPayable", args{a}, e, r)
	return r, e
}
func (h *hook) SaveCompiledCode(k []byte, c []byte) { h.done("SaveCompiledCode", args{k, c}, nil) }
func (h *hook) GetCompiledCode(k []byte) (bool, []byte) {
	r, c := h.f.r.Intn(2) == 0, h.f.bytes()
	h.done("GetCompiledCode", args{k}, nil, r, c)
	return r, c
}
func (h *hook) ClearCompiledCodes() { h.done("ClearCompiledCodes", args{}, nil) }
func (h *hook) GetESDTToken(a []byte, t []byte, n uint64) (*esdt.ESDigitalToken, error) {
	r, e := &esdt.ESDigitalToken{}, h.err()
	if e != nil {
		r = nil
	} else {
		h.f.fill(reflect.ValueOf(r).Elem(), 0)
		if h.f.r.Intn(3) == 0 {
			r.TokenMetaData = nil
		}
	}
	h.done("GetESDTToken", args{a, t, n}, e, r)
	return r, e
}
func (h *hook) GetSnapshot() int {
	r := int(int32(h.f.u64()))
	h.done("GetSnapshot", args{}, nil, r)
	return r
}
func (h *hook) RevertToSnapshot(s int) error {
	e := h.err()
	h.done("RevertToSnapshot", args{s}, e)
	return e
}
func (h *hook) IsInterfaceNil() bool { return h == nil }

func (f *filler) name() string {
	s := make([]byte, 1+f.r.Intn(12))
	for i := range s {
		s[i] = "abcXYZ_019"[f.r.Intn(10)]
	}
	return string(s)
}

func (f *filler) account() *account {
	a := &account{}
	f.fill(reflect.ValueOf(a).Elem(), 0)
	if a.Balance == nil {
		a.Balance = big.NewInt(0)
	}
	if a.Reward == nil {
		a.Reward = big.NewInt(0)
	}
	return a
}

// output makes an output of an execution: keys of the maps agree with what they lead to.
func (f *filler) output() *vmcommon.VMOutput {
	o := &vmcommon.VMOutput{}
	f.fill(reflect.ValueOf(o).Elem(), 0)
	m := map[string]*vmcommon.OutputAccount{}
	for _, a := range o.OutputAccounts {
		u := map[string]*vmcommon.StorageUpdate{}
		for _, s := range a.StorageUpdates {
			u[string(s.Offset)] = s
		}
		a.StorageUpdates = u
		m[string(a.Address)] = a
	}
	o.OutputAccounts = m
	return o
}

// gateway calls function i of a hook with random arguments; it returns the name, arguments, results and error.
func (f *filler) callHook(b vmcommon.BlockchainHook, i int, call func(fn, args string), ret func(fn, res, err string)) {
	var fn string
	c := func(name string, as ...interface{}) { fn = name; call(name, describe(as)) }
	r := func(err error, rs ...interface{}) { ret(fn, describe(rs), errText(err)) }
	a, k, n := f.bytes(), f.bytes(), f.u64()
	switch i {
	case 0:
		c("NewAddress", a, n, k)
		x, e := b.NewAddress(a, n, k)
		r(e, x)
	case 1:
		c("GetStorageData", a, k)
		x, e := b.GetStorageData(a, k)
		r(e, x)
	case 2:
		c("GetBlockhash", n)
		x, e := b.GetBlockhash(n)
		r(e, x)
	case 3:
		c("LastNonce")
		r(nil, b.LastNonce())
	case 4:
		c("LastRound")
		r(nil, b.LastRound())
	case 5:
		c("LastTimeStamp")
		r(nil, b.LastTimeStamp())
	case 6:
		c("LastRandomSeed")
		r(nil, b.LastRandomSeed())
	case 7:
		c("LastEpoch")
		r(nil, b.LastEpoch())
	case 8:
		c("GetStateRootHash")
		r(nil, b.GetStateRootHash())
	case 9:
		c("CurrentNonce")
		r(nil, b.CurrentNonce())
	case 10:
		c("CurrentRound")
		r(nil, b.CurrentRound())
	case 11:
		c("CurrentTimeStamp")
		r(nil, b.CurrentTimeStamp())
	case 12:
		c("CurrentRandomSeed")
		r(nil, b.CurrentRandomSeed())
	case 13:
		c("CurrentEpoch")
		r(nil, b.CurrentEpoch())
	case 14:
		in := &vmcommon.ContractCallInput{}
		f.fill(reflect.ValueOf(in).Elem(), 0)
		in.Function = string(f.bytes())
		c("ProcessBuiltInFunction", in)
		x, e := b.ProcessBuiltInFunction(in)
		r(e, x)
	case 15:
		c("GetBuiltinFunctionNames")
		r(nil, b.GetBuiltinFunctionNames())
	case 16:
		c("GetAllState", a)
		x, e := b.GetAllState(a)
		r(e, x)
	case 17:
		c("GetUserAccount", a)
		x, e := b.GetUserAccount(a)
		r(e, accountOf(x))
	case 18:
		acc := f.account()
		c("GetCode", acc)
		r(nil, b.GetCode(acc))
	case 19:
		c("GetShardOfAddress", a)
		r(nil, b.GetShardOfAddress(a))
	case 20:
		c("IsSmartContract", a)
		r(nil, b.IsSmartContract(a))
	case 21:
		c("IsPayable", a)
		x, e := b.IsPayable(a)
		r(e, x)
	case 22:
		c("SaveCompiledCode", a, k)
		b.SaveCompiledCode(a, k)
		r(nil)
	case 23:
		c("GetCompiledCode", a)
		x, y := b.GetCompiledCode(a)
		r(nil, x, y)
	case 24:
		c("ClearCompiledCodes")
		b.ClearCompiledCodes()
		r(nil)
	case 25:
		c("GetESDTToken", a, k, n)
		x, e := b.GetESDTToken(a, k, n)
		r(e, x)
	case 26:
		c("GetSnapshot")
		r(nil, b.GetSnapshot())
	case 27:
		s := int(int32(n))
		c("RevertToSnapshot", s)
		r(b.RevertToSnapshot(s))
	}
}

const nHooks = 28
