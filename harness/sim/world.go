package sim

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"

	vmc "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/data/esdt"
	"verif/harness/trace"
)

// Token is an entry of the token ledger.
type Token struct {
	V          int64
	P          []byte
	Type       uint32
	Meta       bool
	Name, Hash []byte
	Attr       []byte
	Creator    []byte
	Royalties  uint32
	URIs       [][]byte
}

// Account is an account of the simulated blockchain.
type Account struct {
	Addr    []byte
	Balance int64
	Nonce   uint64
	Code    []byte
	Meta    []byte
	Owner   []byte
	Storage map[string][]byte
	Tokens  map[string]*Token // token + 8 bytes of nonce
}

// TokenKey is the key of a token in the ledger.
func TokenKey(tok []byte, nonce uint64) string {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], nonce)
	return string(tok) + string(b[:])
}

func (a *Account) clone() *Account {
	c := *a
	c.Storage = map[string][]byte{}
	for k, v := range a.Storage {
		c.Storage[k] = v
	}
	c.Tokens = map[string]*Token{}
	for k, v := range a.Tokens {
		t := *v
		c.Tokens[k] = &t
	}
	return &c
}

// World is the simulated blockchain (the VM's hook).
type World struct {
	Made  [][]byte // addresses handed out for new contracts
	Acc    map[string]*Account
	snaps  []map[string]*Account
	cache  map[string][]byte
	Block  Block
	BICost map[string]uint64 // gas costs of the built-in functions
	NoAoT  bool
	BI     []trace.M // inputs of protocol functions since the last event
}

// Block is the block data.
type Block struct {
	Nonce, Round, Time uint64
	Epoch              uint32
	Seed               []byte
	PNonce, PRound     uint64
	PTime              uint64
	PEpoch             uint32
	PSeed              []byte
	Root               []byte
	Hashes             map[uint64][]byte
}

// NewWorld creates an empty world.
func NewWorld() *World {
	return &World{Acc: map[string]*Account{}, cache: map[string][]byte{}, BICost: map[string]uint64{}}
}

// CloneAcc copies the accounts.
func (w *World) CloneAcc() map[string]*Account {
	m := map[string]*Account{}
	for k, a := range w.Acc {
		m[k] = a.clone()
	}
	return m
}

// Get returns an account, created when needed.
func (w *World) Get(addr []byte) *Account {
	a, ok := w.Acc[string(addr)]
	if !ok {
		a = &Account{Addr: append([]byte{}, addr...), Storage: map[string][]byte{}, Tokens: map[string]*Token{}}
		w.Acc[string(addr)] = a
	}
	return a
}

// H is hexadecimal text.
func H(b []byte) string { return hex.EncodeToString(b) }

// HL is a list of hexadecimal texts.
func HL(l [][]byte) []string {
	r := make([]string, len(l))
	for i, b := range l {
		r[i] = H(b)
	}
	return r
}

// JSON renders the world for the specification.
func (w *World) JSON() trace.M {
	m := trace.M{}
	for k, a := range w.Acc {
		st := trace.M{}
		for kk, v := range a.Storage {
			if len(v) > 0 {
				st[H([]byte(kk))] = H(v)
			}
		}
		tk := trace.M{}
		for kk, t := range a.Tokens {
			if t.V == 0 && !t.Meta {
				continue
			}
			tk[H([]byte(kk))] = trace.M{"v": t.V, "p": H(t.P), "meta": t.Meta, "name": H(t.Name), "hash": H(t.Hash), "attr": H(t.Attr),
				"creator": H(t.Creator), "roy": t.Royalties, "uris": HL(t.URIs)}
		}
		m[H([]byte(k))] = trace.M{"b": a.Balance, "n": a.Nonce, "c": H(a.Code), "m": H(a.Meta), "o": H(a.Owner), "s": st, "t": tk}
	}
	return m
}

var (
	errNoTokens = errors.New("insufficient funds")
	errArgs     = errors.New("invalid arguments")
	errGas      = errors.New("not enough gas")
	errBuiltin  = errors.New("built in function failed")
)

// IsSC tells whether an address is of a contract.
func IsSC(addr []byte) bool {
	return len(addr) == 32 && bytes.Equal(addr[:8], make([]byte, 8))
}

// Shard of an address.
func Shard(addr []byte) uint32 {
	if len(addr) == 0 {
		return 0
	}
	return uint32(addr[len(addr)-1] >> 7)
}

// NewAddress derives the address of a new contract.
func (w *World) NewAddress(creator []byte, nonce uint64, vmType []byte) ([]byte, error) {
	if len(creator) != 32 {
		return nil, errArgs
	}
	r := make([]byte, 32)
	copy(r[8:], vmType)
	r[10] = byte(uint64(creator[10])*16 + nonce + 1)
	copy(r[11:], creator[11:])
	w.Made = append(w.Made, r)
	return r, nil
}

// GetStorageData reads the persisted storage.
func (w *World) GetStorageData(addr []byte, key []byte) ([]byte, error) {
	a, ok := w.Acc[string(addr)]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, a.Storage[string(key)]...), nil
}

// GetBlockhash panics for the block 13 and fails for blocks it does not know.
func (w *World) GetBlockhash(nonce uint64) ([]byte, error) {
	if nonce == 13 {
		panic("blockchain hook")
	}
	h, ok := w.Block.Hashes[nonce]
	if !ok {
		return nil, errArgs
	}
	return h, nil
}
func (w *World) LastNonce() uint64         { return w.Block.PNonce }
func (w *World) LastRound() uint64         { return w.Block.PRound }
func (w *World) LastTimeStamp() uint64     { return w.Block.PTime }
func (w *World) LastRandomSeed() []byte    { return w.Block.PSeed }
func (w *World) LastEpoch() uint32         { return w.Block.PEpoch }
func (w *World) GetStateRootHash() []byte  { return w.Block.Root }
func (w *World) CurrentNonce() uint64      { return w.Block.Nonce }
func (w *World) CurrentRound() uint64      { return w.Block.Round }
func (w *World) CurrentTimeStamp() uint64  { return w.Block.Time }
func (w *World) CurrentRandomSeed() []byte { return w.Block.Seed }
func (w *World) CurrentEpoch() uint32      { return w.Block.Epoch }
func (w *World) GetBuiltinFunctionNames() vmc.FunctionNames {
	m := vmc.FunctionNames{}
	for k := range w.BICost {
		m[k] = struct{}{}
	}
	return m
}

// GetAllState returns the storage.
func (w *World) GetAllState(addr []byte) (map[string][]byte, error) {
	if a, ok := w.Acc[string(addr)]; ok {
		return a.Storage, nil
	}
	return nil, errArgs
}

// GetUserAccount returns the account or an error if there is none.
func (w *World) GetUserAccount(addr []byte) (vmc.UserAccountHandler, error) {
	a, ok := w.Acc[string(addr)]
	if !ok {
		return nil, errArgs
	}
	return &user{a}, nil
}

// GetCode returns the code.
func (w *World) GetCode(u vmc.UserAccountHandler) []byte {
	if x, ok := u.(*user); ok {
		return x.a.Code
	}
	if a, ok := w.Acc[string(u.AddressBytes())]; ok { // an account that crossed a pipe
		return a.Code
	}
	return nil
}
func (w *World) GetShardOfAddress(addr []byte) uint32 { return Shard(addr) }
func (w *World) IsSmartContract(addr []byte) bool     { return IsSC(addr) }

// IsPayable: users always, contracts as their metadata says.
func (w *World) IsPayable(addr []byte) (bool, error) {
	if !IsSC(addr) {
		return true, nil
	}
	a, ok := w.Acc[string(addr)]
	if !ok {
		return false, nil
	}
	return vmc.CodeMetadataFromBytes(a.Meta).Payable, nil
}
func (w *World) SaveCompiledCode(h []byte, code []byte) { w.cache[string(h)] = append([]byte{}, code...) }
func (w *World) GetCompiledCode(h []byte) (bool, []byte) {
	if w.NoAoT {
		return false, nil
	}
	c, ok := w.cache[string(h)]
	return ok, c
}
func (w *World) ClearCompiledCodes() { w.cache = map[string][]byte{} }

// GetESDTToken reads the ledger.
func (w *World) GetESDTToken(addr []byte, tok []byte, nonce uint64) (*esdt.ESDigitalToken, error) {
	if string(tok) == "ERRTOK" {
		return nil, errArgs
	}
	r := &esdt.ESDigitalToken{Value: big.NewInt(0), TokenMetaData: &esdt.MetaData{}}
	a, ok := w.Acc[string(addr)]
	if !ok {
		return r, nil
	}
	t, ok := a.Tokens[TokenKey(tok, nonce)]
	if !ok {
		return r, nil
	}
	r.Value.SetInt64(t.V)
	r.Properties = t.P
	if nonce > 0 {
		r.TokenMetaData = &esdt.MetaData{Nonce: nonce, Name: t.Name, Creator: t.Creator, Royalties: t.Royalties, Hash: t.Hash, URIs: t.URIs, Attributes: t.Attr}
	} else {
		r.TokenMetaData = nil
	}
	return r, nil
}

// GetSnapshot saves the state.
func (w *World) GetSnapshot() int {
	w.snaps = append(w.snaps, w.CloneAcc())
	return len(w.snaps) - 1
}

// RevertToSnapshot restores a saved state.
func (w *World) RevertToSnapshot(n int) error {
	if n < 0 || n >= len(w.snaps) {
		return fmt.Errorf("no snapshot %d", n)
	}
	w.Acc = w.snaps[n]
	w.snaps = w.snaps[:n]
	return nil
}

// Drain returns the protocol functions that ran since the last time.
func (w *World) Drain() []trace.M {
	b := w.BI
	w.BI = nil
	if b == nil {
		b = []trace.M{}
	}
	return b
}

// Errors of the hook, by name.
var Errors = map[string]error{"HookArgs": errArgs, "HookGas": errGas, "HookFunds": errNoTokens, "HookBuiltin": errBuiltin}

// ResetSnapshots forgets all snapshots.
func (w *World) ResetSnapshots() { w.snaps = nil }

// IsInterfaceNil is false.
func (w *World) IsInterfaceNil() bool { return w == nil }

// ProcessBuiltInFunction runs a protocol function on the ledger.
func (w *World) ProcessBuiltInFunction(in *vmc.ContractCallInput) (*vmc.VMOutput, error) {
	cost, ok := w.BICost[in.Function]
	if !ok {
		return nil, errBuiltin
	}
	w.BI = append(w.BI, trace.M{"caller": H(in.CallerAddr), "rcv": H(in.RecipientAddr), "fn": H([]byte(in.Function)), "args": HL(in.Arguments),
		"value": bigNum(in.CallValue), "ct": int(in.CallType), "gas": clamp(int64(in.GasProvided)), "locked": clamp(int64(in.GasLocked)),
		"oth": H(in.OriginalTxHash), "cth": H(in.CurrentTxHash), "gp": in.GasPrice})
	if in.GasProvided < cost {
		return nil, errGas
	}
	out := &vmc.VMOutput{ReturnCode: vmc.Ok, GasRemaining: in.GasProvided - cost}
	send := func(rcv []byte, fn string, args [][]byte) {
		d := []byte(fn)
		for _, a := range args {
			d = append(d, '@')
			d = append(d, []byte(H(a))...)
		}
		t := vmc.OutputTransfer{Value: big.NewInt(0), GasLimit: out.GasRemaining, GasLocked: in.GasLocked, Data: d, CallType: in.CallType, SenderAddress: in.CallerAddr}
		out.OutputAccounts = map[string]*vmc.OutputAccount{string(rcv): {Address: rcv, OutputTransfers: []vmc.OutputTransfer{t}}}
		out.GasRemaining = 0
	}
	small := func(b []byte) int64 {
		v := big.NewInt(0).SetBytes(b)
		if v.IsInt64() && v.Int64() < 1<<30 {
			return v.Int64()
		}
		return 1 << 30
	}
	move := func(key string, from, to []byte, v int64) error {
		f, ok := w.Acc[string(from)]
		if !ok || f.Tokens[key] == nil || f.Tokens[key].V < v {
			return errNoTokens
		}
		src := f.Tokens[key]
		n := *src
		n.V -= v
		f.Tokens[key] = &n
		if Shard(to) == 0 {
			d := w.Get(to)
			m := *src
			m.V = v
			if o := d.Tokens[key]; o != nil {
				m.V = o.V + v
			}
			d.Tokens[key] = &m
		}
		return nil
	}
	logOf := func(id string, tok []byte, addr []byte, more ...[]byte) {
		out.Logs = []*vmc.LogEntry{{Identifier: []byte(id), Address: addr, Topics: append([][]byte{tok}, more...)}}
	}
	a := in.Arguments
	switch in.Function {
	case "ESDTTransfer":
		if in.CallValue.Sign() != 0 || len(a) < 2 {
			return nil, errArgs
		}
		v := small(a[1])
		if v == 0 {
			return nil, errArgs
		}
		if err := move(TokenKey(a[0], 0), in.CallerAddr, in.RecipientAddr, v); err != nil {
			return nil, err
		}
		logOf("ESDTTransfer", a[0], in.CallerAddr, a[1])
		if Shard(in.RecipientAddr) == 0 {
			if IsSC(in.RecipientAddr) && len(a) > 2 {
				send(in.RecipientAddr, string(a[2]), a[3:])
			}
		} else if IsSC(in.CallerAddr) {
			send(in.RecipientAddr, in.Function, a)
		}
	case "ESDTNFTTransfer":
		if in.CallValue.Sign() != 0 || len(a) < 4 || !bytes.Equal(in.CallerAddr, in.RecipientAddr) || len(a[3]) != 32 || bytes.Equal(a[3], in.CallerAddr) {
			return nil, errArgs
		}
		v, n := small(a[2]), small(a[1])
		if n == 0 {
			return nil, errArgs
		}
		if err := move(TokenKey(a[0], uint64(n)), in.CallerAddr, a[3], v); err != nil {
			return nil, err
		}
		logOf("ESDTNFTTransfer", a[0], in.CallerAddr, a[3])
		if Shard(a[3]) == 0 {
			if IsSC(a[3]) && len(a) > 4 {
				send(a[3], string(a[4]), a[5:])
			}
		} else if IsSC(in.CallerAddr) {
			full := append([][]byte{}, a[:4]...)
			full[3] = []byte("nftdata")
			full = append(full, a[4:]...)
			send(a[3], in.Function, full)
		}
	case "Reward": // pays 5 to the caller: a balance change and a transfer
		t := vmc.OutputTransfer{Value: big.NewInt(5), CallType: vmc.DirectCall, SenderAddress: in.RecipientAddr}
		out.OutputAccounts = map[string]*vmc.OutputAccount{string(in.CallerAddr): {Address: in.CallerAddr, BalanceDelta: big.NewInt(5), OutputTransfers: []vmc.OutputTransfer{t}}}
		out.GasRefund = big.NewInt(3)
		out.ReturnData = [][]byte{[]byte("paid")}
	case "Save": // persists a value under a protected key of the recipient
		if len(a) < 1 {
			return nil, errArgs
		}
		acc, ok := w.Acc[string(in.RecipientAddr)]
		if !ok {
			return nil, errArgs
		}
		acc.Storage["ELRONDsaved"] = append([]byte{}, a[0]...)
	default:
		return nil, errBuiltin
	}
	return out, nil
}

// Builtins is the container of the protocol functions.
type Builtins struct{ Active map[string]bool }
type biFunc struct{ active bool }

func (b *biFunc) ProcessBuiltinFunction(_, _ vmc.UserAccountHandler, _ *vmc.ContractCallInput) (*vmc.VMOutput, error) {
	return nil, errBuiltin
}
func (b *biFunc) SetNewGasConfig(_ *vmc.GasCost) {}
func (b *biFunc) IsActive() bool                 { return b.active }
func (b *biFunc) IsInterfaceNil() bool           { return b == nil }

// Get finds a function.
func (b *Builtins) Get(k string) (vmc.BuiltinFunction, error) {
	a, ok := b.Active[k]
	if !ok {
		return nil, errBuiltin
	}
	return &biFunc{a}, nil
}
func (b *Builtins) Add(string, vmc.BuiltinFunction) error     { return nil }
func (b *Builtins) Replace(string, vmc.BuiltinFunction) error { return nil }
func (b *Builtins) Remove(string)                             {}
func (b *Builtins) Len() int                                  { return len(b.Active) }
func (b *Builtins) Keys() map[string]struct{} {
	m := map[string]struct{}{}
	for k := range b.Active {
		m[k] = struct{}{}
	}
	return m
}
func (b *Builtins) IsInterfaceNil() bool { return b == nil }

type user struct{ a *Account }

func (u *user) GetCodeMetadata() []byte { return u.a.Meta }
func (u *user) GetCodeHash() []byte {
	if len(u.a.Code) == 0 {
		return nil
	}
	return CodeHash(u.a.Code)
}
func (u *user) GetRootHash() []byte                                 { return nil }
func (u *user) AccountDataHandler() vmc.AccountDataHandler          { return nil }
func (u *user) AddToBalance(*big.Int) error                         { return nil }
func (u *user) GetBalance() *big.Int                                { return big.NewInt(u.a.Balance) }
func (u *user) ClaimDeveloperRewards([]byte) (*big.Int, error)      { return nil, nil }
func (u *user) GetDeveloperReward() *big.Int                        { return nil }
func (u *user) ChangeOwnerAddress([]byte, []byte) error             { return nil }
func (u *user) SetOwnerAddress([]byte)                              {}
func (u *user) GetOwnerAddress() []byte                             { return u.a.Owner }
func (u *user) SetUserName([]byte)                                  {}
func (u *user) GetUserName() []byte                                 { return nil }
func (u *user) AddressBytes() []byte                                { return u.a.Addr }
func (u *user) IncreaseNonce(uint64)                                {}
func (u *user) GetNonce() uint64                                    { return u.a.Nonce }
func (u *user) IsInterfaceNil() bool                                { return u == nil }

// bigNum is a number, bounded the way the specification bounds them.
func bigNum(b *big.Int) int64 {
	if b == nil {
		return 0
	}
	if !b.IsInt64() || b.Int64() > clampMax || b.Int64() < -clampMax {
		return int64(b.Sign()) * clampMax
	}
	return b.Int64()
}
