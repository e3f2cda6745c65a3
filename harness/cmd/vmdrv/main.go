// vmdrv runs random and scripted transactions on the real virtual machine and records traces.
package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/wasmer"
	logger "github.com/ElrondNetwork/elrond-go-logger"
	vmc "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/parsers"
	"verif/harness/sim"
	"verif/harness/trace"
)

var H = sim.H

// Flags of the protocol.
type Flags struct{ V2, AoT, Dyn, V3, ESDT bool }

func (f Flags) json() trace.M {
	return trace.M{"v2": f.V2, "aot": f.AoT, "dyn": f.Dyn, "v3": f.V3, "esdt": f.ESDT}
}

// Drv is one run: a VM, a world, a recorder.
type Drv struct {
	W     *sim.World
	VM    vmc.VMExecutionHandler
	Host  vmc.VMExecutionHandler // the machine itself
	Pipe  bool                   // the node reaches it by messages
	Rec   *sim.Rec
	R     *rand.Rand
	F     Flags
	Warm  bool
	Gas   config.GasScheduleMap
	P     *Profile
	txs   int
	steps int
	Codes [][]byte
	Users [][]byte
	SCs   [][]byte
	Fresh [][]byte // addresses without account
	live0 uint64
	Kept  [][]byte         // contracts created during the run
	Kid   *plan            // what the next callee does
	Calm  bool             // the transaction mostly does what succeeds
	Good  [][]byte         // contracts with the usual functions
	Cost  map[string]int64 // what a function cost the last time
	Sigs  []sigT
	At    []uint32 // epochs at which the flags become active
}

var vmType = []byte{5, 0}
var prefix = []byte("ELROND")

func gasMap(r *rand.Rand, small bool) config.GasScheduleMap {
	m := config.MakeGasMap(1, 1)
	var secs []string
	for s := range m {
		secs = append(secs, s)
	}
	sort.Strings(secs)
	n := uint64(3)
	for _, s := range secs {
		var ks []string
		for k := range m[s] {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			switch s {
			case "BaseOperationCost":
				m[s][k] = uint64(2 + r.Intn(4))
			case "WASMOpcodeCost":
				m[s][k] = uint64(1 + r.Intn(9))
			default:
				m[s][k] = n
				n += uint64(1 + r.Intn(3))
			}
		}
	}
	m["BaseOperationCost"]["CompilePerByte"] = uint64(2 + r.Intn(3))
	m["BaseOperationCost"]["AoTPreparePerByte"] = 1
	m["ElrondAPICost"]["AsyncCallbackGasLock"] = uint64(40 + r.Intn(90))
	return m
}

func gasJSON(g config.GasScheduleMap) trace.M {
	o := trace.M{}
	for s, m := range g {
		if s == "WASMOpcodeCost" || s == "BuiltInCost" || s == "EthAPICost" {
			continue
		}
		x := trace.M{}
		for k, v := range m {
			x[k] = v
		}
		o[s] = x
	}
	return o
}

func mkCode(id int, mem string, exports []string, nonvoid []string, extra string) []byte {
	s := "WSTB\n" + mem
	for _, e := range exports {
		s += "E " + hx(e) + " 0 0\n"
	}
	for _, e := range nonvoid {
		s += "E " + hx(e) + " 1 0\n"
	}
	return []byte(s + extra + fmt.Sprintf("# %d\n", id))
}

func hx(s string) string {
	if s == "" {
		return "-"
	}
	return hex.EncodeToString([]byte(s))
}

// indices of the codes
const (
	cFull = iota
	cNoCB
	cNoInit
	cTiny
	cBig
	cNoMem
	cNonVoid
	cReserved
	cBuiltinName
	cBadUTF
	cJunk
	cNoCompile
	cImportESDT
	cUnknownImport
	cTwoPages
	cEmptyName
	cLongName
	cUpgradeName
)

func codes() [][]byte {
	m := "M 1 3\n"
	long := make([]byte, 256)
	for k := range long {
		long[k] = 'a'
	}
	return [][]byte{
		mkCode(0, m, []string{"f0", "f1", "f2", "callBack", "init"}, nil, ""),
		mkCode(1, m, []string{"f0", "f1", "f2", "init"}, nil, "pad pad pad\n"),
		mkCode(2, m, []string{"f0", "f1", "callBack"}, nil, ""),
		mkCode(3, m, []string{"f0"}, nil, ""),
		mkCode(4, m, []string{"f0", "f1", "f2", "f3", "callBack", "init", "_main"}, nil, "padding to make the code of this contract longer than that of the others........\n"),
		mkCode(5, "", []string{"f0", "init"}, nil, ""),
		mkCode(6, m, []string{"f0", "init"}, []string{"g"}, ""),
		mkCode(7, m, []string{"f0", "init", "storageLoad"}, nil, ""),
		mkCode(8, m, []string{"f0", "init", "ESDTTransfer"}, nil, ""),
		mkCode(9, m, []string{"f0", "init", "caf\xc3\xa9"}, nil, ""),
		[]byte("junk that is not code"),
		mkCode(11, m, []string{"f0", "init"}, nil, "X\n"),
		mkCode(12, m, []string{"f0", "f1", "init", "callBack"}, nil, "I transferESDTExecute\n"),
		mkCode(13, m, []string{"f0", "init"}, nil, "I nosuchfunction\n"),
		mkCode(14, "M 2 2\n", []string{"f0", "f1", "init", "callBack"}, nil, ""),
		mkCode(15, m, []string{"f0", "init", ""}, nil, ""),
		mkCode(16, m, []string{"f0", "init", string(long)}, nil, ""),
		mkCode(17, m, []string{"f0", "init", "upgradeContract"}, nil, ""),
		mkCode(18, m, []string{"f0", "f1", "callBack", "init", "Inactive"}, nil, ""),
	}
}

func addrUser(k byte, shard byte) []byte {
	a := make([]byte, 32)
	for i := range a {
		a[i] = 'u'
	}
	a[1], a[31] = k, k|shard<<7
	return a
}

func addrSC(k byte, shard byte) []byte {
	a := make([]byte, 32)
	copy(a[8:], vmType)
	for i := 10; i < 32; i++ {
		a[i] = 'c'
	}
	a[10], a[31] = k, k|shard<<7
	return a
}

var errNames = map[string]error{
	"Tokenize":        parsers.ErrTokenizeFailed,
	"ReturnCodeNotOk": arwen.ErrReturnCodeNotOk, "InvalidCallOnReadOnlyMode": arwen.ErrInvalidCallOnReadOnlyMode,
	"NotEnoughGas": arwen.ErrNotEnoughGas, "SignalError": arwen.ErrSignalError, "ExecutionFailed": arwen.ErrExecutionFailed,
	"BadBounds": arwen.ErrBadBounds, "BadLowerBounds": arwen.ErrBadLowerBounds, "BadUpperBounds": arwen.ErrBadUpperBounds,
	"NegativeLength": arwen.ErrNegativeLength, "FailedTransfer": arwen.ErrFailedTransfer, "InsufficientFunds": arwen.ErrTransferInsufficientFunds,
	"NegativeValue": arwen.ErrTransferNegativeValue, "UpgradeFailed": arwen.ErrUpgradeFailed, "InvalidUpgradeArguments": arwen.ErrInvalidUpgradeArguments,
	"InvalidFunction": arwen.ErrInvalidFunction, "InitFuncCalledInRun": arwen.ErrInitFuncCalledInRun, "CallBackFuncCalledInRun": arwen.ErrCallBackFuncCalledInRun,
	"FuncNotFound": arwen.ErrFuncNotFound, "InvalidFunctionName": arwen.ErrInvalidFunctionName, "NonvoidSignature": arwen.ErrFunctionNonvoidSignature,
	"ContractInvalid": arwen.ErrContractInvalid, "ContractNotFound": arwen.ErrContractNotFound, "MemoryMissing": arwen.ErrMemoryDeclarationMissing,
	"MaxInstances": arwen.ErrMaxInstancesReached, "ReservedKey": arwen.ErrStoreElrondReservedKey, "ProtectedKey": arwen.ErrCannotWriteProtectedKey,
	"NonPayableEgld": arwen.ErrNonPayableFunctionEgld, "NonPayableEsdt": arwen.ErrNonPayableFunctionEsdt, "ArgIndexOutOfRange": arwen.ErrArgIndexOutOfRange,
	"ArgOutOfRange": arwen.ErrArgOutOfRange, "StorageValueOutOfRange": arwen.ErrStorageValueOutOfRange, "DivZero": arwen.ErrDivZero,
	"BitwiseNegative": arwen.ErrBitwiseNegative, "ShiftNegative": arwen.ErrShiftNegative, "DeploymentOverExistingAccount": arwen.ErrDeploymentOverExistingAccount,
	"AccountNotPayable": arwen.ErrAccountNotPayable, "InvalidPublicKeySize": arwen.ErrInvalidPublicKeySize, "NilCallbackFunction": arwen.ErrNilCallbackFunction,
	"UpgradeNotAllowed": arwen.ErrUpgradeNotAllowed, "BuiltinOnSameContext": arwen.ErrBuiltinCallOnSameContextDisallowed,
	"NotInSameShard": arwen.ErrSyncExecutionNotInSameShard, "GasDoesNotMatch": arwen.ErrInputAndOutputGasDoesNotMatch,
	"TransferValueOnESDTCall": arwen.ErrTransferValueOnESDTCall, "InvalidAccount": arwen.ErrInvalidAccount,
}

func (d *Drv) cfg() {
	errs := trace.M{}
	for k, e := range errNames {
		errs[k] = H([]byte(e.Error()))
	}
	for k, t := range map[string]string{"Grow": "Failed to grow the memory:\n    stub: memory limit", "NegativeNum": "negative numArguments (", "TooMany": "too many arguments (",
		"NegativeTopics": "negative length"} {
		errs[k] = H([]byte(t))
	}
	for k, e := range sim.Errors {
		errs[k] = H([]byte(e.Error()))
	}
	cs := trace.M{}
	for _, c := range d.Codes {
		i := sim.Parse(c)
		ex, im := []trace.M{}, []string{}
		for _, e := range i.Exports {
			ex = append(ex, trace.M{"n": H([]byte(e.Name)), "void": e.Void})
		}
		for _, n := range i.Imports {
			im = append(im, n)
		}
		cs[H(c)] = trace.M{"ok": i.OK, "mem": i.Mem, "pages": i.Pages, "max": i.Max, "ex": ex, "im": im, "err": H([]byte(startError(i)))}
	}
	bi := trace.M{}
	for k, v := range d.W.BICost {
		bi[H([]byte(k))] = v
	}
	eei := []string{}
	for k := range sim.Binds {
		eei = append(eei, H([]byte(k)))
	}
	sort.Strings(eei)
	d.Rec.Emit(trace.M{"e": "cfg", "gas": gasJSON(d.Gas), "errs": errs, "codes": cs, "bi": bi, "inactive": []string{H([]byte("Inactive"))}, "eei": eei,
		"sigs": d.sigsJSON(), "warm": d.Warm, "prefix": H(prefix), "vmtype": H(vmType), "block": d.blockJSON()})
}

func (d *Drv) sigsJSON() []interface{} {
	l := []interface{}{}
	for _, s := range d.Sigs {
		l = append(l, []string{s.f, H(s.key), H(s.msg), H(s.sig)})
	}
	return l
}

// startError is what the machine reports for code that the engine refuses.
func startError(i sim.CodeInfo) string {
	if i.OK {
		return ""
	}
	return wasmer.ErrFailedInstantiation.Error() + ": " + i.Err
}

func (d *Drv) blockJSON() trace.M {
	b := d.W.Block
	hs := trace.M{}
	for k, v := range b.Hashes {
		hs[fmt.Sprint(k)] = H(v)
	}
	return trace.M{"nonce": b.Nonce, "round": b.Round, "time": b.Time, "epoch": b.Epoch, "seed": H(b.Seed), "pnonce": b.PNonce, "pround": b.PRound,
		"ptime": b.PTime, "pepoch": b.PEpoch, "pseed": H(b.PSeed), "root": H(b.Root), "hashes": hs}
}

func (d *Drv) newVM() {
	f := func(b bool) uint32 {
		if b {
			return 0
		}
		return 1 << 30
	}
	at := d.At
	if at == nil {
		at = []uint32{f(d.F.V2), f(d.F.AoT), f(d.F.Dyn), f(d.F.V3), f(d.F.ESDT)}
	}
	act := map[string]bool{"Inactive": false}
	for k := range d.W.BICost {
		act[k] = true
	}
	params := &arwen.VMHostParameters{VMType: vmType, BlockGasLimit: 1 << 40, GasSchedule: d.Gas,
		BuiltInFuncContainer: &sim.Builtins{Active: act}, ElrondProtectedKeyPrefix: prefix, ArwenV2EnableEpoch: at[0], AheadOfTimeEnableEpoch: at[1],
		DynGasLockEnableEpoch: at[2], ArwenV3EnableEpoch: at[3], ArwenESDTFunctionsEnableEpoch: at[4], UseWarmInstance: d.Warm}
	if d.Pipe {
		d.VM, d.Host = d.overPipes(params)
	} else {
		vm, err := host.NewArwenVM(d.W, params)
		if err != nil {
			panic(err)
		}
		d.VM, d.Host = vm, vm
	}
	sim.LoadBinds()
	d.Rec.Install()
}

func (d *Drv) world() {
	r := d.R
	w := sim.NewWorld()
	d.W = w
	w.BICost = map[string]uint64{"ESDTTransfer": 31, "ESDTNFTTransfer": 37, "Reward": 41, "Save": 43}
	if d.P.Codes > 0 {
		for _, n := range []string{"withdraw", "x", "Claim", "a_b"} {
			if r.Intn(2) == 0 {
				w.BICost[n] = 50
			}
		}
	}
	w.Block = sim.Block{Nonce: 100, Round: 200, Time: 3000, Epoch: 4, Seed: []byte("seedseedseedseedseedseedseedseedseedseedseedseed"), PNonce: 99, PRound: 198,
		PTime: 2994, PEpoch: 3, PSeed: []byte("prevprevprevprevprevprevprevprevprevprevprevprev"), Root: []byte("rootrootrootrootrootrootrootroot"),
		Hashes: map[uint64][]byte{98: []byte("hash98hash98hash98hash98hash98ha"), 50: []byte("hash50"), 0: []byte("the first block")}}
	w.NoAoT = r.Intn(3) == 0
	d.Codes = codes()
	d.Users, d.SCs, d.Fresh, d.Good = nil, nil, nil, nil
	for k := byte(0); k < 3; k++ {
		a := addrUser(k, 0)
		w.Get(a).Balance = int64(1000 * (int(k) + 1))
		w.Get(a).Nonce = uint64(k) * 3
		d.Users = append(d.Users, a)
	}
	d.Users = append(d.Users, addrUser(9, 1))
	metas := [][]byte{{1, 2}, {1, 0}, {5, 2}, {0, 2}, {1, 2}, {4, 0}}
	use := []int{cFull, cFull, cNoCB, cNoInit, cBig, cTwoPages}
	for k := byte(0); k < 6; k++ {
		a := addrSC(k, 0)
		x := w.Get(a)
		c := use[k]
		if r.Intn(3) == 0 {
			c = use[r.Intn(len(use))]
		}
		if d.P.OddCode && r.Intn(4) == 0 {
			if c = r.Intn(len(d.Codes)); c == cNoMem { // never deployed, see V08
				c = cFull
			}
		}
		x.Code, x.Meta = d.Codes[c], metas[k]
		x.Balance = int64(100 * int(k))
		x.Owner = d.Users[r.Intn(2)]
		if k > 0 && r.Intn(2) == 0 {
			x.Owner = d.SCs[0]
		}
		x.Nonce = uint64(r.Intn(3))
		if r.Intn(2) == 0 {
			x.Storage["key1"] = []byte("stored")
		}
		if r.Intn(2) == 0 {
			x.Storage["num"] = []byte{1, 2}
		}
		if r.Intn(3) == 0 {
			x.Storage["ELRONDsaved"] = []byte("protected")
		}
		if r.Intn(3) == 0 {
			x.Storage["ELRONDnonceNFT-1"] = []byte{2}
		}
		d.SCs = append(d.SCs, a)
		if (c == cFull || c == cNoInit || c == cBig || c == cTwoPages) && metas[k][1]&2 != 0 {
			d.Good = append(d.Good, a)
		}
	}
	for k := 0; k < d.P.Codes; k++ {
		d.Codes = append(d.Codes, d.oddCode(k))
	}
	// two more: an empty contract account, a contract of the other shard
	e := addrSC(7, 0)
	w.Get(e).Balance = 5
	d.SCs = append(d.SCs, e, addrSC(8, 1))
	d.Fresh = [][]byte{addrSC(11, 0), addrUser(12, 0), make([]byte, 32)}
	for k, a := range append(append([][]byte{}, d.Users[:3]...), d.SCs[:6]...) {
		x := w.Get(a)
		if k%3 != 2 {
			x.Tokens[sim.TokenKey([]byte("TOK"), 0)] = &sim.Token{V: int64(50 + 10*k), P: []byte{1, 0}}
		}
		if k%2 == 0 {
			for n := uint64(1); n < 3; n++ {
				x.Tokens[sim.TokenKey([]byte("NFT-1"), n)] = &sim.Token{V: int64(3 + k), P: nil, Type: 1, Meta: true, Name: []byte("name"), Hash: []byte("hash"),
					Attr: []byte("attributes"), Creator: a, Royalties: 7, URIs: [][]byte{[]byte("uri0"), []byte("uri1")}}
			}
		}
	}
}

func acct(o *vmc.OutputAccount) trace.M {
	st := trace.M{}
	for k, u := range o.StorageUpdates {
		if u == nil {
			continue
		}
		st[H([]byte(k))] = H(u.Data)
	}
	ot := []trace.M{}
	for _, t := range o.OutputTransfers {
		ot = append(ot, trace.M{"v": num(t.Value), "g": t.GasLimit, "gl": t.GasLocked, "d": H(t.Data), "ct": int(t.CallType), "s": H(t.SenderAddress)})
	}
	return trace.M{"bd": num(o.BalanceDelta), "n": o.Nonce, "st": st, "code": H(o.Code), "meta": H(o.CodeMetadata), "dep": H(o.CodeDeployerAddress), "ot": ot, "gu": clampU(o.GasUsed)}
}

func num(b *big.Int) int64 {
	if b == nil {
		return 0
	}
	if !b.IsInt64() || b.Int64() > 1<<30 || b.Int64() < -(1<<30) {
		return int64(b.Sign()) << 30
	}
	return b.Int64()
}

func clampU(u uint64) int64 {
	if u > 1<<30 {
		return 1 << 30
	}
	return int64(u)
}

func outJSON(o *vmc.VMOutput, err error) trace.M {
	m := trace.M{"e": "done", "nil": o == nil, "err": err != nil}
	if o == nil {
		return m
	}
	acc := trace.M{}
	for k, a := range o.OutputAccounts {
		if a == nil {
			m["nilacc"] = true
			continue
		}
		if string(a.Address) != k {
			m["badaddr"] = true
		}
		acc[H([]byte(k))] = acct(a)
	}
	logs := []trace.M{}
	for _, l := range o.Logs {
		logs = append(logs, trace.M{"id": H(l.Identifier), "addr": H(l.Address), "topics": sim.HL(l.Topics), "data": H(l.Data)})
	}
	m["rc"], m["msg"], m["gas"], m["refund"] = int(o.ReturnCode), H([]byte(o.ReturnMessage)), clampU(o.GasRemaining), num(o.GasRefund)
	m["rd"], m["acc"], m["logs"] = sim.HL(o.ReturnData), acc, logs
	return m
}

// apply is what the protocol does with the output of a transaction.
func (d *Drv) apply(o *vmc.VMOutput) {
	for k, a := range o.OutputAccounts {
		var old []byte
		if x, ok := d.W.Acc[k]; ok {
			old = x.Code
		}
		touch := num(a.BalanceDelta) != 0 || len(a.Code) > 0
		for k2, u := range a.StorageUpdates {
			touch = touch || (len(u.Data) > 0 && !strings.HasPrefix(k2, string(prefix)))
		}
		if _, ok := d.W.Acc[k]; !ok && (!touch || sim.Shard([]byte(k)) != 0) {
			continue
		}
		x := d.W.Get([]byte(k))
		x.Balance += num(a.BalanceDelta)
		if a.Nonce > x.Nonce {
			x.Nonce = a.Nonce
		}
		for kk, u := range a.StorageUpdates {
			if strings.HasPrefix(kk, string(prefix)) { // contracts cannot write these
				continue
			}
			if len(u.Data) == 0 {
				delete(x.Storage, kk)
			} else {
				x.Storage[kk] = append([]byte{}, u.Data...)
			}
		}
		if len(a.Code) > 0 {
			x.Code, x.Meta = a.Code, a.CodeMetadata
			if len(old) == 0 {
				x.Owner = a.CodeDeployerAddress
				d.Kept = append(d.Kept, []byte(k))
			}
		}
	}
}

func vmInput(in *vmc.VMInput) trace.M {
	es := []trace.M{}
	for _, t := range in.ESDTTransfers {
		es = append(es, trace.M{"v": num(t.ESDTValue), "t": H(t.ESDTTokenName), "ty": t.ESDTTokenType, "n": t.ESDTTokenNonce})
	}
	return trace.M{"caller": H(in.CallerAddr), "args": sim.HL(in.Arguments), "value": num(in.CallValue), "ct": int(in.CallType), "gas": in.GasProvided,
		"locked": in.GasLocked, "oth": H(in.OriginalTxHash), "cth": H(in.CurrentTxHash), "gp": in.GasPrice, "esdt": es, "rcae": in.ReturnCallAfterError}
}

func (d *Drv) finish(o *vmc.VMOutput, err error) {
	m := outJSON(o, err)
	m["live"] = sim.Live() - d.live0
	d.Rec.Emit(m)
	ok := o != nil && err == nil && o.ReturnCode == vmc.Ok
	if ok {
		d.W.ResetSnapshots()
		d.apply(o)
	} else {
		_ = d.W.RevertToSnapshot(0)
		d.W.ResetSnapshots()
	}
	d.txs++
}

// flagsAt are the flags of an epoch.
func (d *Drv) flagsAt(e uint32) Flags {
	return Flags{e >= d.At[0], e >= d.At[1], e >= d.At[2], e >= d.At[3], e >= d.At[4]}
}

// change moves to another block and possibly to another gas schedule.
func (d *Drv) change() {
	r := d.R
	b := &d.W.Block
	b.PEpoch, b.PNonce, b.PRound, b.PTime = b.Epoch, b.Nonce, b.Round, b.Time
	b.Epoch, b.Nonce, b.Round, b.Time = uint32(3+r.Intn(5)), b.Nonce+1, b.Round+2, b.Time+6
	b.Seed, b.PSeed = rbn(r, 48), b.Seed
	d.F = d.flagsAt(b.Epoch)
	bad := func() {
		g := gasMap(r, true)
		secs := []string{"BaseOperationCost", "ElrondAPICost", "BigIntAPICost", "CryptoAPICost", "WASMOpcodeCost"}
		sec := secs[r.Intn(len(secs))]
		switch r.Intn(3) {
		case 0:
			delete(g, sec)
		default:
			ks := []string{}
			for k := range g[sec] {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			if r.Intn(2) == 0 {
				delete(g[sec], ks[r.Intn(len(ks))])
			} else {
				g[sec][ks[r.Intn(len(ks))]] = 0
			}
		}
		d.VM.GasScheduleChange(g)
	}
	if r.Intn(2) == 0 {
		bad()
	}
	if r.Intn(3) > 0 {
		d.Gas = gasMap(r, true)
		d.VM.GasScheduleChange(d.Gas)
		d.W.ClearCompiledCodes()
	}
	if r.Intn(2) == 0 {
		bad()
	}
}

func rbn(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func (d *Drv) call(in *vmc.ContractCallInput) {
	m := vmInput(&in.VMInput)
	m["e"], m["rcv"], m["fn"], m["flags"] = "call", H(in.RecipientAddr), H([]byte(in.Function)), d.F.json()
	m["e"] = "tx"
	m["create"], m["code"], m["meta"] = false, "", ""
	d.Rec.Emit(m)
	d.W.GetSnapshot()
	var o *vmc.VMOutput
	var err error
	p := trace.Protect(func() { o, err = d.VM.RunSmartContractCall(in) })
	if p != "" {
		d.Rec.Stack = nil
		d.Rec.Emit(trace.M{"e": "crash", "what": p})
	}
	d.finish(o, err)
}

func (d *Drv) create(in *vmc.ContractCreateInput) {
	m := vmInput(&in.VMInput)
	m["e"], m["rcv"], m["fn"], m["flags"] = "tx", "", "", d.F.json()
	m["create"], m["code"], m["meta"] = true, H(in.ContractCode), H(in.ContractCodeMetadata)
	d.Rec.Emit(m)
	d.W.GetSnapshot()
	var o *vmc.VMOutput
	var err error
	p := trace.Protect(func() { o, err = d.VM.RunSmartContractCreate(in) })
	if p != "" {
		d.Rec.Stack = nil
		d.Rec.Emit(trace.M{"e": "crash", "what": p})
	}
	d.finish(o, err)
}

func main() {
	a := trace.ParseArgs()
	_ = logger.SetLogLevel("*:NONE")
	prof := profiles[a["profile"]]
	if prof == nil {
		fmt.Println("no such profile")
		os.Exit(2)
	}
	files, txs := a.Int("files", 4), a.Int("txs", 20)
	maxev := a.Int("events", 100000)
	t := trace.NewWriter(a["out"], a["profile"])
	seed := int64(a.Int("seed", 1))
	total := 0
	segs := a.Int("segs", 4)
	for f := 0; f < files; f++ {
		t.Next()
		r := rand.New(rand.NewSource(seed*1000 + int64(f)))
		d := &Drv{Cost: map[string]int64{}, R: r, P: prof, Pipe: a.Int("pipe", 0) == 1, Rec: &sim.Rec{T: t}}
		d.F = Flags{true, true, true, true, true}
		if prof.AnyFlags && f%2 == 1 {
			d.F = Flags{r.Intn(3) > 0, r.Intn(2) > 0, r.Intn(2) > 0, f%8 > 3, f%4 == 3}
		}
		if prof.Hist {
			d.At = []uint32{}
			for k := 0; k < 5; k++ {
				d.At = append(d.At, []uint32{0, 4, 5, 6, 6, 7}[r.Intn(6)])
			}
			d.F = d.flagsAt(4)
		}
		d.Warm = prof.Warm && r.Intn(3) == 0
		d.Gas = gasMap(r, true)
		d.Sigs = makeSigs(r)
		d.world()
		d.live0 = sim.Live()
		d.newVM()
		d.Rec.Drain = d.W.Drain
		d.Rec.Policy = d.policy
		d.cfg()
		d.Rec.Emit(trace.M{"e": "world", "w": d.W.JSON()})
		for k := 0; k < txs && d.Rec.Events < maxev; k++ {
			d.tx()
			if prof.Hist && k%(1+txs/segs) == txs/segs {
				d.Rec.Emit(trace.M{"e": "world", "w": d.W.JSON()})
				t.Next()
				d.change()
				d.cfg()
				d.Rec.Emit(trace.M{"e": "world", "w": d.W.JSON()})
			}
		}
		d.Rec.Emit(trace.M{"e": "world", "w": d.W.JSON()})
		total += d.Rec.Events
		if x, ok := d.VM.(*remote); ok {
			x.stop()
		}
	}
	t.Close()
	fmt.Println("events", total)
}
