package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	vmc "github.com/ElrondNetwork/elrond-vm-common"
	"verif/harness/sim"
)

// Profile directs what is generated.
type Profile struct {
	W        map[string]int // weights of the groups of interface functions
	Steps    int            // most steps of a body
	Depth    int            // most nesting
	Adv      int            // one in Adv calls has adversarial raw parameters (0: never)
	AnyFlags bool
	Warm     bool
	Look     int // % of the bodies that look at what they were given first
	OddCode  bool
	Create   int // percentage of deployments
	Upgrade  int // percentage of upgrades
	Async    int // percentage of transactions with an asynchronous call type
	LowGas   int // percentage of transactions with little gas
	Panics   bool
	EndFail  int // percentage of bodies that trap
	Script   int // percentage of steps that are a script
	Scripts  []string
	OddNames bool // functions that cannot be called are called often
	Hist     bool // several segments with changes of gas schedule and epoch
	Codes    int  // number of generated codes with odd exports
	Tokens   bool // most transactions come with tokens
	Calm     int  // percentage of transactions whose contracts mostly do what succeeds
}

var groups = map[string][]string{
	"info": {"getSCAddress", "getOwnerAddress", "getShardOfAddress", "isSmartContract", "getExternalBalance", "getBlockHash", "getArgumentLength", "getArgument",
		"getFunction", "getNumArguments", "getCaller", "checkNoPayment", "getCallValue", "getESDTValue", "getESDTTokenName", "getESDTTokenNonce", "getESDTTokenType",
		"getCallValueTokenName", "getGasLeft", "getNumReturnData", "getReturnDataSize", "getReturnData", "getBlockTimestamp", "getBlockNonce", "getBlockRound", "getBlockEpoch",
		"getBlockRandomSeed", "getStateRootHash", "getPrevBlockTimestamp", "getPrevBlockNonce", "getPrevBlockRound", "getPrevBlockEpoch", "getPrevBlockRandomSeed", "getOriginalTxHash"},
	"storage": {"storageStore", "storageStore", "storageStore", "storageLoadLength", "storageLoad", "storageLoadFromAddress", "setStorageLock", "getStorageLock", "isStorageLocked",
		"clearStorageLock", "bigIntStorageStoreUnsigned", "bigIntStorageLoadUnsigned", "smallIntStorageStoreUnsigned", "smallIntStorageStoreSigned", "smallIntStorageLoadUnsigned",
		"smallIntStorageLoadSigned", "int64storageStore", "int64storageLoad"},
	"xfer":   {"transferValue", "transferValue", "transferValueExecute"},
	"esdt":   {"transferESDT", "transferESDTExecute", "transferESDTNFTExecute", "getESDTBalance", "getESDTNFTNameLength", "getESDTNFTAttributeLength", "getESDTNFTURILength", "getESDTTokenData", "getCurrentESDTNFTNonce", "bigIntGetESDTExternalBalance", "bigIntGetESDTCallValue"},
	"nest":   {"executeOnDestContext", "executeOnDestContext", "executeOnDestContextByCaller", "executeOnSameContext", "delegateExecution", "executeReadOnly"},
	"log":    {"writeLog", "writeEventLog", "finish", "finish"},
	"crypto": {"sha256", "keccak256", "ripemd160", "verifyBLS", "verifyEd25519", "verifySecp256k1"},
	"bigint": {"bigIntNew", "bigIntUnsignedByteLength", "bigIntSignedByteLength", "bigIntGetUnsignedBytes", "bigIntGetSignedBytes", "bigIntSetUnsignedBytes", "bigIntSetSignedBytes",
		"bigIntIsInt64", "bigIntGetInt64", "bigIntSetInt64", "bigIntAdd", "bigIntSub", "bigIntMul", "bigIntTDiv", "bigIntTMod", "bigIntEDiv", "bigIntEMod", "bigIntAbs", "bigIntNeg",
		"bigIntSign", "bigIntCmp", "bigIntNot", "bigIntAnd", "bigIntOr", "bigIntXor", "bigIntShr", "bigIntShl", "bigIntFinishUnsigned", "bigIntFinishSigned",
		"bigIntGetUnsignedArgument", "bigIntGetSignedArgument", "bigIntGetCallValue", "bigIntGetExternalBalance"},
	"small":  {"smallIntGetUnsignedArgument", "smallIntGetSignedArgument", "smallIntFinishUnsigned", "smallIntFinishSigned", "int64getArgument", "int64finish"},
	"create": {"createContract", "createContract", "deployFromSourceContract", "upgradeContract", "upgradeFromSourceContract"},
	"async":  {"asyncCall"},
	"signal": {"signalError"},
}

var allScripts = []string{"rollback", "rollback", "reserved", "transferBack", "tokenData", "asyncBack", "async", "asyncToken", "asyncRemote", "asyncThanks", "deployAsync", "created", "create", "upgrade", "token", "nest", "store", "look", "balances", "bigs", "bigRoll", "lock", "deep"}

func mix() *Profile {
	return &Profile{W: map[string]int{"info": 6, "storage": 8, "xfer": 3, "esdt": 3, "nest": 7, "log": 3, "bigint": 3, "small": 2, "create": 2, "async": 2, "signal": 1, "crypto": 1},
		Steps: 6, Depth: 3, Adv: 25, AnyFlags: true, OddCode: true, Create: 12, Upgrade: 6, Async: 20, LowGas: 15, Panics: true, EndFail: 8, Warm: true, Script: 12, Scripts: allScripts, Calm: 40}
}

// with is the mixed profile without the expensive groups, with weights and scripts of its own.
func with(w map[string]int, scripts []string, f func(*Profile)) *Profile {
	p := mix()
	delete(p.W, "crypto")
	p.W["bigint"] = 1
	for k, x := range w {
		p.W[k] = x
	}
	if scripts != nil {
		p.Script, p.Scripts = 30, scripts
	}
	if f != nil {
		f(p)
	}
	return p
}

type wt = map[string]int

// one profile for each property
var profiles = map[string]*Profile{
	"mix": mix(),
	"V01": with(nil, []string{"rollback", "nest", "nest", "async", "asyncRemote", "asyncToken", "token", "create", "upgrade", "store"}, func(p *Profile) { p.LowGas, p.Async = 25, 25 }),
	"V02": with(wt{"log": 6, "signal": 2}, []string{"rollback", "deep", "nest", "store", "balances", "create", "asyncRemote", "token"}, func(p *Profile) { p.LowGas, p.EndFail = 25, 25 }),
	"V03": with(wt{"nest": 14, "log": 5, "bigint": 4}, []string{"rollback", "rollback", "rollback", "rollback", "nest", "nest", "look", "store", "balances", "bigs", "bigRoll", "bigRoll"}, func(p *Profile) { p.Depth, p.EndFail, p.Create, p.Upgrade = 4, 20, 4, 2 }),
	"V04": with(wt{"storage": 22, "info": 3}, []string{"rollback", "reserved", "store", "store", "nest", "lock"}, func(p *Profile) { p.EndFail = 12 }),
	"V05": with(wt{"nest": 10, "storage": 10, "log": 6, "create": 3}, []string{"rollbackRO", "rollbackRO", "readOnly", "readOnly", "nest", "store", "create"}, func(p *Profile) { p.Depth = 4 }),
	"V06": with(wt{"xfer": 12, "info": 7}, []string{"asyncThanks", "rollback", "balances", "balances", "balances", "nest", "async", "transferBack", "create"}, nil),
	"V07": with(wt{"async": 6, "log": 5}, []string{"asyncThanks", "asyncThanks", "async", "async", "asyncRemote", "asyncToken", "transferBack", "tokenData", "asyncBack", "nest"}, func(p *Profile) { p.Async, p.Create, p.Steps, p.EndFail = 35, 3, 5, 12 }),
	"V08": with(wt{"create": 8}, []string{"rollback", "create", "create", "upgrade", "upgrade", "created", "deployAsync", "nest"}, func(p *Profile) { p.Create, p.Upgrade, p.EndFail = 30, 15, 10 }),
	"V09": with(wt{"nest": 12, "async": 4}, []string{"rollback", "nest", "async", "entry", "entry", "entry"}, func(p *Profile) { p.OddNames = true }),
	"V10": with(wt{"info": 10, "storage": 8, "esdt": 6, "log": 6, "small": 5, "bigint": 6, "crypto": 1}, nil, func(p *Profile) { p.Calm = 10; p.Adv, p.Create, p.Upgrade = 3, 5, 3 }),
	"V11": with(nil, nil, func(p *Profile) { p.Hist, p.LowGas, p.EndFail = true, 20, 12 }),
	"V12": with(wt{"info": 20, "small": 5}, []string{"rollback", "look", "look", "nest", "async", "token"}, func(p *Profile) { p.Look = 30 }),
	"V13": with(wt{"bigint": 40, "storage": 4, "small": 1}, []string{"bigs", "bigs", "bigRoll"}, func(p *Profile) { p.Calm = 10; p.Adv, p.Create, p.Upgrade, p.Steps = 40, 3, 2, 12 }),
	"V14": with(wt{"info": 10, "storage": 10, "esdt": 6, "log": 6, "small": 6, "bigint": 10, "crypto": 2, "xfer": 4}, nil, func(p *Profile) { p.Calm = 10; p.Hist, p.LowGas, p.Steps = true, 8, 10 }),
	"V16": with(wt{"crypto": 30, "storage": 3, "info": 2, "bigint": 2}, []string{"nest"}, func(p *Profile) {
		p.Calm = 0
		p.Adv, p.Create, p.Upgrade, p.Steps, p.LowGas, p.EndFail = 15, 2, 1, 9, 6, 4
	}),
	"V17": with(nil, []string{"create", "deploy", "deploy"}, func(p *Profile) {
		p.Calm = 0
		p.Create, p.Upgrade, p.Codes, p.Script, p.Async, p.LowGas, p.Steps = 70, 15, 120, 60, 3, 2, 3
	}),
	"V15": with(wt{"esdt": 14}, []string{"rollback", "rollback", "reserved", "token", "token", "asyncToken", "look", "tokenData", "nest"}, func(p *Profile) { p.Tokens = true }),
}

func (d *Drv) pick(l [][]byte) []byte { return l[d.R.Intn(len(l))] }

// sc is a contract of this shard; when calm, mostly one that has the usual functions and is payable.
func (d *Drv) sc() []byte {
	if d.Calm && len(d.Good) > 0 && d.R.Intn(6) > 0 {
		return d.pick(d.Good)
	}
	return d.SCs[d.R.Intn(6)]
}

// address: mostly contracts with code.
func (d *Drv) address() []byte {
	switch n := d.R.Intn(20); {
	case n < 10:
		return d.sc()
	case n < 12:
		return d.pick(d.SCs)
	case n < 14 && len(d.Kept) > 0:
		return d.pick(d.Kept)
	case n < 18:
		return d.pick(d.Users)
	}
	return d.pick(d.Fresh)
}

func (d *Drv) value() []byte {
	switch n := d.R.Intn(12); {
	case n < 5:
		return nil
	case n < 9:
		return []byte{byte(1 + d.R.Intn(9))}
	case n < 11:
		return []byte{byte(d.R.Intn(3)), byte(d.R.Intn(256))}
	}
	return big.NewInt(0).Lsh(big.NewInt(int64(1+d.R.Intn(5))), uint(d.R.Intn(250))).Bytes()
}

var keys = [][]byte{[]byte("key1"), []byte("key2"), []byte("num"), []byte("k"), []byte("a key that is longer than thirty-two bytes"), []byte("ELRONDsaved"), []byte("ELRONDother"),
	[]byte("ARWEN@x"), []byte("ARWEN@ASYNC"), {}, []byte("ELRON"), []byte("key1ARWEN@TIMELOCK"), []byte("ELRONDnonceNFT-1"), []byte("a key that is longer than thirty-two bytes, too"), []byte("ELROND")}

func (d *Drv) key() []byte {
	if d.R.Intn(4) > 0 {
		return keys[d.R.Intn(5)]
	}
	return keys[d.R.Intn(len(keys))]
}

func rb(r *rand.Rand, max int) []byte {
	b := make([]byte, r.Intn(max+1))
	for k := range b {
		switch r.Intn(4) {
		case 0:
			b[k] = 0
		case 1:
			b[k] = byte(r.Intn(256))
		default:
			b[k] = byte('a' + r.Intn(3))
		}
	}
	return b
}

func (d *Drv) data() []byte {
	switch n := d.R.Intn(14); {
	case n < 3:
		return nil
	case n < 9:
		return rb(d.R, 5)
	case n < 12:
		return rb(d.R, 20)
	case n < 13:
		return rb(d.R, 60)
	}
	return d.callData()
}

var fnNames = []string{"f0", "f0", "f1", "f1", "f2", "f3", "callBack", "init", "missing", "ESDTTransfer", "ESDTNFTTransfer", "Reward", "Save", "upgradeContract", "", "Inactive", "_main", "solidity.ctor", "storageLoad"}

func (d *Drv) fname() string {
	if d.R.Intn(3) > 0 {
		return fnNames[d.R.Intn(5)]
	}
	return fnNames[d.R.Intn(len(fnNames))]
}

var toks = [][]byte{[]byte("TOK"), []byte("NFT-1"), []byte("TOK"), []byte("NFT-1"), []byte("none"), []byte("ERRTOK")}

func (d *Drv) amount() []byte {
	if d.R.Intn(8) == 0 {
		return []byte{2, 0}
	}
	if d.R.Intn(10) == 0 {
		return nil
	}
	return []byte{byte(1 + d.R.Intn(6))}
}

// argsFor generates arguments that suit a function.
func (d *Drv) argsFor(fn string) [][]byte {
	var a [][]byte
	switch fn {
	case "ESDTTransfer":
		a = [][]byte{toks[d.R.Intn(3)], d.amount()}
	case "ESDTNFTTransfer":
		a = [][]byte{toks[1], {byte(d.R.Intn(3))}, d.amount(), d.address()}
	case "upgradeContract":
		a = [][]byte{d.code(), d.meta()}
	case "Save":
		a = [][]byte{rb(d.R, 4)}
	}
	if len(a) > 0 {
		if d.R.Intn(10) == 0 {
			return a[:d.R.Intn(len(a))]
		}
		if fn != "upgradeContract" && d.R.Intn(2) == 0 {
			f := d.fname()
			a = append(a, []byte(f))
		}
	}
	for n := d.R.Intn(3); n > 0; n-- {
		switch d.R.Intn(3) {
		case 0:
			a = append(a, d.value())
		case 1:
			a = append(a, rb(d.R, 10))
		default:
			a = append(a, rb(d.R, 4))
		}
	}
	return a
}

func (d *Drv) callData() []byte {
	f := d.fname()
	s := f
	for _, x := range d.argsFor(f) {
		s += "@" + hex.EncodeToString(x)
	}
	switch d.R.Intn(16) {
	case 0:
		s += "@abc"
	case 1:
		s += "@zz"
	case 2:
		s = "@" + s
	}
	return []byte(s)
}

func (d *Drv) code() []byte {
	if d.P.Codes > 0 && d.R.Intn(6) > 0 {
		return d.Codes[len(d.Codes)-1-d.R.Intn(d.P.Codes)]
	}
	if d.R.Intn(2) == 0 {
		return d.Codes[[]int{cFull, cNoCB, cNoInit, cTiny, cBig, cTwoPages}[d.R.Intn(6)]]
	}
	if d.R.Intn(20) == 0 {
		return nil
	}
	return d.Codes[d.R.Intn(len(d.Codes))]
}

func (d *Drv) meta() []byte {
	return [][]byte{{1, 2}, {1, 0}, {0, 0}, {0, 2}, {5, 6}, {1, 2}}[d.R.Intn(6)]
}

var longs = []int64{0, 1, 2, 5, 255, 256, 1000, -1, -2, -300, 1 << 31, 1 << 40, -1 << 40, 1<<63 - 1, -1 << 63, 127, 128, -128, -129, 32767, 32768}

// gasFor is an amount of gas for a nested call.
func (d *Drv) gasFor(f *sim.Frame) int64 {
	left := int64(f.I.Limit()) - int64(f.I.Points())
	switch n := d.R.Intn(20); {
	case n < 12:
		return left * int64(20+d.R.Intn(70)) / 100
	case n < 15:
		return left * int64(d.R.Intn(10)) / 100
	case n < 16:
		return 0
	case n < 17:
		return left + int64(d.R.Intn(100))
	case n < 18:
		return int64(d.R.Intn(400))
	case n < 19:
		return longs[d.R.Intn(len(longs))]
	}
	return left
}

func (d *Drv) argValue(f *sim.Frame, name string, t byte, fn string) interface{} {
	r := d.R
	switch t {
	case 'a':
		switch name {
		case "storageLoadFromAddress":
			return d.SCs[r.Intn(len(d.SCs))]
		}
		return d.address()
	case 'v':
		return d.value()
	case 'k':
		return d.key()
	case 't':
		if name == "getCurrentESDTNFTNonce" || name == "transferESDTNFTExecute" {
			if r.Intn(4) > 0 {
				return toks[1]
			}
		} else if name == "transferESDTExecute" && r.Intn(4) > 0 {
			return toks[0]
		}
		return toks[r.Intn(len(toks))]
	case 'f':
		return []byte(fn)
	case 'd':
		switch name {
		case "asyncCall", "transferValue":
			if r.Intn(3) > 0 {
				return d.callData()
			}
		case "bigIntSetUnsignedBytes", "bigIntSetSignedBytes":
			return rb(r, 45)
		}
		return d.data()
	case 'h':
		if r.Intn(20) == 0 {
			return []int{-1, 100, 1 << 30}[r.Intn(3)]
		}
		return r.Intn(5)
	case 'i':
		if r.Intn(12) == 0 {
			return []int{-1, 9, 1 << 30, -1 << 31}[r.Intn(4)]
		}
		return r.Intn(3)
	case 'j':
		if r.Intn(12) == 0 {
			return -1
		}
		if r.Intn(12) == 0 {
			return []int{300, 2000, 8, 64, 256}[r.Intn(5)]
		}
		return r.Intn(70)
	case 'L':
		if name == "setStorageLock" {
			return int64(r.Intn(6000))
		}
		return longs[r.Intn(len(longs))]
	case 'g':
		if strings.HasPrefix(name, "transferESDT") && r.Intn(3) == 0 { // about what the built-in function takes
			return int64([]uint64{d.W.BICost["ESDTTransfer"], d.W.BICost["ESDTNFTTransfer"]}[r.Intn(2)]) + int64([]int{-1, 0, 0, 0, 1}[r.Intn(5)])
		}
		return d.gasFor(f)
	case 'n':
		if name == "getBlockHash" {
			n := []int64{98, 50, 99, 100, 101, 7, -1, 13, 0, 0}[r.Intn(10)]
			if n == 13 && (!d.P.Panics || r.Intn(4) > 0) {
				n = 98
			}
			return n
		}
		return int64(r.Intn(4))
	case 'x':
		return d.argsFor(fn)
	case 'C':
		return d.code()
	case 'm':
		return d.meta()
	case 'T':
		return append(append([]byte{}, d.address()...), d.address()...)
	case 'N':
		if r.Intn(10) == 0 {
			return []int{-1, 5}[r.Intn(2)]
		}
		return r.Intn(3)
	}
	return nil
}

var advPtr = []int64{-1, 0, 65536, 65537, 65535, 65530, 1<<31 - 1, -1 << 31, 70000, 131072}
var advLen = []int64{-1, 0, 1, 65536, 65537, 66000, -1 << 31, 40, 300}
var advNum = []int64{-1, 0, 1, -1 << 31, 40, 300, 1 << 30, 1<<30 + 1, 3 << 29}

func (d *Drv) eei(f *sim.Frame, name string) {
	sig := sim.Sig[name]
	fn := d.fname()
	if name == "transferESDTExecute" || name == "transferESDTNFTExecute" || name == "transferValueExecute" {
		if d.R.Intn(3) == 0 {
			fn = ""
		}
	}
	var v []interface{}
	codeLen := 0
	if name == "verifyBLS" || name == "verifyEd25519" || name == "verifySecp256k1" {
		k, m, s := d.sigArgs(name)
		v = []interface{}{k, m, s}
		raw := map[int]int64{}
		if d.P.Adv > 0 && d.R.Intn(d.P.Adv) == 0 {
			d.adversarial(name, sig, raw)
		}
		f.Call(name, v, raw)
		return
	}
	for k := range []byte(sig) {
		t := sig[k]
		var x interface{}
		if t == 'l' {
			x = codeLen
		} else {
			x = d.argValue(f, name, t, fn)
		}
		if t == 'C' {
			codeLen = len(x.([]byte))
		}
		v = append(v, x)
	}
	raw := map[int]int64{}
	if d.P.Adv > 0 && d.R.Intn(d.P.Adv) == 0 {
		d.adversarial(name, sig, raw)
	}
	if c, ok := d.Cost[name]; ok && d.R.Intn(80) < 1+d.P.LowGas/10 {
		d.edge(f, c)
	}
	p, n := f.I.Points(), d.Rec.Events
	f.Call(name, v, raw)
	if f.Stop == "" && d.Rec.Events <= n+2 {
		d.Cost[name] = int64(f.I.Points() - p)
	}
}

// edge leaves about as much gas as something costs.
func (d *Drv) edge(f *sim.Frame, cost int64) {
	want := cost + int64([]int{-1, 0, 0, 0, 1, 2}[d.R.Intn(6)])
	if left := int64(f.I.Limit()) - int64(f.I.Points()); want >= 0 && left > want {
		f.Burn(uint64(left - want))
	}
}

// asyncCost is what an asynchronous call costs the contract that makes it.
func (d *Drv) asyncCost(data []byte) int64 {
	h := d.Host.(arwen.VMHost)
	g := h.Metering().GasSchedule()
	c := 2*g.ElrondAPICost.AsyncCallStep + g.BaseOperationCost.DataCopyPerByte*uint64(len(data))
	x, ok := h.Runtime().(interface{ HasCallbackMethod() bool })
	if !h.IsDynamicGasLockingEnabled() || ok && x.HasCallbackMethod() {
		c += h.Metering().ComputeGasLockedForAsync()
	}
	return int64(c)
}

// adversarial overrides one or two numeric parameters.
var few = map[string]bool{"asyncCall": true, "transferValue": true, "transferESDT": true, "sha256": true, "keccak256": true, "ripemd160": true, "bigIntSetSignedBytes": true, "bigIntSetUnsignedBytes": true}

func (d *Drv) adversarial(name, sig string, raw map[int]int64) {
	type slot struct {
		k   int
		ptr bool
		out bool
		num bool
		few bool // call data: parsing a lot of it is slow in the specification
	}
	var s []slot
	k, outs := 0, 0
	for _, t := range []byte(sig) {
		switch t {
		case 'k', 'd', 'f', 't':
			s = append(s, slot{k, true, false, false, false}, slot{k + 1, false, false, false, t == 'f' || t == 'd' && few[name]})
			k += 2
		case 'x':
			s = append(s, slot{k, false, false, true, false}, slot{k + 1, true, false, false, false}, slot{k + 2, true, false, false, false})
			k += 3
		case 'o':
			s = append(s, slot{k, true, true, false, false})
			outs++
			k++
		case 'h', 'i', 'j', 'L', 'g', 'n':
			k++
		case 'l', 'N':
			s = append(s, slot{k, false, false, t == 'N', false})
			k++
		default:
			s = append(s, slot{k, true, false, false, false})
			k++
		}
	}
	if len(s) == 0 {
		return
	}
	x := s[d.R.Intn(len(s))]
	if x.ptr {
		p := advPtr[d.R.Intn(len(advPtr))]
		if x.out && d.R.Intn(2) == 0 { // results that end at, before or after the end of the memory
			p = int64(65536 - []int{32, 32, 1, 2, 3, 4, 5, 6, 8, 20, 48, 64, 31, 33, d.R.Intn(70)}[d.R.Intn(15)])
		}
		if x.out && p == 0 { // outputs stay clear of the inputs
			p = 40000
		}
		if !x.out && outs > 0 && p > 0 && p < 65536 { // inputs stay clear of the outputs
			p = 30
		}
		raw[x.k] = p
	} else {
		n := advLen[d.R.Intn(len(advLen))]
		if x.num {
			n = advNum[d.R.Intn(len(advNum))]
		}
		if x.few && n > 4000 {
			n = 600
		}
		raw[x.k] = n
	}
}

func (d *Drv) policy(f *sim.Frame) string {
	if b := d.taken(f); b != nil {
		return b(f)
	}
	r := d.R
	tot := 0
	var gs []string
	for _, g := range []string{"info", "storage", "xfer", "esdt", "nest", "log", "crypto", "bigint", "small", "create", "async", "signal"} {
		w := d.P.W[g]
		if f.Depth >= d.P.Depth && (g == "nest" || g == "create") {
			w = 0
		}
		for ; w > 0; w-- {
			gs = append(gs, g)
			tot++
		}
	}
	look := d.P.Look
	if d.Host.(arwen.VMHost).Runtime().GetVMInput().CallType == vmc.AsynchronousCallBack {
		look = 30
	}
	if r.Intn(100) < look {
		d.script(f, "look")
	}
	n := 1 + r.Intn(d.P.Steps)
	for k := 0; k < n && f.Stop == ""; k++ {
		if r.Intn(3) == 0 {
			f.Burn(uint64(r.Intn(60)))
		}
		if d.Calm && r.Intn(5) > 0 {
			switch m := r.Intn(10); {
			case m < 4:
				d.effect(f)
			case m < 7:
				if s := d.P.Scripts[r.Intn(len(d.P.Scripts))]; s != "entry" {
					d.script(f, s)
				}
			default:
				d.observe(f, 1)
			}
			continue
		}
		if r.Intn(100) < d.P.Script {
			d.script(f, d.P.Scripts[r.Intn(len(d.P.Scripts))])
			continue
		}
		g := gs[r.Intn(tot)]
		l := groups[g]
		d.eei(f, l[r.Intn(len(l))])
	}
	if f.Stop == "" && r.Intn(100) < d.P.EndFail && (!d.Calm || r.Intn(4) == 0) {
		return sim.EndTrap
	}
	return sim.EndOK
}

// script runs calls that belong together.
func (d *Drv) script(f *sim.Frame, name string) {
	r := d.R
	deep := f.Depth >= d.P.Depth
	rt := d.Host.(arwen.VMHost).Runtime()
	caller, self := rt.GetVMInput().CallerAddr, rt.GetSCAddress()
	small := []byte{byte(1 + r.Intn(5))}
	half := (int64(f.I.Limit()) - int64(f.I.Points())) * int64(40+r.Intn(40)) / 100
	sc := d.sc()
	fn := []byte([]string{"f0", "f1"}[r.Intn(2)])
	call := func(n string, v ...interface{}) int64 { return f.Call(n, v, nil) }
	async := func(to, v, data []byte) {
		if r.Intn(60) < 4+d.P.LowGas/4 {
			d.edge(f, d.asyncCost(data))
		}
		call("asyncCall", to, v, data)
	}
	nftData := func(to []byte) []byte {
		return []byte(fmt.Sprintf("ESDTNFTTransfer@%s@%02x@%02x@%s", H(toks[1]), 1+r.Intn(2), 1+r.Intn(2), H(to)))
	}
	esdtData := func(more bool) []byte {
		s := fmt.Sprintf("ESDTTransfer@%s@%02x", H(toks[0]), 1+r.Intn(9))
		if more {
			s += "@" + H(fn)
			if r.Intn(2) == 0 {
				s += "@0102"
			}
		}
		return []byte(s)
	}
	switch name {
	case "rollback":
		d.rollback(f, "")
	case "rollbackRO":
		d.rollback(f, "readOnly")
	case "deep":
		if f.Depth == 0 {
			d.deep(f, 7+r.Intn(5))
		}
	case "bigRoll":
		d.bigRoll(f)
	case "reserved":
		d.reserved(f)
	case "transferBack":
		call("transferValue", caller, small, [][]byte{{}, {}, []byte("thanks")}[r.Intn(3)])
	case "tokenData": // the answer of an asynchronous call carries tokens back
		if r.Intn(2) == 0 {
			call("finish", nftData(caller))
		} else {
			call("finish", esdtData(false))
		}
	case "asyncBack":
		async(caller, []byte(nil), esdtData(r.Intn(2) == 0))
	case "asyncThanks": // the destination pays its caller
		if f.Depth == 0 {
			thanks := [][]byte{{}, []byte("thanks")}[r.Intn(2)]
			d.Kid = &plan{1, func(k *sim.Frame) string {
				k.Call("transferValue", []interface{}{d.caller(), small, thanks}, nil)
				return sim.EndOK
			}}
			async(sc, small, append(append([]byte{}, fn...), "@01"...))
		}
	case "async":
		async(sc, small, append(append([]byte{}, fn...), "@01"...))
	case "asyncToken":
		to := sc
		if r.Intn(3) == 0 {
			to = d.SCs[7]
		}
		if r.Intn(4) == 0 {
			async(self, []byte(nil), nftData(to))
		} else {
			async(to, []byte(nil), esdtData(r.Intn(2) == 0))
		}
	case "asyncRemote":
		async(d.SCs[7], small, append(append([]byte{}, fn...), "@01"...))
	case "deployAsync":
		async(sc, []byte(nil), []byte("upgradeContract@"+H(d.Codes[cFull])+"@0102"))
	case "created":
		if len(d.W.Made) > 0 && !deep {
			call("executeOnDestContext", half, d.W.Made[len(d.W.Made)-1], small, fn, [][]byte{})
		}
	case "create":
		if !deep {
			c := d.Codes[[]int{cFull, cNoInit, cTiny, cBig}[r.Intn(4)]]
			call("createContract", half*3/4, small, c, d.meta(), len(c), nil, [][]byte{small})
			if len(d.W.Made) > 0 && r.Intn(2) == 0 {
				call("executeOnDestContext", half/8, d.W.Made[len(d.W.Made)-1], []byte(nil), fn, [][]byte{})
			}
		}
	case "deploy":
		if !deep {
			c := d.code()
			call("createContract", half, []byte(nil), c, d.meta(), len(c), nil, [][]byte{})
		}
	case "upgrade":
		if !deep {
			c := d.Codes[[]int{cFull, cNoInit, cTiny, cBig, cNoMem, cReserved}[r.Intn(6)]]
			to := sc
			if len(d.W.Made) > 0 && r.Intn(2) == 0 {
				to = d.W.Made[len(d.W.Made)-1]
			}
			call("upgradeContract", to, half, []byte(nil), c, d.meta(), len(c), [][]byte{small})
		}
	case "token":
		if !deep {
			if r.Intn(5) == 0 {
				sc = d.SCs[7]
			}
			look := func(k *sim.Frame) string {
				for n := 1 + r.Intn(4); n > 0; n-- {
					k.Call([]string{"getESDTTokenType", "getESDTTokenNonce", "getESDTValue", "getESDTTokenName", "getCallValueTokenName", "checkNoPayment", "getCallValue"}[r.Intn(7)], nil, nil)
				}
				if r.Intn(2) == 0 {
					d.effect(k)
				}
				return sim.EndOK
			}
			d.withKid(f, look, func() {
				if r.Intn(3) == 0 {
					call("transferESDTNFTExecute", sc, toks[1], small[:1], int64(1+r.Intn(2)), half, fn, [][]byte{small})
				} else {
					call("transferESDTExecute", sc, toks[0], small, half, fn, [][]byte{small})
				}
			})
		}
	case "nest":
		if !deep {
			n := []string{"executeOnDestContext", "executeOnDestContext", "executeOnSameContext", "delegateExecution", "executeReadOnly", "executeOnDestContextByCaller"}[r.Intn(6)]
			switch n {
			case "delegateExecution", "executeReadOnly":
				call(n, half, sc, fn, [][]byte{small})
			default:
				v := small
				if r.Intn(2) == 0 {
					v = nil
				}
				call(n, half, sc, v, fn, [][]byte{small})
			}
		}
	case "store":
		k := d.key()
		call("storageStore", k, d.data())
		if r.Intn(2) == 0 {
			d.script(f, "nest")
		}
		call("storageLoad", k)
		if r.Intn(3) == 0 {
			call("storageLoadFromAddress", sc, k)
		}
	case "look":
		call("getCaller")
		call("getSCAddress")
		call("getNumArguments")
		call("getArgument", 0)
		call("getCallValue")
		call("getOriginalTxHash")
		call("getNumReturnData")
		call("getReturnData", r.Intn(2))
		call("getExternalBalance", self)
	case "balances":
		if rt.GetVMInput().CallType == vmc.AsynchronousCall && r.Intn(2) == 0 { // the payment of a contract that is not payable
			to := d.SCs[[]int{1, 5, 6}[r.Intn(3)]]
			if r.Intn(2) == 0 {
				call("transferValue", to, small, []byte{})
			} else {
				call("transferValueExecute", to, small, int64(0), []byte(nil), [][]byte{})
			}
			break
		}
		call("getExternalBalance", self)
		call("transferValue", sc, small, []byte{})
		call("getExternalBalance", sc)
		call("getExternalBalance", self)
	case "bigs":
		x, y, z := r.Intn(3), r.Intn(3), r.Intn(3)
		if r.Intn(3) == 0 { // handles in use before they are created
			for k := 2 + r.Intn(4); k > 0; k-- {
				if r.Intn(2) == 0 {
					call("bigIntNew", int64(r.Intn(99)))
				} else {
					call("bigIntSetInt64", r.Intn(7), int64(r.Intn(99)))
				}
			}
		}
		for k := 0; k < 3; k++ {
			call([]string{"bigIntSetUnsignedBytes", "bigIntSetSignedBytes"}[r.Intn(2)], k, rb(r, 30))
		}
		for k := r.Intn(4); k >= 0; k-- {
			call([]string{"bigIntAdd", "bigIntSub", "bigIntMul", "bigIntTDiv", "bigIntTMod", "bigIntEDiv", "bigIntEMod", "bigIntAnd", "bigIntOr", "bigIntXor"}[r.Intn(10)], x, y, z)
			call([]string{"bigIntAbs", "bigIntNeg", "bigIntNot"}[r.Intn(3)], y, x)
			call("bigIntCmp", x, y)
		}
		call([]string{"bigIntGetSignedBytes", "bigIntGetUnsignedBytes"}[r.Intn(2)], x)
	case "readOnly":
		if !deep {
			call("executeReadOnly", half, sc, fn, [][]byte{small})
			k := d.key()
			call("storageStore", k, small)
			call("storageLoad", k)
			call("writeLog", small, make([]byte, 32), 1)
		}
	case "entry":
		if !deep {
			n := []string{"init", "callBack", "missing", "upgradeContract", "f3", "", "storageLoad", "_main", "Inactive"}[r.Intn(9)]
			to := sc
			if r.Intn(3) == 0 {
				to = d.SCs[6+r.Intn(2)]
			}
			switch r.Intn(4) {
			case 0:
				call("executeOnSameContext", half, to, []byte(nil), []byte(n), [][]byte{})
			case 1:
				call("executeReadOnly", half, to, []byte(n), [][]byte{})
			case 2:
				call("asyncCall", to, []byte(nil), []byte(n))
			default:
				call("executeOnDestContext", half, to, []byte(nil), []byte(n), [][]byte{})
			}
		}
	case "lock":
		k := d.key()
		call("setStorageLock", k, int64(r.Intn(6000)))
		call("getStorageLock", k)
		call("isStorageLocked", k)
		call("storageStore", k, small)
		if r.Intn(2) == 0 {
			call("clearStorageLock", k)
		}
	default:
		panic("no script " + name)
	}
}

func (d *Drv) txInput() vmc.VMInput {
	d.Kid = nil
	r := d.R
	in := vmc.VMInput{CallerAddr: d.Users[r.Intn(3)], CallValue: big.NewInt(0), GasPrice: uint64(1 + r.Intn(3)), GasProvided: uint64(3000 + r.Intn(60000))}
	d.Calm = r.Intn(100) < d.P.Calm
	if d.Calm {
		in.GasProvided += 40000
	} else if r.Intn(100) < d.P.LowGas {
		in.GasProvided = uint64(r.Intn(1200))
	}
	in.OriginalTxHash = []byte("orig" + string(rune('a'+d.txs%26)))
	in.CurrentTxHash = []byte("curr" + string(rune('a'+d.txs%26)))
	in.PrevTxHash = []byte("prev" + string(rune('a'+d.txs%26)))
	if r.Intn(3) == 0 {
		in.CallValue = big.NewInt(int64(r.Intn(50)))
	}
	if r.Intn(4) == 0 || d.P.Tokens && r.Intn(2) == 0 {
		t := &vmc.ESDTTransfer{ESDTValue: big.NewInt(int64(1 + r.Intn(300))), ESDTTokenName: toks[r.Intn(2)]}
		if string(t.ESDTTokenName) == "NFT-1" {
			t.ESDTTokenType, t.ESDTTokenNonce = 1, uint64(1+r.Intn(2))
		}
		in.ESDTTransfers = []*vmc.ESDTTransfer{t}
	}
	return in
}

func (d *Drv) tx() {
	r := d.R
	in := d.txInput()
	n := r.Intn(100)
	// the sender pays before the VM runs
	pay := func() {
		v := in.CallValue.Int64()
		c := d.W.Get(in.CallerAddr)
		if v > c.Balance {
			v = 0
			in.CallValue = big.NewInt(0)
		}
		_ = v
	}
	pay()
	switch {
	case n < d.P.Create:
		in.ESDTTransfers = nil
		in.Arguments = d.argsFor("")
		d.W.Get(in.CallerAddr).Nonce++
		d.Rec.Emit(map[string]interface{}{"e": "nonce", "a": H(in.CallerAddr)})
		d.create(&vmc.ContractCreateInput{VMInput: in, ContractCode: d.code(), ContractCodeMetadata: d.meta()})
	case n < d.P.Create+d.P.Upgrade:
		in.Arguments = d.argsFor("upgradeContract")
		d.call(&vmc.ContractCallInput{VMInput: in, RecipientAddr: d.sc(), Function: "upgradeContract"})
	default:
		rcv := d.sc()
		if len(d.Kept) > 0 && r.Intn(4) == 0 {
			rcv = d.pick(d.Kept)
		} else if r.Intn(15) == 0 {
			rcv = d.address()
		}
		fn := []string{"f0", "f0", "f1", "f1", "f2"}[r.Intn(5)]
		if d.Calm {
			fn = []string{"f0", "f1"}[r.Intn(2)]
		}
		if r.Intn(10) == 0 || d.P.OddNames && r.Intn(3) == 0 {
			fn = d.fname()
		}
		in.Arguments = d.argsFor("")
		if r.Intn(100) < d.P.Async {
			in.CallerAddr = d.sc()
			if r.Intn(2) == 0 {
				in.CallType = vmc.AsynchronousCall
				in.GasLocked = uint64(r.Intn(2000))
			} else {
				in.CallType = vmc.AsynchronousCallBack
				in.GasLocked = uint64(r.Intn(2000))
				in.Arguments = append([][]byte{{byte(r.Intn(2) * 4)}}, in.Arguments...)
				in.ReturnCallAfterError = r.Intn(3) == 0
				if r.Intn(4) > 0 {
					fn = "callBack"
				}
			}
		}
		if fn == "upgradeContract" {
			in.Arguments = d.argsFor(fn)
		}
		d.call(&vmc.ContractCallInput{VMInput: in, RecipientAddr: rcv, Function: fn})
	}
}

// oddNames are names of exported functions, valid or not.
func (d *Drv) oddName() string {
	r := d.R
	switch r.Intn(14) {
	case 0:
		l := make([]byte, []int{1, 254, 255, 256, 257, 300}[r.Intn(6)])
		for k := range l {
			l[k] = byte('a' + r.Intn(26))
		}
		return string(l)
	case 1:
		return []string{"", "_", "_main", "_init", "init", "callBack", "upgradeContract", "upgradeContracts", "UpgradeContract", "a b", "a-b", "0", "9lives", "A", "\x7f", "\x01", "a\tb"}[r.Intn(17)]
	case 2:
		return []string{"\x80", "caf\u00e9", "\u00e9", "a\xff", "\x7f\x80", "ok\u4e2d"}[r.Intn(6)]
	case 3:
		l := []string{}
		for k := range d.W.BICost {
			l = append(l, k)
		}
		sort.Strings(l)
		n := l[r.Intn(len(l))]
		return []string{n, n, n + "s", n[:len(n)-1]}[r.Intn(4)]
	case 4:
		l := []string{}
		for k := range sim.Sig {
			l = append(l, k)
		}
		sort.Strings(l)
		n := l[r.Intn(len(l))]
		return []string{n, n, n + "2", n[1:]}[r.Intn(4)]
	}
	l := make([]byte, 1+r.Intn(8))
	for k := range l {
		l[k] = "abcdefghijklmnopqrstuvwxyzABCXYZ0189_$"[r.Intn(38)]
	}
	return string(l)
}

func (d *Drv) oddCode(id int) []byte {
	r := d.R
	s := "WSTB\n"
	if r.Intn(12) > 0 {
		s += fmt.Sprintf("M %d 3\n", 1+r.Intn(2))
	}
	seen := map[string]bool{}
	add := func(n string) {
		if seen[n] {
			return
		}
		seen[n] = true
		in, out := 0, 0
		if r.Intn(25) == 0 {
			in, out = []int{1, 0, 2, 1}[r.Intn(4)], []int{0, 1, 0, 1}[r.Intn(4)]
			if in+out == 0 {
				in = 1
			}
		}
		s += fmt.Sprintf("E %s %d %d\n", hx(n), in, out)
	}
	if r.Intn(4) > 0 {
		add("f0")
	}
	if r.Intn(2) > 0 {
		add("init")
	}
	for k := r.Intn(4); k > 0; k-- {
		add(d.oddName())
	}
	return []byte(s + fmt.Sprintf("# odd %d\n", id))
}
