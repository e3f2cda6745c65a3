package main

import (
	"math/big"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	vmc "github.com/ElrondNetwork/elrond-vm-common"
	"verif/harness/sim"
)

// A plan is what the function called next does: the caller of a script decides the body of its callee.
type plan struct {
	depth int
	body  func(f *sim.Frame) string
}

// withKid runs a nested call whose callee follows a plan.
func (d *Drv) withKid(f *sim.Frame, body func(f *sim.Frame) string, call func()) {
	old := d.Kid
	d.Kid = &plan{f.Depth + 1, body}
	call()
	d.Kid = old
}

// taken is the plan for a frame, if there is one; a plan is followed once.
func (d *Drv) taken(f *sim.Frame) func(f *sim.Frame) string {
	p := d.Kid
	if p == nil || p.depth != f.Depth || p.body == nil {
		return nil
	}
	b := p.body
	p.body = nil
	return b
}

func (d *Drv) self() []byte   { return d.Host.(arwen.VMHost).Runtime().GetSCAddress() }
func (d *Drv) caller() []byte { return d.Host.(arwen.VMHost).Runtime().GetVMInput().CallerAddr }

// half is a good part of the gas left.
func (d *Drv) half(f *sim.Frame) int64 {
	return (int64(f.I.Limit()) - int64(f.I.Points())) * int64(40+d.R.Intn(40)) / 100
}

// effect is one call that changes something.
func (d *Drv) effect(f *sim.Frame) {
	r := d.R
	call := func(n string, v ...interface{}) int64 { return f.Call(n, v, nil) }
	deep := f.Depth >= d.P.Depth+1
	small := []byte{byte(1 + r.Intn(5))}
	sc := d.sc()
	fn := []byte([]string{"f0", "f1"}[r.Intn(2)])
	switch n := r.Intn(19); {
	case n == 17: // ends the body
		if !deep {
			c := d.Codes[[]int{cFull, cNoInit, cBig}[r.Intn(3)]]
			call("upgradeContract", d.sc(), d.half(f)/2, []byte(nil), c, d.meta(), len(c), [][]byte{small})
		}
	case n == 18:
		if !deep { // a contract upgrades another, its caller goes on
			d.withKid(f, func(k *sim.Frame) string {
				c := d.Codes[[]int{cFull, cNoInit, cBig}[r.Intn(3)]]
				k.Call("upgradeContract", []interface{}{d.sc(), d.half(k) / 2, []byte(nil), c, d.meta(), len(c), [][]byte{small}}, nil)
				return sim.EndOK
			}, func() { d.nested(f, d.SCs[0], []byte("f0"), small) })
		}
	case n < 3:
		call("storageStore", keys[r.Intn(3)], rb(r, 5))
	case n < 5:
		call("transferValue", sc, small, []byte{})
	case n < 7:
		if r.Intn(2) == 0 {
			call("transferESDTExecute", sc, toks[0], small, int64(0), []byte{}, [][]byte{})
		} else {
			call("transferESDTNFTExecute", sc, toks[1], []byte{1}, int64(1+r.Intn(2)), int64(0), []byte{}, [][]byte{})
		}
	case n < 8:
		call("writeLog", rb(r, 3), make([]byte, 32), 1)
	case n < 9:
		call("writeEventLog", [][]byte{rb(r, 3), rb(r, 3)}, rb(r, 3))
	case n < 10:
		call("finish", rb(r, 4))
	case n < 11:
		call("bigIntSetUnsignedBytes", r.Intn(3), rb(r, 4))
	case n < 12:
		if !deep {
			call("createContract", d.half(f)/2, small, d.Codes[cTiny], d.meta(), len(d.Codes[cTiny]), nil, [][]byte{})
		}
	case n < 14:
		call("executeOnDestContext", d.half(f)/3, d.self(), []byte(nil), []byte("Save"), [][]byte{rb(r, 3)})
	case n < 15:
		call("executeOnDestContext", d.half(f)/3, d.pick(d.Users[:3]), []byte(nil), []byte("Reward"), [][]byte{})
	case n < 16:
		call("setStorageLock", keys[r.Intn(3)], int64(r.Intn(6000)))
	default:
		if !deep {
			d.nested(f, sc, fn, small)
		}
	}
}

// nested calls another contract somehow.
func (d *Drv) nested(f *sim.Frame, to, fn, small []byte) {
	r := d.R
	call := func(n string, v ...interface{}) int64 { return f.Call(n, v, nil) }
	h := d.half(f)
	switch n := []string{"executeOnDestContext", "executeOnSameContext", "executeOnSameContext", "delegateExecution", "executeReadOnly", "executeOnDestContextByCaller",
		"transferValueExecute", "transferESDTExecute"}[r.Intn(8)]; n {
	case "delegateExecution", "executeReadOnly":
		call(n, h, to, fn, [][]byte{small})
	case "transferValueExecute":
		call(n, to, small, h, fn, [][]byte{small})
	case "transferESDTExecute":
		call(n, to, toks[0], small, h, fn, [][]byte{small})
	default:
		v := small
		if r.Intn(2) == 0 {
			v = nil
		}
		call(n, h, to, v, fn, [][]byte{small})
	}
}

// fail ends a body in one of the ways that are failures.
func (d *Drv) fail(f *sim.Frame) string {
	r := d.R
	call := func(n string, v ...interface{}) int64 { return f.Call(n, v, nil) }
	switch r.Intn(6) {
	case 0:
		call("signalError", []byte("no"))
	case 1:
		f.Burn(f.I.Limit() - f.I.Points() + 1 + uint64(r.Intn(3)))
	case 2:
		call("getArgument", 77)
	case 3:
		call("transferValue", d.pick(d.Users), []byte{0x3f, 0xff, 0xff, 0xff}, []byte{})
	default:
	}
	return sim.EndTrap
}

// observe looks at what the effects could have changed.
func (d *Drv) observe(f *sim.Frame, n int) {
	r := d.R
	call := func(n string, v ...interface{}) int64 { return f.Call(n, v, nil) }
	for ; n > 0; n-- {
		switch r.Intn(11) {
		case 0, 1:
			call("storageLoad", keys[r.Intn(3)])
		case 2:
			call("getExternalBalance", d.self())
		case 3:
			call("getExternalBalance", d.sc())
		case 4, 5:
			if r.Intn(2) == 0 {
				call("getESDTBalance", d.sc(), toks[0], int64(0))
			} else {
				call("getESDTBalance", d.self(), toks[1], int64(1+r.Intn(2)))
			}
		case 6:
			call("getNumReturnData")
		case 7:
			call("bigIntGetUnsignedBytes", r.Intn(3))
		case 8:
			call("storageLoad", []byte("ELRONDsaved"))
		case 9:
			call("storageLoadFromAddress", d.sc(), keys[r.Intn(3)])
		case 10:
			call("getReturnData", r.Intn(2))
		}
	}
}

// rollback: a nested call has effects and then often fails; its caller looks and goes on.
func (d *Drv) rollback(f *sim.Frame, mode string) {
	r := d.R
	if f.Depth >= d.P.Depth {
		return
	}
	if r.Intn(3) == 0 {
		d.effect(f)
	}
	body := func(k *sim.Frame) string {
		for n := 1 + r.Intn(3); n > 0; n-- {
			d.effect(k)
		}
		if k.Stop == "" && r.Intn(5) < 3 {
			return d.fail(k)
		}
		return sim.EndOK
	}
	to := d.sc()
	if r.Intn(4) == 0 {
		to = d.self()
	}
	small := []byte{byte(1 + r.Intn(5))}
	d.withKid(f, body, func() {
		if mode == "readOnly" {
			f.Call("executeReadOnly", []interface{}{d.half(f), to, []byte("f0"), [][]byte{small}}, nil)
			return
		}
		if r.Intn(3) == 0 {
			d.direct(f, to, "f0", []int64{0, 0, 3, -1, 1 << 29}[r.Intn(5)])
			return
		}
		d.nested(f, to, []byte("f0"), small)
	})
	d.observe(f, 1+r.Intn(3))
	if r.Intn(3) == 0 {
		d.effect(f)
	}
}

// bigRoll: a nested call works on the numbers of its caller, or on numbers of its own, and then often fails.
func (d *Drv) bigRoll(f *sim.Frame) {
	r := d.R
	if f.Depth >= d.P.Depth {
		return
	}
	work := func(k *sim.Frame, n int) {
		for ; n > 0; n-- {
			x, y, z := r.Intn(4), r.Intn(4), r.Intn(4)
			switch r.Intn(6) {
			case 0:
				k.Call("bigIntNew", []interface{}{int64(r.Intn(99))}, nil)
			case 1:
				k.Call("bigIntSetInt64", []interface{}{x, int64(r.Intn(99) - 50)}, nil)
			case 2:
				k.Call("bigIntSetUnsignedBytes", []interface{}{x, rb(r, 9)}, nil)
			case 3:
				k.Call("bigIntNeg", []interface{}{x, y}, nil)
			case 4:
				k.Call("bigIntGetCallValue", []interface{}{x}, nil)
			default:
				k.Call([]string{"bigIntAdd", "bigIntSub", "bigIntMul"}[r.Intn(3)], []interface{}{x, y, z}, nil)
			}
		}
	}
	work(f, 1+r.Intn(3))
	body := func(k *sim.Frame) string {
		work(k, 1+r.Intn(3))
		if r.Intn(4) == 0 {
			d.bigRoll(k)
		}
		if k.Stop == "" && r.Intn(5) < 3 {
			return d.fail(k)
		}
		return sim.EndOK
	}
	to := d.sc()
	d.withKid(f, body, func() {
		if r.Intn(2) == 0 { // after a failure the caller only goes on here
			d.direct(f, to, "f0", []int64{0, 0, 0, 1, -1}[r.Intn(5)])
			return
		}
		n := []string{"executeOnSameContext", "executeOnSameContext", "executeOnSameContext", "executeOnDestContext", "delegateExecution", "executeReadOnly"}[r.Intn(6)]
		if n == "delegateExecution" || n == "executeReadOnly" {
			f.Call(n, []interface{}{d.half(f), to, []byte("f0"), [][]byte{}}, nil)
		} else {
			f.Call(n, []interface{}{d.half(f), to, []byte(nil), []byte("f0"), [][]byte{}}, nil)
		}
	})
	for k := 0; k < 4; k++ {
		if r.Intn(3) > 0 {
			f.Call([]string{"bigIntGetInt64", "bigIntGetSignedBytes"}[r.Intn(2)], []interface{}{k}, nil)
		}
	}
	work(f, r.Intn(2))
}

// reserved: the value of a protected key is read, changed by the protocol, and read again.
func (d *Drv) reserved(f *sim.Frame) {
	r := d.R
	call := func(n string, v ...interface{}) int64 { return f.Call(n, v, nil) }
	k := []byte("ELRONDsaved")
	look := func() {
		switch r.Intn(3) {
		case 0:
			call("storageLoadLength", k)
		case 1:
			call("storageLoad", k)
		default:
			call("storageLoadFromAddress", d.self(), k)
		}
	}
	look()
	save := func(f *sim.Frame) {
		f.Call("executeOnDestContext", []interface{}{d.half(f) / 2, d.self(), []byte(nil), []byte("Save"), [][]byte{rb(r, 4)}}, nil)
	}
	if r.Intn(2) == 0 || f.Depth >= d.P.Depth {
		save(f)
	} else {
		to := d.sc()
		d.withKid(f, func(k *sim.Frame) string {
			save(k)
			if r.Intn(2) == 0 {
				return d.fail(k)
			}
			return sim.EndOK
		}, func() { d.nested(f, to, []byte("f0"), []byte{1}) })
	}
	look()
	if r.Intn(3) == 0 {
		call("storageStore", k, rb(r, 3))
	}
}

// direct calls the machine without an interface function: the caller goes on after a failure.
func (d *Drv) direct(f *sim.Frame, to []byte, fn string, v int64) {
	r := d.R
	h := d.Host.(arwen.VMHost)
	in := &vmc.ContractCallInput{RecipientAddr: to, Function: fn, VMInput: vmc.VMInput{CallerAddr: d.self(), CallValue: big.NewInt(v), GasProvided: uint64(d.half(f)), GasPrice: 5,
		OriginalTxHash: []byte("hash of the origin"), CurrentTxHash: []byte("hash of now"), PrevTxHash: []byte("hash of before")}}
	for n := r.Intn(3); n > 0; n-- {
		in.Arguments = append(in.Arguments, rb(r, 4))
	}
	if r.Intn(4) == 0 {
		in.CallerAddr = d.address()
	}
	if r.Intn(5) == 0 {
		in.CallType = vmc.AsynchronousCall
		in.GasLocked = uint64(r.Intn(500))
	}
	same := r.Intn(2) == 0
	if !same && r.Intn(6) == 0 {
		fn = []string{"Save", "Reward", "ESDTTransfer"}[r.Intn(3)]
		in.Function, in.Arguments = fn, d.argsFor(fn)
		if v < 0 {
			in.CallValue = big.NewInt(0)
		}
	}
	m := vmInput(&in.VMInput)
	m["rcv"], m["fn"] = H(in.RecipientAddr), H([]byte(in.Function))
	name := "HostDest"
	if same {
		name = "HostSame"
	}
	f.Direct(name, m, func() error {
		if same {
			_, err := h.ExecuteOnSameContext(in)
			return err
		}
		_, _, err := h.ExecuteOnDestContext(in)
		return err
	})
}

// deep: a chain of n nested calls, about as many as the machine runs at the same time.
func (d *Drv) deep(f *sim.Frame, n int) {
	r := d.R
	if r.Intn(4) == 0 {
		f.Call("finish", []interface{}{[]byte{byte(n)}}, nil)
	}
	if n == 0 {
		return
	}
	to := d.SCs[0]
	if len(d.Good) > 0 {
		to = d.pick(d.Good)
	}
	gas := (int64(f.I.Limit()) - int64(f.I.Points())) * 90 / 100
	d.withKid(f, func(k *sim.Frame) string { d.deep(k, n-1); return sim.EndOK }, func() {
		if r.Intn(2) == 0 {
			f.Call("executeOnSameContext", []interface{}{gas, to, []byte(nil), []byte("f0"), [][]byte{}}, nil)
		} else {
			f.Call("executeOnDestContext", []interface{}{gas, to, []byte(nil), []byte("f0"), [][]byte{}}, nil)
		}
	})
}
