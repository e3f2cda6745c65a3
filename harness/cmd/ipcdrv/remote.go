package main

import (
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"github.com/ElrondNetwork/elrond-vm-common/builtInFunctions"
	"verif/harness/trace"
)

// executor stands for the virtual machine behind the VM's end: it asks the hook at random and answers at random.
type executor struct {
	l    *sessionLog
	f    *filler
	b    vmcommon.BlockchainHook
	next int // the hook function to ask first, to reach all of them
	max  int
}

func (x *executor) hooks() {
	for n := x.f.r.Intn(x.max + 1); n > 0; n-- {
		i := x.next % nHooks
		x.next++
		if x.f.r.Intn(3) == 0 {
			i = x.f.r.Intn(nHooks)
		}
		p := trace.Protect(func() {
			x.f.callHook(x.b, i,
				func(fn, args string) { x.l.emit(M{"e": "vcall", "fn": fn, "args": args}) },
				func(fn, res, err string) { x.l.emit(M{"e": "vret", "fn": fn, "res": res, "err": err}) })
		})
		if p != "" {
			x.l.emit(M{"e": "panic", "what": p})
		}
	}
}

func (x *executor) end() (*vmcommon.VMOutput, error) {
	x.hooks()
	o, e := x.f.output(), (&hook{x.l, x.f}).err()
	if e != nil {
		o = nil
	}
	x.l.emit(M{"e": "vres", "res": describe(args{o}), "err": errText(e)})
	return o, e
}

func (x *executor) RunSmartContractCreate(in *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error) {
	x.l.emit(M{"e": "vreq", "fn": "create", "args": describe(args{in})})
	return x.end()
}

func (x *executor) RunSmartContractCall(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	x.l.emit(M{"e": "vreq", "fn": "call", "args": describe(args{in})})
	return x.end()
}

func (x *executor) GasScheduleChange(g map[string]map[string]uint64) {
	x.l.emit(M{"e": "vreq", "fn": "gas", "args": describe(args{g})})
	x.hooks()
	x.l.emit(M{"e": "vres", "res": describe(args{}), "err": ""})
}
func (x *executor) GetVersion() string   { return "" }
func (x *executor) IsInterfaceNil() bool { return x == nil }

func hostParameters() *arwen.VMHostParameters {
	return &arwen.VMHostParameters{
		VMType:                   []byte{5, 0},
		BlockGasLimit:            uint64(10000000),
		GasSchedule:              config.MakeGasMapForTests(),
		ElrondProtectedKeyPrefix: []byte("ELROND"),
		BuiltInFuncContainer:     builtInFunctions.NewBuiltInFunctionContainer(),
	}
}

type pipePair struct{ nodeIn, nodeOut, vmIn, vmOut *os.File }

func newPipes() pipePair {
	var p pipePair
	var err error
	if p.vmIn, p.nodeOut, err = os.Pipe(); err != nil {
		panic(err)
	}
	if p.nodeIn, p.vmOut, err = os.Pipe(); err != nil {
		panic(err)
	}
	return p
}

func (p pipePair) close() {
	for _, f := range []*os.File{p.nodeIn, p.nodeOut, p.vmIn, p.vmOut} {
		f.Close()
	}
}

func runRemote(a trace.Args) {
	t := trace.NewWriter(a["dir"], "remote")
	defer t.Close()
	r := a.Rand()
	l := &sessionLog{t: t}
	for s := 0; s < a.Int("sessions", 8); s++ {
		t.Next()
		mz := []marshaling.MarshalizerKind{marshaling.JSON, marshaling.Gob}[s%2]
		f := &filler{r: r}
		g := &filler{r: rand.New(rand.NewSource(r.Int63()))}
		p := newPipes()
		version := f.name()
		part, err := arwenpart.NewArwenPart(version, p.vmIn, p.vmOut, hostParameters(), marshaling.CreateMarshalizer(mz))
		if err != nil {
			panic(err)
		}
		x := &executor{l: l, f: g, b: arwenpart.NewBlockchainHookGateway(part.Messenger), max: 8, next: s * 5}
		part.VMHost = x
		node, err := nodepart.NewNodePart(p.nodeIn, p.nodeOut, &hook{l, f}, nodepart.Config{MaxLoopTime: 60000}, marshaling.CreateMarshalizer(mz))
		if err != nil {
			panic(err)
		}
		ended := make(chan error, 1)
		go func() {
			var e error
			if q := trace.Protect(func() { e = part.StartLoop() }); q != "" {
				l.emit(M{"e": "panic", "what": q})
			}
			ended <- e
		}()
		l.emit(M{"e": "new", "version": canon(version)})
		for n := a.Int("n", 60); n > 0; n-- {
			if !remoteOp(l, f, node) {
				break
			}
		}
		_ = node.SendStopSignal()
		select {
		case <-ended:
			l.emit(M{"e": "stopped"})
		case <-time.After(20 * time.Second):
			l.emit(M{"e": "blocked"})
		}
		p.close()
	}
}

// remoteOp is one operation of the node.
func remoteOp(l *sessionLog, f *filler, node *nodepart.NodePart) bool {
	big := 0
	if f.r.Intn(12) == 0 {
		big = 200000
	}
	var req common.MessageHandler
	f.big = big
	switch f.r.Intn(7) {
	case 0, 1, 2:
		in := &vmcommon.ContractCallInput{}
		f.fill(reflect.ValueOf(in).Elem(), 0)
		in.Function = string(f.bytes())
		l.emit(M{"e": "nreq", "fn": "call", "args": describe(args{in})})
		req = common.NewMessageContractCallRequest(in)
	case 3, 4:
		in := &vmcommon.ContractCreateInput{}
		f.fill(reflect.ValueOf(in).Elem(), 0)
		l.emit(M{"e": "nreq", "fn": "create", "args": describe(args{in})})
		req = common.NewMessageContractDeployRequest(in)
	case 5:
		g := map[string]map[string]uint64{}
		f.fill(reflect.ValueOf(&g).Elem(), 0)
		l.emit(M{"e": "nreq", "fn": "gas", "args": describe(args{g})})
		req = common.NewMessageGasScheduleChangeRequest(g)
	case 6:
		if f.r.Intn(2) == 0 {
			l.emit(M{"e": "nreq", "fn": "version", "args": describe(args{})})
			req = common.NewMessageVersionRequest()
		} else {
			l.emit(M{"e": "nreq", "fn": "wait", "args": describe(args{})})
			req = common.NewMessageDiagnoseWaitRequest(uint32(f.r.Intn(3)))
		}
	}
	f.big = 0
	var res common.MessageHandler
	var err error
	done := make(chan string, 1)
	go func() { done <- trace.Protect(func() { res, err = node.StartLoop(req) }) }()
	select {
	case p := <-done:
		if p != "" {
			l.emit(M{"e": "panic", "what": p})
			return false
		}
	case <-time.After(90 * time.Second):
		l.emit(M{"e": "blocked"})
		return false
	}
	if err != nil {
		l.emit(M{"e": "nfail", "what": err.Error()})
		return false
	}
	m := M{"e": "nret", "kind": kindName(res.GetKind()), "err": errText(res.GetError()), "res": describe(args{})}
	switch x := res.(type) {
	case *common.MessageContractResponse:
		m["res"] = describe(args{x.SerializableVMOutput.ConvertToVMOutput()})
	case *common.MessageVersionResponse:
		m["res"] = canon(x.Version)
	}
	l.emit(m)
	return true
}

func itoa(i int) string { return strconv.Itoa(i) }
