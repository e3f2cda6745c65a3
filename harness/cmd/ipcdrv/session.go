package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"verif/harness/trace"
)

const patience = 30 * time.Second // an end that does nothing for so long is stuck

// step is one action of a behaviour of the specification.
type step struct {
	A    string `json:"a"`
	Kind string `json:"kind"`
	Off  int    `json:"off"`
	St   string `json:"st"`
}

func readSteps(path string) [][]step {
	fh, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer fh.Close()
	var res [][]step
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var h []step
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			panic(err)
		}
		res = append(res, h)
	}
	return res
}

// peer is the other end, under control of the driver.
type peer struct {
	r      *rand.Rand
	f      *filler
	mz     marshaling.Marshalizer
	out    *os.File
	frames chan common.MessageHandler // what the real end sent; nil: undecodable
	num    uint32                     // number of the last good frame, whoever sent it
	log    []M
	mu     sync.Mutex
}

func (p *peer) emit(m M) {
	p.mu.Lock()
	p.log = append(p.log, m)
	p.mu.Unlock()
}

func newPeer(r *rand.Rand, mz marshaling.Marshalizer, in, out *os.File) *peer {
	p := &peer{r: r, f: &filler{r: r}, mz: mz, out: out, frames: make(chan common.MessageHandler, 100)}
	go func() {
		defer close(p.frames)
		for {
			h := make([]byte, 8)
			if _, err := io.ReadFull(in, h); err != nil {
				return
			}
			b := make([]byte, binary.LittleEndian.Uint32(h))
			if _, err := io.ReadFull(in, b); err != nil {
				return
			}
			m := common.CreateMessage(common.MessageKind(binary.LittleEndian.Uint32(h[4:])))
			if err := mz.Unmarshal(m, b); err != nil {
				m = nil
			}
			p.frames <- m
		}
	}()
	return p
}

// sent records a frame of the real end.
func (p *peer) sent(m common.MessageHandler) {
	if m == nil {
		p.emit(M{"e": "sent", "kind": "undecodable", "num": 0})
		return
	}
	p.num = m.GetNonce()
	p.emit(M{"e": "sent", "kind": kindName(m.GetKind()), "num": int(m.GetNonce())})
}

var notHooks = map[string]bool{"ContractDeployRequest": true, "ContractCallRequest": true, "ContractResponse": true, "GasScheduleChangeRequest": true,
	"GasScheduleChangeResponse": true, "DiagnoseWaitRequest": true, "DiagnoseWaitResponse": true, "VersionRequest": true, "VersionResponse": true}

func isRequestKind(n string) bool { return strings.HasSuffix(n, "Request") }

// hookKind chooses a kind among those of the hooks.
func (p *peer) hookKind(suffix, but string) string {
	for {
		n := kinds[p.r.Intn(len(kinds))].name
		if !strings.HasSuffix(n, suffix) || n == but || notHooks[n] {
			continue
		}
		return n
	}
}

// frame sends what the step says; hook is the function asked by the VM.
func (p *peer) frame(s step, hook string) {
	if s.St == "end" {
		p.emit(M{"e": "frame", "kind": "", "num": 0, "st": "end", "content": ""})
		p.out.Close()
		return
	}
	name := s.Kind
	switch name {
	case "hookrequest":
		name = p.hookKind("Request", "IsInterfaceNilRequest")
	case "hookresponse":
		name = p.hookKind("Response", "")
	case "answer":
		name = hook + "Response"
	case "otheranswer":
		name = p.hookKind("Response", hook+"Response")
	}
	num := int(p.num) + 1 + s.Off
	var m common.MessageHandler
	if name == "unknown" {
		m = &common.UndefinedMessage{}
		m.SetKind(common.LastKind + common.MessageKind(p.r.Intn(3)*p.r.Intn(1000)))
	} else {
		for _, k := range kinds {
			if k.name == name {
				m = k.mk()
				m.SetKind(k.k)
			}
		}
		p.fillFor(m)
	}
	m.SetNonce(uint32(num))
	b, err := p.mz.Marshal(m)
	if err != nil {
		panic(err)
	}
	h := make([]byte, 8)
	binary.LittleEndian.PutUint32(h, uint32(len(b)))
	binary.LittleEndian.PutUint32(h[4:], uint32(m.GetKind()))
	switch s.St {
	case "garbage":
		for i := range b {
			b[i] = 0xff
		}
	case "kind":
		for {
			k := kinds[p.r.Intn(len(kinds))].k
			if k != m.GetKind() {
				binary.LittleEndian.PutUint32(h[4:], uint32(k))
				break
			}
		}
	}
	p.emit(M{"e": "frame", "kind": name, "num": num, "st": s.St, "content": content(m)})
	if s.St == "ok" && s.Off == 0 {
		p.num = uint32(num)
	}
	x := append(h, b...)
	if s.St == "cut" || s.St == "stall" {
		x = x[:p.r.Intn(len(x))]
	}
	p.out.Write(x)
	if s.St == "cut" {
		p.out.Close()
	}
}

// fillFor gives plausible contents to a message.
func (p *peer) fillFor(m common.MessageHandler) {
	switch x := m.(type) {
	case *common.MessageContractCallRequest:
		x.CallInput = &vmcommon.ContractCallInput{}
		x.CallInput.CallerAddr = p.f.bytes()
		x.Function = []byte(p.f.name())
	case *common.MessageContractDeployRequest:
		x.CreateInput = &vmcommon.ContractCreateInput{ContractCode: p.f.bytes()}
	case *common.MessageDiagnoseWaitRequest:
	case *common.MessageInitialize:
	case *common.MessageContractResponse:
		x.SerializableVMOutput = common.NewSerializableVMOutput(p.f.output())
		if p.r.Intn(3) == 0 {
			m.SetError(errors.New(string(p.f.bytes())))
		}
	default:
		fillMessage(p.f, m)
	}
}

type outcome struct {
	m   common.MessageHandler
	err error
	p   string
}

// newCalm makes a hook that records nothing.
func newCalm(r *rand.Rand) *hook {
	return &hook{&sessionLog{}, &filler{r: rand.New(rand.NewSource(r.Int63()))}}
}

// nodeSession plays a behaviour of the VM's end against the real node's.
func nodeSession(steps []step, kind marshaling.MarshalizerKind, seed int64) []M {
	limit, late := 120000, false
	for _, s := range steps {
		late = late || s.St == "late" || s.St == "stall"
	}
	if late {
		limit = 250 + int(uint64(seed)%100)
	}
	return nodePlay(steps, kind, seed, limit, 0)
}

// nodePlay: the time of the VM is limited; the VM's end waits before each of its messages.
func nodePlay(steps []step, kind marshaling.MarshalizerKind, seed int64, limit int, wait time.Duration) []M {
	r := rand.New(rand.NewSource(seed))
	mz := marshaling.CreateMarshalizer(kind)
	pp := newPipes()
	defer pp.close()
	late := limit < 100000
	node, err := nodepart.NewNodePart(pp.nodeIn, pp.nodeOut, newCalm(r), nodepart.Config{MaxLoopTime: limit}, mz)
	if err != nil {
		panic(err)
	}
	p := newPeer(r, mz, pp.vmIn, pp.vmOut)
	p.emit(M{"e": "new", "side": "node", "late": late})
	var ended chan outcome
	// one event of the node: a frame or the end of the operation
	observe := func() string {
		select {
		case m, ok := <-p.frames:
			if ok {
				p.sent(m)
				return "sent"
			}
			p.emit(M{"e": "sent", "kind": "closed", "num": 0})
			return "closed"
		case o := <-ended:
			switch {
			case o.p != "":
				p.emit(M{"e": "ret", "res": "panic", "kind": "", "content": o.p})
			case o.err != nil:
				p.emit(M{"e": "ret", "res": "error", "kind": "", "content": ""})
			case o.m == nil:
				p.emit(M{"e": "ret", "res": "nil", "kind": "", "content": ""})
			default:
				p.emit(M{"e": "ret", "res": "ok", "kind": kindName(o.m.GetKind()), "content": content(o.m)})
			}
			ended = nil
			return "ret"
		case <-time.After(patience):
			p.emit(M{"e": "stuck"})
			return "stuck"
		}
	}
	for _, s := range steps {
		if s.A == "ask" {
			if ended != nil {
				panic("script")
			}
			var req common.MessageHandler
			switch s.Kind {
			case "ContractCallRequest":
				req = common.NewMessageContractCallRequest(&vmcommon.ContractCallInput{Function: p.f.name()})
			case "ContractDeployRequest":
				req = common.NewMessageContractDeployRequest(&vmcommon.ContractCreateInput{ContractCode: p.f.bytes()})
			case "GasScheduleChangeRequest":
				req = common.NewMessageGasScheduleChangeRequest(map[string]map[string]uint64{"a": {"b": p.f.u64()}})
			case "VersionRequest":
				req = common.NewMessageVersionRequest()
			case "DiagnoseWaitRequest":
				req = common.NewMessageDiagnoseWaitRequest(0)
			}
			p.emit(M{"e": "ask", "kind": s.Kind})
			ch := make(chan outcome, 1)
			ended = ch
			go func() {
				var o outcome
				o.p = trace.Protect(func() { o.m, o.err = node.StartLoop(req) })
				ch <- o
			}()
			if observe() != "sent" {
				return p.log
			}
			continue
		}
		time.Sleep(wait)
		if s.St == "late" {
			p.emit(M{"e": "frame", "kind": "", "num": 0, "st": "late", "content": ""})
		} else {
			p.frame(s, "")
		}
		got := observe()
		if got == "stuck" || got == "closed" {
			return p.log
		}
		if ended == nil && p.log[len(p.log)-1]["res"] != "ok" {
			return p.log
		}
		if ended == nil {
			p.num = 0
		}
	}
	if ended != nil && wait > 0 {
		p.emit(M{"e": "stuck"})
	} else if ended != nil {
		p.frame(step{St: "end"}, "")
		observe()
	}
	return p.log
}

// actor stands for the machine: it does what the script says.
type actor struct {
	p   *peer
	b   vmcommon.BlockchainHook
	cmd chan string
}

func (x *actor) run(kind string) {
	x.p.emit(M{"e": "run", "kind": kind})
	for c := range x.cmd {
		if c == "finish" {
			return
		}
		var i int
		for i = x.p.r.Intn(nHooks); ; i = x.p.r.Intn(nHooks) {
			break
		}
		q := trace.Protect(func() {
			x.p.f.callHook(x.b, i,
				func(fn, _ string) { x.p.emit(M{"e": "hook", "fn": fn}) },
				func(fn, res, err string) { x.p.emit(M{"e": "hooked", "fn": fn, "res": res, "err": err}) })
		})
		if q != "" {
			x.p.emit(M{"e": "panic", "what": q})
		}
	}
}

func (x *actor) RunSmartContractCreate(in *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error) {
	x.run("ContractDeployRequest")
	return &vmcommon.VMOutput{}, nil
}
func (x *actor) RunSmartContractCall(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	x.run("ContractCallRequest")
	if x.p.r.Intn(2) == 0 {
		return nil, errors.New("failed")
	}
	return &vmcommon.VMOutput{}, nil
}
func (x *actor) GasScheduleChange(map[string]map[string]uint64) { x.run("GasScheduleChangeRequest") }
func (x *actor) GetVersion() string                             { return "" }
func (x *actor) IsInterfaceNil() bool                           { return x == nil }

// parts are expensive to make; both the machine behind them and their messenger are replaced anyway.
var (
	partMu sync.Mutex
	parts  []*arwenpart.ArwenPart
)

func newPart(in, out *os.File, mz marshaling.Marshalizer) *arwenpart.ArwenPart {
	partMu.Lock()
	defer partMu.Unlock()
	if n := len(parts); n > 0 {
		part := parts[n-1]
		parts = parts[:n-1]
		part.Messenger = arwenpart.NewArwenMessenger(in, out, mz)
		return part
	}
	part, err := arwenpart.NewArwenPart("version", in, out, hostParameters(), mz)
	if err != nil {
		panic(err)
	}
	return part
}

func freePart(part *arwenpart.ArwenPart) {
	partMu.Lock()
	parts = append(parts, part)
	partMu.Unlock()
}

// vmSession plays a behaviour of the node's end against the real VM's.
func vmSession(steps []step, kind marshaling.MarshalizerKind, seed int64) []M {
	r := rand.New(rand.NewSource(seed))
	mz := marshaling.CreateMarshalizer(kind)
	pp := newPipes()
	defer pp.close()
	part := newPart(pp.vmIn, pp.vmOut, mz)
	p := newPeer(r, mz, pp.nodeIn, pp.nodeOut)
	x := &actor{p: p, b: arwenpart.NewBlockchainHookGateway(part.Messenger), cmd: make(chan string, 100)}
	part.VMHost = x
	p.emit(M{"e": "new", "side": "vm", "late": false})
	done := make(chan string, 1)
	go func() {
		q := trace.Protect(func() { part.StartLoop() })
		done <- q
	}()
	hook, over := "", false
	// the next thing the VM does: a frame, the end of its loop, or the start of an execution
	observe := func(quiet bool) {
		t := time.Now()
		for {
			select {
			case m, ok := <-p.frames:
				if !ok {
					// the VM closed its pipe: the loop ends
					p.frames = nil
					continue
				}
				p.sent(m)
				if m != nil && isRequestKind(kindName(m.GetKind())) {
					hook = strings.TrimSuffix(kindName(m.GetKind()), "Request")
				} else {
					p.num = 0
				}
				return
			case q := <-done:
				over = true
				freePart(part)
				// what it sent before
				for limit := time.After(time.Second); p.frames != nil; {
					select {
					case m, ok := <-p.frames:
						if ok {
							p.sent(m)
							continue
						}
					case <-limit:
					}
					p.frames = nil
				}
				if q != "" {
					p.emit(M{"e": "panic", "what": q})
				} else {
					p.emit(M{"e": "ended"})
				}
				return
			case <-time.After(2 * time.Millisecond):
			}
			p.mu.Lock()
			last := p.log[len(p.log)-1]["e"]
			p.mu.Unlock()
			if quiet && (last == "run" || last == "hooked" || last == "panic") {
				return
			}
			if time.Since(t) > patience {
				p.emit(M{"e": "stuck"})
				over = true
				return
			}
		}
	}
	for _, s := range steps {
		if over {
			break
		}
		switch {
		case s.A == "hook":
			x.cmd <- "hook"
			observe(false)
		case s.A == "finish":
			x.cmd <- "finish"
			observe(false)
			hook = ""
		default:
			p.frame(s, hook)
			observe(true)
			hook = ""
		}
	}
	if !over {
		close(x.cmd)
		p.frame(step{St: "end"}, "")
		for !over {
			observe(false)
		}
	}
	return p.log
}

func play(a trace.Args, prefix string, one func([]step, marshaling.MarshalizerKind, int64) []M) {
	t := trace.NewWriter(a["dir"], prefix)
	defer t.Close()
	r := a.Rand()
	all := make([][]step, 8)
	if a["gen"] != "" {
		all = readSteps(a["gen"])
	}
	if n := a.Int("max", 0); n > 0 && len(all) > n {
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		all = all[:n]
	}
	logs := make([][]M, len(all))
	base := r.Int63()
	var wg sync.WaitGroup
	next := make(chan int)
	for w := a.Int("par", 64); w > 0; w-- {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				logs[i] = one(all[i], []marshaling.MarshalizerKind{marshaling.JSON, marshaling.Gob}[i%2], base+int64(i))
			}
		}()
	}
	for i := range all {
		next <- i
	}
	close(next)
	wg.Wait()
	per := a.Int("per", 12000)
	for _, l := range logs {
		if t.Count == 0 || t.Count > per {
			t.Count = 0
			t.Next()
		}
		for _, m := range l {
			t.Emit(m)
		}
	}
}

// dripSession: a VM that keeps asking, slowly, until its time is over.
func dripSession(_ []step, kind marshaling.MarshalizerKind, seed int64) []M {
	steps := []step{{A: "ask", Kind: "ContractCallRequest"}}
	for i := 0; i < 120; i++ {
		steps = append(steps, step{A: "frame", Kind: "hookrequest", St: "ok"})
	}
	return nodePlay(steps, kind, seed, 400, 50*time.Millisecond)
}

func runNode(a trace.Args) {
	play(a, "node", nodeSession)
	a["gen"] = ""
	play(a, "drip", dripSession)
}
func runVM(a trace.Args)   { play(a, "vm", vmSession) }
