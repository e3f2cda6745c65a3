package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	vmcommon "github.com/ElrondNetwork/elrond-vm-common"
	"verif/harness/trace"
)

const childEnv = "VERIF_IPC_CHILD"

// ---------------------------------------------------------------- the VM's process

func gasOf(g map[string]map[string]uint64) string { return "gas:" + strconv.FormatUint(g["verif"]["v"], 10) }
func schedule(n int) map[string]map[string]uint64 {
	return map[string]map[string]uint64{"verif": {"v": uint64(n)}}
}

func digest(parts ...string) string {
	h := sha256.Sum256([]byte(strings.Join(parts, "|")))
	return hex.EncodeToString(h[:8])
}

// childVM does what the requests say: "<what>:<id>:<number of hook calls>".
type childVM struct {
	part *arwenpart.ArwenPart
	b    vmcommon.BlockchainHook
	out  *os.File
}

func (x *childVM) run(script string) (*vmcommon.VMOutput, error) {
	f := strings.Split(script, ":")
	n, _ := strconv.Atoi(f[2])
	got := ""
	for i := 0; i < n; i++ {
		k := f[1] + "/" + itoa(i)
		v, err := x.b.GetStorageData([]byte("address"), []byte(k))
		if err != nil {
			got += "!" + err.Error()
		}
		got += string(v)
		if i == n/2 {
			x.fault(f[0])
		}
	}
	if n == 0 {
		x.fault(f[0])
	}
	if f[0] == "fail" {
		return nil, errors.New(digest("fail", f[1], got))
	}
	if f[0] == "dying" {
		go func() {
			time.Sleep(time.Duration(n+2) * 10 * time.Millisecond)
			os.Exit(3)
		}()
	}
	return &vmcommon.VMOutput{ReturnData: [][]byte{[]byte(digest("echo", f[1], got))}, GasRefund: big.NewInt(0)}, nil
}

func (x *childVM) fault(what string) {
	switch what {
	case "crash":
		os.Exit(2)
	case "hang":
		for i := 0; i < 600 && os.Getppid() != 1; i++ {
			time.Sleep(100 * time.Millisecond)
		}
		os.Exit(4)
	case "garbage":
		x.out.Write([]byte{7, 0, 0, 0, 5, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7})
		time.Sleep(time.Hour)
	case "wrong":
		m := common.NewMessageVersionResponse("")
		x.part.Messenger.Send(m)
	}
}

func (x *childVM) RunSmartContractCreate(in *vmcommon.ContractCreateInput) (*vmcommon.VMOutput, error) {
	return x.run(string(in.ContractCode))
}
func (x *childVM) RunSmartContractCall(in *vmcommon.ContractCallInput) (*vmcommon.VMOutput, error) {
	return x.run(in.Function)
}
func (x *childVM) GasScheduleChange(g map[string]map[string]uint64) { x.part.Version = gasOf(g) }
func (x *childVM) GetVersion() string                               { return "" }
func (x *childVM) IsInterfaceNil() bool                             { return x == nil }

// runChild is the process behind the driver. As cmd/arwen/main.go, without the machine and the logs.
func runChild() int {
	f := func(n uintptr) *os.File { return os.NewFile(n, "fd"+strconv.Itoa(int(n))) }
	init, in, out := f(3), f(4), f(5)
	h := make([]byte, 8)
	if _, err := io.ReadFull(init, h); err != nil {
		return 10
	}
	b := make([]byte, binary.LittleEndian.Uint32(h))
	if _, err := io.ReadFull(init, b); err != nil {
		return 11
	}
	var m struct {
		Arguments struct {
			GasSchedule         map[string]map[string]uint64
			MessagesMarshalizer marshaling.MarshalizerKind
		}
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return 12
	}
	part, err := arwenpart.NewArwenPart(gasOf(m.Arguments.GasSchedule), in, out, hostParameters(), marshaling.CreateMarshalizer(m.Arguments.MessagesMarshalizer))
	if err != nil {
		return 13
	}
	part.VMHost = &childVM{part, arwenpart.NewBlockchainHookGateway(part.Messenger), out}
	part.StartLoop()
	return 1
}

// ---------------------------------------------------------------- the node

type driverHook struct {
	*hook
	s *driverSession
}

func (h *driverHook) GetStorageData(_ []byte, k []byte) ([]byte, error) {
	return []byte(digest("data", string(k))), nil
}
func (h *driverHook) ClearCompiledCodes() { h.s.emit(M{"e": "clear"}) }

type driverSession struct {
	mu  sync.Mutex
	log []M
	d   *nodepart.ArwenDriver
}

func (s *driverSession) emit(m M) {
	s.mu.Lock()
	s.log = append(s.log, m)
	s.mu.Unlock()
}

type driverOp struct {
	what  string // echo fail hang crash garbage wrong dying | gas version wait waitlong
	id    int
	hooks int
	gas   int
	how   int
}

func expected(what string, o driverOp) string {
	got := ""
	for i := 0; i < o.hooks; i++ {
		got += digest("data", itoa(o.id)+"/"+itoa(i))
	}
	return digest(what, itoa(o.id), got)
}

func (s *driverSession) run(o driverOp) {
	m := M{"e": "end", "op": o.id, "res": "", "text": ""}
	done := make(chan string, 1)
	s.emit(M{"e": "start", "op": o.id, "what": o.what, "gas": o.gas})
	verdict := func(err error) {
		switch {
		case err == nil:
			m["res"] = "ok"
		case common.IsCriticalError(err):
			m["res"] = "critical"
		case o.what == "fail" && err.Error() == expected("fail", o):
			m["res"] = "own"
		default:
			m["res"], m["text"] = "error", canon(err.Error())
		}
	}
	go func() {
		p := trace.Protect(func() {
			switch o.what {
			case "gas":
				s.d.GasScheduleChange(schedule(o.gas))
				m["res"] = "ok"
			case "version":
				m["res"], m["text"] = "ok", s.d.GetVersion()
			case "wait":
				verdict(s.d.DiagnoseWait(uint32(o.hooks)))
			case "waitlong":
				verdict(s.d.DiagnoseWait(600000))
			default:
				script := o.what + ":" + itoa(o.id) + ":" + itoa(o.hooks)
				var out *vmcommon.VMOutput
				var err error
				if o.how == 0 {
					out, err = s.d.RunSmartContractCall(&vmcommon.ContractCallInput{Function: script, VMInput: vmcommon.VMInput{CallValue: big.NewInt(0)}})
				} else {
					out, err = s.d.RunSmartContractCreate(&vmcommon.ContractCreateInput{ContractCode: []byte(script), VMInput: vmcommon.VMInput{CallValue: big.NewInt(0)}})
				}
				verdict(err)
				if err == nil {
					m["res"] = "other"
					if out != nil && len(out.ReturnData) == 1 && string(out.ReturnData[0]) == expected("echo", o) {
						m["res"] = "own"
					}
				}
			}
		})
		done <- p
	}()
	select {
	case p := <-done:
		if p != "" {
			m["res"], m["text"] = "panic", p
		}
		s.emit(m)
	case <-time.After(120 * time.Second):
		s.emit(M{"e": "end", "op": o.id, "res": "stuck", "text": ""})
	}
}

func driverRun(seed int64, ops, threads int, limit int, faults int) []M {
	r := rand.New(rand.NewSource(seed))
	s := &driverSession{}
	h := &driverHook{newCalm(r), s}
	a := common.ArwenArguments{VMHostParameters: *hostParameters(), LogsMarshalizer: marshaling.JSON,
		MessagesMarshalizer: []marshaling.MarshalizerKind{marshaling.JSON, marshaling.Gob}[r.Intn(2)]}
	a.GasSchedule = schedule(0)
	s.emit(M{"e": "new"})
	d, err := nodepart.NewArwenDriver(h, a, nodepart.Config{MaxLoopTime: limit})
	if err != nil {
		panic(err)
	}
	s.d = d
	s.emit(M{"e": "ready"})
	next := 1
	var mu sync.Mutex
	choose := func() (driverOp, bool) {
		mu.Lock()
		defer mu.Unlock()
		o := driverOp{id: next, hooks: r.Intn(4), how: r.Intn(2)}
		if next > ops {
			return o, false
		}
		next++
		x := r.Intn(20)
		switch {
		case x < 8:
			o.what = "echo"
		case x < 10:
			o.what = "fail"
		case x < 13:
			o.what, o.gas = "gas", o.id
		case x < 16:
			o.what = "version"
		case x == 16:
			o.what = "wait"
		default:
			o.what = "echo"
			if faults > 0 {
				faults--
				o.what = []string{"crash", "hang", "garbage", "wrong", "dying", "waitlong"}[r.Intn(6)]
			}
		}
		return o, true
	}
	var wg sync.WaitGroup
	for i := 0; i < threads; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				o, ok := choose()
				if !ok {
					return
				}
				s.run(o)
			}
		}()
	}
	wg.Wait()
	_ = d.Close()
	return s.log
}

func runDriver(a trace.Args) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	os.Setenv(common.EnvVarArwenPath, exe)
	os.Setenv(childEnv, "1")
	r := a.Rand()
	n := a.Int("sessions", 24)
	logs := make([][]M, n)
	var wg sync.WaitGroup
	base := r.Int63()
	slots := make(chan bool, a.Int("par", 24))
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			slots <- true
			logs[i] = driverRun(base+int64(i), a.Int("ops", 12), 1+i%4, a.Int("limit", 4000), a.Int("faults", 3))
			<-slots
		}(i)
	}
	wg.Wait()
	t := trace.NewWriter(a["dir"], "driver")
	defer t.Close()
	for i, l := range logs {
		if i%a.Int("per", 6) == 0 {
			t.Next()
		}
		for _, m := range l {
			t.Emit(m)
		}
	}
}
