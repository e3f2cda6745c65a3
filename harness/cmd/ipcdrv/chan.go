package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"os"
	"reflect"
	"time"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"verif/harness/trace"
)

type M = trace.M

// kinds lists every message of the protocol.
var kinds = []struct {
	k    common.MessageKind
	name string
	mk   func() common.MessageHandler
}{
	{common.Initialize, "Initialize", func() common.MessageHandler { return &common.MessageInitialize{} }},
	{common.Stop, "Stop", func() common.MessageHandler { return &common.MessageStop{} }},
	{common.ContractDeployRequest, "ContractDeployRequest", func() common.MessageHandler { return &common.MessageContractDeployRequest{} }},
	{common.ContractCallRequest, "ContractCallRequest", func() common.MessageHandler { return &common.MessageContractCallRequest{} }},
	{common.ContractResponse, "ContractResponse", func() common.MessageHandler { return &common.MessageContractResponse{} }},
	{common.GasScheduleChangeRequest, "GasScheduleChangeRequest", func() common.MessageHandler { return &common.MessageGasScheduleChangeRequest{} }},
	{common.GasScheduleChangeResponse, "GasScheduleChangeResponse", func() common.MessageHandler { return &common.Message{} }},
	{common.DiagnoseWaitRequest, "DiagnoseWaitRequest", func() common.MessageHandler { return &common.MessageDiagnoseWaitRequest{} }},
	{common.DiagnoseWaitResponse, "DiagnoseWaitResponse", func() common.MessageHandler { return &common.MessageDiagnoseWaitResponse{} }},
	{common.VersionRequest, "VersionRequest", func() common.MessageHandler { return &common.MessageVersionRequest{} }},
	{common.VersionResponse, "VersionResponse", func() common.MessageHandler { return &common.MessageVersionResponse{} }},
	{common.UndefinedRequestOrResponse, "Undefined", func() common.MessageHandler { return &common.UndefinedMessage{} }},
	{common.BlockchainNewAddressRequest, "NewAddressRequest", func() common.MessageHandler { return &common.MessageBlockchainNewAddressRequest{} }},
	{common.BlockchainNewAddressResponse, "NewAddressResponse", func() common.MessageHandler { return &common.MessageBlockchainNewAddressResponse{} }},
	{common.BlockchainGetStorageDataRequest, "GetStorageDataRequest", func() common.MessageHandler { return &common.MessageBlockchainGetStorageDataRequest{} }},
	{common.BlockchainGetStorageDataResponse, "GetStorageDataResponse", func() common.MessageHandler { return &common.MessageBlockchainGetStorageDataResponse{} }},
	{common.BlockchainGetBlockhashRequest, "GetBlockhashRequest", func() common.MessageHandler { return &common.MessageBlockchainGetBlockhashRequest{} }},
	{common.BlockchainGetBlockhashResponse, "GetBlockhashResponse", func() common.MessageHandler { return &common.MessageBlockchainGetBlockhashResponse{} }},
	{common.BlockchainLastNonceRequest, "LastNonceRequest", func() common.MessageHandler { return &common.MessageBlockchainLastNonceRequest{} }},
	{common.BlockchainLastNonceResponse, "LastNonceResponse", func() common.MessageHandler { return &common.MessageBlockchainLastNonceResponse{} }},
	{common.BlockchainLastRoundRequest, "LastRoundRequest", func() common.MessageHandler { return &common.MessageBlockchainLastRoundRequest{} }},
	{common.BlockchainLastRoundResponse, "LastRoundResponse", func() common.MessageHandler { return &common.MessageBlockchainLastRoundResponse{} }},
	{common.BlockchainLastTimeStampRequest, "LastTimeStampRequest", func() common.MessageHandler { return &common.MessageBlockchainLastTimeStampRequest{} }},
	{common.BlockchainLastTimeStampResponse, "LastTimeStampResponse", func() common.MessageHandler { return &common.MessageBlockchainLastTimeStampResponse{} }},
	{common.BlockchainLastRandomSeedRequest, "LastRandomSeedRequest", func() common.MessageHandler { return &common.MessageBlockchainLastRandomSeedRequest{} }},
	{common.BlockchainLastRandomSeedResponse, "LastRandomSeedResponse", func() common.MessageHandler { return &common.MessageBlockchainLastRandomSeedResponse{} }},
	{common.BlockchainLastEpochRequest, "LastEpochRequest", func() common.MessageHandler { return &common.MessageBlockchainLastEpochRequest{} }},
	{common.BlockchainLastEpochResponse, "LastEpochResponse", func() common.MessageHandler { return &common.MessageBlockchainLastEpochResponse{} }},
	{common.BlockchainGetStateRootHashRequest, "GetStateRootHashRequest", func() common.MessageHandler { return &common.MessageBlockchainGetStateRootHashRequest{} }},
	{common.BlockchainGetStateRootHashResponse, "GetStateRootHashResponse", func() common.MessageHandler { return &common.MessageBlockchainGetStateRootHashResponse{} }},
	{common.BlockchainCurrentNonceRequest, "CurrentNonceRequest", func() common.MessageHandler { return &common.MessageBlockchainCurrentNonceRequest{} }},
	{common.BlockchainCurrentNonceResponse, "CurrentNonceResponse", func() common.MessageHandler { return &common.MessageBlockchainCurrentNonceResponse{} }},
	{common.BlockchainCurrentRoundRequest, "CurrentRoundRequest", func() common.MessageHandler { return &common.MessageBlockchainCurrentRoundRequest{} }},
	{common.BlockchainCurrentRoundResponse, "CurrentRoundResponse", func() common.MessageHandler { return &common.MessageBlockchainCurrentRoundResponse{} }},
	{common.BlockchainCurrentTimeStampRequest, "CurrentTimeStampRequest", func() common.MessageHandler { return &common.MessageBlockchainCurrentTimeStampRequest{} }},
	{common.BlockchainCurrentTimeStampResponse, "CurrentTimeStampResponse", func() common.MessageHandler { return &common.MessageBlockchainCurrentTimeStampResponse{} }},
	{common.BlockchainCurrentRandomSeedRequest, "CurrentRandomSeedRequest", func() common.MessageHandler { return &common.MessageBlockchainCurrentRandomSeedRequest{} }},
	{common.BlockchainCurrentRandomSeedResponse, "CurrentRandomSeedResponse", func() common.MessageHandler { return &common.MessageBlockchainCurrentRandomSeedResponse{} }},
	{common.BlockchainCurrentEpochRequest, "CurrentEpochRequest", func() common.MessageHandler { return &common.MessageBlockchainCurrentEpochRequest{} }},
	{common.BlockchainCurrentEpochResponse, "CurrentEpochResponse", func() common.MessageHandler { return &common.MessageBlockchainCurrentEpochResponse{} }},
	{common.BlockchainProcessBuiltInFunctionRequest, "ProcessBuiltInFunctionRequest", func() common.MessageHandler { return &common.MessageBlockchainProcessBuiltInFunctionRequest{} }},
	{common.BlockchainProcessBuiltInFunctionResponse, "ProcessBuiltInFunctionResponse", func() common.MessageHandler { return &common.MessageBlockchainProcessBuiltInFunctionResponse{} }},
	{common.BlockchainGetBuiltinFunctionNamesRequest, "GetBuiltinFunctionNamesRequest", func() common.MessageHandler { return &common.MessageBlockchainGetBuiltinFunctionNamesRequest{} }},
	{common.BlockchainGetBuiltinFunctionNamesResponse, "GetBuiltinFunctionNamesResponse", func() common.MessageHandler { return &common.MessageBlockchainGetBuiltinFunctionNamesResponse{} }},
	{common.BlockchainGetAllStateRequest, "GetAllStateRequest", func() common.MessageHandler { return &common.MessageBlockchainGetAllStateRequest{} }},
	{common.BlockchainGetAllStateResponse, "GetAllStateResponse", func() common.MessageHandler { return &common.MessageBlockchainGetAllStateResponse{} }},
	{common.BlockchainGetUserAccountRequest, "GetUserAccountRequest", func() common.MessageHandler { return &common.MessageBlockchainGetUserAccountRequest{} }},
	{common.BlockchainGetUserAccountResponse, "GetUserAccountResponse", func() common.MessageHandler { return &common.MessageBlockchainGetUserAccountResponse{} }},
	{common.BlockchainGetCodeRequest, "GetCodeRequest", func() common.MessageHandler { return &common.MessageBlockchainGetCodeRequest{} }},
	{common.BlockchainGetCodeResponse, "GetCodeResponse", func() common.MessageHandler { return &common.MessageBlockchainGetCodeResponse{} }},
	{common.BlockchainGetShardOfAddressRequest, "GetShardOfAddressRequest", func() common.MessageHandler { return &common.MessageBlockchainGetShardOfAddressRequest{} }},
	{common.BlockchainGetShardOfAddressResponse, "GetShardOfAddressResponse", func() common.MessageHandler { return &common.MessageBlockchainGetShardOfAddressResponse{} }},
	{common.BlockchainIsSmartContractRequest, "IsSmartContractRequest", func() common.MessageHandler { return &common.MessageBlockchainIsSmartContractRequest{} }},
	{common.BlockchainIsSmartContractResponse, "IsSmartContractResponse", func() common.MessageHandler { return &common.MessageBlockchainIsSmartContractResponse{} }},
	{common.BlockchainIsPayableRequest, "IsPayableRequest", func() common.MessageHandler { return &common.MessageBlockchainIsPayableRequest{} }},
	{common.BlockchainIsPayableResponse, "IsPayableResponse", func() common.MessageHandler { return &common.MessageBlockchainIsPayableResponse{} }},
	{common.BlockchainSaveCompiledCodeRequest, "SaveCompiledCodeRequest", func() common.MessageHandler { return &common.MessageBlockchainSaveCompiledCodeRequest{} }},
	{common.BlockchainSaveCompiledCodeResponse, "SaveCompiledCodeResponse", func() common.MessageHandler { return &common.MessageBlockchainSaveCompiledCodeResponse{} }},
	{common.BlockchainGetCompiledCodeRequest, "GetCompiledCodeRequest", func() common.MessageHandler { return &common.MessageBlockchainGetCompiledCodeRequest{} }},
	{common.BlockchainGetCompiledCodeResponse, "GetCompiledCodeResponse", func() common.MessageHandler { return &common.MessageBlockchainGetCompiledCodeResponse{} }},
	{common.BlockchainClearCompiledCodesRequest, "ClearCompiledCodesRequest", func() common.MessageHandler { return &common.MessageBlockchainClearCompiledCodesRequest{} }},
	{common.BlockchainClearCompiledCodesResponse, "ClearCompiledCodesResponse", func() common.MessageHandler { return &common.MessageBlockchainClearCompiledCodesResponse{} }},
	{common.BlockchainGetESDTTokenRequest, "GetESDTTokenRequest", func() common.MessageHandler { return &common.MessageBlockchainGetESDTTokenRequest{} }},
	{common.BlockchainGetESDTTokenResponse, "GetESDTTokenResponse", func() common.MessageHandler { return &common.MessageBlockchainGetESDTTokenResponse{} }},
	{common.BlockchainIsInterfaceNilRequest, "IsInterfaceNilRequest", func() common.MessageHandler { return &common.MessageBlockchainIsInterfaceNilRequest{} }},
	{common.BlockchainIsInterfaceNilResponse, "IsInterfaceNilResponse", func() common.MessageHandler { return &common.MessageBlockchainIsInterfaceNilResponse{} }},
	{common.BlockchainGetSnapshotRequest, "GetSnapshotRequest", func() common.MessageHandler { return &common.MessageBlockchainGetSnapshotRequest{} }},
	{common.BlockchainGetSnapshotResponse, "GetSnapshotResponse", func() common.MessageHandler { return &common.MessageBlockchainGetSnapshotResponse{} }},
	{common.BlockchainRevertToSnapshotRequest, "RevertToSnapshotRequest", func() common.MessageHandler { return &common.MessageBlockchainRevertToSnapshotRequest{} }},
	{common.BlockchainRevertToSnapshotResponse, "RevertToSnapshotResponse", func() common.MessageHandler { return &common.MessageBlockchainRevertToSnapshotResponse{} }},
}

func kindName(k common.MessageKind) string {
	for _, e := range kinds {
		if e.k == k {
			return e.name
		}
	}
	return "other"
}

func kindOf(name string) common.MessageKind {
	for _, e := range kinds {
		if e.name == name {
			return e.k
		}
	}
	panic("kind " + name)
}

// fillMessage gives random contents to all the fields of a message but its header.
func fillMessage(f *filler, m common.MessageHandler) {
	v := reflect.ValueOf(m).Elem()
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		if n == "Message" || n == "DialogueNonce" || n == "Kind" || n == "ErrorMessage" {
			continue
		}
		f.fill(v.Field(i), 0)
	}
	if f.r.Intn(3) == 0 {
		m.SetError(errors.New(string(f.bytes())))
	}
}

// content is what a message says, apart from its number: type, kind, error and all fields.
func content(m common.MessageHandler) string {
	n := m.GetNonce()
	m.SetNonce(0)
	e := ""
	if m.GetError() != nil {
		e = m.GetError().Error()
	}
	s := reflect.TypeOf(m).String() + canon(m) + "e" + hex.EncodeToString([]byte(e))
	m.SetNonce(n)
	if len(s) > 200 {
		h := sha256.Sum256([]byte(s))
		return hex.EncodeToString(h[:])
	}
	return s
}

type frame struct{ b []byte }

// link is one direction: the messenger writes into it, the script decides what the other one reads.
type link struct {
	wr, rd   *os.File // ends of the messengers
	in, out  *os.File // ends of the proxy
	q        [][]byte
	closed   bool
	cut      bool
	received chan []byte
}

func newLink() *link {
	l := &link{received: make(chan []byte, 100)}
	var err error
	if l.in, l.wr, err = os.Pipe(); err != nil {
		panic(err)
	}
	if l.rd, l.out, err = os.Pipe(); err != nil {
		panic(err)
	}
	go func() {
		rd := bufio.NewReader(l.in)
		for {
			h := make([]byte, 8)
			if _, err := io.ReadFull(rd, h); err != nil {
				close(l.received)
				return
			}
			b := make([]byte, binary.LittleEndian.Uint32(h))
			if _, err := io.ReadFull(rd, b); err != nil {
				l.received <- append(h, b...)
				close(l.received)
				return
			}
			l.received <- append(h, b...)
		}
	}()
	return l
}

func (l *link) close() {
	for _, f := range []*os.File{l.wr, l.in, l.out, l.rd} {
		f.Close()
	}
}

type chanDriver struct {
	t    *trace.Writer
	r    *rand.Rand
	f    *filler
	m    [2]*common.Messenger
	l    [2]*link // l[0]: messages of 0
	id   int
	kind marshaling.MarshalizerKind
	mz   marshaling.Marshalizer
}

func (d *chanDriver) reset(kind marshaling.MarshalizerKind) {
	if d.l[0] != nil {
		d.l[0].close()
		d.l[1].close()
	}
	d.kind = kind
	d.mz = marshaling.CreateMarshalizer(kind)
	for i := range d.l {
		d.l[i] = newLink()
	}
	for i, n := range []string{"NODE", "ARWEN"} {
		d.m[i] = common.NewMessengerPipes(n, d.l[1-i].rd, d.l[i].wr, d.mz)
	}
	d.t.Emit(M{"e": "new"})
}

func (d *chanDriver) send(side int, kindAt int) {
	k := kinds[kindAt]
	m := k.mk()
	if k.name != "Initialize" {
		fillMessage(d.f, m)
	}
	m.SetKind(k.k)
	c := content(m)
	p := trace.Protect(func() {
		if err := d.m[side].Send(m); err != nil {
			panic(err)
		}
	})
	if p != "" {
		d.t.Emit(M{"e": "panic", "what": p})
		return
	}
	d.t.Emit(M{"e": "send", "side": side, "id": d.id, "kind": k.name, "content": c})
	d.id++
	l := d.l[side]
	select {
	case b := <-l.received:
		l.q = append(l.q, b)
	case <-time.After(20 * time.Second):
		// what was written is no frame
		d.t.Emit(M{"e": "panic", "what": "a sent message does not come out of the pipe"})
		panic(lost)
	}
}

// fault changes the frame at i (0-based) in the queue of side.
func (d *chanDriver) fault(side int, what string, i int) {
	l := d.l[side]
	q := l.q
	switch what {
	case "drop":
		l.q = append(append([][]byte{}, q[:i]...), q[i+1:]...)
	case "dup":
		l.q = append(append(append([][]byte{}, q[:i+1]...), q[i]), q[i+1:]...)
	case "swap":
		n := append([][]byte{}, q...)
		n[i], n[i+1] = n[i+1], n[i]
		l.q = n
	case "garbage": // same length, not decodable
		b := append([]byte{}, q[i]...)
		for j := 8; j < len(b); j++ {
			b[j] = 0xff
		}
		l.q = append(append(append([][]byte{}, q[:i]...), b), q[i+1:]...)
	case "kind": // the header announces another kind
		b := append([]byte{}, q[i]...)
		k := common.MessageKind(binary.LittleEndian.Uint32(b[4:]))
		var o common.MessageKind
		for {
			o = kinds[d.r.Intn(len(kinds))].k
			if d.r.Intn(6) == 0 {
				o = common.LastKind + common.MessageKind(d.r.Intn(1000))
			}
			if o != k {
				break
			}
		}
		binary.LittleEndian.PutUint32(b[4:], uint32(o))
		l.q = append(append(append([][]byte{}, q[:i]...), b), q[i+1:]...)
	case "cut": // the frame ends early and nothing follows
		b := q[i][:d.r.Intn(len(q[i]))]
		l.q = append(append([][]byte{}, q[:i]...), b)
		l.cut = true
	}
	d.t.Emit(M{"e": what, "side": side, "i": i + 1})
}

// write sends bytes in pieces of random sizes.
func (d *chanDriver) write(f *os.File, b []byte, mode int, seed int64) {
	r := rand.New(rand.NewSource(seed))
	for len(b) > 0 {
		n := len(b)
		switch mode {
		case 0:
			n = 1 + r.Intn(3)
		case 1:
			n = 1 + r.Intn(len(b))
		case 2:
			n = 8
		}
		if n > len(b) || r.Intn(60) == 0 {
			n = len(b)
		}
		if _, err := f.Write(b[:n]); err != nil {
			return
		}
		b = b[n:]
		if r.Intn(8) == 0 {
			time.Sleep(time.Duration(r.Intn(80)) * time.Microsecond)
		}
	}
}

// recv: side receives the oldest frame sent to it.
func (d *chanDriver) recv(side int) {
	l := d.l[1-side]
	timeout := 15
	last := false
	if len(l.q) > 0 {
		b := l.q[0]
		l.q = l.q[1:]
		last = l.cut && len(l.q) == 0
		timeout = 0
		if d.r.Intn(2) == 0 {
			timeout = 30000
		}
		mode, seed := d.r.Intn(4), d.r.Int63()
		go func() {
			d.write(l.out, b, mode, seed)
			if last {
				l.out.Close()
			}
		}()
	} else if l.cut {
		timeout = 0
	}
	type res struct {
		m   common.MessageHandler
		err error
		p   string
	}
	ch := make(chan res, 1)
	go func() {
		var x res
		x.p = trace.Protect(func() { x.m, x.err = d.m[side].Receive(timeout) })
		ch <- x
	}()
	var x res
	select {
	case x = <-ch:
	case <-time.After(60 * time.Second):
		d.t.Emit(M{"e": "recv", "side": side, "res": "blocked", "kind": "", "content": ""})
		d.t.Close()
		os.Exit(0)
	}
	switch {
	case x.p != "":
		d.t.Emit(M{"e": "recv", "side": side, "res": "panic " + x.p, "kind": "", "content": ""})
	case x.err != nil:
		d.t.Emit(M{"e": "recv", "side": side, "res": "error", "kind": "", "content": ""})
	case x.m == nil:
		d.t.Emit(M{"e": "recv", "side": side, "res": "nil", "kind": "", "content": ""})
	default:
		d.t.Emit(M{"e": "recv", "side": side, "res": "ok", "kind": kindName(x.m.GetKind()), "content": content(x.m)})
	}
}

type act struct {
	A    string `json:"a"`
	Side int    `json:"side"`
	I    int    `json:"i"`
}

var lost = errors.New("lost")

func runChan(a trace.Args) {
	t := trace.NewWriter(a["dir"], "chan")
	defer t.Close()
	defer func() {
		if e := recover(); e != nil && e != lost {
			panic(e)
		}
	}()
	r := a.Rand()
	d := &chanDriver{t: t, r: r, f: &filler{r: r}}
	mk := []marshaling.MarshalizerKind{marshaling.JSON, marshaling.Gob}
	per := a.Int("per", 4000)
	next := func() {
		if t.Count == 0 || t.Count > per {
			t.Count = 0
			t.Next()
		}
	}
	// behaviours of the specification
	if a["gen"] != "" {
		fh, err := os.Open(a["gen"])
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		n := 0
		for sc.Scan() {
			var h []act
			if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
				panic(err)
			}
			n++
			next()
			d.reset(mk[n%2])
			for _, x := range h {
				switch x.A {
				case "send":
					d.send(x.Side, r.Intn(len(kinds)))
				case "recv":
					d.recv(x.Side)
				default:
					d.fault(x.Side, x.A, x.I-1)
				}
			}
		}
	}
	// every kind of message, both ways, several contents, both marshalizers
	rounds := a.Int("n", 3)
	for c := 0; c < rounds; c++ {
		for _, k := range mk {
			next()
			d.reset(k)
			d.f.big = 0
			for i := range kinds {
				side := (i + c) % 2
				if i == len(kinds)/2 && c%3 == 2 {
					d.f.big = 300000
				}
				d.send(side, i)
				d.recv(1 - side)
			}
			d.f.big = 0
		}
	}
	// random histories
	for c := 0; c < a.Int("hist", 60); c++ {
		next()
		d.reset(mk[r.Intn(2)])
		faults := r.Intn(3)
		for i := 5 + r.Intn(30); i > 0; i-- {
			side := r.Intn(2)
			l := d.l[side]
			switch x := r.Intn(10); {
			case x < 4:
				if !l.cut {
					d.send(side, r.Intn(len(kinds)))
				}
			case x < 8:
				if len(d.l[1-side].q) > 0 || r.Intn(8) == 0 {
					d.recv(side)
				}
			case x == 8 && faults > 0 && len(l.q) > 0 && !l.cut:
				faults--
				w := []string{"drop", "dup", "swap", "garbage", "kind", "cut"}[r.Intn(6)]
				i := r.Intn(len(l.q))
				if w == "swap" && i+1 >= len(l.q) {
					w = "drop"
				}
				d.fault(side, w, i)
			case x == 9 && len(d.l[0].q) == 0 && len(d.l[1].q) == 0 && r.Intn(2) == 0:
				d.m[0].ResetDialogue()
				d.m[1].Reset()
				d.t.Emit(M{"e": "reset"})
			}
		}
	}
	// oversized announcements
	for c := 0; c < 3; c++ {
		next()
		d.reset(mk[c%2])
		l := d.l[0]
		d.send(0, 2)
		binary.LittleEndian.PutUint32(l.q[0], uint32(len(l.q[0])+[]int{1, 1 << 20, 64 << 20}[c]))
		l.cut = true
		d.t.Emit(M{"e": "cut", "side": 0, "i": 1})
		d.recv(1)
	}
}
