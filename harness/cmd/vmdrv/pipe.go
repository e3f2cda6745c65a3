package main

import (
	"os"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/arwenpart"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/common"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/marshaling"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/ipc/nodepart"
	vmc "github.com/ElrondNetwork/elrond-vm-common"
)

// remote is the machine behind a pair of pipes, as a node uses it.
type remote struct {
	node  *nodepart.NodePart
	ended chan error
}

// overPipes makes a machine that the node (and its blockchain) reaches only by messages.
func (d *Drv) overPipes(p *arwen.VMHostParameters) (*remote, vmc.VMExecutionHandler) {
	mz := marshaling.CreateMarshalizer([]marshaling.MarshalizerKind{marshaling.JSON, marshaling.Gob}[d.R.Intn(2)])
	pipe := func() (*os.File, *os.File) {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		return r, w
	}
	vin, nout := pipe()
	nin, vout := pipe()
	part, err := arwenpart.NewArwenPart("v", vin, vout, p, mz)
	if err != nil {
		panic(err)
	}
	node, err := nodepart.NewNodePart(nin, nout, d.W, nodepart.Config{MaxLoopTime: 100000}, mz)
	if err != nil {
		panic(err)
	}
	r := &remote{node, make(chan error, 1)}
	go func() { r.ended <- part.StartLoop() }()
	return r, part.VMHost
}

func (r *remote) ask(m common.MessageHandler) common.MessageHandler {
	a, err := r.node.StartLoop(m)
	if err != nil {
		panic("the session ended: " + err.Error())
	}
	return a
}

func (r *remote) output(m common.MessageHandler) (*vmc.VMOutput, error) {
	a := r.ask(m).(*common.MessageContractResponse)
	if a.GetError() != nil {
		return nil, a.GetError()
	}
	return a.SerializableVMOutput.ConvertToVMOutput(), nil
}

func (r *remote) RunSmartContractCreate(in *vmc.ContractCreateInput) (*vmc.VMOutput, error) {
	return r.output(common.NewMessageContractDeployRequest(in))
}
func (r *remote) RunSmartContractCall(in *vmc.ContractCallInput) (*vmc.VMOutput, error) {
	return r.output(common.NewMessageContractCallRequest(in))
}
func (r *remote) GasScheduleChange(g map[string]map[string]uint64) {
	r.ask(common.NewMessageGasScheduleChangeRequest(g))
}
func (r *remote) GetVersion() string   { return "" }
func (r *remote) IsInterfaceNil() bool { return r == nil }
func (r *remote) stop()                { _ = r.node.SendStopSignal(); <-r.ended }
