package main

import (
	"fmt"
	"math/big"

	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	"verif/harness/docs"
	"verif/harness/trace"
)

type M = trace.M
type L = []interface{}

func bigBytes(b *big.Int) []int {
	if b == nil {
		return []int{}
	}
	if b.Sign() < 0 {
		panic("negative")
	}
	return trace.Bytes(b.Bytes())
}
func nat(x uint64) []int     { return trace.Bytes(new(big.Int).SetUint64(x).Bytes()) }
func u64(x mj.JSONUint64) M  { return M{"v": nat(x.Value), "o": x.Original} }
func bigv(x mj.JSONBigInt) M { return M{"v": bigBytes(x.Value), "o": x.Original} }

// No bytes are no bytes, however they were written.
func bytesv(x mj.JSONBytesFromString) M {
	if len(x.Value) == 0 {
		return M{"v": L{}, "o": ""}
	}
	return M{"v": trace.Bytes(x.Value), "o": x.Original}
}
func treev(x mj.JSONBytesFromTree) M {
	if len(x.Value) == 0 {
		return M{"v": L{}, "o": docs.Strip(nil)}
	}
	return M{"v": trace.Bytes(x.Value), "o": docs.Strip(x.Original)}
}

func chk(v interface{}, o interface{}, star, un bool) M {
	return M{"v": v, "o": o, "star": star, "un": un}
}
func cu64(x mj.JSONCheckUint64) M { return chk(nat(x.Value), x.Original, x.IsStar, x.Unspecified) }
func cbig(x mj.JSONCheckBigInt) M { return chk(bigBytes(x.Value), x.Original, x.IsStar, x.Unspecified) }
func cint(x mj.JSONCheckBigInt) M {
	v := x.Value
	if v == nil {
		v = new(big.Int)
	}
	return chk(trace.Big(v), x.Original, x.IsStar, x.Unspecified)
}
func cbytes(x mj.JSONCheckBytes) M {
	return chk(trace.Bytes(x.Value), docs.Strip(x.Original), x.IsStar, x.Unspecified)
}
func cbytesl(x []mj.JSONCheckBytes) L {
	l := L{}
	for _, e := range x {
		l = append(l, cbytes(e))
	}
	return l
}
func texts(x []string) L {
	l := L{}
	for _, e := range x {
		l = append(l, e)
	}
	return l
}
func bytesl(x []mj.JSONBytesFromString) L {
	l := L{}
	for _, e := range x {
		l = append(l, bytesv(e))
	}
	return l
}
func treesl(x []mj.JSONBytesFromTree) L {
	l := L{}
	for _, e := range x {
		l = append(l, treev(e))
	}
	return l
}

func account(a *mj.Account) M {
	st := L{}
	for _, s := range a.Storage {
		st = append(st, M{"key": bytesv(s.Key), "val": treev(s.Value)})
	}
	es := L{}
	for _, e := range a.ESDTData {
		ins := L{}
		for _, i := range e.Instances {
			ins = append(ins, M{"nonce": u64(i.Nonce), "balance": bigv(i.Balance), "creator": bytesv(i.Creator), "royalties": u64(i.Royalties),
				"hash": bytesv(i.Hash), "uri": treev(i.Uri), "attributes": bytesv(i.Attributes)})
		}
		es = append(es, M{"key": bytesv(e.TokenIdentifier), "val": M{"instances": ins, "lastNonce": u64(e.LastNonce), "roles": texts(e.Roles), "frozen": u64(e.Frozen)}})
	}
	return M{"comment": a.Comment, "shard": u64(a.Shard), "nonce": u64(a.Nonce), "balance": bigv(a.Balance), "esdt": es, "username": bytesv(a.Username),
		"storage": st, "code": bytesv(a.Code), "owner": bytesv(a.Owner), "asyncCallData": raw(a.AsyncCallData)}
}

func accounts(as []*mj.Account) L {
	l := L{}
	for _, a := range as {
		l = append(l, M{"key": bytesv(a.Address), "val": account(a)})
	}
	return l
}

func caccount(a *mj.CheckAccount) M {
	st := L{}
	for _, s := range a.CheckStorage {
		st = append(st, M{"key": bytesv(s.Key), "val": cbytes(s.CheckValue)})
	}
	es := L{}
	for _, e := range a.CheckESDTData {
		ins := L{}
		for _, i := range e.Instances {
			ins = append(ins, M{"nonce": cu64(i.Nonce), "balance": cbig(i.Balance), "creator": cbytes(i.Creator), "royalties": cu64(i.Royalties),
				"hash": cbytes(i.Hash), "uri": cbytes(i.Uri), "attributes": cbytes(i.Attributes)})
		}
		es = append(es, M{"key": bytesv(e.TokenIdentifier), "val": M{"instances": ins, "lastNonce": cu64(e.LastNonce), "roles": texts(e.Roles), "frozen": cu64(e.Frozen)}})
	}
	return M{"comment": a.Comment, "nonce": cu64(a.Nonce), "balance": cbig(a.Balance), "esdt": M{"any": a.IgnoreESDT, "more": a.MoreESDTTokensAllowed, "list": es},
		"username": cbytes(a.Username), "storage": M{"any": a.IgnoreStorage, "more": a.MoreStorageAllowed, "list": st}, "code": cbytes(a.Code),
		"owner": cbytes(a.Owner), "asyncCallData": cbytes(a.AsyncCallData)}
}

func caccounts(c *mj.CheckAccounts) interface{} {
	if c == nil {
		return L{}
	}
	l := L{}
	for _, a := range c.Accounts {
		l = append(l, M{"key": bytesv(a.Address), "val": caccount(a)})
	}
	return M{"any": false, "more": c.MoreAccountsAllowed, "list": l}
}

func block(b *mj.BlockInfo) interface{} {
	if b == nil {
		return L{}
	}
	var seed interface{} = L{}
	if b.BlockRandomSeed != nil {
		seed = treev(*b.BlockRandomSeed)
	}
	return M{"blockTimestamp": u64(b.BlockTimestamp), "blockNonce": u64(b.BlockNonce), "blockRound": u64(b.BlockRound), "blockEpoch": u64(b.BlockEpoch), "blockRandomSeed": seed}
}

func txType(t mj.TransactionType) string {
	return (&mj.TxStep{Tx: &mj.Transaction{Type: t}}).StepTypeName()
}

func tx(t *mj.Transaction) interface{} {
	if t == nil {
		return L{}
	}
	var esdt interface{} = L{}
	if e := t.ESDTValue; e != nil {
		esdt = M{"tokenIdentifier": bytesv(e.TokenIdentifier), "nonce": u64(e.Nonce), "value": bigv(e.Value)}
	}
	return M{"type": txType(t.Type), "nonce": u64(t.Nonce), "from": bytesv(t.From), "to": bytesv(t.To), "function": raw(t.Function), "value": bigv(t.Value), "esdt": esdt,
		"arguments": treesl(t.Arguments), "contractCode": bytesv(t.Code), "gasPrice": u64(t.GasPrice), "gasLimit": u64(t.GasLimit)}
}

func result(r *mj.TransactionResult) interface{} {
	if r == nil {
		return L{}
	}
	ls := L{}
	for _, e := range r.Logs {
		ls = append(ls, M{"address": cbytes(e.Address), "identifier": cbytes(e.Identifier), "topics": cbytesl(e.Topics), "data": cbytes(e.Data)})
	}
	return M{"out": cbytesl(r.Out), "status": cint(r.Status), "message": cbytes(r.Message), "gas": cu64(r.Gas), "refund": cbig(r.Refund),
		"logs": M{"un": r.LogsUnspecified, "star": r.LogsStar, "hash": r.LogHash, "list": ls}}
}

func step(s mj.Step) M {
	switch x := s.(type) {
	case *mj.ExternalStepsStep:
		return M{"step": "externalSteps", "comment": x.Comment, "path": x.Path}
	case *mj.SetStateStep:
		nas := L{}
		for _, n := range x.NewAddressMocks {
			nas = append(nas, M{"creatorAddress": bytesv(n.CreatorAddress), "creatorNonce": u64(n.CreatorNonce), "newAddress": bytesv(n.NewAddress)})
		}
		return M{"step": "setState", "comment": x.Comment, "accounts": accounts(x.Accounts), "newAddresses": nas,
			"previousBlockInfo": block(x.PreviousBlockInfo), "currentBlockInfo": block(x.CurrentBlockInfo), "blockHashes": bytesl(x.BlockHashes)}
	case *mj.CheckStateStep:
		return M{"step": "checkState", "comment": x.Comment, "accounts": caccounts(x.CheckAccounts)}
	case *mj.DumpStateStep:
		return M{"step": "dumpState", "comment": x.Comment}
	case *mj.TxStep:
		return M{"step": x.StepTypeName(), "txId": raw(x.TxIdent), "comment": x.Comment, "tx": tx(x.Tx), "expect": result(x.ExpectedResult)}
	}
	return M{"step": fmt.Sprintf("%T", s)}
}

var schedules = map[mj.GasSchedule]string{mj.GasScheduleDefault: "default", mj.GasScheduleDummy: "dummy", mj.GasScheduleV1: "v1", mj.GasScheduleV2: "v2", mj.GasScheduleV3: "v3"}

func scenario(s *mj.Scenario) M {
	l := L{}
	for _, x := range s.Steps {
		l = append(l, step(x))
	}
	return M{"name": s.Name, "comment": s.Comment, "checkGas": s.CheckGas, "gasSchedule": schedules[s.GasSchedule], "steps": l}
}

func tests(ts []*mj.Test) L {
	l := L{}
	for _, t := range ts {
		bs := L{}
		for _, b := range t.Blocks {
			rs, xs := L{}, L{}
			for _, r := range b.Results {
				rs = append(rs, result(r))
			}
			for _, x := range b.Transactions {
				xs = append(xs, tx(x))
			}
			var h interface{} = L{}
			if b.BlockHeader != nil {
				h = M{"gasLimit": bigv(b.BlockHeader.GasLimit), "number": bigv(b.BlockHeader.Number), "difficulty": bigv(b.BlockHeader.Difficulty),
					"timestamp": u64(b.BlockHeader.Timestamp), "coinbase": bigv(b.BlockHeader.Beneficiary)}
			}
			bs = append(bs, M{"results": rs, "transactions": xs, "blockHeader": h})
		}
		l = append(l, M{"name": t.TestName, "test": M{"checkGas": t.CheckGas, "pre": accounts(t.Pre), "blocks": bs, "network": t.Network,
			"blockHashes": bytesl(t.BlockHashes), "postState": caccounts(t.PostState)}})
	}
	return l
}

func raw(s string) M { return M{"v": trace.Bytes([]byte(s)), "o": s} }
