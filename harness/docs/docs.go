// Package docs turns documents into trees of nodes and back.
package docs

import (
	"encoding/json"
	"fmt"

	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	"verif/harness/trace"
)

type M = trace.M
type L = []interface{}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Strip renders a tree without the bytes of its texts.
func Strip(o oj.OJsonObject) interface{} {
	switch v := o.(type) {
	case *oj.OJsonString:
		return M{"k": "s", "v": v.Value}
	case *oj.OJsonBool:
		return M{"k": "b", "v": bool(*v)}
	case *oj.OJsonList:
		l := L{}
		for _, x := range v.AsList() {
			l = append(l, Strip(x))
		}
		return M{"k": "l", "v": l}
	case *oj.OJsonMap:
		l := L{}
		for _, kv := range v.OrderedKV {
			l = append(l, M{"key": kv.Key, "val": Strip(kv.Value)})
		}
		return M{"k": "m", "v": l}
	case nil:
		return M{"k": "s", "v": ""}
	}
	return M{"k": fmt.Sprintf("%T", o)}
}

// WithBytes renders a tree with the bytes of its texts.
func WithBytes(o oj.OJsonObject) interface{} {
	switch v := o.(type) {
	case *oj.OJsonString:
		return M{"k": "s", "v": v.Value, "c": trace.Bytes([]byte(v.Value))}
	case *oj.OJsonList:
		l := L{}
		for _, x := range v.AsList() {
			l = append(l, WithBytes(x))
		}
		return M{"k": "l", "v": l}
	case *oj.OJsonMap:
		l := L{}
		for _, kv := range v.OrderedKV {
			l = append(l, M{"key": kv.Key, "c": trace.Bytes([]byte(kv.Key)), "val": WithBytes(kv.Value)})
		}
		return M{"k": "m", "v": l}
	}
	return Strip(o)
}

// Node is a tree.
type Node struct {
	K string          `json:"k"`
	V json.RawMessage `json:"v"`
}
type entry struct {
	Key string `json:"key"`
	Val Node   `json:"val"`
}

// FromNode builds the tree of nodes.
func FromNode(n Node) oj.OJsonObject {
	switch n.K {
	case "s":
		var s string
		must(json.Unmarshal(n.V, &s))
		return &oj.OJsonString{Value: s}
	case "b":
		var b bool
		must(json.Unmarshal(n.V, &b))
		x := oj.OJsonBool(b)
		return &x
	case "l":
		var l []Node
		must(json.Unmarshal(n.V, &l))
		r := oj.OJsonList{}
		for _, x := range l {
			r = append(r, FromNode(x))
		}
		return &r
	}
	var l []entry
	must(json.Unmarshal(n.V, &l))
	m := oj.NewMap()
	for _, e := range l {
		m.Put(e.Key, FromNode(e.Val))
	}
	return m
}
