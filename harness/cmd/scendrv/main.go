// scendrv parses, writes and parses again scenario and test files, and records what they mean.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"math/rand"
	"os"

	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	mjparse "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/parse"
	mjwrite "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/write"
	oj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/orderedjson"
	"verif/harness/docs"
	"verif/harness/trace"
)

type resolver struct{}

func (resolver) Clone() fr.FileResolver                    { return resolver{} }
func (resolver) SetContext(string)                         {}
func (resolver) ResolveAbsolutePath(v string) string       { return v }
func (resolver) ResolveFileValue(v string) ([]byte, error) { return nil, errors.New("no such file") }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

var w *trace.Writer
var per, count int

func run(isTest bool, doc oj.OJsonObject) {
	if count%per == 0 {
		w.Next()
	}
	count++
	p := mjparse.NewParser(resolver{})
	ev := M{"e": "scenario", "in": docs.WithBytes(doc), "ok": false, "m": L{}, "reok": false, "re": L{}, "convok": false, "conv": L{}}
	if isTest {
		ev["e"] = "test"
	}
	text := []byte(oj.JSONString(doc))
	ev["panic"] = trace.Protect(func() {
		if isTest {
			ts, err := p.ParseTestFile(text)
			if err != nil {
				return
			}
			ev["ok"], ev["m"] = true, tests(ts)
			if s, err := mj.ConvertTestToScenario(ts); err == nil {
				ev["convok"], ev["conv"] = true, scenario(s)
			}
			again, err := p.ParseTestFile([]byte(mjwrite.TestToJSONString(ts)))
			if err == nil {
				ev["reok"], ev["re"] = true, tests(again)
			}
			return
		}
		s, err := p.ParseScenarioFile(text)
		if err != nil {
			return
		}
		ev["ok"], ev["m"] = true, scenario(s)
		again, err := p.ParseScenarioFile([]byte(mjwrite.ScenarioToJSONString(s)))
		if err == nil {
			ev["reok"], ev["re"] = true, scenario(again)
		}
	}) != ""
	w.Emit(ev)
}

func main() {
	a := trace.ParseArgs()
	per = a.Int("per", 300)
	w = trace.NewWriter(a["dir"], "scen")
	defer w.Close()
	r := a.Rand()
	if g := a["gen"]; g != "" {
		f, err := os.Open(g)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		one := a.Int("oneof", 1)
		for sc.Scan() {
			var x struct {
				Must bool      `json:"must"`
				Test bool      `json:"test"`
				Doc  docs.Node `json:"doc"`
			}
			must(json.Unmarshal(sc.Bytes(), &x))
			if one > 1 && !x.Must && r.Intn(one) != 0 { // the most telling ones always, of the others a part
				continue
			}
			run(x.Test, docs.FromNode(x.Doc))
		}
		must(sc.Err())
	}
	per, count = a.Int("rper", 100), 0
	for i := 0; i < a.Int("n", 0); i++ {
		g := &gen{r: rand.New(rand.NewSource(r.Int63())), bad: i%4 == 3}
		if i%5 == 4 {
			run(true, g.top("tests"))
		} else {
			run(false, g.top("scenario"))
		}
	}
}
