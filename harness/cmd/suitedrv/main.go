// suitedrv runs directories of scenario and test files, and resolvers of files, and records what happened.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	mc "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/controller"
	fr "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/fileresolver"
	mj "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/mandos-go/json/model"
	"verif/harness/trace"
)

type text string // bytes as a list of numbers

func (t *text) UnmarshalJSON(b []byte) error {
	var l []int
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	o := make([]byte, len(l))
	for k, x := range l {
		o[k] = byte(x)
	}
	*t = text(o)
	return nil
}
func (t text) MarshalJSON() ([]byte, error) { return json.Marshal(trace.Bytes([]byte(t))) }

type doc struct {
	Name  text   `json:"name"`
	Refs  []text `json:"refs"`
	Ext   []text `json:"ext"`
	Fails bool   `json:"fails"`
}
type file struct {
	P    text   `json:"p"`
	K    string `json:"k"`
	Data text   `json:"data"`
	Docs []doc  `json:"docs"`
}
type op struct {
	Op    string
	R     int
	V, To text
}
type rec struct {
	E                         string
	Trees                     [][]file
	Values                    []text
	Tree                      int
	Reps                      [][2]text
	General, Specific, Suffix text
	Path                      text
	Excl                      []text
	Tests                     bool
	Ops                       []op
}

var root string // of the current tree; called /R in traces
func in(t text) string {
	s := string(t)
	if s == "/R" || strings.HasPrefix(s, "/R/") {
		return root + s[2:]
	}
	return s
}
func out(s string) text {
	if s == root || strings.HasPrefix(s, root+"/") {
		return text("/R" + s[len(root):])
	}
	return text(s)
}
func ins(l []text) []string {
	o := []string{}
	for _, t := range l {
		o = append(o, in(t))
	}
	return o
}
func must(err error) {
	if err != nil {
		panic(err)
	}
}
func q(s string) string { b, _ := json.Marshal(s); return string(b) }

func accounts(d doc) string {
	var l []string
	for k, r := range d.Refs {
		l = append(l, fmt.Sprintf(`"address:a%d": {"nonce": "0", "balance": "0", "storage": {}, "code": %s}`, k, q("file:"+in(r))))
	}
	return "{" + strings.Join(l, ",") + "}"
}

func build(dir string, files []file, tests bool) {
	for k, f := range files {
		p := filepath.Join(dir, string(f.P))
		must(os.MkdirAll(filepath.Dir(p), 0755))
		var b string
		switch {
		case f.K == "data":
			b = string(f.Data)
		case f.K == "junk":
			b = []string{"", "{", "[]", `{"name": 7}`, `"x"`}[k%5]
		case tests:
			var l []string
			for _, d := range f.Docs {
				l = append(l, fmt.Sprintf(`%s: {"pre": %s, "blocks": [], "postState": {}}`, q(string(d.Name)), accounts(d)))
			}
			b = "{" + strings.Join(l, ",\n") + "}"
		default:
			d := f.Docs[0]
			l := []string{fmt.Sprintf(`{"step": "setState", "accounts": %s}`, accounts(d))}
			for _, x := range d.Ext {
				l = append(l, fmt.Sprintf(`{"step": "externalSteps", "path": %s}`, q(in(x))))
			}
			b = fmt.Sprintf(`{"name": %s, "steps": [%s]}`, q(string(d.Name)), strings.Join(l, ",\n"))
		}
		must(ioutil.WriteFile(p, []byte(b), 0644))
	}
}

// executor records what it is asked to run.
type executor struct{ log []trace.M }

func (x *executor) Reset() { x.log = append(x.log, trace.M{"k": "reset"}) }
func vals(accs []*mj.Account) []text {
	o := []text{}
	for _, a := range accs {
		o = append(o, text(a.Code.Value))
	}
	return o
}
func (x *executor) ExecuteScenario(s *mj.Scenario, r fr.FileResolver) error {
	v, ext := []text{}, []text{}
	for _, st := range s.Steps {
		switch t := st.(type) {
		case *mj.SetStateStep:
			v = append(v, vals(t.Accounts)...)
		case *mj.ExternalStepsStep:
			c := r.Clone()
			p := c.ResolveAbsolutePath(t.Path)
			ext = append(ext, out(p))
			c.SetContext(p)
		}
	}
	x.log = append(x.log, trace.M{"k": "exec", "name": text(s.Name), "vals": v, "ext": ext})
	if strings.HasPrefix(s.Name, "F") {
		return errors.New("refused")
	}
	return nil
}
func (x *executor) ExecuteTest(t *mj.Test) error {
	x.log = append(x.log, trace.M{"k": "exec", "name": text(t.TestName), "vals": vals(t.Pre), "ext": []text{}})
	if strings.HasPrefix(t.TestName, "F") {
		return errors.New("refused")
	}
	return nil
}

func resolver(reps [][2]text) *fr.DefaultFileResolver {
	r := mc.NewDefaultFileResolver()
	for _, x := range reps {
		r = r.ReplacePath(in(x[0]), in(x[1]))
	}
	return r
}

func printed(f func()) string {
	o := os.Stdout
	t, err := ioutil.TempFile(tmp, "out")
	must(err)
	os.Stdout = t
	defer func() { os.Stdout = o; t.Close(); os.Remove(t.Name()) }()
	f()
	b, err := ioutil.ReadFile(t.Name())
	must(err)
	return string(b)
}

var tmp string
var exec *executor
var scen *mc.ScenarioRunner
var test *mc.TestRunner

func fresh(reps [][2]text) {
	exec = &executor{}
	scen = mc.NewScenarioRunner(exec, resolver(reps))
	test = mc.NewTestRunner(exec, resolver(reps))
}

func main() {
	a := trace.ParseArgs()
	dir := a["dir"]
	tmp = dir
	oneof, per, seed := atoi(a["oneof"]), atoi(a["per"]), atoi(a["seed"])
	w := trace.NewWriter(dir, "suite")
	fh, err := os.Open(a["gen"])
	must(err)
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	var trees [][]file
	var values []text
	var runs []rec
	for n := 0; sc.Scan(); n++ {
		var r rec
		must(json.Unmarshal(sc.Bytes(), &r))
		if r.E == "trees" {
			trees, values = r.Trees, r.Values
			continue
		}
		if (uint32(n)*2654435761>>8+uint32(seed))%uint32(oneof) == 0 || r.E == "one" {
			runs = append(runs, r)
		}
	}
	var roots []string
	for k, t := range trees {
		d, err := ioutil.TempDir(dir, "tree"+strconv.Itoa(k+1))
		must(err)
		d, err = filepath.EvalSymlinks(d)
		must(err)
		d, err = filepath.Abs(d)
		must(err)
		defer os.RemoveAll(d)
		roots = append(roots, d)
		build0 := root
		root = d
		build(d, t, k == 2)
		root = build0
	}
	home, err := os.Getwd()
	must(err)
	defer os.Chdir(home)
	at, left := 0, 0
	last := ""
	for _, r := range runs {
		if left == 0 || at != r.Tree {
			if left <= 0 {
				os.Chdir(home)
				w.Next()
				left = per
			}
			at, root = r.Tree, roots[r.Tree-1]
			must(os.Chdir(root))
			os.Setenv("PWD", root)
			w.Emit(trace.M{"e": "tree", "files": trees[at-1]})
			last = ""
		}
		left--
		if r.Reps == nil {
			r.Reps = [][2]text{}
		}
		if k := fmt.Sprint(r.Reps); k != last || exec == nil { // runners are used for many runs
			fresh(r.Reps)
			last = k
		}
		exec.log = []trace.M{}
		switch r.E {
		case "hist":
			w.Emit(trace.M{"e": "new"})
			l := []fr.FileResolver{mc.NewDefaultFileResolver()}
			ask := func() {
				for k, x := range l {
					for _, v := range values {
						w.Emit(trace.M{"e": "abs", "r": k + 1, "v": v, "out": out(x.ResolveAbsolutePath(in(v)))})
						b, err := x.ResolveFileValue(in(v))
						w.Emit(trace.M{"e": "file", "r": k + 1, "v": v, "ok": err == nil, "out": text(b)})
					}
				}
			}
			for _, o := range r.Ops {
				w.Emit(trace.M{"e": o.Op, "r": o.R, "v": o.V, "to": o.To})
				switch o.Op {
				case "context":
					l[o.R-1].SetContext(in(o.V))
				case "replace":
					l[o.R-1].(*fr.DefaultFileResolver).ReplacePath(in(o.V), in(o.To))
				case "clone":
					l = append(l, l[o.R-1].Clone())
				}
			}
			ask()
		case "one":
			var err error
			p := trace.Protect(func() {
				if r.Tests {
					err = test.RunSingleJSONTest(in(r.Path))
				} else {
					err = scen.RunSingleJSONScenario(in(r.Path))
				}
			})
			w.Emit(trace.M{"e": "one", "reps": r.Reps, "path": r.Path, "tests": r.Tests, "ok": err == nil && p == "", "log": exec.log})
		case "all":
			var err error
			p := ""
			said := printed(func() {
				p = trace.Protect(func() {
					if r.Tests {
						err = test.RunAllJSONTestsInDirectory(in(r.General), in(r.Specific), string(r.Suffix), ins(r.Excl))
					} else {
						err = scen.RunAllJSONScenariosInDirectory(in(r.General), in(r.Specific), string(r.Suffix), ins(r.Excl))
					}
				})
			})
			passed, failed, skipped := -1, -1, -1
			if k := strings.LastIndex(said, "Done."); k >= 0 {
				fmt.Sscanf(said[k:], "Done. Passed: %d. Failed: %d. Skipped: %d.", &passed, &failed, &skipped)
			}
			w.Emit(trace.M{"e": "all", "reps": r.Reps, "general": r.General, "specific": r.Specific, "suffix": r.Suffix, "excl": r.Excl, "tests": r.Tests,
				"ok": err == nil && p == "", "log": exec.log, "passed": passed, "failed": failed, "skipped": skipped})
		}
	}
	w.Close()
	os.Chdir(home)
	for _, d := range roots {
		os.RemoveAll(d)
	}
	fmt.Println("events", w.Count)
}

func atoi(s string) int { n, err := strconv.Atoi(s); must(err); return n }
