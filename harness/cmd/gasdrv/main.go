// gasdrv records which gas configurations the code accepts and what it makes of them.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwen/host"
	schedules "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/arwenmandos/gasSchedules"
	"github.com/ElrondNetwork/arwen-wasm-vm/v1_3/config"
	logger "github.com/ElrondNetwork/elrond-go-logger"
	"verif/harness/sim"
	"verif/harness/trace"
)

type M = trace.M
type L = []interface{}


func must(err error) {
	if err != nil {
		panic(err)
	}
}

func nat(x uint64) []int { return trace.Bytes(new(big.Int).SetUint64(x).Bytes()) }

func mapOf(g config.GasScheduleMap) M {
	m := M{}
	for s, l := range g {
		x := M{}
		for n, v := range l {
			x[n] = nat(v)
		}
		m[s] = x
	}
	return m
}

// costs lists the fields of a configuration by section and name.
func costs(c *config.GasCost) M {
	m := M{}
	v := reflect.ValueOf(*c)
	for i := 0; i < v.NumField(); i++ {
		x := M{}
		s := v.Field(i)
		for j := 0; j < s.NumField(); j++ {
			x[s.Type().Field(j).Name] = nat(s.Field(j).Uint())
		}
		m[v.Type().Field(i).Name] = x
	}
	return m
}

func array(a []uint32) L {
	l := L{}
	for _, x := range a {
		l = append(l, nat(uint64(x)))
	}
	return l
}

type delta struct {
	s, n string
	v    uint64
	none bool
}

type drv struct {
	w    *trace.Writer
	r    *rand.Rand
	base config.GasScheduleMap
}

func (d *drv) setBase(g config.GasScheduleMap) {
	d.base = g
	d.w.Emit(M{"e": "base", "panic": false, "m": mapOf(g)})
}

func (d *drv) apply(ds []delta) config.GasScheduleMap {
	g := config.GasScheduleMap{}
	for s, l := range d.base {
		g[s] = map[string]uint64{}
		for n, v := range l {
			g[s][n] = v
		}
	}
	for _, x := range ds {
		switch {
		case x.n == "":
			delete(g, x.s)
		case x.none:
			if g[x.s] == nil {
				g[x.s] = map[string]uint64{}
			}
			delete(g[x.s], x.n)
		default:
			if g[x.s] == nil {
				g[x.s] = map[string]uint64{}
			}
			g[x.s][x.n] = x.v
		}
	}
	return g
}

func say(ds []delta) L {
	l := L{}
	for _, x := range ds {
		if x.none || x.n == "" {
			l = append(l, L{x.s, x.n, []int{-1}})
		} else {
			l = append(l, L{x.s, x.n, nat(x.v)})
		}
	}
	return l
}

func (d *drv) cfg(ds []delta) {
	g := d.apply(ds)
	ev := M{"e": "cfg", "delta": say(ds), "ok": false, "cost": M{}, "ops": L{}}
	ev["panic"] = trace.Protect(func() {
		c, err := config.CreateGasConfig(g)
		if err == nil {
			ev["ok"], ev["cost"] = true, costs(c)
			a := c.WASMOpcodeCost.ToOpcodeCostsArray()
			ev["ops"] = array(a[:])
		}
	}) != ""
	d.w.Emit(ev)
}

func (d *drv) see(ev M, vm arwen.VMHost) {
	ev["cost"], ev["ops"] = costs(vm.Metering().GasSchedule()), array(sim.OpCosts())
}

func (d *drv) host(ds []delta) arwen.VMHost {
	g := d.apply(ds)
	ev := M{"e": "host", "delta": say(ds), "ok": false, "cost": M{}, "ops": L{}}
	var h arwen.VMHost
	ev["panic"] = trace.Protect(func() {
		vm, err := host.NewArwenVM(sim.NewWorld(), &arwen.VMHostParameters{VMType: []byte{5, 0}, BlockGasLimit: 1000000, GasSchedule: g, BuiltInFuncContainer: &sim.Builtins{Active: map[string]bool{}}, ElrondProtectedKeyPrefix: []byte("ELROND")})
		if err == nil {
			ev["ok"], h = true, vm.(arwen.VMHost)
			d.see(ev, h)
		}
	}) != ""
	d.w.Emit(ev)
	return h
}

func (d *drv) change(h arwen.VMHost, ds []delta) {
	g := d.apply(ds)
	ev := M{"e": "change", "delta": say(ds), "cost": M{}, "ops": L{}}
	ev["panic"] = trace.Protect(func() {
		h.GasScheduleChange(g)
		d.see(ev, h)
	}) != ""
	d.w.Emit(ev)
}

func (d *drv) value(s string) uint64 {
	switch d.r.Intn(6) {
	case 0:
		return []uint64{0, 1, 1<<32 - 1, 1 << 32, 1<<32 + 7, 1<<63 - 1, 1 << 63, 1<<64 - 1}[d.r.Intn(8)]
	case 1:
		if s != "WASMOpcodeCost" {
			return d.r.Uint64()
		}
	}
	return uint64(d.r.Intn(1<<20) + 1)
}

func (d *drv) random() []delta {
	ds := []delta{}
	for k := d.r.Intn(5); k > 0; k-- {
		ss := []string{}
		for s := range d.base {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		s := ss[d.r.Intn(len(ss))]
		ns := []string{}
		for n := range d.base[s] {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		x := delta{s: s, n: ns[d.r.Intn(len(ns))], v: d.value(s)}
		switch d.r.Intn(30) {
		case 0:
			x.none = true
		case 1:
			x.n = ""
		case 2:
			x.s = "NoSuchCost"
		case 3:
			x.n, x.v = "NoSuchOperation", x.v&(1<<32-1)
		}
		ds = append(ds, x)
	}
	return ds
}

// distinct gives every operation its own cost.
func distinct(r *rand.Rand) config.GasScheduleMap {
	g := config.MakeGasMap(1, 1)
	used := map[uint64]bool{}
	for _, s := range []string{"BaseOperationCost", "BigIntAPICost", "BuiltInCost", "CryptoAPICost", "ElrondAPICost", "EthAPICost", "WASMOpcodeCost"} {
		ns := []string{}
		for n := range g[s] {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			v := uint64(r.Intn(60000) + 1)
			for used[v] {
				v++
			}
			used[v] = true
			g[s][n] = v
		}
	}
	return g
}

// ---- texts ----

func (d *drv) text() {
	said := M{}
	whole := true
	b := &strings.Builder{}
	if d.r.Intn(8) == 0 {
		fmt.Fprintf(b, "%s\n", []string{"Alone = 5", "Alone = \"x\"", "Alone = [1, 2]"}[d.r.Intn(3)])
		whole = false
	}
	for k, n := 0, d.r.Intn(4); k < n; k++ {
		x := M{}
		s := fmt.Sprintf("Cost%d", k)
		fmt.Fprintf(b, "[%s]\n", s)
		for j, m := 0, d.r.Intn(5); j < m; j++ {
			name := fmt.Sprintf("Operation%d", j)
			if d.r.Intn(12) == 0 {
				v := []string{"-1", "1.5", "\"7\"", "true", "[1]", "1979-05-27T07:32:00Z", "{a = 1}", "-9223372036854775808"}[d.r.Intn(8)]
				fmt.Fprintf(b, "    %s = %s\n", name, v)
				whole = false
				continue
			}
			v := []uint64{0, 1, 5000000, 1<<63 - 1, uint64(d.r.Int63())}[d.r.Intn(5)]
			x[name] = nat(v)
			fmt.Fprintf(b, "  %s   = %d%s\n", name, v, []string{"", "   # a comment", " "}[d.r.Intn(3)])
		}
		said[s] = x
		b.WriteString("\n")
	}
	if d.r.Intn(15) == 0 {
		b.WriteString([]string{"[[[", "x = = 1", "= 5", "[Cost0", "x = 99999999999999999999"}[d.r.Intn(5)])
		whole = false
	}
	ev := M{"e": "load", "whole": whole, "said": said, "m": M{}, "ok": false, "text": b.String()}
	ev["panic"] = trace.Protect(func() {
		g, err := schedules.LoadGasScheduleConfig(b.String())
		if err == nil {
			ev["ok"], ev["m"] = true, mapOf(g)
		}
	}) != ""
	d.w.Emit(ev)
}

// plain reads sections of lines "name = number".
func plain(text string) M {
	m, cur := M{}, M{}
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "#"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if l[0] == '[' {
			cur = M{}
			m[strings.Trim(l, "[]")] = cur
			continue
		}
		p := strings.SplitN(l, "=", 2)
		v, ok := new(big.Int).SetString(strings.TrimSpace(p[1]), 10)
		if !ok {
			panic("not a number: " + l)
		}
		cur[strings.TrimSpace(p[0])] = trace.Bytes(v.Bytes())
	}
	return m
}

func (d *drv) shipped(dir string) {
	for k, f := range []func() string{schedules.GetV1, schedules.GetV2, schedules.GetV3} {
		b, err := ioutil.ReadFile(filepath.Join(dir, fmt.Sprintf("gasScheduleV%d.toml", k+1)))
		must(err)
		ev := M{"e": "shipped", "said": plain(string(b)), "m": M{}, "ok": false}
		ev["panic"] = trace.Protect(func() {
			g, err := schedules.LoadGasScheduleConfig(f())
			if err == nil {
				ev["ok"], ev["m"] = true, mapOf(g)
			}
		}) != ""
		d.w.Emit(ev)
		if g, err := schedules.LoadGasScheduleConfig(f()); err == nil {
			d.setBase(g)
			d.cfg(nil)
			d.host(nil)
		}
	}
}

func main() {
	a := trace.ParseArgs()
	os.Stdout, _ = os.Open("/dev/null")
	_ = logger.SetLogLevel("*:NONE")
	w := trace.NewWriter(a["dir"], "gas")
	defer w.Close()
	d := &drv{w: w, r: a.Rand()}
	w.Next()
	d.shipped(a["schedules"])
	for _, v := range []uint64{1, 2, 1000, 1<<32 - 1, 1 << 32, 1<<64 - 1, uint64(d.r.Intn(1000000) + 3)} {
		for _, lock := range []uint64{1, 77, 1<<64 - 1} {
			ev := M{"e": "uniform", "v": nat(v), "lock": nat(lock), "m": M{}}
			ev["panic"] = trace.Protect(func() { ev["m"] = mapOf(config.MakeGasMap(v, lock)) }) != ""
			w.Emit(ev)
		}
	}
	for k := 0; k < a.Int("texts", 100); k++ {
		d.text()
	}
	n, per, one := 0, a.Int("per", 300), a.Int("oneof", 1)
	f, err := os.Open(a["gen"])
	must(err)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if one > 1 && d.r.Intn(one) != 0 {
			continue
		}
		var x struct {
			S, N string
			V    []int
		}
		must(json.Unmarshal(sc.Bytes(), &x))
		if n%per == 0 {
			w.Next()
			d.setBase(distinct(d.r))
		}
		n++
		c := delta{s: x.S, n: x.N}
		if len(x.V) == 1 && x.V[0] == -1 {
			c.none = true
		} else {
			for _, b := range x.V {
				c.v = c.v<<8 | uint64(b)
			}
		}
		d.cfg([]delta{c})
	}
	for k := 0; k < a.Int("hosts", 4); k++ {
		w.Next()
		var h arwen.VMHost
		for j := 0; j < 30; j++ {
			if j%8 == 0 {
				d.setBase(distinct(d.r))
			}
			switch {
			case h == nil || d.r.Intn(12) == 0:
				if x := d.host(d.random()); x != nil {
					h = x
				}
			default:
				d.change(h, d.random())
			}
		}
	}
}
