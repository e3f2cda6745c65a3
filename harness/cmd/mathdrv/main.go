// mathdrv records the results of the integer helpers on boundary and random operands.
package main

import (
	"math"
	"math/big"

	am "github.com/ElrondNetwork/arwen-wasm-vm/v1_3/math"
	logger "github.com/ElrondNetwork/elrond-go-logger"
	"verif/harness/trace"
)

func u(x uint64) *big.Int { return new(big.Int).SetUint64(x) }
func s(x int64) *big.Int  { return big.NewInt(x) }

func main() {
	_ = logger.SetLogLevel("*:NONE")
	a := trace.ParseArgs()
	rnd := a.Rand()
	n := a.Int("n", 300)
	per := a.Int("per", 2500)
	w := trace.NewWriter(a["dir"], "math")
	k := 0
	emit := func(f string, x, y, r *big.Int, err error) {
		if k%per == 0 {
			w.Next()
		}
		k++
		w.Emit(trace.M{"f": f, "a": trace.Big(x), "b": trace.Big(y), "r": trace.Big(r), "err": err != nil})
	}
	u64 := func(x, y uint64) {
		emit("AddUint64", u(x), u(y), u(am.AddUint64(x, y)), nil)
		r, err := am.AddUint64WithErr(x, y)
		emit("AddUint64WithErr", u(x), u(y), u(r), err)
		emit("SubUint64", u(x), u(y), u(am.SubUint64(x, y)), nil)
		emit("MulUint64", u(x), u(y), u(am.MulUint64(x, y)), nil)
		r, err = am.MulUint64WithErr(x, y)
		emit("MulUint64WithErr", u(x), u(y), u(r), err)
	}
	i64 := func(x, y int64) {
		emit("AddInt64", s(x), s(y), s(am.AddInt64(x, y)), nil)
		emit("SubInt", s(x), s(y), s(int64(am.SubInt(int(x), int(y)))), nil)
	}
	i32 := func(x, y int32) {
		emit("AddInt32", s(int64(x)), s(int64(y)), s(int64(am.AddInt32(x, y))), nil)
		r, err := am.AddInt32WithError(x, y)
		emit("AddInt32WithError", s(int64(x)), s(int64(y)), s(int64(r)), err)
	}
	bu := []uint64{0, 1, 2, 3, math.MaxUint32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MaxInt64 + 1, math.MaxInt64 + 2, math.MaxUint64/2 - 1, math.MaxUint64 / 3, math.MaxUint64/3 + 1, math.MaxUint64 - 2, math.MaxUint64 - 1, math.MaxUint64}
	bi := []int64{0, 1, 2, -1, -2, math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxInt64 / 2, math.MaxInt64/2 + 1, math.MinInt64 / 2, math.MinInt64/2 - 1, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64 + 1, math.MinInt64}
	b3 := []int32{0, 1, 2, -1, -2, math.MaxInt16, math.MinInt16, math.MaxInt32 / 2, math.MaxInt32/2 + 1, math.MinInt32 / 2, math.MinInt32/2 - 1, math.MaxInt32 - 1, math.MaxInt32, math.MinInt32 + 1, math.MinInt32}
	for _, x := range bu {
		for _, y := range bu {
			u64(x, y)
		}
	}
	for _, x := range bi {
		for _, y := range bi {
			i64(x, y)
		}
	}
	for _, x := range b3 {
		for _, y := range b3 {
			i32(x, y)
		}
	}
	for j := 0; j < n; j++ {
		x, y := rnd.Uint64()>>uint(rnd.Intn(64)), rnd.Uint64()>>uint(rnd.Intn(64))
		u64(x, y)
		if y != 0 { // products next to the bound
			u64(math.MaxUint64/y, y)
			u64(math.MaxUint64/y+1, y)
		}
		u64(math.MaxUint64-y, y)
		u64(y, y)
		p, q := int64(x), int64(y)
		if rnd.Intn(2) == 0 {
			p = -p
		}
		if rnd.Intn(2) == 0 {
			q = -q
		}
		i64(p, q)
		i64(math.MaxInt64-p, q)
		i64(math.MinInt64+p, q)
		i32(int32(p), int32(q))
		i32(int32(p>>8), math.MaxInt32-int32(p>>8))
		i32(int32(p>>8), math.MinInt32-int32(p>>8))
	}
	w.Close()
}
