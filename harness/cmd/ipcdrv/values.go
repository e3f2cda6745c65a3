package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"sort"
	"strings"
)

// canon renders a value independently of how it is stored: absent and empty byte strings, lists and maps
// are the same; everything else is distinguished.
func canon(v interface{}) string {
	var b strings.Builder
	canonTo(&b, reflect.ValueOf(v))
	return b.String()
}

var bigT = reflect.TypeOf(big.Int{})

func canonTo(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		canonTo(b, v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Type().Elem() == bigT {
			b.WriteString(v.Interface().(*big.Int).String())
			return
		}
		canonTo(b, v.Elem())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteString("x" + hex.EncodeToString(v.Bytes()))
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			canonTo(b, v.Index(i))
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			canonTo(&e, k)
			e.WriteString(":")
			canonTo(&e, v.MapIndex(k))
			es = append(es, e.String())
		}
		sort.Strings(es)
		b.WriteString("{" + strings.Join(es, ",") + "}")
	case reflect.Struct:
		b.WriteString("(")
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			b.WriteString(f.Name + "=")
			canonTo(b, v.Field(i))
			b.WriteString(" ")
		}
		b.WriteString(")")
	case reflect.String:
		b.WriteString("s" + hex.EncodeToString([]byte(v.String())))
	default:
		fmt.Fprint(b, v.Interface())
	}
}

// filler makes random values of any type.
type filler struct {
	r   *rand.Rand
	raw bool // strings may be any bytes
	big int  // size of the largest byte strings
}

const odd = "ab\"\\@é<>&\x00\xff\n%s"

var runes = []rune("abcXYZ019%sd \"\\/<>&é\u2028\U0001F600\n")

func (f *filler) bytes() []byte {
	switch f.r.Intn(8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	}
	n := 1 + f.r.Intn(40)
	if f.big > 0 && f.r.Intn(12) == 0 {
		n = f.r.Intn(f.big)
	}
	x := make([]byte, n)
	f.r.Read(x)
	if f.r.Intn(4) == 0 {
		for i := range x {
			x[i] = odd[f.r.Intn(len(odd))]
		}
	}
	return x
}

func (f *filler) str() string {
	if f.raw {
		return string(f.bytes())
	}
	var s []rune
	for i := f.r.Intn(12); i > 0; i-- {
		s = append(s, runes[f.r.Intn(len(runes))])
	}
	return string(s)
}

func (f *filler) u64() uint64 {
	switch f.r.Intn(5) {
	case 0:
		return 0
	case 1:
		return uint64(f.r.Intn(1000))
	case 2:
		return math.MaxUint64 - uint64(f.r.Intn(3))
	case 3:
		return 1<<53 + uint64(f.r.Intn(5))
	}
	return f.r.Uint64()
}

func (f *filler) bigint() *big.Int {
	switch f.r.Intn(5) {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(int64(f.r.Intn(2000) - 1000))
	}
	x := make([]byte, 1+f.r.Intn(40))
	f.r.Read(x)
	z := new(big.Int).SetBytes(x)
	if f.r.Intn(3) == 0 {
		z.Neg(z)
	}
	return z
}

func (f *filler) fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.Type().Elem() == bigT {
			if f.r.Intn(8) > 0 {
				v.Set(reflect.ValueOf(f.bigint()))
			}
			return
		}
		n := reflect.New(v.Type().Elem())
		f.fill(n.Elem(), depth+1)
		v.Set(n)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				f.fill(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(f.bytes())
			return
		}
		n := f.r.Intn(4)
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			f.fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		for n := f.r.Intn(4); n > 0; n-- {
			k := reflect.New(v.Type().Key()).Elem()
			f.fill(k, depth+1)
			e := reflect.New(v.Type().Elem()).Elem()
			f.fill(e, depth+1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.String:
		v.SetString(f.str())
	case reflect.Bool:
		v.SetBool(f.r.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
		x := int64(f.r.Intn(20))
		if f.r.Intn(4) == 0 {
			x = int64(f.u64())
		}
		v.SetInt(reflect.New(v.Type()).Elem().Int() + truncInt(x, v.Type().Bits()))
	case reflect.Uint64:
		v.SetUint(f.u64())
	case reflect.Uint32:
		v.SetUint(uint64(uint32(f.u64())))
	case reflect.Uint8:
		v.SetUint(uint64(uint8(f.u64())))
	case reflect.Interface:
	default:
		panic("fill: " + v.Type().String())
	}
}

func truncInt(x int64, bits int) int64 {
	if bits == 64 {
		return x
	}
	return x << (64 - bits) >> (64 - bits)
}
