// Package trace writes ndjson traces for TLC.
package trace

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
)

// M is one event.
type M map[string]interface{}

// Writer spreads events over n files (contiguous blocks of the given size).
type Writer struct {
	dir, prefix string
	n           int
	f           *os.File
	w           *bufio.Writer
	Files       []string
	Count       int
}

// NewWriter creates a writer of traces dir/prefix-<k>.ndjson.
func NewWriter(dir, prefix string) *Writer { return &Writer{dir: dir, prefix: prefix} }

// Next starts a new file.
func (t *Writer) Next() {
	t.Close()
	p := filepath.Join(t.dir, t.prefix+"-"+strconv.Itoa(len(t.Files))+".ndjson")
	f, err := os.Create(p)
	if err != nil {
		panic(err)
	}
	t.f, t.w = f, bufio.NewWriterSize(f, 1<<20)
	t.Files = append(t.Files, p)
}

// Emit writes an event.
func (t *Writer) Emit(m interface{}) {
	if t.f == nil {
		t.Next()
	}
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.Count++
}

// Flush flushes.
func (t *Writer) Flush() {
	if t.w != nil {
		t.w.Flush()
	}
}

// Close closes the current file.
func (t *Writer) Close() {
	if t.f != nil {
		t.w.Flush()
		t.f.Close()
		t.f = nil
	}
}

// Bytes renders bytes as a JSON list of integers.
func Bytes(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// Big renders an integer as sign and magnitude (big-endian bytes).
func Big(b *big.Int) M { return M{"neg": b.Sign() < 0, "mag": Bytes(b.Bytes())} }

// Args parses "key=value" arguments.
type Args map[string]string

// ParseArgs reads os.Args.
func ParseArgs() Args {
	a := Args{}
	for _, s := range os.Args[1:] {
		for i := 0; i < len(s); i++ {
			if s[i] == '=' {
				a[s[:i]] = s[i+1:]
				break
			}
		}
	}
	return a
}

// Int returns an integer argument.
func (a Args) Int(k string, d int) int {
	if v, ok := a[k]; ok {
		n, err := strconv.Atoi(v)
		if err != nil {
			panic(err)
		}
		return n
	}
	return d
}

// Rand returns the seeded source.
func (a Args) Rand() *rand.Rand { return rand.New(rand.NewSource(int64(a.Int("seed", 1)))) }

// Protect runs f and reports a panic as text.
func Protect(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			p = fmt.Sprint(e)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}
