// Package sim drives the real virtual machine with contracts whose behaviour is decided by the
// harness: the stand-in for libwasmer hands every exported function call to Go.
package sim

/*
#cgo linux,amd64 LDFLAGS: -lwasmer_linux_amd64
#include <stdint.h>
#include <stdlib.h>
extern void wstub_set_handler(void *h);
extern uint8_t *wstub_code(void *i, uint32_t *len);
extern uint8_t *wstub_mem(void *i, uint32_t *len);
extern uint64_t wstub_points(void *i);
extern void wstub_set_points(void *i, uint64_t p);
extern uint64_t wstub_limit(void *i);
extern uint64_t wstub_bp(void *i);
extern void wstub_set_bp(void *i, uint64_t b);
extern uint64_t wstub_id(void *i);
extern int wstub_dead(void *i);
extern uint64_t wstub_live(void);
extern uint32_t *wstub_opcosts(void);
extern int wstub_nbinds(void);
extern char *wstub_bind_name(int k);
extern uint32_t wstub_bind_nin(int k);
extern uint32_t wstub_bind_in(int k, int p);
extern uint32_t wstub_bind_nout(int k);
extern uint32_t wstub_bind_out(int k);
extern int64_t wstub_invoke(void *ctx, int k, int64_t *a);
extern int verifStubCall(void *inst, char *name);
static void setHandler(void) { wstub_set_handler(verifStubCall); }
*/
import "C"

import (
	"reflect"
	"unsafe"
)

// Inst is a running instance.
type Inst struct{ p unsafe.Pointer }

// Handler receives the calls of exported functions; a non-zero result aborts the execution.
var Handler func(i Inst, name string) int

//export verifStubCall
func verifStubCall(p unsafe.Pointer, name *C.char) C.int {
	return C.int(Handler(Inst{p}, C.GoString(name)))
}

// Bind describes an imported function.
type Bind struct {
	K    int
	I64  []bool
	Ret  int // 0 none, 1 i32, 2 i64
	Name string
}

// Binds are the functions of the interface that the VM offers to contracts.
var Binds = map[string]*Bind{}

// LoadBinds reads the imports registered by the VM.
func LoadBinds() {
	C.setHandler()
	Binds = map[string]*Bind{}
	for k := 0; k < int(C.wstub_nbinds()); k++ {
		b := &Bind{K: k, Name: C.GoString(C.wstub_bind_name(C.int(k)))}
		for p := 0; p < int(C.wstub_bind_nin(C.int(k))); p++ {
			b.I64 = append(b.I64, C.wstub_bind_in(C.int(k), C.int(p)) == 1)
		}
		if C.wstub_bind_nout(C.int(k)) > 0 {
			b.Ret = 1 + int(C.wstub_bind_out(C.int(k)))
		}
		Binds[b.Name] = b
	}
}

// Invoke calls an imported function.
func (i Inst) Invoke(b *Bind, args []int64) int64 {
	var a [24]C.int64_t
	for k, x := range args {
		a[k] = C.int64_t(x)
	}
	return int64(C.wstub_invoke(i.p, C.int(b.K), &a[0]))
}

// Mem is the memory of the instance.
func (i Inst) Mem() []byte {
	var n C.uint32_t
	p := C.wstub_mem(i.p, &n)
	var h reflect.SliceHeader
	h.Data, h.Len, h.Cap = uintptr(unsafe.Pointer(p)), int(n), int(n)
	return *(*[]byte)(unsafe.Pointer(&h))
}

// Code is the code of the instance.
func (i Inst) Code() []byte {
	var n C.uint32_t
	p := C.wstub_code(i.p, &n)
	return C.GoBytes(unsafe.Pointer(p), C.int(n))
}

// Points returns the gas points used.
func (i Inst) Points() uint64 { return uint64(C.wstub_points(i.p)) }

// SetPoints sets the gas points used.
func (i Inst) SetPoints(p uint64) { C.wstub_set_points(i.p, C.uint64_t(p)) }

// Limit is the gas limit of the instance.
func (i Inst) Limit() uint64 { return uint64(C.wstub_limit(i.p)) }

// BP is the breakpoint value.
func (i Inst) BP() uint64 { return uint64(C.wstub_bp(i.p)) }

// SetBP sets the breakpoint value.
func (i Inst) SetBP(b uint64) { C.wstub_set_bp(i.p, C.uint64_t(b)) }

// ID identifies the instance.
func (i Inst) ID() uint64 { return uint64(C.wstub_id(i.p)) }

// Live is the number of instances that have not been destroyed.
func Live() uint64 { return uint64(C.wstub_live()) }

// OpCosts returns the opcode costs the VM installed.
func OpCosts() []uint32 {
	p := C.wstub_opcosts()
	if p == nil {
		return nil
	}
	r := make([]uint32, 448)
	for k := range r {
		r[k] = *(*uint32)(unsafe.Pointer(uintptr(unsafe.Pointer(p)) + uintptr(4*k)))
	}
	return r
}
