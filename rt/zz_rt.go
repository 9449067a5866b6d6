package foo

/*
#include "vrt.h"
*/
import "C"

import (
	"encoding/hex"
	"math"
	"runtime"
	"strconv"
	"sync"
	"time"
	"unsafe"
)

// zbufs has the line being built in every trace (see vrt.c).
var zbufs [64][]byte

func zbuf() *[]byte { return &zbufs[C.v_getslot()] }

func zt(s string)            { b := zbuf(); *b = append(*b, s...) }
func zi(v int64)             { b := zbuf(); *b = strconv.AppendInt(*b, v, 10) }
func zu(v uint64)            { b := zbuf(); *b = strconv.AppendUint(*b, v, 10) }
func zf32(v float32)         { b := zbuf(); *b = strconv.AppendUint(*b, uint64(math.Float32bits(v)), 16) }
func zf64(v float64)         { b := zbuf(); *b = strconv.AppendUint(*b, math.Float64bits(v), 16) }
func zs(s string)            { zt(`"`); zbytes([]byte(s)); zt(`"`) }
func zbytes(b []byte)        { zt(hex.EncodeToString(b)) }
func zmf32(v uint32) float32 { return math.Float32frombits(v) }
func zmf64(v uint64) float64 { return math.Float64frombits(v) }
func zb(v bool) {
	if v {
		zt("1")
	} else {
		zt("0")
	}
}

func zp(p unsafe.Pointer) {
	if p == nil {
		zt("nil")
	} else if i := C.v_tokidx(p); i >= 0 {
		zt("V" + strconv.Itoa(int(i)))
	} else {
		zt("P?")
	}
}

func znl() {
	b := zbuf()
	*b = append(*b, '\n')
	C.v_out((*C.char)(unsafe.Pointer(&(*b)[0])), C.size_t(len(*b)))
	*b = (*b)[:0]
}

func zztok(i int) unsafe.Pointer { return C.v_tok(C.int(i)) }

// zheap returns a string that lives on the Go heap.
func zheap(s string) string { return string(append(make([]byte, 0, len(s)+9), s...)) }

func zzcbidx() int    { return int(C.v_getcb()) }
func zzsetcall(i int) { C.v_setcall(C.int(i)) }
func zzsetslot(i int) { C.v_setslot(C.int(i)) }
func zzorder()        { C.v_order() }

// zzbarrier holds every caller until n of them have come.
type zzbarrier struct {
	mu   sync.Mutex
	cond *sync.Cond
	n, k int
	gen  int
}

func (b *zzbarrier) wait() {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.cond == nil {
		b.cond = sync.NewCond(&b.mu)
	}
	b.k++
	if b.k == b.n {
		b.k = 0
		b.gen++
		b.cond.Broadcast()
		return
	}
	for g := b.gen; g == b.gen; {
		b.cond.Wait()
	}
}

type zzsentinel struct{ p [4]uintptr }

// zzGC collects, waits for the finalizers and for what they start, twice.
func zzGC() {
	for i := 0; i < 2; i++ {
		done := make(chan struct{})
		func() {
			s := new(zzsentinel)
			runtime.SetFinalizer(s, func(*zzsentinel) { close(done) })
		}()
		for {
			runtime.GC()
			select {
			case <-done:
			case <-time.After(5 * time.Millisecond):
				continue
			}
			break
		}
		for j := 0; j < 50; j++ {
			runtime.Gosched()
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// ZZGC is zzGC for the main package.
func ZZGC() { zzGC() }

//export v_gc
func v_gc() { zzGC() }

var zzbar = &zzbarrier{}

// zzconc runs the parts at once, each on a thread and with a trace of its own, while garbage is collected.
func zzconc(parts ...func()) {
	zzbar.n = len(parts)
	var wg, gc sync.WaitGroup
	stop := make(chan struct{})
	gc.Add(1)
	go func() {
		defer gc.Done()
		for {
			select {
			case <-stop:
				return
			default:
				runtime.GC()
			}
		}
	}()
	for i, p := range parts {
		wg.Add(1)
		go func(i int, p func()) {
			defer wg.Done()
			runtime.LockOSThread()
			zzsetslot(i + 1)
			p()
		}(i, p)
	}
	wg.Wait()
	close(stop)
	gc.Wait()
	zzorder()
}
