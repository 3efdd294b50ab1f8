package mon

import (
	"bytes"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"unsafe"
)

// Arena hands out guarded memory of one case: inputs that are mapped read-only directly
// against an inaccessible page, outputs directly against an inaccessible page with pattern
// bytes on the other side, and deep read-only copies of objects.
type Arena struct {
	c      *Case
	fences []*Fence
	heap   [][2][]byte
	keep   []interface{}
}

// NewArena makes an arena; release it with Release.
func NewArena(c *Case) *Arena { return &Arena{c: c} }

var ptrChecks = os.Getenv("VERIF_VARIANT") == "checkptr"

func (a *Arena) onHeap() bool {
	if ptrChecks {
		return a.c.IntN(4) > 0
	}
	return a.c.IntN(8) == 0
}

// InputsUnchanged fails the case if an input on the heap was changed (one in read-only memory
// cannot be).
func (a *Arena) InputsUnchanged() {
	for _, h := range a.heap {
		a.c.Check(bytes.Equal(h[0], h[1]), "input-changed", "an input of %d bytes was changed from %x to %x", len(h[0]), h[1], h[0])
	}
}

// Release gives the memory back.
func (a *Arena) Release() {
	for _, f := range a.fences {
		f.Unseal()
		f.Free()
	}
	a.fences = nil
	a.InputsUnchanged()
	runtime.KeepAlive(a.keep)
}

func (a *Arena) fence(n int) *Fence {
	f := NewFence(n)
	f.Unseal()
	a.fences = append(a.fences, f)
	return f
}

// In copies b into read-only memory, either ending at an inaccessible page or starting
// directly after one.
func (a *Arena) In(b []byte) []byte {
	if len(b) > 0 && a.onHeap() {
		// an allocation of its own: what the pointer checks of the compiler know about
		r := make([]byte, len(b))
		copy(r, b)
		a.heap = append(a.heap, [2][]byte{r, append([]byte{}, b...)})
		a.c.Count("heap-inputs", 1)
		return r
	}
	off := 0
	if a.c.IntN(3) == 0 {
		off = 1 + a.c.IntN(17)
	}
	f := a.fence(len(b) + off)
	for i := range f.body {
		f.body[i] = pat(i)
	}
	var r []byte
	if off == 0 || a.c.IntN(2) == 0 {
		r = f.End(len(b) + off)[off:]
	} else {
		r = f.Start(len(b) + off)[:len(b):len(b)]
	}
	copy(r, b)
	f.Seal()
	a.c.Count("sealed-inputs", 1)
	return r
}

// Out is an output window.
type Out struct {
	f      *Fence
	lo, hi int
	win    []byte
}

// Out makes an n-byte output window with spare bytes of capacity behind it.
func (a *Arena) Out(n, spare int) *Out {
	if n+spare > 0 && a.onHeap() {
		f := &Fence{body: make([]byte, n+spare)}
		for i := range f.body {
			f.body[i] = pat(i)
		}
		a.c.Count("heap-outputs", 1)
		return &Out{f: f, hi: n, win: f.body[:n]}
	}
	f := a.fence(n + spare + 64)
	for i := range f.body {
		f.body[i] = pat(i)
	}
	o := &Out{f: f}
	switch a.c.IntN(3) {
	case 0: // against the page before
		o.lo = 0
	case 1: // anywhere
		o.lo = a.c.IntN(len(f.body) - n - spare + 1)
	default: // against the page after
		o.lo = len(f.body) - n - spare
	}
	o.hi = o.lo + n
	o.win = f.body[o.lo : o.hi : o.hi+spare]
	a.c.Count("guarded-outputs", 1)
	return o
}

// Win is the window.
func (o *Out) Win() []byte { return o.win }

// Same reports the first byte outside [from,to) of the window that changed.
func (o *Out) Same(from, to int) error {
	for i, b := range o.f.body {
		if i >= o.lo+from && i < o.lo+to {
			continue
		}
		if b != pat(i) {
			return fmt.Errorf("byte at offset %d of a %d byte output (only [%d,%d) may be written) was overwritten with %02x", i-o.lo, o.hi-o.lo, from, to, b)
		}
	}
	return nil
}

// Sealed makes a deep copy of *p in read-only memory: the object itself and the storage of
// its slices.
func Sealed[T any](a *Arena, p *T) *T {
	var fs []*Fence
	q := (*T)(a.object(reflect.ValueOf(p).Elem(), &fs))
	a.keep = append(a.keep, p)
	for _, f := range fs {
		f.Seal()
	}
	a.c.Count("sealed-objects", 1)
	return q
}

// Guarded makes a copy of *p in writable memory directly against an inaccessible page.
func Guarded[T any](a *Arena, p *T) *T {
	var fs []*Fence
	q := (*T)(a.object(reflect.ValueOf(p).Elem(), &fs))
	a.keep = append(a.keep, p)
	a.c.Count("guarded-objects", 1)
	return q
}

// Value is Sealed or Guarded for a reflected pointer to a value without pointers.
func (a *Arena) Value(p reflect.Value, seal bool) reflect.Value {
	var fs []*Fence
	q := reflect.NewAt(p.Type().Elem(), a.object(p.Elem(), &fs))
	if seal {
		for _, f := range fs {
			f.Seal()
		}
	}
	return q
}

func raw(p unsafe.Pointer, n int) []byte { return unsafe.Slice((*byte)(p), n) }

func (a *Arena) object(v reflect.Value, fs *[]*Fence) unsafe.Pointer {
	n := int(v.Type().Size())
	f := a.fence(n)
	*fs = append(*fs, f)
	al := v.Type().Align()
	pad := (al - n%al) % al
	dst := f.End(n + pad)
	copy(dst, raw(unsafe.Pointer(v.UnsafeAddr()), n))
	p := unsafe.Pointer(&dst[0])
	a.walk(v.Type(), p, fs)
	return p
}

func (a *Arena) walk(t reflect.Type, p unsafe.Pointer, fs *[]*Fence) {
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			a.walk(t.Field(i).Type, unsafe.Add(p, t.Field(i).Offset), fs)
		}
	case reflect.Array:
		switch t.Elem().Kind() {
		case reflect.Struct, reflect.Array, reflect.Slice:
			for i := 0; i < t.Len(); i++ {
				a.walk(t.Elem(), unsafe.Add(p, uintptr(i)*t.Elem().Size()), fs)
			}
		}
	case reflect.Slice:
		h := (*[3]uintptr)(p) // data, len, cap
		if h[2] == 0 {
			return
		}
		es := int(t.Elem().Size())
		n := int(h[2]) * es
		f := a.fence(n)
		*fs = append(*fs, f)
		pad := (8 - n%8) % 8
		if es%8 != 0 {
			pad = 0
		}
		dst := f.End(n + pad)
		src := *(*[]byte)(p)
		copy(dst, raw(unsafe.Pointer(unsafe.SliceData(src)), n))
		h[0] = uintptr(unsafe.Pointer(&dst[0]))
		for i := 0; i < int(h[1]); i++ {
			switch t.Elem().Kind() {
			case reflect.Struct, reflect.Array, reflect.Slice:
				a.walk(t.Elem(), unsafe.Add(unsafe.Pointer(&dst[0]), i*es), fs)
			}
		}
	}
}
