package mon

import (
	"fmt"
	"sync"
	"syscall"
	"unsafe"
)

const page = 4096

// Fence is memory between two inaccessible pages.
type Fence struct {
	all  []byte
	body []byte
}

var (
	fmu  sync.Mutex
	pool = map[int][]*Fence{}
)

// NewFence maps n usable bytes (rounded to pages) surrounded by PROT_NONE pages.
func NewFence(n int) *Fence {
	np := (n + page - 1) / page
	if np == 0 {
		np = 1
	}
	fmu.Lock()
	defer fmu.Unlock()
	if l := pool[np]; len(l) > 0 {
		f := l[len(l)-1]
		pool[np] = l[:len(l)-1]
		return f
	}
	all, err := syscall.Mmap(-1, 0, (np+2)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic("mon: mmap: " + err.Error())
	}
	if err := syscall.Mprotect(all[:page], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(all[(np+1)*page:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return &Fence{all: all, body: all[page : (np+1)*page : (np+1)*page]}
}

// Free returns the fence for reuse.
func (f *Fence) Free() {
	fmu.Lock()
	pool[len(f.body)/page] = append(pool[len(f.body)/page], f)
	fmu.Unlock()
}

// End returns an n-byte slice that ends exactly at the upper guard page.
func (f *Fence) End(n int) []byte {
	return f.body[len(f.body)-n : len(f.body) : len(f.body)]
}

// Start returns an n-byte slice that starts exactly at the lower guard page
// (its capacity is limited to n).
func (f *Fence) Start(n int) []byte { return f.body[0:n:n] }

// Seal makes the body read-only (writes fault); Unseal undoes it.
func (f *Fence) Seal() {
	if err := syscall.Mprotect(f.body, syscall.PROT_READ); err != nil {
		panic(err)
	}
}

// Unseal makes the body writable again.
func (f *Fence) Unseal() {
	if err := syscall.Mprotect(f.body, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		panic(err)
	}
}

// Canary is a buffer with pattern bytes around a window.
type Canary struct {
	buf    []byte
	lo, hi int
}

// NewCanary returns a canary whose window has n bytes.
func NewCanary(n, pad int) *Canary {
	c := &Canary{buf: make([]byte, n+2*pad), lo: pad, hi: pad + n}
	for i := range c.buf {
		c.buf[i] = pat(i)
	}
	return c
}

func pat(i int) byte { return byte(0xA5 ^ (i*37 + 11)) }

// Win is the window, with the trailing canary within its capacity.
func (c *Canary) Win() []byte { return c.buf[c.lo:c.hi] }

// Broken reports the first byte outside the window [from,to) (relative to the
// window) that was changed.
func (c *Canary) Broken(from, to int) error {
	for i := range c.buf {
		if i >= c.lo+from && i < c.lo+to {
			continue
		}
		if c.buf[i] != pat(i) {
			return fmt.Errorf("byte at offset %d of the output buffer (window length %d, allowed [%d,%d)) was overwritten: %02x", i-c.lo, c.hi-c.lo, from, to, c.buf[i])
		}
	}
	return nil
}

// Uint64s views bytes as words (little endian machine).
func Uint64s(b []byte) []uint64 {
	return unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), len(b)/8)
}
