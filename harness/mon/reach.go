package mon

import (
	"encoding/binary"
	"reflect"
	"strings"
	"unsafe"
)

// Reach copies all plain memory (integers, arrays and slices of them, within their capacity) that
// is reachable from v through exported and unexported fields, except through values of this harness.
func Reach(v interface{}) [][]byte {
	out := Live(v)
	for i := range out {
		out[i] = append([]byte{}, out[i]...)
	}
	return out
}

// Live is Reach without the copy: the memory itself, also after the object has dropped it.
func Live(v interface{}) [][]byte {
	var out [][]byte
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value)
	plain := func(t reflect.Type) bool {
		switch t.Kind() {
		case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
			reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return true
		}
		return false
	}
	var flat func(t reflect.Type) bool
	flat = func(t reflect.Type) bool {
		return plain(t) || t.Kind() == reflect.Array && flat(t.Elem())
	}
	take := func(p unsafe.Pointer, n uintptr) {
		if n > 0 && n < 1<<24 {
			out = append(out, unsafe.Slice((*byte)(p), n))
		}
	}
	walk = func(v reflect.Value) {
		if !v.IsValid() || strings.HasPrefix(v.Type().PkgPath(), "vharness") {
			return
		}
		t := v.Type()
		switch {
		case v.Kind() == reflect.Interface:
			walk(v.Elem())
		case v.Kind() == reflect.Pointer:
			if p := v.UnsafePointer(); p != nil && !seen[p] && !strings.HasPrefix(t.Elem().PkgPath(), "vharness") {
				seen[p] = true
				walk(v.Elem())
			}
		case v.Kind() == reflect.Slice:
			if v.Cap() > 0 && flat(t.Elem()) {
				take(v.UnsafePointer(), uintptr(v.Cap())*t.Elem().Size())
			} else {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		case flat(t):
			if v.CanAddr() {
				take(unsafe.Pointer(v.UnsafeAddr()), t.Size())
			}
		case v.Kind() == reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case v.Kind() == reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
	return out
}

// Holds tells where 8 consecutive bytes of the secret (in one of three byte orders) occur in the
// chunks; -1 if they do not.
func Holds(chunks [][]byte, secret []byte) int {
	want := map[uint64]int{}
	add := func(s []byte) {
		for i := 0; i+8 <= len(s); i++ {
			w := binary.LittleEndian.Uint64(s[i:])
			if distinct(w) >= 5 {
				want[w] = i
			}
		}
	}
	add(secret)
	for _, k := range []int{4, 8} {
		s := append([]byte{}, secret[:len(secret)/k*k]...)
		for i := 0; i+k <= len(s); i += k {
			for a, b := i, i+k-1; a < b; a, b = a+1, b-1 {
				s[a], s[b] = s[b], s[a]
			}
		}
		add(s)
	}
	for _, ch := range chunks {
		for i := 0; i+8 <= len(ch); i++ {
			if at, ok := want[binary.LittleEndian.Uint64(ch[i:])]; ok {
				return at
			}
		}
	}
	return -1
}

func distinct(w uint64) int {
	n := 0
	var seen [256]bool
	for ; w != 0; w >>= 8 {
		if b := byte(w); b != 0 && !seen[b] {
			seen[b] = true
			n++
		}
	}
	return n
}

// Words is the set of aligned, non-trivial 64-bit words of the chunks.
func Words(chunks [][]byte) map[uint64]bool {
	r := map[uint64]bool{}
	for _, ch := range chunks {
		for i := 0; i+8 <= len(ch); i += 8 {
			if w := binary.LittleEndian.Uint64(ch[i:]); distinct(w) >= 5 {
				r[w] = true
			}
		}
	}
	return r
}
