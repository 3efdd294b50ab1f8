// Package ref holds the executable specifications the monitors compare against.
// They are written from the standards, with math/big or the Go standard library.
package ref

import "math/bits"

// SM3Stream is an incremental SM3.
type SM3Stream struct {
	v    [8]uint32
	n    uint64
	tail []byte
}

// NewSM3Stream starts a digest.
func NewSM3Stream() *SM3Stream {
	return &SM3Stream{v: [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}}
}

// Write absorbs b.
func (s *SM3Stream) Write(b []byte) {
	s.n += uint64(len(b))
	if len(s.tail) > 0 {
		k := 64 - len(s.tail)
		if k > len(b) {
			k = len(b)
		}
		s.tail = append(s.tail, b[:k]...)
		b = b[k:]
		if len(s.tail) < 64 {
			return
		}
		sm3Blocks(&s.v, s.tail)
		s.tail = nil
	}
	k := len(b) &^ 63
	sm3Blocks(&s.v, b[:k])
	s.tail = append([]byte{}, b[k:]...)
}

// Sum is the digest of what was absorbed.
func (s *SM3Stream) Sum() [32]byte {
	v := s.v
	m := append([]byte{}, s.tail...)
	l := s.n * 8
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	for i := 7; i >= 0; i-- {
		m = append(m, byte(l>>(8*uint(i))))
	}
	sm3Blocks(&v, m)
	var out [32]byte
	for i, x := range v {
		out[4*i], out[4*i+1], out[4*i+2], out[4*i+3] = byte(x>>24), byte(x>>16), byte(x>>8), byte(x)
	}
	return out
}

// SM3 computes the digest of GB/T 32905 (draft-shen-sm3-hash) in one go.
func SM3(msg []byte) [32]byte {
	s := NewSM3Stream()
	s.Write(msg)
	return s.Sum()
}

func sm3Blocks(v *[8]uint32, m []byte) {
	p0 := func(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 9) ^ bits.RotateLeft32(x, 17) }
	p1 := func(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23) }
	for ; len(m) > 0; m = m[64:] {
		var w [68]uint32
		for i := 0; i < 16; i++ {
			w[i] = uint32(m[4*i])<<24 | uint32(m[4*i+1])<<16 | uint32(m[4*i+2])<<8 | uint32(m[4*i+3])
		}
		for j := 16; j < 68; j++ {
			w[j] = p1(w[j-16]^w[j-9]^bits.RotateLeft32(w[j-3], 15)) ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
		}
		a, b, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
		for j := 0; j < 64; j++ {
			t := uint32(0x79cc4519)
			if j >= 16 {
				t = 0x7a879d8a
			}
			ss1 := bits.RotateLeft32(bits.RotateLeft32(a, 12)+e+bits.RotateLeft32(t, j%32), 7)
			ss2 := ss1 ^ bits.RotateLeft32(a, 12)
			var ff, gg uint32
			if j < 16 {
				ff, gg = a^b^c, e^f^g
			} else {
				ff, gg = (a&b)|(a&c)|(b&c), (e&f)|(^e&g)
			}
			tt1 := ff + d + ss2 + (w[j] ^ w[j+4])
			tt2 := gg + h + ss1 + w[j]
			d, c, b, a = c, bits.RotateLeft32(b, 9), a, tt1
			h, g, f, e = g, bits.RotateLeft32(f, 19), e, p0(tt2)
		}
		for i, x := range [8]uint32{a, b, c, d, e, f, g, h} {
			v[i] ^= x
		}
	}
}

// Skip counts bytes that are not absorbed.
func (s *SM3Stream) Skip(n uint64) { s.n += n }
