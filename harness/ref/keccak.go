package ref

import (
	"crypto/sha3"
	"math/bits"
)

// KeccakF is Keccak-f[1600] computed from the FIPS 202 step mappings, with the
// rotation offsets and round constants derived from their definitions.
func KeccakF(a *[25]uint64) {
	// state lane (x,y) is a[x+5y]
	lfsr := byte(1)
	rcbit := func() bool {
		b := lfsr&1 == 1
		if lfsr&0x80 != 0 {
			lfsr = lfsr<<1 ^ 0x71
		} else {
			lfsr <<= 1
		}
		return b
	}
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 5; y++ {
				a[x+5*y] ^= d
			}
		}
		var b [25]uint64
		b[0] = a[0]
		x, y := 1, 0
		for t := 0; t < 24; t++ {
			// pi: B[y][2x+3y] = rot(A[x][y])
			b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y], (t+1)*(t+2)/2%64)
			x, y = y, (2*x+3*y)%5
		}
		for y := 0; y < 5; y++ {
			for x := 0; x < 5; x++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		for j := 0; j <= 6; j++ {
			if rcbit() {
				a[0] ^= 1 << (uint(1)<<uint(j) - 1)
			}
		}
	}
}

// Sponge is the one-shot FIPS 202 sponge: rate in bytes, domain suffix with first pad bit.
func Sponge(rate int, sfx byte, msg []byte, outLen int) []byte {
	var a [25]uint64
	m := append([]byte{}, msg...)
	m = append(m, sfx)
	for len(m)%rate != 0 {
		m = append(m, 0)
	}
	m[len(m)-1] ^= 0x80
	for ; len(m) > 0; m = m[rate:] {
		for i := 0; i < rate; i++ {
			a[i/8] ^= uint64(m[i]) << (8 * uint(i%8))
		}
		KeccakF(&a)
	}
	var out []byte
	for {
		for i := 0; i < rate && len(out) < outLen; i++ {
			out = append(out, byte(a[i/8]>>(8*uint(i%8))))
		}
		if len(out) >= outLen {
			return out
		}
		KeccakF(&a)
	}
}

func leftEnc(v uint64) []byte {
	n := 1
	for n < 8 && v>>(8*uint(n)) != 0 {
		n++
	}
	b := []byte{byte(n)}
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

// CShake is cSHAKE of SP 800-185 (rate 168 or 136).
func CShake(rate int, n, s, msg []byte, outLen int) []byte {
	if len(n) == 0 && len(s) == 0 {
		return Sponge(rate, 0x1f, msg, outLen)
	}
	p := leftEnc(uint64(rate))
	p = append(p, leftEnc(uint64(len(n))*8)...)
	p = append(p, n...)
	p = append(p, leftEnc(uint64(len(s))*8)...)
	p = append(p, s...)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	return Sponge(rate, 0x04, append(p, msg...), outLen)
}

// Shake256 is SHAKE256 from the standard library (fast path used by SIKE models).
func Shake256(outLen int, parts ...[]byte) []byte {
	h := sha3.NewSHAKE256()
	for _, p := range parts {
		h.Write(p)
	}
	out := make([]byte, outLen)
	h.Read(out)
	return out
}

// Shake128 likewise.
func Shake128(outLen int, parts ...[]byte) []byte {
	h := sha3.NewSHAKE128()
	for _, p := range parts {
		h.Write(p)
	}
	out := make([]byte, outLen)
	h.Read(out)
	return out
}
