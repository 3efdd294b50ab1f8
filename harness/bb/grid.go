package bb

import (
	"bytes"

	"github.com/henrydcase/nobs/hash/sha3"

	"vharness/mon"
	"vharness/ref"
)

// Sweeps over every pair of sizes, where another stream takes a sample: a special case for one size has
// nowhere to hide.

func init() {
	mon.Register("C02", "size-pairs", 340, 700, sizePairs)
	mon.Register("C03", "size-grid", 700, 1400, cshakeGrid)
	mon.Register("C03", "length-bytes", 84, 84, cshakeLengthBytes)
}

// sizePairs: a first call of a bytes, a second one of b bytes, for every b, both while absorbing and while squeezing.
func sizePairs(c *mon.Case) {
	a := c.Idx / 2
	lv := 128 + 128*(c.Idx%2)
	rate, nw := 168, sha3.NewShake128
	if lv == 256 {
		rate, nw = 136, sha3.NewShake256
	}
	a %= rate + 2
	top := 2*rate + 2
	msg := c.Bytes(a + top)
	stream := ref.Sponge(rate, 0x1f, msg[:7], a+top+32)
	x, h := nw(), nw()
	var out [32]byte
	buf := make([]byte, a+top)
	for b := 0; b <= top; b++ {
		// reads
		x.Reset()
		x.Write(msg[:7])
		n1, e1 := x.Read(buf[:a])
		n2, e2 := x.Read(buf[a : a+b])
		n3, e3 := x.Read(out[:])
		c.Check(n1 == a && n2 == b && n3 == 32 && e1 == nil && e2 == nil && e3 == nil, "read-contract", "SHAKE%d: reads of %d, %d, 32 bytes return %d %d %d, %v %v %v", lv, a, b, n1, n2, n3, e1, e2, e3)
		c.Check(bytes.Equal(buf[:a+b], stream[:a+b]) && bytes.Equal(out[:], stream[a+b:a+b+32]), "stream", "SHAKE%d of %x: reads of %d, %d, 32 bytes do not continue one stream (first difference at %d)", lv, msg[:7], a, b, diffAt(append(append([]byte{}, buf[:a+b]...), out[:]...), stream))
		// writes, then a clone and the original
		h.Reset()
		m1, e1 := h.Write(msg[:a])
		m2, e2 := h.Write(msg[a : a+b])
		c.Check(m1 == a && m2 == b && e1 == nil && e2 == nil, "write-contract", "SHAKE%d: writes of %d, %d bytes return %d %d, %v %v", lv, a, b, m1, m2, e1, e2)
		cl := h.Clone()
		h.Read(out[:])
		w := stdShake(lv, msg[:a+b], 32)
		c.Check(bytes.Equal(out[:], w), "digest", "SHAKE%d after writes of %d and %d bytes: got %x want %x", lv, a, b, out, w)
		cl.Write(msg[:3])
		cl.Read(out[:])
		w = stdShake(lv, append(msg[:a+b:a+b], msg[:3]...), 32)
		c.Check(bytes.Equal(out[:], w), "clone", "SHAKE%d clone after writes of %d, %d and 3 bytes: got %x want %x", lv, a, b, out, w)
		c.Eval(1)
	}
	c.Count("size-pairs", top+1)
	c.Key(lv, a)
}

func stdShake(lv int, msg []byte, out int) []byte { return stdCShake(lv, nil, nil, msg, out) }

// cshakeGrid: every combination of |N| and |S| up to 349.
func cshakeGrid(c *mon.Case) {
	nl := c.Idx / 2
	lv := 128 + 128*(c.Idx%2)
	nw := sha3.NewCShake128
	if lv == 256 {
		nw = sha3.NewCShake256
	}
	nb, sb := c.Bytes(nl), c.Bytes(349)
	msg := c.Bytes(c.IntN(20))
	var out [24]byte
	for sl := 0; sl <= len(sb); sl++ {
		x := nw(nb, sb[:sl])
		x.Write(msg)
		x.Read(out[:])
		w := stdCShake(lv, nb, sb[:sl], msg, len(out))
		c.Check(bytes.Equal(out[:], w), "cshake", "cSHAKE%d |N|=%d |S|=%d |M|=%d: got %x want %x", lv, nl, sl, len(msg), out, w)
		if sl%16 == c.Idx%16 {
			x.Reset()
			x.Write(msg)
			x.Read(out[:])
			c.Check(bytes.Equal(out[:], w), "cshake", "cSHAKE%d |N|=%d |S|=%d |M|=%d after Reset: got %x want %x", lv, nl, sl, len(msg), out, w)
		}
		c.Eval(1)
	}
	c.Count("N-S-size-pairs", len(sb)+1)
	c.Key(lv, nl)
}

// cshakeLengthBytes: sizes around those where the encoding of the length in bits gets longer or has a zero byte, in every
// combination.
func cshakeLengthBytes(c *mon.Case) {
	n := []int{0, 31, 32, 8191, 8192, 1 << 21}[c.Idx%6]
	s := []int{31, 32, 8191, 8192, 8193, 1<<21 - 1, 1 << 21}[c.Idx/6%7]
	cshakeOne(c, 128+128*(c.Idx/42%2), c.Bytes(n), c.Bytes(s), c.Bytes(c.IntN(300)), 64)
	c.Key(c.Idx/42%2, n, s)
}

func diffAt(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return -1
}

// pat returns n bytes, in one of four cases with a pattern (all zero, all ones, one bit, one byte repeated).
func pat(c *mon.Case, n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	switch c.IntN(16) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		b[c.IntN(n)] = 1 << c.IntN(8)
	case 3:
		v := byte(c.Uint32())
		for i := range b {
			b[i] = v
		}
	default:
		c.Fill(b)
	}
	return b
}
