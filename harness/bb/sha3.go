package bb

import (
	"bytes"
	stdsha3 "crypto/sha3"
	"errors"
	"fmt"
	"hash"

	"github.com/henrydcase/nobs/hash/sha3"

	"vharness/mon"
	"vharness/probe"
	"vharness/ref"
)

type sha3alg struct {
	name   string
	rate   int
	size   int // 0 for XOF
	sfx    byte
	newH   func() hash.Hash
	newX   func() sha3.ShakeHash
	oneSum func(out, in []byte)
}

var sha3algs = []sha3alg{
	{"SHA3-224", 144, 28, 6, sha3.New224, nil, nil},
	{"SHA3-256", 136, 32, 6, sha3.New256, nil, nil},
	{"SHA3-384", 104, 48, 6, sha3.New384, nil, nil},
	{"SHA3-512", 72, 64, 6, sha3.New512, nil, nil},
	{"SHAKE128", 168, 0, 0x1f, nil, sha3.NewShake128, sha3.ShakeSum128},
	{"SHAKE256", 136, 0, 0x1f, nil, sha3.NewShake256, sha3.ShakeSum256},
}

// stdDigest is the oracle (standard library).
func (a *sha3alg) stdDigest(msg []byte, n int) []byte {
	switch a.name {
	case "SHA3-224":
		d := stdsha3.Sum224(msg)
		return d[:]
	case "SHA3-256":
		d := stdsha3.Sum256(msg)
		return d[:]
	case "SHA3-384":
		d := stdsha3.Sum384(msg)
		return d[:]
	case "SHA3-512":
		d := stdsha3.Sum512(msg)
		return d[:]
	case "SHAKE128":
		return ref.Shake128(n, msg)
	}
	return ref.Shake256(n, msg)
}

func fillMsg(c *mon.Case, b []byte) {
	switch c.IntN(6) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	default:
		c.Fill(b)
	}
}

// pickLen favours block boundaries.
func pickLen(c *mon.Case, rate int) int {
	switch c.IntN(8) {
	case 0:
		return c.IntN(20)
	case 1, 2, 3:
		n := rate*c.IntN(6) + c.IntN(7) - 3
		if n < 0 {
			n = 0
		}
		return n
	case 4:
		return c.IntN(5000)
	case 5:
		// powers of two and neighbours
		n := 1<<uint(c.IntN(15)) + c.IntN(3) - 1
		return n
	default:
		return c.IntN(3 * rate)
	}
}

func cuts(c *mon.Case, n, rate int) []int {
	// returns chunk lengths summing to n
	var r []int
	style := c.IntN(5)
	for n > 0 {
		var k int
		switch style {
		case 0:
			k = n
		case 1:
			k = 1 + c.IntN(4)
		case 2:
			k = rate + c.IntN(3) - 1
		case 3:
			k = c.IntN(2*rate + 2)
		default:
			k = c.IntN(n + 1)
			if c.IntN(3) == 0 {
				k = 8 * (k / 8)
			}
		}
		if k > n {
			k = n
		}
		if k == 0 && c.IntN(4) != 0 {
			k = 1
		}
		r = append(r, k)
		n -= k
	}
	if c.IntN(8) == 0 {
		r = append(r, 0)
	}
	return r
}

// misaligned returns a copy of b at a chosen offset from an 8-byte boundary.
func misaligned(c *mon.Case, b []byte) []byte {
	o := c.IntN(9)
	t := make([]byte, len(b)+16)
	copy(t[o:], b)
	return t[o : o+len(b) : o+len(b)]
}

func digestChunked(c *mon.Case, a *sha3alg, msg []byte, ch []int, n int) []byte {
	var w interface {
		Write([]byte) (int, error)
	}
	var h hash.Hash
	var x sha3.ShakeHash
	if a.newH != nil {
		h = a.newH()
		w = h
	} else {
		x = a.newX()
		w = x
	}
	p := 0
	for _, k := range ch {
		in := misaligned(c, msg[p:p+k])
		keep := append([]byte{}, in...)
		m, err := w.Write(in)
		c.Check(m == k && err == nil, "write-contract", "%s Write(%d) = %d, %v", a.name, k, m, err)
		c.Check(bytes.Equal(keep, in), "input-modified", "%s Write modified its input", a.name)
		p += k
	}
	if h != nil {
		return h.Sum(nil)
	}
	out := make([]byte, 0, n)
	for len(out) < n || n == 0 {
		k := c.IntN(2*a.rate + 2)
		if c.IntN(3) == 0 {
			k = c.IntN(4)
		}
		if k > n-len(out) {
			k = n - len(out)
		}
		b := make([]byte, k)
		m, err := x.Read(b)
		c.Check(m == k && err == nil, "read-contract", "%s Read(%d) = %d, %v", a.name, k, m, err)
		out = append(out, b...)
		if n == 0 {
			break
		}
	}
	return out
}

func init() {
	mon.Register("C01", "chunked", 60000, 3000000, func(c *mon.Case) {
		a := &sha3algs[c.Idx%len(sha3algs)]
		n := pickLen(c, a.rate)
		msg := make([]byte, n)
		fillMsg(c, msg)
		on := a.size
		if a.newX != nil {
			on = pickLen(c, a.rate)
		}
		ch := cuts(c, n, a.rate)
		c.Logf("%s len=%d chunks=%v out=%d", a.name, n, ch, on)
		got := digestChunked(c, a, msg, ch, on)
		want := a.stdDigest(msg, on)
		c.Check(bytes.Equal(got, want), "digest", "%s(len %d, chunks %v) out=%d: got %x want %x, msg=%x", a.name, n, ch, on, head(got), head(want), head(msg))
		if c.Idx%16 < len(sha3algs) && n < 3000 {
			w2 := ref.Sponge(a.rate, a.sfx, msg, len(want))
			c.Check(bytes.Equal(want, w2), "oracle-disagreement", "%s oracle mismatch", a.name)
			c.Count("cross-checked-with-FIPS202-model", 1)
		}
		if a.oneSum != nil {
			o := make([]byte, on)
			a.oneSum(o, misaligned(c, msg))
			c.Check(bytes.Equal(o, want), "digest", "one-shot %s(len %d) out=%d: got %x want %x", a.name, n, on, head(o), head(want))
		}
		c.Count("bytes-absorbed", n)
		c.Key(a.name, n, fmt.Sprint(ch), on)
		c.Sample("%s len=%d chunks=%v outlen=%d -> %x", a.name, n, ch, on, head(got))
	})
	// every length up to a few blocks, every algorithm, split at one place
	mon.Register("C01", "lengths", 700*6, 1200*6, func(c *mon.Case) {
		a := &sha3algs[c.Idx%6]
		n := c.Idx / 6
		msg := c.Bytes(n)
		on := a.size
		if a.newX != nil {
			on = 1 + n%(2*a.rate+3)
		}
		want := a.stdDigest(msg, on)
		var splits []int
		if c.Tier == "thorough" {
			for s := 0; s <= n; s++ {
				splits = append(splits, s)
			}
		} else {
			splits = append(splits, 0, n, n/2)
			for s := a.rate - 1; s <= n; s += a.rate {
				splits = append(splits, s)
				if s+1 <= n {
					splits = append(splits, s+1)
				}
			}
			for i := 0; i < 12; i++ {
				splits = append(splits, c.IntN(n+1))
			}
		}
		for _, s := range splits {
			got := digestChunked(c, a, msg, []int{s, n - s}, on)
			c.Check(bytes.Equal(got, want), "digest", "%s len %d split %d: got %x want %x", a.name, n, s, head(got), head(want))
			c.Eval(1)
		}
		c.Count("split-points", len(splits))
		c.Key(a.name, n)
	})
	// long messages and long outputs
	mon.Register("C01", "long", 36, 240, func(c *mon.Case) {
		a := &sha3algs[c.Idx%6]
		n := 1<<uint(16+c.IntN(7)) + c.IntN(400) - 200
		msg := c.Bytes(n)
		on := a.size
		if a.newX != nil {
			on = 1<<uint(10+c.IntN(10)) + c.IntN(400)
		}
		var ch []int
		for r := n; r > 0; {
			k := 1 + c.IntN(n)
			if k > r {
				k = r
			}
			ch = append(ch, k)
			r -= k
		}
		got := digestChunked(c, a, msg, ch, on)
		c.Check(bytes.Equal(got, a.stdDigest(msg, on)), "digest", "%s long message (len %d, out %d, chunks %v)", a.name, n, on, ch)
		c.Key(a.name, n, on)
		c.Sample("%s len=%d chunks=%v outlen=%d", a.name, n, ch, on)
	})
	// the permutation on arbitrary 1600-bit states
	mon.Register("C01", "permutation", 30000, 1000000, func(c *mon.Case) {
		f, ok := probe.Get("sha3.keccak").(func(*[25]uint64))
		if !ok {
			c.Skip("sha3.keccak")
			return
		}
		var s, w [25]uint64
		switch c.IntN(4) {
		case 0:
			s[c.IntN(25)] = 1 << uint(c.IntN(64))
		case 1:
			for i := range s {
				s[i] = ^uint64(0)
			}
			s[c.IntN(25)] ^= 1 << uint(c.IntN(64))
		default:
			for i := range s {
				s[i] = c.Uint64()
			}
		}
		in := s
		w = s
		f(&s)
		ref.KeccakF(&w)
		c.Check(s == w, "permutation", "Keccak-f on %x: got %x want %x", in, s, w)
		c.Key(fmt.Sprint(in))
	})

	mon.Register("C02", "history", 20000, 800000, sha3History)
	mon.Register("C02", "sum-contract", 6000, 100000, sha3SumContract)

	mon.Register("C03", "cshake", 20000, 600000, cshakeCase)
	mon.Register("C03", "aligned", 600, 6000, cshakeAligned)
	mon.Register("C03", "big-params", 2, 80, func(c *mon.Case) {
		// encodings of lengths with 3 and 4 length bytes
		n, s := []int{0, 31, 32, 8191, 8192, 1 << 21}[c.IntN(6)], []int{31, 32, 8191, 8192, 8193, 1<<21 - 1, 1 << 21}[c.IntN(7)]
		cshakeOne(c, 128+128*(c.Idx%2), c.Bytes(n), c.Bytes(s), c.Bytes(c.IntN(300)), 64)
		c.Key(c.Idx%2, n, s)
	})
}

func head(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

// --- C02: object histories ------------------------------------------------------

type model struct {
	a       *sha3alg
	cs      int // 0, or 128/256 for cSHAKE
	n, s    []byte
	msg     []byte
	pos     int
	squeeze bool
	sum     bool // Sum was called since the last Reset
	stream  []byte
}

func (m *model) clone() *model {
	d := *m
	d.msg = append([]byte{}, m.msg...)
	return &d
}

func (m *model) at(pos, n int) []byte {
	if len(m.stream) < pos+n {
		k := pos + n + 256
		if m.cs != 0 {
			m.stream = stdCShake(m.cs, m.n, m.s, m.msg, k)
		} else {
			m.stream = m.a.stdDigest(m.msg, k)
		}
	}
	return m.stream[pos : pos+n]
}

func sha3History(c *mon.Case) {
	type obj struct {
		h   hash.Hash
		x   sha3.ShakeHash
		m   *model
		tag string
	}
	var objs []*obj
	newObj := func() {
		k := c.IntN(8)
		o := &obj{tag: fmt.Sprintf("o%d", len(objs))}
		if k < 6 {
			a := &sha3algs[k]
			o.m = &model{a: a}
			if a.newH != nil {
				o.h = a.newH()
			} else {
				o.x = a.newX()
			}
			c.Logf("%s = %s", o.tag, a.name)
		} else {
			n, s := pat(c, c.IntN(40)), pat(c, 1+c.IntN(200))
			lv := 128 * (k - 5)
			o.m = &model{a: &sha3algs[k-2], cs: lv, n: append([]byte{}, n...), s: append([]byte{}, s...)}
			if lv == 128 {
				o.x = sha3.NewCShake128(n, s)
			} else {
				o.x = sha3.NewCShake256(n, s)
			}
			// the object must not depend on the caller's buffers any more
			c.Fill(n)
			c.Fill(s)
			c.Logf("%s = cSHAKE%d(%d,%d)", o.tag, lv, len(n), len(s))
		}
		objs = append(objs, o)
	}
	newObj()
	if c.IntN(2) == 0 {
		newObj()
	}
	steps := 8 + c.IntN(40)
	ops := ""
	for i := 0; i < steps; i++ {
		o := objs[c.IntN(len(objs))]
		m := o.m
		op := c.IntN(10)
		switch {
		case op < 4: // Write
			k := pickLen(c, m.a.rate) % 1200
			in := pat(c, k)
			var n int
			var err error
			if o.h != nil {
				n, err = o.h.Write(in)
			} else {
				pv := mon.Panics(func() { n, err = o.x.Write(in) })
				if pv != nil {
					c.Check(m.squeeze, "panic", "%s.Write panicked while absorbing: %v", o.tag, pv)
					err = errors.New("panicked")
					n = 0
				}
			}
			c.Logf("%s.Write(%d) = %d,%v", o.tag, k, n, err)
			if m.squeeze {
				if k > 0 {
					c.Check(err != nil && n == 0, "write-after-read", "%s.Write(%d bytes) after Read returned %d, %v", o.tag, k, n, err)
					ops += "E"
				}
			} else {
				c.Check(err == nil && n == k, "write-contract", "%s.Write(%d bytes) returned %d, %v (sum before: %v)", o.tag, k, n, err, m.sum)
				m.msg = append(m.msg, in...)
				m.stream = nil
				ops += "W"
			}
			c.Fill(in) // the object must have its own copy
		case op < 7: // Read or Sum
			if o.x != nil {
				k := pickLen(c, m.a.rate) % 900
				out := make([]byte, k)
				c.Fill(out)
				n, err := o.x.Read(out)
				c.Logf("%s.Read(%d) = %d,%v", o.tag, k, n, err)
				c.Check(n == k && err == nil, "read-contract", "%s.Read(%d) = %d,%v", o.tag, k, n, err)
				// A Read of zero bytes is a Read: it ends the absorbing phase.
				m.squeeze = true
				if k == 0 {
					ops += "r"
					break
				}
				w := m.at(m.pos, k)
				c.Check(bytes.Equal(out, w), "squeeze", "%s output [%d,%d) of message of %d bytes: got %x want %x", o.tag, m.pos, m.pos+k, len(m.msg), head(out), head(w))
				m.pos += k
				ops += "R"
			} else {
				var in []byte
				if c.IntN(2) == 0 {
					in = make([]byte, c.IntN(20), 100)
					c.Fill(in)
				}
				keep := append([]byte{}, in...)
				out := o.h.Sum(in)
				w := append(keep, m.a.stdDigest(m.msg, 0)...)
				c.Logf("%s.Sum(%d)", o.tag, len(in))
				c.Check(bytes.Equal(out, w), "sum", "%s.Sum after %d bytes (sum before: %v): got %x want %x", o.tag, len(m.msg), m.sum, out, w)
				m.sum = true
				ops += "S"
			}
		case op == 7: // Reset
			if o.h != nil {
				o.h.Reset()
			} else {
				o.x.Reset()
			}
			c.Logf("%s.Reset", o.tag)
			m.msg, m.pos, m.squeeze, m.stream, m.sum = nil, 0, false, nil, false
			ops += "0"
		case op == 8: // Clone
			if o.x != nil && len(objs) < 6 {
				d := &obj{x: o.x.Clone(), m: m.clone(), tag: fmt.Sprintf("o%d", len(objs))}
				c.Logf("%s = %s.Clone()", d.tag, o.tag)
				objs = append(objs, d)
				ops += "C"
			}
		default:
			if o.h != nil {
				c.Check(o.h.Size() == m.a.size && o.h.BlockSize() == m.a.rate, "sizes", "%s: Size %d BlockSize %d", m.a.name, o.h.Size(), o.h.BlockSize())
			} else if len(objs) < 6 && c.IntN(3) == 0 {
				newObj()
			}
		}
	}
	// quiescent check of every object
	for _, o := range objs {
		m := o.m
		if o.h != nil {
			w := m.a.stdDigest(m.msg, 0)
			c.Check(bytes.Equal(o.h.Sum(nil), w), "sum", "final %s.Sum differs", o.tag)
		} else {
			out := make([]byte, 200)
			o.x.Read(out)
			c.Check(bytes.Equal(out, m.at(m.pos, 200)), "squeeze", "final output of %s differs", o.tag)
		}
	}
	c.Count("history-steps", steps)
	c.Count("objects", len(objs))
	c.Key(ops)
	c.Sample("ops %s over %d objects", ops, len(objs))
}

// sha3SumContract drives the hash.Hash contract: Sum does not change the state and
// appends, whatever the capacity of its argument.
func sha3SumContract(c *mon.Case) {
	a := &sha3algs[c.Idx%4]
	h := a.newH()
	var msg []byte
	for i := 0; i < 4; i++ {
		in := c.Bytes(c.IntN(2 * a.rate))
		n, err := h.Write(in)
		c.Check(n == len(in) && err == nil, "write-contract", "%s: Write #%d of %d bytes returned %d, %v", a.name, i, len(in), n, err)
		msg = append(msg, in...)
		want := a.stdDigest(msg, 0)
		l := c.IntN(50)
		cp := l + []int{0, a.size, a.size - 1, 5 * a.size, c.IntN(100), a.size + 1}[c.IntN(6)]
		back := make([]byte, cp+40)
		c.Fill(back)
		keep := append([]byte{}, back...)
		in2 := back[:l:cp]
		if l == 0 && c.IntN(2) == 0 {
			in2 = nil
		}
		for rep := 0; rep < 2; rep++ {
			out := h.Sum(in2)
			c.Check(bytes.Equal(out, append(append([]byte{}, keep[:len(in2)]...), want...)), "sum",
				"%s.Sum(len %d cap %d) call %d after %d bytes: got %x want prefix+%x", a.name, len(in2), cap(in2), rep, len(msg), out, want)
			c.Check(bytes.Equal(back[:l], keep[:l]), "sum", "%s.Sum changed the bytes of its argument", a.name)
			c.Check(bytes.Equal(back[cp:], keep[cp:]), "overrun", "%s.Sum wrote beyond the capacity of its argument", a.name)
			if in2 != nil {
				lim := l + a.size
				if lim < cp {
					c.Check(bytes.Equal(back[lim:], keep[lim:]), "overrun", "%s.Sum wrote beyond its result", a.name)
				}
			}
		}
		c.Key(a.name, len(msg), l, cp)
		c.Eval(1)
	}
	c.Count("sum-calls", 8)
}

// --- C03 --------------------------------------------------------------------------

func stdCShake(lv int, n, s, msg []byte, out int) []byte {
	var x *stdsha3.SHAKE
	if lv == 128 {
		x = stdsha3.NewCSHAKE128(n, s)
	} else {
		x = stdsha3.NewCSHAKE256(n, s)
	}
	x.Write(msg)
	b := make([]byte, out)
	x.Read(b)
	return b
}

func cshakeOne(c *mon.Case, lv int, n, s, msg []byte, out int) {
	rate := 168
	nw := sha3.NewCShake128
	if lv == 256 {
		rate, nw = 136, sha3.NewCShake256
	}
	n1, s1 := append([]byte{}, n...), append([]byte{}, s...)
	if c.IntN(4) == 0 && len(n) == 0 {
		n1 = nil
	}
	want := ref.CShake(rate, n, s, msg, out)
	h := nw(n1, s1)
	c.Check(bytes.Equal(n1, n) && bytes.Equal(s1, s), "input-modified", "NewCShake%d modified N or S", lv)
	c.Fill(n1)
	c.Fill(s1)
	absorb := func(h sha3.ShakeHash) {
		p := 0
		for _, k := range cuts(c, len(msg), rate) {
			m, err := h.Write(msg[p : p+k])
			c.Check(m == k && err == nil, "write-contract", "cSHAKE Write(%d)=%d,%v", k, m, err)
			p += k
		}
	}
	get := func(h sha3.ShakeHash, what string) {
		b := make([]byte, out)
		for p := 0; p < out; {
			k := 1 + c.IntN(out-p)
			h.Read(b[p : p+k])
			p += k
		}
		c.Check(bytes.Equal(b, want), "cshake", "cSHAKE%d %s |N|=%d |S|=%d |M|=%d: got %x want %x (N=%x S=%x)", lv, what, len(n), len(s), len(msg), head(b), head(want), head(n), head(s))
	}
	absorb(h)
	cl := h.Clone()
	get(h, "direct")
	get(cl, "clone taken before reading")
	h.Reset()
	absorb(h)
	cl2 := h.Clone()
	get(h, "after Reset")
	cl2.Reset()
	h.Reset() // must not affect cl2
	absorb(cl2)
	get(cl2, "Reset clone")
	c.Count("outputs-checked", 4)
}

func cshakeCase(c *mon.Case) {
	lv := 128 + 128*(c.Idx%2)
	n, s := pat(c, c.IntN(40)), pat(c, c.IntN(400))
	switch c.IntN(6) {
	case 0:
		n = nil
	case 1:
		s = nil
	case 2:
		n, s = nil, nil
	case 3:
		if c.IntN(4) == 0 {
			s = append([]byte{}, n...)
		}
	}
	msg := pat(c, pickLen(c, 168)%1500)
	out := 1 + pickLen(c, 168)%600
	cshakeOne(c, lv, n, s, msg, out)
	if c.Idx%8 == 0 {
		c.Check(bytes.Equal(stdCShake(lv, n, s, msg, out), ref.CShake([]int{168, 136}[c.Idx%2], n, s, msg, out)), "oracle-disagreement", "cSHAKE oracles disagree")
		// distinct customisation with the same concatenation gives a different function
		if len(n) > 1 {
			k := 1 + c.IntN(len(n)-1)
			nw := sha3.NewCShake128
			if lv == 256 {
				nw = sha3.NewCShake256
			}
			o1, o2 := make([]byte, 32), make([]byte, 32)
			h1, h2 := nw(n, s), nw(n[:k], append(append([]byte{}, n[k:]...), s...))
			h1.Write(msg)
			h2.Write(msg)
			h1.Read(o1)
			h2.Read(o2)
			c.Check(!bytes.Equal(o1, o2), "domain-separation", "cSHAKE%d gives equal output for different (N,S) splits", lv)
		}
	}
	c.Key(lv, n, s, len(msg), out)
	c.Sample("cSHAKE%d |N|=%d |S|=%d |M|=%d out=%d", lv, len(n), len(s), len(msg), out)
}

// cshakeAligned sweeps |N|+|S| over the block boundary of the padded prefix.
func cshakeAligned(c *mon.Case) {
	lv := 128 + 128*(c.Idx%2)
	rate := []int{168, 136}[c.Idx%2]
	blocks := 1 + (c.Idx/2)%3
	delta := (c.Idx/6)%13 - 6
	total := blocks*rate + delta // of the encoded prefix: 2 + 2..3 + |N| + 2..3 + |S|
	nl := c.IntN(60)
	over := 2
	enc := func(l int) int {
		if l*8 < 256 {
			return 2
		}
		return 3
	}
	sl := total - over - enc(nl) - nl
	sl -= enc(sl - 2)
	if sl < 0 {
		sl = 0
	}
	cshakeOne(c, lv, c.Bytes(nl), c.Bytes(sl), c.Bytes(c.IntN(2*rate)), 1+c.IntN(2*rate))
	c.Key(lv, nl, sl)
	c.Count(fmt.Sprintf("prefix-length-mod-rate=%d", (over+enc(nl)+nl+enc(sl)+sl)%rate), 1)
}
