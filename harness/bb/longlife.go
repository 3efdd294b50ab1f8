package bb

// Long lives: one object used very often, or for very much data.  What accumulates in an object
// (counters, offsets, pools) is compared with the model after tens of thousands of operations.

import (
	"bytes"
	stdsha3 "crypto/sha3"
	"math/bits"
	"runtime/debug"

	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/hash/sm3"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	mon.Register("C02", "long-life", 8, 96, sha3LongLife)
	mon.Register("C01", "huge", 12, 48, sha3Huge)
	mon.Register("C03", "huge", 1, 4, cshakeHuge)
	mon.Register("C04", "big-calls", 4, 24, sm3Huge)
	mon.Register("C04", "long-life", 8, 64, sm3LongLife)
	mon.Register("C09", "long-life", 4, 40, kemLongLife)
}

// sha3LongLife: very many small calls on one object, its clones left behind on the way.
func sha3LongLife(c *mon.Case) {
	n := 66000 + c.IntN(4000) // more calls than 16 bits can count
	k := c.Idx % 8
	if k < 4 {
		a := &sha3algs[k]
		h := a.newH()
		st := []func() *stdsha3.SHA3{stdsha3.New224, stdsha3.New256, stdsha3.New384, stdsha3.New512}[k]()
		in := make([]byte, 4)
		mode := c.Idx / 8 % 3 // writes only, resets, sums
		for i := 0; i < n; i++ {
			b := in[:1+i%3]
			v := c.Uint32()
			b[0] = byte(v)
			m, err := h.Write(b)
			c.Check(m == len(b) && err == nil, "write-contract", "%s: write #%d of %d bytes returned %d, %v", a.name, i, len(b), m, err)
			st.Write(b)
			switch {
			case mode == 1 && v>>8%4 == 0:
				h.Reset()
				st.Reset()
			case mode == 2 && v>>8%2 == 0 || i%1000 == 0:
				g, w := h.Sum(nil), st.Sum(nil)
				c.Check(bytes.Equal(g, w), "sum", "%s after %d writes (mode %d): got %x want %x", a.name, i+1, mode, g, w)
			}
		}
		g, w := h.Sum(nil), st.Sum(nil)
		c.Check(bytes.Equal(g, w), "sum", "%s after %d writes (mode %d): got %x want %x", a.name, n, mode, g, w)
		c.Key(a.name, mode, n)
	} else {
		var x sha3.ShakeHash
		var st *stdsha3.SHAKE
		name := ""
		N, S := c.Bytes(c.IntN(20)), c.Bytes(1+c.IntN(300))
		switch k {
		case 4:
			x, st, name = sha3.NewShake128(), stdsha3.NewSHAKE128(), "SHAKE128"
		case 5:
			x, st, name = sha3.NewShake256(), stdsha3.NewSHAKE256(), "SHAKE256"
		case 6:
			x, st, name = sha3.NewCShake128(N, S), stdsha3.NewCSHAKE128(N, S), "cSHAKE128"
		default:
			x, st, name = sha3.NewCShake256(N, S), stdsha3.NewCSHAKE256(N, S), "cSHAKE256"
		}
		mode := c.Idx / 8 % 3 // writes then reads; resets; a chain of clones
		in, o1, o2 := make([]byte, 4), make([]byte, 40), make([]byte, 40)
		reading := false
		for i := 0; i < n; i++ {
			v := c.Uint32()
			if !reading {
				b := in[:1+i%3]
				b[0] = byte(v)
				m, err := x.Write(b)
				c.Check(m == len(b) && err == nil, "write-contract", "%s: call #%d: Write of %d bytes returned %d, %v", name, i, len(b), m, err)
				st.Write(b)
				if mode == 0 && i == n/2 || mode == 1 && v>>8%3 == 0 || mode == 2 && i == n/4 {
					reading = true
				}
			} else {
				l := 1 + int(v%3)
				if v>>16%256 == 0 {
					l = 40
				}
				m, err := x.Read(o1[:l])
				c.Check(m == l && err == nil, "read-contract", "%s: call #%d: Read of %d bytes returned %d, %v", name, i, l, m, err)
				st.Read(o2[:l])
				c.Check(bytes.Equal(o1[:l], o2[:l]), "squeeze", "%s call #%d (mode %d): read %x want %x", name, i, mode, o1[:l], o2[:l])
				if mode == 1 && v>>8%3 == 0 {
					x.Reset()
					st.Reset()
					reading = false
				}
			}
			if mode == 2 && v>>24%2 == 0 {
				old := x
				x = old.Clone()
				if v>>23%2 == 0 {
					old.Reset()
				}
			}
		}
		x.Read(o1)
		st.Read(o2)
		c.Check(bytes.Equal(o1, o2), "squeeze", "%s after %d calls (mode %d): read %x want %x", name, n, mode, o1, o2)
		c.Key(name, mode, n)
	}
	c.Eval(n)
	c.Count("long-life-calls", n)
}

// cshakeHuge: a parameter whose length in bits takes five bytes to encode.
func cshakeHuge(c *mon.Case) {
	if c.Idx >= 4 || c.Idx > 0 && c.Tier != "thorough" {
		return // each needs 2.5 GB
	}
	defer debug.FreeOSMemory()
	long := make([]byte, 1<<29+c.IntN(1000))
	for i := 0; i < len(long); i += 1 << 12 {
		long[i] = byte(c.Uint32())
	}
	short := c.Bytes(1 + c.IntN(40))
	N, S := short, long
	if c.Idx/2%2 == 1 {
		N, S = long, short
	}
	msg := c.Bytes(c.IntN(300))
	g, w := make([]byte, 100), make([]byte, 100)
	var x sha3.ShakeHash
	var st *stdsha3.SHAKE
	if c.Idx%2 == 0 {
		x = sha3.NewCShake256(N, S)
		debug.FreeOSMemory()
		st = stdsha3.NewCSHAKE256(N, S)
	} else {
		x = sha3.NewCShake128(N, S)
		debug.FreeOSMemory()
		st = stdsha3.NewCSHAKE128(N, S)
	}
	st.Write(msg)
	st.Read(w)
	for i := 0; i < 2; i++ {
		x.Write(msg)
		x.Read(g)
		c.Check(bytes.Equal(g, w), "cshake", "cSHAKE%d |N|=%d |S|=%d |M|=%d, use %d: got %x want %x", 256-128*(c.Idx%2), len(N), len(S), len(msg), i, g, w)
		x.Reset()
	}
	c.Count("five-byte-lengths", 1)
	c.Key(len(N), len(S))
	c.Sample("|N|=%d |S|=%d", len(N), len(S))
}

func sm3LongLife(c *mon.Case) {
	n := 66000 + c.IntN(4000)
	h := sm3.New()
	st := ref.NewSM3Stream()
	mode := c.Idx % 4
	in := make([]byte, 64)
	for i := 0; i < n; i++ {
		v := c.Uint32()
		b := in[:1+i%3]
		if mode == 3 && v>>8%8 == 0 {
			b = in[:64-int(v>>16%4)]
		}
		b[0] = byte(v)
		m, err := h.Write(b)
		c.Check(m == len(b) && err == nil, "write-contract", "SM3: write #%d of %d bytes returned %d, %v", i, len(b), m, err)
		st.Write(b)
		switch {
		case mode == 1 && v>>8%4 == 0:
			h.Reset()
			st = ref.NewSM3Stream()
		case mode == 2 && v>>8%2 == 0 || i%1000 == 0:
			g, w := h.Sum(nil), st.Sum()
			c.Check(bytes.Equal(g, w[:]), "sum", "SM3 after %d writes (mode %d): got %x want %x", i+1, mode, g, w)
		}
	}
	g, w := h.Sum(nil), st.Sum()
	c.Check(bytes.Equal(g, w[:]), "sum", "SM3 after %d writes (mode %d): got %x want %x", n, mode, g, w)
	c.Eval(n)
	c.Count("long-life-calls", n)
	c.Key(mode, n)
}

// kemLongLife: hundreds of operations on one KEM object.
func kemLongLife(c *mon.Case) {
	p := ref.Sidh[0]
	for _, q := range ref.Sidh {
		if q.Bytes < p.Bytes {
			p = q
		}
	}
	im := kemImpls[c.Idx%len(kemImpls)]
	kp := newPair(c, p)
	m := c.Bytes(p.MsgLen)
	ct, ss := p.SikeEncaps(kp.pk, m)
	bad := append([]byte{}, ct...)
	bad[len(bad)-1] ^= 1
	rej := p.Reject(kp.s, bad)
	q := &queueReader{}
	k := newKem(c, im, p.ID, q)
	n := 280 + c.IntN(20)
	mode := c.Idx / len(kemImpls) % 3 // mostly encapsulations, mostly decapsulations, mixed
	for i := 0; i < n; i++ {
		op := []int{0, 0, 0, 0, 1, 1, 1, 1, 2, 3}[c.IntN(10)]
		if mode < 2 && c.IntN(32) != 0 {
			op = mode
		}
		got := make([]byte, p.KemSize)
		switch op {
		case 0:
			q.q = append(q.q[:0], m...)
			x := make([]byte, p.CtLen())
			err := k.Encapsulate(x, got, kp.pub)
			c.Check(err == nil && bytes.Equal(x, ct) && bytes.Equal(got, ss), "encaps-history", "%s %s: operation %d of a long life (mode %d): err %v, ciphertext correct %v, secret %x want %x", im.name, p.Name, i, mode, err, bytes.Equal(x, ct), got, ss)
		case 1:
			err := k.Decapsulate(got, kp.prv, kp.pub, ct)
			c.Check(err == nil && bytes.Equal(got, ss), "decaps-history", "%s %s: operation %d of a long life (mode %d): err %v, secret %x want %x", im.name, p.Name, i, mode, err, got, ss)
		case 2:
			err := k.Decapsulate(got, kp.prv, kp.pub, bad)
			c.Check(err == nil && bytes.Equal(got, rej), "reject-history", "%s %s: operation %d of a long life (mode %d): altered ciphertext gives err %v, %x want %x", im.name, p.Name, i, mode, err, got, rej)
		default:
			k.Reset()
		}
		c.Eval(1)
	}
	c.Check(q.over == 0, "rng-overread", "%s %s: %d reads beyond the message", im.name, p.Name, q.over)
	c.Count("long-life-operations", n)
	c.Key(im.name, mode, n)
	c.Sample("%s %s %d operations, mode %d", im.name, p.Name, n, mode)
}

// sm3Huge: single calls with more than 2^16 blocks.
func sm3Huge(c *mon.Case) {
	defer debug.FreeOSMemory()
	n := 5<<20 + c.IntN(1<<22)
	msg := make([]byte, n)
	c.Fill(msg)
	k := 0
	if c.Idx%2 == 1 {
		k = 1 + c.IntN(100)
	}
	h := sm3.New()
	h.Write(msg[:k])
	m, err := h.Write(msg[k:])
	c.Check(m == n-k && err == nil, "write-contract", "SM3 Write(%d) = %d, %v", n-k, m, err)
	g, w := h.Sum(nil), ref.SM3(msg)
	c.Check(bytes.Equal(g, w[:]), "digest", "SM3 message of %d bytes written as %d and %d: got %x want %x", n, k, n-k, g, w)
	c.Count("huge-writes", 1)
	c.Key(n, k)
	c.Sample("len=%d+%d", k, n-k)
}

// sha3Huge: single calls with more than 2^16 blocks (once more than 2^32 bytes, in the thorough
// tier).
func sha3Huge(c *mon.Case) {
	if c.Idx >= 12 && c.Tier != "thorough" {
		return
	}
	a := &sha3algs[c.Idx%6]
	defer debug.FreeOSMemory()
	n := 12<<20 + c.IntN(1<<22)
	if c.Idx == 16 && bits.UintSize == 64 {
		n = 1 << (bits.UintSize / 2)
		n += c.IntN(1 << 20)
	}
	msg := make([]byte, n)
	c.Fill(msg[:1<<16])
	for i := 1 << 16; i < n; i += 4093 {
		msg[i] = byte(c.Uint32())
	}
	k := 0 // some bytes in the buffer already
	if c.Idx/6%2 == 1 {
		k = 1 + c.IntN(200)
	}
	var got []byte
	if a.newX == nil {
		h := a.newH()
		h.Write(msg[:k])
		m, err := h.Write(msg[k:])
		c.Check(m == n-k && err == nil, "write-contract", "%s Write(%d) = %d, %v", a.name, n-k, m, err)
		got = h.Sum(nil)
	} else {
		x := a.newX()
		got = make([]byte, 12<<20+c.IntN(1<<21))
		x.Write(msg[:k])
		m, err := x.Write(msg[k:])
		c.Check(m == n-k && err == nil, "write-contract", "%s Write(%d) = %d, %v", a.name, n-k, m, err)
		x.Read(got[:k])
		m, err = x.Read(got[k:])
		c.Check(m == len(got)-k && err == nil, "read-contract", "%s Read(%d) = %d, %v", a.name, len(got)-k, m, err)
		o := make([]byte, len(got))
		if a.rate == 168 {
			sha3.ShakeSum128(o, msg)
		} else {
			sha3.ShakeSum256(o, msg)
		}
		c.Check(bytes.Equal(o, got), "one-shot", "%s message of %d bytes, output of %d: one-shot function and object differ", a.name, n, len(o))
	}
	w := a.stdDigest(msg, len(got))
	for i := range got {
		if got[i] != w[i] {
			c.Fail("digest", "%s message of %d bytes written as %d and %d: output of %d bytes differs at byte %d", a.name, n, k, n-k, len(got), i)
		}
	}
	c.Count("huge-writes", 1)
	c.Key(a.name, n, k, len(got))
	c.Sample("%s len=%d+%d outlen=%d", a.name, k, n-k, len(got))
}
