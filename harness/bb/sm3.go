package bb

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash"
	"io"

	"github.com/henrydcase/nobs/hash/sm3"

	"vharness/mon"
	"vharness/probe"
	"vharness/ref"
)

func init() {
	mon.Register("C04", "chunked", 60000, 3000000, func(c *mon.Case) {
		n := pickLen(c, 64)
		msg := make([]byte, n)
		fillMsg(c, msg)
		ch := cuts(c, n, 64)
		h := sm3.New()
		p := 0
		for _, k := range ch {
			in := misaligned(c, msg[p:p+k])
			keep := append([]byte{}, in...)
			m, err := h.Write(in)
			c.Check(m == k && err == nil, "write-contract", "SM3 Write(%d bytes) returned %d, %v", k, m, err)
			c.Check(bytes.Equal(keep, in), "input-modified", "SM3 Write modified its input")
			p += k
		}
		want := ref.SM3(msg)
		got := h.Sum(nil)
		c.Check(bytes.Equal(got, want[:]), "digest", "SM3(len %d, chunks %v): got %x want %x msg=%x", n, ch, got, want, head(msg))
		c.Check(h.Size() == 32 && h.BlockSize() == 64, "sizes", "Size %d BlockSize %d", h.Size(), h.BlockSize())
		c.Count("bytes-absorbed", n)
		c.Key(n, fmt.Sprint(ch))
		c.Sample("len=%d chunks=%v -> %x", n, ch, got)
	})
	mon.Register("C04", "lengths", 400, 1500, func(c *mon.Case) {
		n := c.Idx
		msg := c.Bytes(n)
		want := ref.SM3(msg)
		for s := 0; s <= n; s++ {
			h := sm3.New()
			h.Write(msg[:s])
			h.Write(msg[s:])
			c.Check(bytes.Equal(h.Sum(nil), want[:]), "digest", "SM3 len %d split %d", n, s)
			c.Eval(1)
		}
		c.Key(n)
	})
	mon.Register("C04", "history", 20000, 800000, func(c *mon.Case) {
		h := sm3.New()
		var msg []byte
		ops := ""
		for i := 0; i < 6+c.IntN(30); i++ {
			switch c.IntN(7) {
			case 0, 1, 2:
				in := c.Bytes(pickLen(c, 64) % 700)
				n, err := h.Write(in)
				c.Check(n == len(in) && err == nil, "write-contract", "Write(%d)=%d,%v", len(in), n, err)
				msg = append(msg, in...)
				c.Fill(in)
				ops += "W"
			case 3, 4:
				w := ref.SM3(msg)
				out := h.Sum(nil)
				c.Check(bytes.Equal(out, w[:]), "sum", "Sum(nil) after %d bytes, history %s: got %x want %x", len(msg), ops, out, w)
				c.Fill(out) // result must not alias the state
				ops += "S"
			case 5:
				// the append contract of hash.Hash
				in := c.Bytes(1 + c.IntN(100))
				w := ref.SM3(msg)
				out := h.Sum(append([]byte{}, in...))
				if !bytes.Equal(out, append(append([]byte{}, in...), w[:]...)) {
					w2 := ref.SM3(append(append([]byte{}, msg...), in...))
					if bytes.Equal(out, w2[:]) {
						c.Finding("sm3-sum-absorbs-argument", "SM3 Sum(in) with non-empty in returns the digest of message||in instead of appending the digest to in (msg %d bytes, in %x)", len(msg), head(in))
					} else {
						c.Fail("sum", "Sum(%x) after %d bytes: got %x", head(in), len(msg), out)
					}
				}
				ops += "A"
			case 6:
				h.Reset()
				msg = nil
				ops += "0"
			}
		}
		w := ref.SM3(msg)
		c.Check(bytes.Equal(h.Sum(nil), w[:]), "sum", "final Sum, history %s", ops)
		c.Key(ops, len(msg))
		c.Sample("%s", ops)
	})
	mon.Register("C04", "io-copy", 400, 4000, func(c *mon.Case) {
		// io.Copy relies on the io.Writer contract
		msg := c.Bytes(c.IntN(100000))
		h := sm3.New()
		src := struct{ io.Reader }{bytes.NewReader(msg)}
		n, err := io.CopyBuffer(struct{ io.Writer }{h}, src, make([]byte, 1+c.IntN(5000)))
		c.Check(err == nil && n == int64(len(msg)), "write-contract", "io.Copy of %d bytes into SM3: %d, %v", len(msg), n, err)
		w := ref.SM3(msg)
		c.Check(bytes.Equal(h.Sum(nil), w[:]), "digest", "SM3 via io.Copy of %d bytes", len(msg))
		c.Key(len(msg))
	})
	// the upper bytes of the length, through the counter of the object: it is moved forward by
	// whole blocks, as if that many had been written before
	mon.Register("C04", "counter", 400, 20000, func(c *mon.Case) {
		get, ok := probe.Get("sm3.len").(func(hash.Hash) *uint64)
		if !ok {
			c.Skip("sm3.len")
			return
		}
		h := sm3.New()
		n := get(h)
		if n == nil {
			c.Skip("sm3.len")
			return
		}
		st := ref.NewSM3Stream()
		written := uint64(0)
		write := func() bool {
			b := c.Bytes(c.IntN(300))
			h.Write(b)
			st.Write(b)
			written += uint64(len(b))
			return *n == written
		}
		for i := 0; i < 4; i++ {
			if !write() { // it is something else than the number of bytes
				c.Skip("sm3.len-meaning")
				return
			}
		}
		add := c.Uint64() >> uint(4+c.IntN(40)) &^ 63
		*n += add
		st.Skip(add)
		for i := 0; i < 3; i++ {
			b := c.Bytes(c.IntN(300))
			h.Write(b)
			st.Write(b)
			w := st.Sum()
			got := h.Sum(nil)
			c.Check(bytes.Equal(got, w[:]), "digest", "SM3 after %d bytes (counter moved by %d): got %x want %x", written, add, got, w)
		}
		c.Key(add)
	})
	// every byte of the message length below 2^32 bits
	mon.Register("C04", "large", 12, 200, func(c *mon.Case) {
		total := 1<<(14+c.Idx%12) + c.IntN(1<<(14+c.Idx%12))
		chunk := c.Bytes(1 + c.IntN(1<<18))
		h := sm3.New()
		st := ref.NewSM3Stream()
		for left := total; left > 0; {
			k := min(len(chunk), left)
			h.Write(chunk[:k])
			st.Write(chunk[:k])
			left -= k
		}
		w := st.Sum()
		got := h.Sum(nil)
		c.Check(bytes.Equal(got, w[:]), "digest", "SM3 of %d bytes: got %x want %x", total, got, w)
		c.Key(total)
		c.Sample("message of %d bytes", total)
	})
	// message length counter beyond 2^32 bits
	mon.Register("C04", "huge", 1, 3, func(c *mon.Case) {
		total := (1 << 29) + c.IntN(1<<25)
		if c.Idx > 0 {
			total = (1<<29)*(8*c.Idx) + c.IntN(1<<20)
		}
		chunk := c.Bytes(1 << 22)
		h := sm3.New()
		st := ref.NewSM3Stream()
		for left := total; left > 0; {
			k := len(chunk)
			if k > left {
				k = left
			}
			h.Write(chunk[:k])
			st.Write(chunk[:k])
			left -= k
			binary.LittleEndian.PutUint64(chunk[c.IntN(1000):], uint64(left))
		}
		w := st.Sum()
		got := h.Sum(nil)
		c.Check(bytes.Equal(got, w[:]), "digest", "SM3 of %d bytes: got %x want %x", total, got, w)
		c.Key(total)
		c.Sample("message of %d bytes", total)
	})
}
