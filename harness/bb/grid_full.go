//go:build !appengine

package bb

import (
	"bytes"

	"github.com/henrydcase/nobs/drbg"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	mon.Register("C06", "size-pairs", 100, 400, drbgSizePairs)
}

// drbgSizePairs: every combination of two input sizes up to 99 for Init and Reseed, of request and additional data.
func drbgSizePairs(c *mon.Case) {
	a := c.Idx % 100
	e, p := c.Bytes(100), c.Bytes(100)
	out := make([]byte, 100)
	var full [48]byte
	c.Fill(full[:])
	for _, f := range aesFlags() {
		withAES(f, func() {
			d := drbg.NewCtrDrbg()
			c.Check(d.Init(full[:], nil), "init", "Init refused 48 bytes")
			var m ref.CtrDRBG
			for b := 0; b < 100; b++ {
				if a >= 32 {
					c.Check(d.Init(e[:a], p[:b]), "init", "Init refused %d bytes of entropy", a)
					m = ref.CtrDRBG{}
					m.Instantiate(e[:a], p[:b])
				} else {
					c.Check(!d.Init(e[:a], p[:b]), "init", "Init of a running generator accepted %d bytes of entropy", a)
					d.Init(full[:], nil)
					m = ref.CtrDRBG{}
					m.Instantiate(full[:], nil)
				}
				n, err := d.ReadWithAdditionalData(out[:a], p[:b])
				w := m.Generate(a, p[:b])
				c.Check(n == a && err == nil && bytes.Equal(out[:a], w), "output", "Init(%d,%d), request of %d bytes with %d bytes of additional data (hwaes %v): n %d err %v first difference at %d", a, b, a, b, f, n, err, diffAt(out[:a], w))
				d.Reseed(e[:a], p[:b])
				m.Reseed(e[:a], p[:b])
				d.Read(out[:b])
				w = m.Generate(b, nil)
				c.Check(bytes.Equal(out[:b], w), "output", "Reseed(%d,%d), request of %d bytes (hwaes %v): first difference at %d", a, b, b, f, diffAt(out[:b], w))
				c.Eval(1)
			}
		})
	}
	c.Count("size-pairs", 100)
	c.Key(a)
}
