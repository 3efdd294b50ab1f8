//go:build !appengine

package bb

import (
	"bytes"
	"crypto/aes"
	"fmt"

	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/utils"

	"vharness/mon"
	"vharness/probe"
	"vharness/ref"
)

type blockCipher interface {
	SetKey(key []byte) error
	Encrypt(dst, src []byte)
	Decrypt(dst, src []byte)
}

// aesImpls returns constructors of the implementations present in this build.
func aesImpls(c *mon.Case) map[string]func() blockCipher {
	m := map[string]func() blockCipher{}
	for _, n := range []string{"aes.generic", "aes.asm"} {
		f, ok := probe.Get(n).(func() interface{})
		if !ok {
			c.Skip(n)
			continue
		}
		if _, ok := f().(blockCipher); !ok {
			c.Skip(n)
			continue
		}
		if n == "aes.asm" && !cpuHasAES() {
			c.Skip(n + "-on-this-cpu")
			continue
		}
		m[n] = func() blockCipher { return f().(blockCipher) }
	}
	return m
}

func aesBlock(c *mon.Case) []byte {
	b := make([]byte, 16)
	switch c.IntN(5) {
	case 0:
		for i := range b {
			b[i] = byte(-(c.IntN(2)))
		}
	case 1:
		b[c.IntN(16)] = 1 << uint(c.IntN(8))
	default:
		c.Fill(b)
	}
	return b
}

func aesKey(c *mon.Case, n int) []byte {
	k := make([]byte, n)
	switch c.IntN(7) {
	case 0:
		for i := range k {
			k[i] = 0xff
		}
	case 1:
		k[c.IntN(n)] = 1 << uint(c.IntN(8))
	case 2:
		return pat(c, n)
	case 3: // equal halves
		h := pat(c, n/2)
		copy(k, h)
		copy(k[n/2:], h)
	default:
		c.Fill(k)
	}
	return k
}

var implNames = []string{"aes.generic", "aes.asm"}

// aesBlocks keys and re-keys objects and compares blocks in both directions.
func aesBlocks(c *mon.Case, im map[string]func() blockCipher, names []string) {
	for _, name := range names {
		nw := im[name]
		if nw == nil {
			continue
		}
		b := nw()
		hist := ""
		var last, slot []byte
		for r, n := 0, 1+c.IntN(4); r < n; r++ { // re-keying
			kl := 16 + 8*c.IntN(3)
			hist += fmt.Sprint(kl, " ")
			key := aesKey(c, kl)
			if r > 0 && c.IntN(3) == 0 { // a key that has much in common with the one before
				switch n := copy(key, last); c.IntN(4) {
				case 0:
					key[c.IntN(n)] ^= 1 << c.IntN(8)
				case 1:
					c.Fill(key[c.IntN(kl):])
				case 2:
					c.Fill(key[:c.IntN(kl)])
				}
			}
			last = append([]byte{}, key...)
			kin := misaligned(c, key)
			if len(slot) == kl && c.IntN(2) == 0 {
				kin = slot // the same memory as before
				copy(kin, key)
			}
			slot = kin
			err := b.SetKey(kin)
			c.Check(err == nil, "setkey", "%s: SetKey(%d bytes) = %v", name, kl, err)
			c.Check(bytes.Equal(kin, key), "input-modified", "%s: SetKey modified the key", name)
			c.Fill(kin)
			sc, _ := aes.NewCipher(key)
			for i := 0; i < 3; i++ {
				pt := aesBlock(c)
				want, back := make([]byte, 16), make([]byte, 16)
				sc.Encrypt(want, pt)
				sc.Decrypt(back, pt)
				first, only := c.IntN(2), c.IntN(4)
				for t := range 2 {
					dir := t ^ first
					if only == dir {
						continue // one direction only
					}
					f := []func(d, s []byte){b.Encrypt, b.Decrypt}[dir]
					w := want
					if dir == 1 {
						w = back
					}
					extra := c.IntN(3) * c.IntN(20)
					can := mon.NewCanary(16+extra, 32)
					src := append(append([]byte{}, pt...), c.Bytes(extra)...)
					src = misaligned(c, src)
					keep := append([]byte{}, src...)
					f(can.Win(), src)
					c.Check(bytes.Equal(can.Win()[:16], w), "aes", "%s dir %d key %x block %x (key lengths used: %s): got %x want %x", name, dir, key, pt, hist, can.Win()[:16], w)
					c.Check(bytes.Equal(src, keep), "input-modified", "%s dir %d changed its source", name, dir)
					e := can.Broken(0, 16)
					c.Check(e == nil, "overrun", "%s dir %d: %v", name, dir, e)
					// in place
					buf := append([]byte{}, pt...)
					f(buf, buf)
					c.Check(bytes.Equal(buf, w), "aes-in-place", "%s dir %d key %x block %x in place: got %x want %x", name, dir, key, pt, buf, w)
				}
				if c.Idx%8 == 0 {
					m := ref.AESBlock(key, pt, false)
					c.Check(bytes.Equal(m[:], want), "oracle-disagreement", "AES oracle")
					c.Count("cross-checked-with-FIPS197-model", 1)
				}
				c.Count("blocks", 2)
			}
			c.Key(name, key)
		}
		c.Count("impl:"+name, 1)
		c.Sample("%s keys %s", name, hist)
	}
}

func init() {
	mon.Register("C05", "block", 60000, 3000000, func(c *mon.Case) { aesBlocks(c, aesImpls(c), implNames) })
	mon.Register("C05", "keylen", 400, 4000, func(c *mon.Case) {
		im := aesImpls(c)
		for _, name := range implNames {
			nw := im[name]
			if nw == nil {
				continue
			}
			for l := 0; l <= 72; l++ {
				if l == 16 || l == 24 || l == 32 {
					continue
				}
				b := nw()
				key := aesKey(c, 16+8*c.IntN(3))
				keyed := c.IntN(2) == 0
				if keyed {
					b.SetKey(key)
				}
				bad := c.Bytes(l)
				var err error
				pv := mon.Panics(func() { err = b.SetKey(bad) })
				c.Check(pv == nil && err != nil, "key-length-accepted", "%s: SetKey with %d bytes: err=%v panic=%v", name, l, err, pv)
				if keyed {
					pt := c.Bytes(16)
					w, o := make([]byte, 16), make([]byte, 16)
					sc, _ := aes.NewCipher(key)
					sc.Encrypt(w, pt)
					b.Encrypt(o, pt)
					c.Check(bytes.Equal(w, o), "aes", "%s: object unusable after a refused key", name)
				}
				c.Eval(1)
			}
			c.Key(name, c.Idx)
		}
	})
	mon.Register("C05", "buffers", 2000, 20000, func(c *mon.Case) {
		im := aesImpls(c)
		for _, name := range implNames {
			nw := im[name]
			if nw == nil {
				continue
			}
			b := nw()
			b.SetKey(aesKey(c, 16+8*c.IntN(3)))
			for dir, f := range []func(d, s []byte){b.Encrypt, b.Decrypt} {
				// short
				ls, ld := 16, 16
				if c.IntN(2) == 0 {
					ls = c.IntN(16)
				} else {
					ld = c.IntN(16)
				}
				back := c.Bytes(64)
				keep := append([]byte{}, back...)
				pv := mon.Panics(func() { f(back[:ld], back[32:32+ls]) })
				c.Check(pv != nil, "short-buffer-accepted", "%s dir %d accepted len(dst)=%d len(src)=%d", name, dir, ld, ls)
				c.Check(bytes.Equal(back, keep), "overrun", "%s dir %d wrote although refused", name, dir)
				// partial overlap
				d := 1 + c.IntN(15)
				o1, o2 := d, 0
				if c.IntN(2) == 0 {
					o1, o2 = 0, d
				}
				pv = mon.Panics(func() { f(back[o1:o1+16], back[o2:o2+16]) })
				c.Check(pv != nil, "overlap-accepted", "%s dir %d accepted buffers overlapping at distance %d", name, dir, o1-o2)
				c.Check(bytes.Equal(back, keep), "overrun", "%s dir %d wrote although refused", name, dir)
				// adjacent buffers are fine
				pv = mon.Panics(func() { f(back[0:16], back[16:32]) })
				c.Check(pv == nil, "panic", "%s dir %d refused adjacent buffers: %v", name, dir, pv)
			}
			c.Key(name, c.Idx)
		}
	})
	// without any probe: AES-256 as the generator uses it, both cipher selections
	mon.Register("C05", "via-drbg", 4000, 60000, func(c *mon.Case) {
		for _, f := range aesFlags() {
			withAES(f, func() {
				e := c.Bytes(48)
				// entropy such that the key is set to a chosen value
				d := drbg.NewCtrDrbg()
				d.Init(e, nil)
				var m ref.CtrDRBG
				m.Instantiate(e, nil)
				out := make([]byte, 16*(1+c.IntN(8)))
				d.Read(out)
				c.Check(bytes.Equal(out, m.Generate(len(out), nil)), "aes", "generator with hardware AES=%v: wrong AES-256 output", f)
				c.Count(fmt.Sprintf("drbg-with-hwaes-%v", f), 1)
				c.Key(e)
			})
		}
	})

	mon.Register("C06", "history", 12000, 600000, drbgHistory)
	mon.Register("C06", "lengths", 1100, 6000, func(c *mon.Case) {
		// every request length, followed by a second request
		for _, f := range aesFlags() {
			withAES(f, func() {
				e := c.Bytes(48)
				d := drbg.NewCtrDrbg()
				c.Check(d.Init(e, nil), "init", "Init refused 48 bytes")
				var m ref.CtrDRBG
				m.Instantiate(e, nil)
				for i, l := range []int{c.Idx, 1 + c.IntN(40), c.Idx} {
					ad := c.Bytes(c.IntN(2) * c.IntN(49))
					out := make([]byte, l)
					n, err := d.ReadWithAdditionalData(out, ad)
					c.Check(n == l && err == nil, "read-contract", "request of %d: %d,%v", l, n, err)
					w := m.Generate(l, ad)
					c.Check(bytes.Equal(out, w), "output", "request #%d of %d bytes (ad %d, hwaes %v) first differing byte %d", i, l, len(ad), f, diffAt(out, w))
				}
			})
		}
		c.Key(c.Idx)
	})
	mon.Register("C06", "many-requests", 2, 64, drbgManyRequests)
	mon.Register("C06", "large", 96, 3000, func(c *mon.Case) {
		// long requests through both functions, with others before and after them
		for _, f := range aesFlags() {
			withAES(f, func() {
				e := c.Bytes(48)
				d := drbg.NewCtrDrbg()
				c.Check(d.Init(e, nil), "init", "Init refused 48 bytes")
				var m ref.CtrDRBG
				m.Instantiate(e, nil)
				tr := ""
				for i := 0; i < 3; i++ {
					lg := 10 + c.IntN(7)
					if c.IntN(12) == 0 {
						lg = 17 + c.IntN(5) // up to 4 MiB: more blocks than 16 bits can count
					}
					l := 1<<lg + c.IntN(1<<lg)
					switch c.IntN(4) {
					case 0:
						l = 1 << lg
					case 1:
						l = 1<<lg + 1 + c.IntN(17)
					}
					if i == 1 && c.IntN(2) == 0 {
						l = c.IntN(40)
					}
					var ad []byte
					out := make([]byte, l)
					var n int
					var err error
					if c.IntN(2) == 0 {
						n, err = d.Read(out)
						tr += fmt.Sprintf("Read(%d) ", l)
					} else {
						ad = c.Bytes(c.IntN(2) * c.IntN(49))
						n, err = d.ReadWithAdditionalData(out, ad)
						tr += fmt.Sprintf("Read(%d,%d) ", l, len(ad))
					}
					c.Check(n == l && err == nil, "read-contract", "%s: %d,%v", tr, n, err)
					w := m.Generate(l, ad)
					c.Check(bytes.Equal(out, w), "output", "%s (hwaes %v) first differing byte %d", tr, f, diffAt(out, w))
					c.Count("bytes-of-long-requests", l)
				}
				c.Key(e)
				c.Sample("%s hwaes %v", tr, f)
			})
		}
	})
	mon.Register("C06", "counter-carry", 3000, 100000, func(c *mon.Case) {
		// choose the entropy such that V starts just below a carry
		var m ref.CtrDRBG
		m.Update([48]byte{})
		var v [16]byte
		nff := 1 + c.IntN(16)
		for i := range v {
			v[i] = byte(c.Uint32())
			if i >= 16-nff {
				v[i] = 0xff
			}
		}
		v[15] -= byte(c.IntN(6))
		e := c.Bytes(48)
		for i := 0; i < 16; i++ {
			e[32+i] = m.V[i] ^ v[i]
		}
		m.Instantiate(e, nil)
		c.Check(m.V == v, "harness", "targeting of V failed")
		for _, f := range aesFlags() {
			withAES(f, func() {
				mm := m
				d := drbg.NewCtrDrbg()
				d.Init(e, nil)
				for i := 0; i < 3; i++ {
					l := 16 * (1 + c.IntN(12))
					out := make([]byte, l)
					d.Read(out)
					c.Check(bytes.Equal(out, mm.Generate(l, nil)), "output", "V=%x, request %d of %d bytes (hwaes %v)", v, i, l, f)
				}
			})
		}
		c.Count("carries-out-of-the-last-byte", 1)
		c.Key(v[:])
		c.Sample("V after Init = %x", v)
	})
}

func aesFlags() []bool {
	if cpuHasAES() && probe.Get("aes.asm") != nil {
		return []bool{false, true}
	}
	return []bool{utils.X86.HasAES}
}

func withAES(f bool, g func()) {
	old := utils.X86.HasAES
	utils.X86.HasAES = f
	defer func() { utils.X86.HasAES = old }()
	g()
}

func drbgHistory(c *mon.Case) {
	type obj struct {
		d    *drbg.CtrDrbg
		m    ref.CtrDRBG
		init bool
		tag  string
	}
	var objs []*obj
	fl := aesFlags()
	for i := 0; i < 1+c.IntN(3); i++ {
		f := fl[c.IntN(len(fl))]
		withAES(f, func() {
			objs = append(objs, &obj{d: drbg.NewCtrDrbg(), tag: fmt.Sprintf("g%d(hwaes=%v)", i, f)})
		})
	}
	ops := ""
	bytesRead := 0
	var before []byte
	n := 4 + c.IntN(25)
	for i := 0; i < n; i++ {
		o := objs[c.IntN(len(objs))]
		op := c.IntN(10)
		if !o.init {
			op = 0
		}
		again := func(n int) []byte { // now and then something that was given before
			b := pat(c, n)
			if len(before) >= n && c.IntN(5) == 0 {
				copy(b, before)
			}
			if len(before) == 0 || c.IntN(3) == 0 {
				before = append([]byte{}, b...)
			}
			return b
		}
		someLen := func() int {
			switch c.IntN(6) {
			case 0:
				return 0
			case 1:
				return 48
			case 2:
				return 49 + c.IntN(100)
			case 3:
				return 47 - c.IntN(2)
			}
			return c.IntN(49)
		}
		switch {
		case op < 1: // Init
			le := 48
			switch c.IntN(6) {
			case 0:
				le = 32 + c.IntN(16)
			case 1:
				le = 49 + c.IntN(40)
			case 2:
				le = c.IntN(32)
			}
			e, p := again(le), again(someLen())
			ke, kp := append([]byte{}, e...), append([]byte{}, p...)
			ok := o.d.Init(e, p)
			c.Logf("%s.Init(%d,%d) = %v", o.tag, len(e), len(p), ok)
			c.Check(bytes.Equal(e, ke) && bytes.Equal(p, kp), "input-modified", "Init modified its inputs")
			c.Check(ok || le < 32, "init", "%s.Init refused %d bytes of entropy", o.tag, le)
			if ok && le < 32 {
				if o.init {
					c.Fail("init", "%s.Init of a running generator accepted %d bytes of entropy, less than its security strength", o.tag, le)
				}
				c.Finding("drbg-first-init-accepts-short-entropy", "the first Init of a generator accepted %d bytes of entropy, less than its security strength of 32 bytes", le)
			}
			if !ok {
				c.Count("refused-entropy", 1)
			}
			if ok {
				o.m.Instantiate(ke, kp)
				o.init = true
			}
			c.Fill(e)
			c.Fill(p)
			ops += "I"
		case op < 3: // Reseed
			e, p := again(someLen()), again(someLen())
			if c.IntN(2) == 0 {
				e = again(48)
			}
			ke, kp := append([]byte{}, e...), append([]byte{}, p...)
			o.d.Reseed(e, p)
			c.Logf("%s.Reseed(%d,%d)", o.tag, len(e), len(p))
			c.Check(bytes.Equal(e, ke) && bytes.Equal(p, kp), "input-modified", "Reseed modified its inputs")
			o.m.Reseed(e, p)
			c.Fill(e)
			ops += "S"
		default:
			l := c.IntN(100)
			switch c.IntN(8) {
			case 0:
				l = 0
			case 1:
				l = 16 * c.IntN(40)
			case 2:
				l = c.IntN(5000)
			}
			var ad []byte
			if c.IntN(2) == 0 {
				ad = again(someLen())
			}
			can := mon.NewCanary(l, 40)
			shared := ad != nil && l > 0 && c.IntN(4) == 0
			if shared { // the output lands where the additional data (or a part of it) is
				c.Fill(can.Win())
				at := c.IntN(2) * c.IntN(l)
				ad = can.Win()[at:]
				if len(ad) > 96 && c.IntN(2) == 0 {
					ad = ad[:1+c.IntN(96)]
				}
				c.Count("requests-in-place", 1)
			}
			ka := append([]byte{}, ad...)
			var k int
			var err error
			if ad == nil && c.IntN(2) == 0 {
				k, err = o.d.Read(can.Win())
			} else {
				k, err = o.d.ReadWithAdditionalData(can.Win(), ad)
			}
			c.Logf("%s.Read(%d, ad %d) = %d,%v", o.tag, l, len(ad), k, err)
			c.Check(k == l && err == nil, "read-contract", "%s: request of %d bytes returned %d, %v", o.tag, l, k, err)
			c.Check(shared || bytes.Equal(ka, ad), "input-modified", "Read modified the additional data")
			w := o.m.Generate(l, ka)
			c.Check(bytes.Equal(can.Win(), w), "output", "%s: output of %d bytes differs from SP 800-90A at byte %d (history %s)", o.tag, l, diffAt(can.Win(), w), ops)
			e := can.Broken(0, l)
			c.Check(e == nil, "overrun", "%s: %v", o.tag, e)
			bytesRead += l
			ops += "R"
			if l%16 != 0 {
				c.Count("partial-block-requests", 1)
			}
		}
	}
	for _, o := range objs {
		if !o.init {
			continue
		}
		b := make([]byte, 64)
		o.d.Read(b)
		c.Check(bytes.Equal(b, o.m.Generate(64, nil)), "output", "%s: final output differs (history %s)", o.tag, ops)
	}
	c.Count("history-steps", n)
	c.Count("bytes-generated", bytesRead)
	c.Key(ops, bytesRead)
	c.Sample("%s", ops)
}

// drbgManyRequests: more requests on one instantiation, and more reseeds, than 16 bits count.
func drbgManyRequests(c *mon.Case) {
	f := aesFlags()
	withAES(f[c.Idx%len(f)], func() {
		e := c.Bytes(48)
		d := drbg.NewCtrDrbg()
		c.Check(d.Init(e, nil), "init", "Init refused 48 bytes")
		var m ref.CtrDRBG
		m.Instantiate(e, nil)
		n := 66000 + c.IntN(1000)
		mode := c.Idx / 2 % 4 // requests; requests with additional data; reseeds; everything
		out := make([]byte, 64)
		for i := 0; i < n; i++ {
			v := c.Uint32()
			if mode == 2 || mode == 3 && v>>8%4 == 0 {
				var s [48]byte
				s[0], s[47] = byte(v), byte(v>>8)
				var p []byte
				if v>>16%2 == 0 {
					p = s[:1+v>>20%40]
				}
				d.Reseed(s[:], p)
				m.Reseed(s[:], p)
				if mode == 2 && i%64 != 0 {
					continue
				}
			}
			l := 1 + int(v>>10%20)
			var ad []byte
			var k int
			var err error
			if mode == 1 || mode == 3 && v>>9%2 == 0 {
				ad = e[:1+v>>20%40]
				k, err = d.ReadWithAdditionalData(out[:l], ad)
			} else {
				k, err = d.Read(out[:l])
			}
			c.Check(k == l && err == nil, "read-contract", "request #%d of %d bytes returned %d, %v", i, l, k, err)
			w := m.Generate(l, ad)
			c.Check(bytes.Equal(out[:l], w), "output", "request #%d of %d bytes (mode %d): got %x want %x", i, l, mode, out[:l], w)
		}
		c.Eval(n)
		c.Count("long-life-requests", n)
		c.Key(mode, e)
		c.Sample("%d requests, mode %d", n, mode)
	})
}
