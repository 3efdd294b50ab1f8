package bb

import (
	"bytes"
	"fmt"
	"io"
	"math/big"

	"github.com/henrydcase/nobs/dh/csidh"

	"vharness/mon"
	"vharness/ref"
)

// cExps makes a private key of some class.
func cExps(c *mon.Case) ([74]int, string) {
	var e [74]int
	cl := ""
	switch c.IntN(12) {
	case 0:
		cl = "zero"
	case 1:
		cl = "all-5"
		for i := range e {
			e[i] = 5
		}
	case 2:
		cl = "all-minus-5"
		for i := range e {
			e[i] = -5
		}
	case 3:
		cl = "extreme-signs"
		for i := range e {
			e[i] = 10*c.IntN(2) - 5
		}
	case 4:
		cl = "single"
		e[c.IntN(74)] = c.IntN(11) - 5
	case 5:
		cl = "sparse"
		for i := 1 + c.IntN(6); i > 0; i-- {
			e[c.IntN(74)] = c.IntN(11) - 5
		}
	case 6:
		cl = "one-sign"
		s := 2*c.IntN(2) - 1
		for i := range e {
			e[i] = s * c.IntN(6)
		}
	case 7:
		cl = "plus-minus-one"
		for i := range e {
			e[i] = c.IntN(3) - 1
		}
	case 8:
		cl = "ends"
		e[0], e[1], e[72], e[73] = c.IntN(11)-5, c.IntN(11)-5, c.IntN(11)-5, c.IntN(11)-5
	default:
		cl = "random"
		for i := range e {
			e[i] = c.IntN(11) - 5
		}
	}
	return e, cl
}

// cKey encodes exponents (even index: high nibble).
func cKey(e [74]int) []byte {
	b := make([]byte, 37)
	for i, v := range e {
		if i%2 == 0 {
			b[i/2] |= byte(v&15) << 4
		} else {
			b[i/2] |= byte(v & 15)
		}
	}
	return b
}

func cNeg(e [74]int) [74]int {
	for i := range e {
		e[i] = -e[i]
	}
	return e
}

func cPrv(c *mon.Case, e [74]int) *csidh.PrivateKey {
	var k csidh.PrivateKey
	c.Check(k.Import(cKey(e)), "import", "private key import refused")
	return &k
}

func cPub(c *mon.Case, b []byte) *csidh.PublicKey {
	var k csidh.PublicKey
	c.Check(k.Import(b), "import", "public key import refused")
	return &k
}

func cExport(k *csidh.PublicKey) []byte {
	b := make([]byte, 64)
	if !k.Export(b) {
		panic("export refused")
	}
	return b
}

// cRng is an ordinary deterministic source with a bound on its use.
func cRng(c *mon.Case) *mon.Reader {
	r := mon.NewReader(mon.NewRand(c.Uint64(), "csidh-rng", 0))
	r.Limit = 1 << 21
	return r
}

// hostileRng makes a source whose first outputs are bad points of the curve A: points of
// small order, rejected values, repetitions.
func hostileRng(c *mon.Case, A *big.Int) (*mon.Reader, string) {
	r := cRng(c)
	what := ""
	var q []byte
	for i := 1 + c.IntN(8); i > 0; i-- {
		var b []byte
		switch c.IntN(9) {
		case 0:
			b = make([]byte, 64)
			what += "0 "
		case 1:
			b = ref.CsidhEncode(big.NewInt(1))
			what += "1 "
		case 2:
			b = ref.CsidhEncode(new(big.Int).Sub(ref.CP, big.NewInt(1)))
			what += "-1 "
		case 3:
			b = bytes.Repeat([]byte{255}, 64)
			what += "max "
		case 4:
			b = ref.LeBytes(ref.CP, 64)
			what += "p "
		case 5:
			x := new(big.Int).Sub(ref.CP, big.NewInt(1))
			b = ref.LeBytes(x, 64)
			b[63] |= byte(c.IntN(2)) << 7
			what += "p-1 "
		case 6:
			b = c.Bytes(64)
			q = append(q, b...)
			what += "twice "
		default:
			// order dividing m
			m := []int64{1}
			for j := 1 + c.IntN(4); j > 0; j-- {
				m = append(m, ref.CsidhPrimes[c.IntN(74)])
			}
			x, ok := ref.CsidhSmallPoint(A, m, c.Rand)
			if !ok {
				continue
			}
			b = ref.CsidhEncode(x)
			what += fmt.Sprintf("order%v ", m)
		}
		q = append(q, b...)
	}
	r.Src = q
	return r, what
}

func init() {
	// ---------------------------------------------------------------- C14
	mon.Register("C14", "public-key", 96, 6000, func(c *mon.Case) {
		e, cl := cExps(c)
		prv := cPrv(c, e)
		var pub csidh.PublicKey
		if c.IntN(2) == 0 {
			pub.Import(c.Bytes(64)) // a used object
		}
		var rng io.Reader
		what := "plain"
		if c.IntN(2) == 0 {
			rng, what = hostileRng(c, new(big.Int))
		} else {
			rng = cRng(c)
		}
		csidh.GeneratePublicKey(&pub, prv, rng)
		got := cExport(&pub)
		want := ref.CsidhEncode(ref.CsidhAction(new(big.Int), e, c.Rand))
		c.Check(bytes.Equal(got, want), "public-key", "private key %x (%s), random source %q: public key %x, class group action gives %x", cKey(e), cl, what, got, want)
		c.Count("public-keys", 1)
		c.Count("key-class:"+cl, 1)
		c.Key(cKey(e), what)
		c.Sample("e=%v rng=%s -> %x", e, what, got[:16])
	})
	mon.Register("C14", "curve-ref", 64, 4000, func(c *mon.Case) {
		// start from another curve
		e0, _ := cExps(c)
		e, cl := cExps(c)
		var start csidh.PublicKey
		csidh.GeneratePublicKey(&start, cPrv(c, e0), cRng(c))
		sb := cExport(&start)
		A := ref.CsidhDecode(sb)
		rng, what := hostileRng(c, A)
		var ss [64]byte
		c.Fill(ss[:])
		ok := csidh.DeriveSecret(&ss, &start, cPrv(c, e), rng)
		want := ref.CsidhEncode(ref.CsidhAction(A, e, c.Rand))
		c.Check(ok && bytes.Equal(ss[:], want), "shared-secret", "curve %x, key %x (%s), random source %q: ok=%v secret %x, class group action gives %x", sb, cKey(e), cl, what, ok, ss, want)
		c.Check(bytes.Equal(cExport(&start), sb), "key-changed", "peer key changed by DeriveSecret")
		c.Count("secrets", 1)
		c.Key(cKey(e0), cKey(e), what)
		c.Sample("A=%x.. e=%v rng=%s -> %x", sb[:8], e, what, ss[:16])
	})
	mon.Register("C14", "algebra", 64, 6000, func(c *mon.Case) {
		ea, ca := cExps(c)
		eb, cb := cExps(c)
		a, b := cPrv(c, ea), cPrv(c, eb)
		src := func(A *big.Int) (io.Reader, string) {
			if c.IntN(2) == 0 {
				return hostileRng(c, A)
			}
			return cRng(c), "plain"
		}
		var pa, pb csidh.PublicKey
		r1, w1 := src(new(big.Int))
		csidh.GeneratePublicKey(&pa, a, r1)
		r2, w2 := src(new(big.Int))
		csidh.GeneratePublicKey(&pb, b, r2)
		A, B := cExport(&pa), cExport(&pb)
		var s1, s2 [64]byte
		r3, w3 := src(ref.CsidhDecode(B))
		ok1 := csidh.DeriveSecret(&s1, &pb, a, r3)
		r4, w4 := src(ref.CsidhDecode(A))
		ok2 := csidh.DeriveSecret(&s2, &pa, b, r4)
		c.Check(ok1 && ok2 && s1 == s2, "agreement", "keys %x (%s) and %x (%s), sources %q %q %q %q: %v %x, %v %x", cKey(ea), ca, cKey(eb), cb, w1, w2, w3, w4, ok1, s1, ok2, s2)
		// the negated key gives the twist, and undoes the action
		var pn csidh.PublicKey
		csidh.GeneratePublicKey(&pn, cPrv(c, cNeg(ea)), cRng(c))
		neg := new(big.Int).Neg(ref.CsidhDecode(A))
		c.Check(bytes.Equal(cExport(&pn), ref.CsidhEncode(neg.Mod(neg, ref.CP))), "twist", "key %x: the negated key does not give the quadratic twist", cKey(ea))
		var s3 [64]byte
		ok3 := csidh.DeriveSecret(&s3, cPub(c, s1[:]), cPrv(c, cNeg(ea)), cRng(c))
		c.Check(ok3 && bytes.Equal(s3[:], B), "inverse", "keys %x, %x: applying the negated key to the shared secret gives %v %x, want %x", cKey(ea), cKey(eb), ok3, s3, B)
		c.Check(ref.LeInt(A).Cmp(ref.CP) < 0 && ref.LeInt(s1[:]).Cmp(ref.CP) < 0, "not-reduced", "outputs are not reduced: %x %x", A, s1)
		c.Count("exchanges", 1)
		c.Key(cKey(ea), cKey(eb))
		c.Sample("%x x %x -> %x", cKey(ea), cKey(eb), s1[:16])
	})
	// the same operation with many random sources
	mon.Register("C14", "rng-independent", 24, 2000, func(c *mon.Case) {
		e, cl := cExps(c)
		prv := cPrv(c, e)
		var first []byte
		for i := 0; i < 4; i++ {
			rng, what := hostileRng(c, new(big.Int))
			var pub csidh.PublicKey
			csidh.GeneratePublicKey(&pub, prv, rng)
			b := cExport(&pub)
			if first == nil {
				first = b
			}
			c.Check(bytes.Equal(b, first), "rng-dependent", "key %x (%s): source %q gives %x, another one %x", cKey(e), cl, what, b, first)
			c.Eval(1)
			c.Key(cKey(e), what)
		}
		c.Count("repeated-actions", 4)
	})

	// ---------------------------------------------------------------- C15
	mon.Register("C15", "encodings", 1600, 120000, func(c *mon.Case) {
		b, cl, hint := curveEnc(c)
		x := ref.LeInt(b)
		want := false
		if x.Cmp(ref.CP) < 0 {
			A := ref.CsidhDecode(b)
			if hint != nil {
				want = *hint
			} else {
				want = ref.CsidhSupersingular(A, c.Rand)
			}
		}
		pub := cPub(c, b)
		var rng *mon.Reader
		what := "plain"
		if c.IntN(2) == 0 {
			rng, what = hostileRng(c, ref.CsidhDecode(b))
		} else {
			rng = cRng(c)
		}
		got := csidh.Validate(pub, rng)
		c.Check(got == want, "validate", "public key %x (%s), random source %q: Validate gives %v, the curve is acceptable: %v", b, cl, what, got, want)
		c.Check(bytes.Equal(cExport(pub), b), "key-changed", "Validate changed the public key %x", b)
		if !want || c.IntN(16) == 0 {
			e, _ := cExps(c)
			out := mon.NewCanary(64, 0)
			var ss [64]byte
			copy(ss[:], out.Win())
			ok := csidh.DeriveSecret(&ss, pub, cPrv(c, e), cRng(c))
			c.Check(ok == want, "derive-validates", "public key %x (%s): DeriveSecret reports %v", b, cl, ok)
			if !want {
				c.Check(bytes.Equal(ss[:], out.Win()), "output-touched", "public key %x (%s): DeriveSecret fails but changes the output to %x", b, cl, ss)
			}
		}
		c.Count("class:"+cl, 1)
		if want {
			c.Count("accepted", 1)
		} else {
			c.Count("refused", 1)
		}
		c.Key(b, what)
		c.Sample("%s %x rng=%s -> %v", cl, b, what, got)
	})
	mon.Register("C15", "many-sources", 120, 8000, func(c *mon.Case) {
		b, cl, hint := curveEnc(c)
		if hint == nil {
			v := ref.LeInt(b).Cmp(ref.CP) < 0 && ref.CsidhSupersingular(ref.CsidhDecode(b), c.Rand)
			hint = &v
		}
		pub := cPub(c, b)
		for i := 0; i < 6; i++ {
			rng, what := hostileRng(c, ref.CsidhDecode(b))
			got := csidh.Validate(pub, rng)
			c.Check(got == *hint, "rng-dependent", "public key %x (%s), random source %q: Validate gives %v", b, cl, what, got)
			c.Key(b, what)
			c.Eval(1)
		}
		c.Count("repeated-validations", 6)
	})

	mon.Register("C15", "point-flood", 24, 800, func(c *mon.Case) {
		// the source yields the same bad points again and again, before useful ones
		A, x := threeTorsion(c)
		k, cl := 160+c.IntN(60), "order3"
		if c.IntN(2) == 0 {
			k = 330 + c.IntN(40)
		}
		switch c.IntN(4) {
		case 0: // on a supersingular curve
			var e [74]int
			for i := 1 + c.IntN(3); i > 0; i-- {
				e[c.IntN(30)] = 2*c.IntN(2) - 1
			}
			var pub csidh.PublicKey
			csidh.GeneratePublicKey(&pub, cPrv(c, e), cRng(c))
			A = ref.CsidhDecode(cExport(&pub))
			m := []int64{1}
			for j := 1 + c.IntN(6); j > 0; j-- {
				m = append(m, ref.CsidhPrimes[c.IntN(74)])
			}
			y, ok := ref.CsidhSmallPoint(A, m, c.Rand)
			if !ok {
				return
			}
			x, k, cl = y, 1+c.IntN(120), fmt.Sprint("order", m)
		case 1:
			x, k, cl = big.NewInt(int64(c.IntN(3)-1)), 1+c.IntN(60), "order2or4"
			x.Mod(x, ref.CP)
		}
		want := ref.CsidhSupersingular(A, c.Rand)
		r := cRng(c)
		r.Src = bytes.Repeat(ref.CsidhEncode(x), k)
		got := csidh.Validate(cPub(c, ref.CsidhEncode(A)), r)
		c.Check(got == want, "rng-dependent", "public key %x, %d points with x=%x (%s) from the source: Validate gives %v", ref.CsidhEncode(A), k, x, cl, got)
		c.Count(fmt.Sprintf("flooded:%v", want), 1)
		c.Count("bad-points", k)
		c.Key(A.Bytes(), k)
		c.Sample("A=%x flooded by %d points of %s -> %v", A, k, cl, got)
	})

	// ---------------------------------------------------------------- C16
	mon.Register("C16", "sampling", 4000, 400000, func(c *mon.Case) {
		r := mon.NewReader(c.Rand)
		r.Record = true
		r.Limit = 1 << 20
		if c.IntN(2) == 0 {
			r.MaxChunk = 1 + c.IntN(70)
		}
		cl := "random"
		switch c.IntN(6) {
		case 0:
			cl = "edges" // many bytes at the limits of the range
			r.Src = make([]byte, 2048)
			for i := range r.Src {
				r.Src[i] = []byte{5, 251, 6, 250, 0, 255, 1, 128, 127, 16, 0x15, 0xf5}[c.IntN(12)]
			}
		case 1:
			cl = "all-accepted"
			r.Src = make([]byte, 128)
			for i := range r.Src {
				r.Src[i] = byte(c.IntN(11) - 5)
			}
		case 2:
			cl = "rejected-first"
			r.Src = bytes.Repeat([]byte{byte(6 + c.IntN(240))}, 64*(1+c.IntN(20)))
		}
		var k csidh.PrivateKey
		if c.IntN(2) == 0 {
			k.Import(c.Bytes(37))
		}
		err := csidh.GeneratePrivateKey(&k, r)
		c.Check(err == nil, "keygen-error", "%v", err)
		got := make([]byte, 37)
		c.Check(k.Export(got), "export", "Export refused")
		e := ref.CsidhExps(got)
		for i, v := range e {
			c.Check(v >= -5 && v <= 5, "out-of-range", "exponent %d is %d (key %x)", i, v, got)
		}
		// rejection sampling: the accepted bytes of the source in order (two exponents
		// share a byte; which half comes first is not observable by users)
		var acc []int
		for _, b := range r.Rec {
			if v := int(int8(b)); v >= -5 && v <= 5 && len(acc) < 74 {
				acc = append(acc, v)
			}
		}
		c.Check(len(acc) == 74, "sampling", "key produced from only %d acceptable bytes of the source", len(acc))
		same, swapped := true, true
		for i := range acc {
			same = same && e[i] == acc[i]
			swapped = swapped && e[i^1] == acc[i]
		}
		c.Check(same || swapped, "sampling", "exponents %v are not the acceptable bytes %v of the source (%s)", e, acc, cl)
		c.Count("keys:"+cl, 1)
		c.Key(got)
		c.Sample("%s -> %v", cl, e)
	})
	mon.Register("C16", "rng-fault", 1500, 100000, func(c *mon.Case) {
		r := mon.NewReader(c.Rand)
		r.Limit = 1 << 20
		r.ErrWithData = c.IntN(2) == 0
		if c.IntN(2) == 0 {
			r.MaxChunk = 1 + c.IntN(70)
		}
		r.Err = pickErr(c)
		switch op := c.IntN(8); op {
		default: // private key
			r.Record = true
			r.FailAfter = c.IntN(1200)
			var k csidh.PrivateKey
			var err error
			if v := mon.Panics(func() { err = csidh.GeneratePrivateKey(&k, r) }); v != nil {
				if _, bad := v.(mon.TooMuch); bad {
					c.Fail("no-progress", "GeneratePrivateKey keeps reading a source that fails (%v) after %d bytes", r.Err, r.FailAfter)
				}
				c.Fail("panic", "GeneratePrivateKey: %v", v)
			}
			c.Check(err != nil || !r.Failed, "rng-failure-hidden", "GeneratePrivateKey reports success, a read of it failed (%v) after %d bytes", r.Err, r.FailAfter)
			n := 0
			for _, b := range r.Rec {
				if v := int8(b); v >= -5 && v <= 5 {
					n++
				}
			}
			c.Check(err != nil || n >= 74, "rng-failure-hidden", "GeneratePrivateKey reports success, the source failed (%v) after %d bytes (%d usable)", r.Err, r.FailAfter, n)
			c.Count("faults:GeneratePrivateKey", 1)
			c.Key("prv", r.FailAfter, r.MaxChunk)
		case 0, 1, 2: // the other operations have no error result: they must not return normally
			r.FailAfter = c.IntN(64 * 6)
			if c.IntN(3) == 0 {
				r.FailAfter = c.IntN(64)
			}
			var e [74]int
			e[c.IntN(74)] = c.IntN(11) - 5
			e[c.IntN(10)] = 1
			prv := cPrv(c, e)
			name := []string{"GeneratePublicKey", "Validate", "DeriveSecret"}[op]
			ok := false
			v := mon.Panics(func() {
				switch op {
				case 0:
					var pub csidh.PublicKey
					csidh.GeneratePublicKey(&pub, prv, r)
					ok = true
				case 1:
					ok = csidh.Validate(cPub(c, make([]byte, 64)), r)
				case 2:
					var ss [64]byte
					ok = csidh.DeriveSecret(&ss, cPub(c, make([]byte, 64)), prv, r)
				}
			})
			if _, bad := v.(mon.TooMuch); bad {
				c.Fail("no-progress", "%s keeps reading a source that fails", name)
			}
			c.Check(!(r.Failed && v == nil && ok), "rng-failure-hidden", "%s reports success although the source failed (%v) after %d bytes", name, r.Err, r.FailAfter)
			if r.Failed {
				c.Count("faults:"+name, 1)
			}
			c.Key(name, r.FailAfter, r.MaxChunk)
			c.Sample("%s fails after %d bytes: %v", name, r.FailAfter, v)
		}
	})
	mon.Register("C16", "codec-history", 4000, 400000, func(c *mon.Case) {
		var prv csidh.PrivateKey
		var pub csidh.PublicKey
		var mprv, mpub []byte
		tr := ""
		for i, n := 0, 2+c.IntN(8); i < n; i++ {
			switch c.IntN(6) {
			case 0, 1:
				b := c.Bytes(64)
				switch c.IntN(4) {
				case 0:
					b[63] &= 0x3f
				case 1:
					b = make([]byte, 64)
					b[c.IntN(64)] = byte(c.Uint32())
				}
				in := append([]byte{}, b...)
				c.Check(pub.Import(in), "import", "public key of 64 bytes refused")
				c.Check(bytes.Equal(in, b), "input-changed", "Import changed its input")
				for j := range in {
					in[j] ^= 0x3c
				}
				mpub = b
				tr += "P"
			case 2:
				e, _ := cExps(c)
				b := cKey(e)
				in := append([]byte{}, b...)
				c.Check(prv.Import(in), "import", "private key of 37 bytes refused")
				c.Check(bytes.Equal(in, b), "input-changed", "Import changed its input")
				for j := range in {
					in[j] ^= 0x3c
				}
				mprv = b
				tr += "K"
			case 3: // wrong sizes
				l := []int{0, 1, 36, 38, 63, 65, 64, 37, 128, c.IntN(200)}[c.IntN(10)]
				in := make([]byte, l, l+c.IntN(2)*200)
				c.Fill(in)
				if l != 64 {
					c.Check(!pub.Import(in), "wrong-size-accepted", "public key of %d bytes accepted", l)
				}
				if l != 37 {
					c.Check(!prv.Import(in), "wrong-size-accepted", "private key of %d bytes accepted", l)
				}
				tr += "w"
				c.Count("wrong-sizes", 1)
			case 4: // export into other sizes
				l := []int{0, 1, 36, 38, 63, 65, 64, 37, 128, c.IntN(200)}[c.IntN(10)]
				cn := mon.NewCanary(l, 100)
				w := cn.Win()
				ok := prv.Export(w)
				if l < 37 {
					c.Check(!ok, "wrong-size-accepted", "private key exported into %d bytes", l)
				} else if l == 37 {
					c.Check(ok, "export", "export into 37 bytes refused")
				}
				hi := 0
				if ok {
					hi = 37
				}
				if err := cn.Broken(0, hi); err != nil {
					c.Fail("export-overrun", "private key export: %v", err)
				}
				cn = mon.NewCanary(l, 100)
				ok = pub.Export(cn.Win())
				c.Check(ok == (l == 64), "wrong-size-accepted", "public key export into %d bytes: %v", l, ok)
				hi = 0
				if ok {
					hi = 64
				}
				if err := cn.Broken(0, hi); err != nil {
					c.Fail("export-overrun", "public key export: %v", err)
				}
				tr += "e"
			case 5:
				r := cRng(c)
				c.Check(csidh.GeneratePrivateKey(&prv, r) == nil, "keygen-error", "")
				mprv = make([]byte, 37)
				prv.Export(mprv)
				tr += "G"
			}
			if mpub != nil {
				c.Check(bytes.Equal(cExport(&pub), mpub), "public-key-codec", "step %d (%s): exports %x, imported %x", i, tr, cExport(&pub), mpub)
			}
			if mprv != nil {
				got := make([]byte, 37)
				c.Check(prv.Export(got) && bytes.Equal(got, mprv), "private-key-codec", "step %d (%s): exports %x, imported %x", i, tr, got, mprv)
			}
			c.Eval(1)
		}
		c.Key(tr, mpub, mprv)
		c.Sample("%s", tr)
	})
	mon.Register("C16", "reduced", 24, 1500, func(c *mon.Case) {
		// generated keys are reduced and act the same after a round trip into used objects
		e, _ := cExps(c)
		prv := cPrv(c, e)
		var pub, pub2 csidh.PublicKey
		csidh.GeneratePublicKey(&pub, prv, cRng(c))
		b := cExport(&pub)
		c.Check(ref.LeInt(b).Cmp(ref.CP) < 0, "not-reduced", "key %x: public key %x is not reduced", cKey(e), b)
		var prv2 csidh.PrivateKey
		prv2.Import(c.Bytes(37))
		pub2.Import(c.Bytes(64))
		kb := make([]byte, 37)
		prv.Export(kb)
		prv2.Import(kb)
		pub2.Import(b)
		e2, _ := cExps(c)
		o := cPrv(c, e2)
		var s1, s2, s3 [64]byte
		ok1 := csidh.DeriveSecret(&s1, &pub, o, cRng(c))
		ok2 := csidh.DeriveSecret(&s2, &pub2, o, cRng(c))
		c.Check(ok1 && ok2 && s1 == s2, "imported-public-key", "re-imported public key %x acts differently", b)
		var po csidh.PublicKey
		csidh.GeneratePublicKey(&po, o, cRng(c))
		ok3 := csidh.DeriveSecret(&s3, &po, &prv2, cRng(c))
		c.Check(ok3 && s3 == s1, "imported-private-key", "re-imported private key %x acts differently", kb)
		c.Key(kb, cKey(e2))
		c.Count("round-trips", 1)
	})
}

// threeTorsion makes a curve coefficient (of an ordinary curve, almost surely) and the
// x-coordinate of a point of order 3 on it or on its twist.
func threeTorsion(c *mon.Case) (A, x *big.Int) {
	x = new(big.Int).SetBytes(c.Bytes(70))
	x.Mod(x, ref.CP)
	if x.Sign() == 0 {
		x.SetInt64(1)
	}
	x2 := new(big.Int).Mul(x, x)
	x4 := new(big.Int).Mul(x2, x2)
	n := new(big.Int).Sub(big.NewInt(1), x2.Mul(x2, big.NewInt(6)))
	n.Sub(n, x4.Mul(x4, big.NewInt(3)))
	x3 := new(big.Int).Exp(x, big.NewInt(3), ref.CP)
	x3.Mul(x3, big.NewInt(4)).ModInverse(x3.Mod(x3, ref.CP), ref.CP)
	n.Mul(n, x3).Mod(n, ref.CP)
	return n, x
}

// curveEnc makes a public key encoding; hint tells whether it is acceptable when known by
// construction.
func curveEnc(c *mon.Case) (b []byte, class string, hint *bool) {
	yes, no := true, false
	one := big.NewInt(1)
	honest := func() *big.Int {
		var e [74]int
		for i := 1 + c.IntN(3); i > 0; i-- {
			e[c.IntN(30)] = 2*c.IntN(2) - 1
		}
		var pub csidh.PublicKey
		csidh.GeneratePublicKey(&pub, cPrv(c, e), cRng(c))
		return ref.CsidhDecode(cExport(&pub))
	}
	neg := func(x *big.Int) *big.Int { x = new(big.Int).Neg(x); return x.Mod(x, ref.CP) }
	top := new(big.Int).Lsh(one, 512)
	switch c.IntN(14) {
	case 0:
		return ref.CsidhEncode(new(big.Int)), "zero", &yes
	case 1, 2:
		return ref.CsidhEncode(honest()), "honest", nil
	case 3:
		return ref.CsidhEncode(neg(honest())), "twist-of-honest", nil
	case 4: // not reduced, by every multiple of p that fits into 512 bits
		k := int64(1 + c.IntN(2))
		for i := 0; i < 8; i++ {
			x := ref.LeInt(ref.CsidhEncode(honest()))
			if c.IntN(8) == 0 {
				x.SetInt64(0)
			}
			x.Add(x, new(big.Int).Mul(big.NewInt(k), ref.CP))
			if x.Cmp(top) < 0 {
				return ref.LeBytes(x, 64), fmt.Sprintf("honest-plus-%dp", k), &no
			}
		}
		return ref.LeBytes(ref.CP, 64), "p", &no
	case 5:
		x := new(big.Int).Add(ref.CP, big.NewInt(int64(c.IntN(4))))
		return ref.LeBytes(x, 64), "p-and-above", &no
	case 6:
		x := new(big.Int).Sub(ref.CP, big.NewInt(1+int64(c.IntN(4))))
		return ref.LeBytes(x, 64), "just-below-p", nil
	case 7:
		x := new(big.Int).Sub(top, big.NewInt(1+int64(c.IntN(4))))
		return ref.LeBytes(x, 64), "top", &no
	case 8:
		A := big.NewInt(2)
		if c.IntN(2) == 0 {
			A = neg(A)
		}
		b := ref.CsidhEncode(A)
		if c.IntN(3) == 0 {
			return ref.LeBytes(new(big.Int).Add(ref.LeInt(b), ref.CP), 64), "singular-plus-p", &no
		}
		return b, "singular", &no
	case 9:
		A := big.NewInt(int64(c.IntN(40)))
		if c.IntN(2) == 0 {
			A = neg(A)
		}
		return ref.CsidhEncode(A), "small", nil
	case 10: // honest with one bit changed
		b := ref.CsidhEncode(honest())
		b[c.IntN(64)] ^= byte(1 << c.IntN(8))
		return b, "bit-flipped", nil
	case 11: // an ordinary curve with a rational 3-torsion x-coordinate
		A, _ := threeTorsion(c)
		return ref.CsidhEncode(A), "three-torsion", nil
	case 12: // between p and 2^511, and above
		x := new(big.Int).SetBytes(c.Bytes(64))
		if x.Cmp(ref.CP) < 0 {
			x.Add(x, ref.CP)
			if x.Cmp(top) >= 0 {
				x.SetBit(ref.CP, 0, 0)
			}
		}
		if x.Cmp(ref.CP) < 0 {
			return ref.LeBytes(ref.CP, 64), "p", &no
		}
		return ref.LeBytes(x, 64), "random-not-reduced", &no
	}
	x := new(big.Int).SetBytes(c.Bytes(70))
	return ref.LeBytes(x.Mod(x, ref.CP), 64), "random", nil
}
