package bb

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"sync"

	"github.com/henrydcase/nobs/dh/sidh"

	"vharness/mon"
	"vharness/ref"
)

// kemAPI is what sidh.KEM and mkem.KEM have in common.
type kemAPI interface {
	Allocate(id uint8, rng io.Reader)
	Encapsulate(ct, ss []byte, pub *sidh.PublicKey) error
	Decapsulate(ss []byte, prv *sidh.PrivateKey, pub *sidh.PublicKey, ct []byte) error
	Reset()
	CiphertextSize() int
	SharedSecretSize() int
}

type kemImpl struct {
	name  string
	fresh func() kemAPI
	mk    func(id uint8, rng io.Reader) kemAPI // through the constructors
}

var kemImpls = []kemImpl{{"sidh", func() kemAPI { return new(sidh.KEM) }, func(id uint8, rng io.Reader) kemAPI {
	switch id {
	case sidh.Fp434:
		return sidh.NewSike434(rng)
	case sidh.Fp503:
		return sidh.NewSike503(rng)
	}
	return sidh.NewSike751(rng)
}}}

func pickKem(c *mon.Case) kemImpl { return kemImpls[c.IntN(len(kemImpls))] }

func newKem(c *mon.Case, im kemImpl, id uint8, rng io.Reader) kemAPI {
	if c.IntN(2) == 0 {
		return im.mk(id, rng)
	}
	k := im.fresh()
	k.Allocate(id, rng)
	return k
}

const (
	varA    = sidh.KeyVariantSidhA
	varB    = sidh.KeyVariant(sidh.KeyVariantSidhB)
	varSike = sidh.KeyVariant(sidh.KeyVariantSike)
)

func varName(v sidh.KeyVariant) string {
	return map[sidh.KeyVariant]string{varA: "A", varB: "B", varSike: "SIKE"}[v]
}

// pset chooses a parameter set, biased to the cheap one.
func pset(c *mon.Case) *ref.SidhParams {
	switch x := c.IntN(10); {
	case x < 5:
		return ref.Sidh[0]
	case x < 8:
		return ref.Sidh[1]
	}
	return ref.Sidh[2]
}

func sbits(p *ref.SidhParams, v sidh.KeyVariant) (bits, n int) {
	if v == varA {
		return p.ABits, p.ABytes
	}
	return p.BBits, p.BBytes
}

// scalarOf makes a private scalar below 2^bits of some class.
func scalarOf(c *mon.Case, bits, n int) ([]byte, string) {
	x := new(big.Int)
	one := big.NewInt(1)
	top := new(big.Int).Lsh(one, uint(bits))
	full := new(big.Int).Sub(top, one)
	rnd := new(big.Int).SetBytes(c.Bytes(n))
	rnd.And(rnd, full)
	cl := "random"
	switch c.IntN(14) {
	case 0:
		cl = "zero"
	case 1:
		cl = "one"
		x.Set(one)
	case 2:
		cl = "all-ones"
		x.Set(full)
	case 3:
		cl = "top-bit-only"
		x.Lsh(one, uint(bits-1))
	case 4:
		cl = "single-bit"
		x.Lsh(one, uint(c.IntN(bits)))
	case 5:
		cl = "single-zero-bit"
		x.Xor(full, new(big.Int).Lsh(one, uint(c.IntN(bits))))
	case 6:
		cl = "alternating"
		for i := c.IntN(2); i < bits; i += 2 {
			x.SetBit(x, i, 1)
		}
	case 7:
		cl = "runs"
		for i := 0; i < bits; {
			l := 1 + c.IntN(70)
			b := uint(c.IntN(2))
			for j := 0; j < l && i < bits; j++ {
				x.SetBit(x, i, b)
				i++
			}
		}
	case 8:
		cl = "small"
		x.SetUint64(uint64(c.Uint32()))
	case 9:
		cl = "big"
		x.Sub(full, new(big.Int).SetUint64(uint64(c.Uint32())))
	default:
		x = rnd
	}
	return ref.LeBytes(x, n), cl
}

func mkPrv(c *mon.Case, p *ref.SidhParams, v sidh.KeyVariant, scalar, s []byte) *sidh.PrivateKey {
	k := sidh.NewPrivateKey(p.ID, v)
	in := append(append([]byte{}, s...), scalar...)
	if err := k.Import(in); err != nil {
		c.Fail("import", "%s %s: importing %d private key bytes: %v", p.Name, varName(v), len(in), err)
	}
	return k
}

func mkPub(c *mon.Case, p *ref.SidhParams, v sidh.KeyVariant, b []byte) *sidh.PublicKey {
	k := sidh.NewPublicKey(p.ID, v)
	if err := k.Import(b); err != nil {
		c.Fail("import", "%s %s: importing %d public key bytes: %v", p.Name, varName(v), len(b), err)
	}
	return k
}

func pubBytes(p *ref.SidhParams, k *sidh.PublicKey) []byte {
	b := make([]byte, p.PkLen())
	k.Export(b)
	return b
}

func genPub(p *ref.SidhParams, prv *sidh.PrivateKey) *sidh.PublicKey {
	k := sidh.NewPublicKey(p.ID, prv.KeyVariant)
	prv.GeneratePublicKey(k)
	return k
}

func derive(p *ref.SidhParams, prv *sidh.PrivateKey, pub *sidh.PublicKey) []byte {
	ss := make([]byte, p.SsLen())
	prv.DeriveSecret(ss, pub)
	return ss
}

// pubFor makes the public key of a scalar with the library (C08 checks it against the
// reference).
func pubFor(c *mon.Case, p *ref.SidhParams, v sidh.KeyVariant, scalar []byte) []byte {
	var s []byte
	if v == varSike {
		s = make([]byte, p.MsgLen)
	}
	return pubBytes(p, genPub(p, mkPrv(c, p, v, scalar, s)))
}

// sikePair is a SIKE key pair.
type sikePair struct {
	sc, s, pk []byte
	prv       *sidh.PrivateKey
	pub       *sidh.PublicKey
}

func newPair(c *mon.Case, p *ref.SidhParams) *sikePair {
	r := &sikePair{}
	r.sc, _ = scalarOf(c, p.BBits, p.BBytes)
	r.s = pat(c, p.MsgLen)
	r.prv = mkPrv(c, p, varSike, r.sc, r.s)
	r.pub = genPub(p, r.prv)
	r.pk = pubBytes(p, r.pub)
	return r
}

// flatReader serves bytes from a queue, then fails.
type queueReader struct {
	q    []byte
	over int
}

func (q *queueReader) Read(b []byte) (int, error) {
	n := copy(b, q.q)
	q.q = q.q[n:]
	if n == 0 && len(b) > 0 {
		q.over++
		return 0, io.EOF
	}
	return n, nil
}

// refusedKemCall makes one call that is refused (wrong sizes, wrong keys) or fails (no random bytes). C12 and C13 decide whether it
// is; what matters here is what comes after it.
func refusedKemCall(c *mon.Case, p *ref.SidhParams, k kemAPI, q *queueReader, kp *sikePair, ct []byte) string {
	over := q.over
	defer func() { q.q, q.over = nil, over }()
	ss, x := make([]byte, p.KemSize), make([]byte, p.CtLen())
	q.q = c.Bytes(p.MsgLen)
	w := c.IntN(8)
	mon.Panics(func() {
		switch w {
		case 0:
			q.q = q.q[:c.IntN(p.MsgLen)]
			k.Encapsulate(x, ss, kp.pub)
		case 1:
			k.Encapsulate(x, ss[:c.IntN(p.KemSize):p.KemSize], kp.pub)
		case 2:
			n := c.IntN(p.CtLen())
			k.Encapsulate(x[:n:n], ss, kp.pub)
		case 3:
			k.Encapsulate(x, ss, sidh.NewPublicKey(p.ID, varB))
		case 4:
			n := c.IntN(p.CtLen())
			k.Decapsulate(ss, kp.prv, kp.pub, ct[:n:n])
		case 5:
			n := c.IntN(p.KemSize)
			k.Decapsulate(ss[:n:n], kp.prv, kp.pub, append([]byte{}, ct...))
		case 7:
			k.Encapsulate(x, ss, sidh.NewPublicKey((p.ID+1+uint8(c.IntN(2)))%3, varSike))
		case 6:
			id := (p.ID + 1) % 3
			k.Decapsulate(ss, sidh.NewPrivateKey(id, varSike), sidh.NewPublicKey(id, varSike), append([]byte{}, ct...))
		}
	})
	return fmt.Sprintf("!%d", w)
}

// bothApis runs an operation through the method or through the alternative function.
func genPriv(c *mon.Case, k *sidh.PrivateKey, rng io.Reader) (err error, api string) {
	if c.IntN(3) == 0 {
		return callGenerate(k, rng), "GeneratePrivateKey"
	}
	return k.Generate(rng), "Generate"
}

// callGenerate copes with both the historical (no result) and the error-returning form.
func callGenerate(k *sidh.PrivateKey, rng io.Reader) error {
	switch f := interface{}(sidh.GeneratePrivateKey).(type) {
	case func(*sidh.PrivateKey, io.Reader) error:
		return f(k, rng)
	case func(*sidh.PrivateKey, io.Reader):
		f(k, rng)
		return nil
	}
	return k.Generate(rng)
}

func init() {
	// ---------------------------------------------------------------- C08
	mon.Register("C08", "public-key", 700, 40000, func(c *mon.Case) {
		p := pset(c)
		v := []sidh.KeyVariant{varA, varB, varSike}[c.IntN(3)]
		bits, n := sbits(p, v)
		sc, cl := scalarOf(c, bits, n)
		if v == varSike {
			// the rejection value must not matter
			_ = cl
		}
		var s []byte
		if v == varSike {
			s = pat(c, p.MsgLen)
		}
		prv := mkPrv(c, p, v, sc, s)
		pub := sidh.NewPublicKey(p.ID, v)
		if c.IntN(2) == 0 { // a used object
			_ = pub.Import(pubFor(c, p, v, sc2(c, bits, n)))
		}
		if c.IntN(2) == 0 {
			prv.GeneratePublicKey(pub)
		} else {
			sidh.GeneratePublicKey(pub, prv)
		}
		got := pubBytes(p, pub)
		want := p.PublicKey(v == varA, sc)
		c.Check(bytes.Equal(got, want), "public-key", "%s %s scalar %x (%s): public key %x, specification %x", p.Name, varName(v), sc, cl, head(got), head(want))
		exp := make([]byte, prv.Size())
		prv.Export(exp)
		c.Check(bytes.Equal(exp, append(append([]byte{}, s...), sc...)), "key-changed", "private key changed by public key generation")
		c.Count("public-keys:"+p.Name+":"+varName(v), 1)
		c.Count("scalar-class:"+cl, 1)
		c.Key(p.Name, int(v&1), sc)
		c.Sample("%s %s scalar %x (%s) -> %x", p.Name, varName(v), sc, cl, got[:16])
	})
	mon.Register("C08", "shared-secret", 500, 30000, func(c *mon.Case) {
		p := pset(c)
		isA := c.IntN(2) == 0
		my, peer := varA, varB
		if !isA {
			my, peer = varB, varA
		}
		if c.IntN(3) == 0 { // SIKE keys take part in SIDH exchanges with A keys
			if isA {
				peer = varSike
			} else {
				my = varSike
			}
		}
		b, n := sbits(p, my)
		sc, cl := scalarOf(c, b, n)
		pb, pn := sbits(p, peer)
		psc, pcl := scalarOf(c, pb, pn)
		ppk := pubFor(c, p, peer, psc)
		var s []byte
		if my == varSike {
			s = pat(c, p.MsgLen)
		}
		prv := mkPrv(c, p, my, sc, s)
		want := p.Secret(isA, sc, ppk)
		pub := mkPub(c, p, peer, ppk)
		ss := make([]byte, p.SsLen())
		if c.IntN(2) == 0 {
			prv.DeriveSecret(ss, pub)
		} else {
			sidh.DeriveSecret(ss, pub, prv)
		}
		c.Check(bytes.Equal(ss, want), "shared-secret", "%s %s scalar %x (%s) with peer %s scalar %x (%s): secret %x, specification %x", p.Name, varName(my), sc, cl, varName(peer), psc, pcl, head(ss), head(want))
		// the other side
		var ps []byte
		if peer == varSike {
			ps = pat(c, p.MsgLen)
		}
		pprv := mkPrv(c, p, peer, psc, ps)
		ss2 := derive(p, pprv, genPub(p, prv))
		c.Check(bytes.Equal(ss, ss2), "agreement", "%s: %x derives %x, %x derives %x", p.Name, sc, head(ss), psc, head(ss2))
		c.Check(bytes.Equal(pubBytes(p, pub), ppk), "key-changed", "peer public key changed by DeriveSecret")
		// twice the same
		c.Check(bytes.Equal(derive(p, prv, pub), want), "repeat", "%s: second derivation differs", p.Name)
		// encodings outside the reduced range
		nr, k := unreduce(c, p, ppk)
		if k > 0 {
			got := derive(p, prv, mkPub(c, p, peer, nr))
			c.Check(bytes.Equal(got, want), "non-reduced-peer", "%s %s: peer key %x (coordinates raised by multiples of p) gives %x, reduced key gives %x", p.Name, varName(my), nr, head(got), head(want))
			c.Count("non-reduced-encodings", 1)
		}
		c.Count("secrets:"+p.Name+":"+varName(my), 1)
		c.Key(p.Name, int(my&1), sc, psc)
		c.Sample("%s %s %x x %s %x -> %x", p.Name, varName(my), sc, varName(peer), psc, ss[:16])
	})
	// Round trips between both sides (no reference): many more scalars.
	mon.Register("C08", "base-curve", 160, 6000, func(c *mon.Case) {
		// the peer's key is a torsion basis of the starting curve, which is defined over the base
		// field: so are some of the resulting curves
		p := pset(c)
		isA := c.IntN(3) == 0
		my, peer := varB, varA
		base := []ref.Fp2{p.PB, p.QB, p.RB}
		if isA {
			my, peer = varA, varB
			base = []ref.Fp2{p.PA, p.QA, p.RA}
		}
		b, n := sbits(p, my)
		sc, cl := scalarOf(c, b, n)
		if c.IntN(3) != 0 {
			sc, cl = make([]byte, n), "zero"
		}
		// (not for A: a kernel containing (0,0), which no honest basis P, Q leads to, is outside the
		// domain of the 4-isogeny formulas)
		if !isA && c.IntN(2) == 0 {
			base[0], base[1] = base[1], base[0]
			cl += "-swapped"
		}
		var ppk []byte
		for _, x := range base {
			ppk = append(append(ppk, ref.LeBytes(x.A, p.Bytes)...), ref.LeBytes(x.B, p.Bytes)...)
		}
		want := p.Secret(isA, sc, ppk)
		prv := mkPrv(c, p, my, sc, nil)
		got := derive(p, prv, mkPub(c, p, peer, ppk))
		c.Check(bytes.Equal(got, want), "shared-secret", "%s %s scalar %x (%s) and a basis of the starting curve: secret %x, specification %x", p.Name, varName(my), sc, cl, got, want)
		nr, k := unreduce(c, p, ppk)
		if k > 0 {
			got := derive(p, prv, mkPub(c, p, peer, nr))
			c.Check(bytes.Equal(got, want), "non-reduced-peer", "%s %s: peer key %x gives %x, reduced key gives %x", p.Name, varName(my), nr, head(got), head(want))
		}
		if ref.LeInt(want[p.Bytes:]).Sign() == 0 {
			c.Count("secret-in-base-field:"+p.Name+":"+varName(my), 1)
		}
		c.Key(p.Name, isA, sc, cl)
		c.Sample("%s %s scalar %x (%s) -> %x", p.Name, varName(my), sc, cl, head(want))
	})
	mon.Register("C08", "agreement", 1200, 80000, func(c *mon.Case) {
		p := pset(c)
		a, ca := scalarOf(c, p.ABits, p.ABytes)
		b, cb := scalarOf(c, p.BBits, p.BBytes)
		pa, pb := mkPrv(c, p, varA, a, nil), mkPrv(c, p, varB, b, nil)
		ka, kb := genPub(p, pa), genPub(p, pb)
		s1, s2 := derive(p, pa, kb), derive(p, pb, ka)
		c.Check(bytes.Equal(s1, s2), "agreement", "%s: A scalar %x (%s), B scalar %x (%s): %x != %x", p.Name, a, ca, b, cb, head(s1), head(s2))
		k2 := mkPub(c, p, varA, pubBytes(p, ka))
		c.Check(bytes.Equal(derive(p, pb, k2), s1), "agreement-after-export", "%s: exported and imported key gives another secret", p.Name)
		c.Count("agreements:"+p.Name, 1)
		c.Key(p.Name, a, b)
	})

	// ---------------------------------------------------------------- C09
	mon.Register("C09", "encaps-decaps", 260, 14000, func(c *mon.Case) {
		p := pset(c)
		im := pickKem(c)
		kp := newPair(c, p)
		m := pat(c, p.MsgLen)
		switch c.IntN(6) {
		case 0:
			m = make([]byte, p.MsgLen)
		case 1:
			for i := range m {
				m[i] = 255
			}
		}
		q := &queueReader{q: append([]byte{}, m...)}
		k := newKem(c, im, p.ID, q)
		c.Check(k.CiphertextSize() == p.CtLen() && k.SharedSecretSize() == p.KemSize, "sizes", "%s %s: CiphertextSize %d SharedSecretSize %d", im.name, p.Name, k.CiphertextSize(), k.SharedSecretSize())
		ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
		err := k.Encapsulate(ct, ss, kp.pub)
		c.Check(err == nil, "encaps-error", "%s %s: %v", im.name, p.Name, err)
		wct, wss := p.SikeEncaps(kp.pk, m)
		c.Check(bytes.Equal(ct, wct), "ciphertext", "%s %s sk %x m %x: ciphertext %x, specification %x", im.name, p.Name, kp.sc, m, ct, wct)
		c.Check(bytes.Equal(ss, wss), "encaps-secret", "%s %s sk %x m %x: secret %x, specification %x", im.name, p.Name, kp.sc, m, ss, wss)
		ss2 := make([]byte, p.KemSize)
		k2 := k
		if c.IntN(2) == 0 {
			k2 = newKem(c, kemImpls[c.IntN(len(kemImpls))], p.ID, q)
		}
		err = k2.Decapsulate(ss2, kp.prv, kp.pub, ct)
		c.Check(err == nil && bytes.Equal(ss2, wss), "decaps", "%s %s sk %x m %x: decapsulated %x err %v, encapsulated %x", im.name, p.Name, kp.sc, m, ss2, err, wss)
		c.Check(bytes.Equal(pubBytes(p, kp.pub), kp.pk) && bytes.Equal(ct, wct), "inputs-changed", "public key or ciphertext changed")
		c.Count("kem:"+im.name+":"+p.Name, 1)
		c.Key(im.name, p.Name, kp.sc, m)
		c.Sample("%s %s m=%x -> ss %x", im.name, p.Name, m, ss)
	})
	mon.Register("C09", "history", 120, 7000, func(c *mon.Case) {
		p := pset(c)
		im := pickKem(c)
		type enc struct {
			kp         *sikePair
			m, ct, ss  []byte
			honestSeen bool
		}
		pairs := []*sikePair{newPair(c, p), newPair(c, p)}
		var pool []*enc
		for i := 0; i < 3; i++ {
			e := &enc{kp: pairs[i%2], m: pat(c, p.MsgLen)}
			e.ct, e.ss = p.SikeEncaps(e.kp.pk, e.m)
			pool = append(pool, e)
		}
		q := &queueReader{}
		k := newKem(c, im, p.ID, q)
		steps := 8 + c.IntN(20)
		trace := ""
		for i := 0; i < steps; i++ {
			e := pool[c.IntN(len(pool))]
			switch op := c.IntN(8); {
			case op == 7: // a call that fails or is refused must not spoil the object
				tr := refusedKemCall(c, p, k, q, e.kp, e.ct)
				c.Logf("%s", tr)
				trace += tr
				c.Count("failed-calls", 1)
			case op < 3: // encapsulate, possibly into oversized buffers
				q.q = append([]byte{}, e.m...)
				ctx, ssx := 0, 0
				if c.IntN(2) == 0 {
					ctx = c.IntN(200)
				}
				if c.IntN(2) == 0 {
					ssx = c.IntN(40)
				}
				ct, ss := mon.NewCanary(p.CtLen()+ctx, 32), mon.NewCanary(p.KemSize+ssx, 32)
				err := k.Encapsulate(ct.Win(), ss.Win(), e.kp.pub)
				c.Logf("Encapsulate(ct+%d, ss+%d)", ctx, ssx)
				trace += fmt.Sprintf("E%v%v", ctx > 0, ssx > 0)
				c.Check(err == nil, "encaps-error", "%s %s: %v", im.name, p.Name, err)
				c.Check(bytes.Equal(ct.Win()[:p.CtLen()], e.ct), "ciphertext-history", "%s %s step %d (buffer %d bytes longer): ciphertext differs from the specification", im.name, p.Name, i, ctx)
				c.Check(bytes.Equal(ss.Win()[:p.KemSize], e.ss), "secret-history", "%s %s step %d (ciphertext buffer %d bytes longer than needed, secret buffer %d): secret %x, specification %x", im.name, p.Name, i, ctx, ssx, ss.Win()[:p.KemSize], e.ss)
				if err := ct.Broken(0, p.CtLen()); err != nil {
					c.Fail("ciphertext-overrun", "%s %s: %v", im.name, p.Name, err)
				}
				if err := ss.Broken(0, p.KemSize); err != nil {
					c.Fail("secret-overrun", "%s %s: %v", im.name, p.Name, err)
				}
				c.Count("encapsulations", 1)
			case op < 5: // decapsulate
				ssx := c.IntN(2) * c.IntN(40)
				ss := mon.NewCanary(p.KemSize+ssx, 32)
				err := k.Decapsulate(ss.Win(), e.kp.prv, e.kp.pub, append([]byte{}, e.ct...))
				c.Logf("Decapsulate(ss+%d)", ssx)
				trace += "D"
				c.Check(err == nil && bytes.Equal(ss.Win()[:p.KemSize], e.ss), "decaps-history", "%s %s step %d: decapsulated %x err %v, want %x", im.name, p.Name, i, ss.Win()[:p.KemSize], err, e.ss)
				if err := ss.Broken(0, p.KemSize); err != nil {
					c.Fail("secret-overrun", "%s %s: %v", im.name, p.Name, err)
				}
				c.Count("decapsulations", 1)
			case op == 5: // an altered ciphertext in between
				ct := append([]byte{}, e.ct...)
				ct[c.IntN(len(ct))] ^= byte(1 << c.IntN(8))
				ss := make([]byte, p.KemSize)
				err := k.Decapsulate(ss, e.kp.prv, e.kp.pub, ct)
				c.Logf("Decapsulate(altered)")
				trace += "X"
				w := p.Reject(e.kp.s, ct)
				c.Check(err == nil && bytes.Equal(ss, w), "reject-history", "%s %s step %d: altered ciphertext gives %x err %v, want %x", im.name, p.Name, i, ss, err, w)
				c.Count("rejections", 1)
			default:
				switch c.IntN(3) {
				case 0:
					c.Logf("Allocate")
					k.Allocate(p.ID, q)
					trace += "A"
				default:
					c.Logf("Reset")
					k.Reset()
					trace += "R"
				}
			}
		}
		c.Check(q.over == 0, "rng-overread", "%s %s: %d reads beyond the message", im.name, p.Name, q.over)
		c.Eval(steps)
		c.Key(im.name, p.Name, trace)
		c.Sample("%s %s %s", im.name, p.Name, trace)
	})
	mon.Register("C09", "reallocate", 60, 3500, func(c *mon.Case) {
		// one object, allocated again and again for any of the parameter sets
		im := pickKem(c)
		type enc struct {
			p         *ref.SidhParams
			kp        *sikePair
			m, ct, ss []byte
		}
		pool := map[uint8]*enc{}
		q := &queueReader{}
		k := im.fresh()
		tr := ""
		for i, steps := 0, 4+c.IntN(6); i < steps; i++ {
			p := pset(c)
			e := pool[p.ID]
			if e == nil {
				e = &enc{p: p, kp: newPair(c, p), m: pat(c, p.MsgLen)}
				e.ct, e.ss = p.SikeEncaps(e.kp.pk, e.m)
				pool[p.ID] = e
			}
			k.Allocate(p.ID, q)
			tr += p.Name[1:2]
			c.Check(k.CiphertextSize() == p.CtLen() && k.SharedSecretSize() == p.KemSize, "sizes", "%s allocated %s: CiphertextSize %d SharedSecretSize %d", im.name, tr, k.CiphertextSize(), k.SharedSecretSize())
			for j, n := 0, 1+c.IntN(2); j < n; j++ {
				ss := mon.NewCanary(p.KemSize, 32)
				if c.IntN(2) == 0 {
					q.q = append([]byte{}, e.m...)
					ct := mon.NewCanary(p.CtLen(), 32)
					var err error
					pv := mon.Panics(func() { err = k.Encapsulate(ct.Win(), ss.Win(), e.kp.pub) })
					c.Check(pv == nil && err == nil && bytes.Equal(ct.Win(), e.ct) && bytes.Equal(ss.Win(), e.ss), "encaps-reallocated", "%s allocated for the fields %s: Encapsulate gives %x / %x (err %v panic %v), specification %x / %x", im.name, tr, head(ct.Win()), ss.Win(), err, pv, head(e.ct), e.ss)
					c.Check(len(q.q) == 0, "encaps-reallocated", "%s allocated for the fields %s: Encapsulate left %d bytes of the message unread", im.name, tr, len(q.q))
					c.Check(ct.Broken(0, p.CtLen()) == nil, "ciphertext-overrun", "%s %s", im.name, tr)
				} else {
					var err error
					pv := mon.Panics(func() { err = k.Decapsulate(ss.Win(), e.kp.prv, e.kp.pub, append([]byte{}, e.ct...)) })
					c.Check(pv == nil && err == nil && bytes.Equal(ss.Win(), e.ss), "decaps-reallocated", "%s allocated for the fields %s: Decapsulate gives %x (err %v panic %v), want %x", im.name, tr, ss.Win(), err, pv, e.ss)
				}
				c.Check(ss.Broken(0, p.KemSize) == nil, "secret-overrun", "%s %s", im.name, tr)
				c.Eval(1)
			}
			if c.IntN(3) == 0 {
				k.Reset()
				tr += "r"
			}
		}
		c.Count("reallocations", len(tr))
		c.Key(im.name, tr)
		c.Sample("%s %s", im.name, tr)
	})

	// ---------------------------------------------------------------- C10
	mon.Register("C10", "alter", 3*64, 3*1024, func(c *mon.Case) {
		p := ref.Sidh[c.Idx%3]
		part := c.Idx / 3
		parts := 64
		if c.Tier == "thorough" {
			parts = 1024
		}
		im := pickKem(c)
		kp := newPair(c, p)
		k := newKem(c, im, p.ID, mon.NewReader(c.Rand))
		ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
		if err := k.Encapsulate(ct, ss, kp.pub); err != nil {
			c.Fail("encaps-error", "%v", err)
		}
		dec := func(what string, x []byte) {
			got := make([]byte, p.KemSize)
			err := k.Decapsulate(got, kp.prv, kp.pub, x)
			want := p.Reject(kp.s, x)
			c.Check(err == nil && bytes.Equal(got, want), "not-rejected", "%s %s sk %x S %x: %s: got %x err %v, H(S||ct) is %x (honest secret %x) ct=%x", im.name, p.Name, kp.sc, kp.s, what, got, err, want, ss, x)
			c.Eval(1)
			c.Count("rejections:"+p.Name, 1)
			c.Key(p.Name, what)
		}
		// every byte (quick) or every bit (thorough) belongs to exactly one part
		if c.Tier == "thorough" {
			for b := part; b < 8*len(ct); b += parts {
				x := append([]byte{}, ct...)
				x[b/8] ^= 1 << uint(b%8)
				dec(fmt.Sprintf("bit %d of byte %d flipped", b%8, b/8), x)
			}
		} else {
			for b := part; b < len(ct); b += parts {
				x := append([]byte{}, ct...)
				bit := c.IntN(8)
				x[b] ^= 1 << uint(bit)
				dec(fmt.Sprintf("bit %d of byte %d flipped", bit, b), x)
			}
		}
		got := make([]byte, p.KemSize)
		err := k.Decapsulate(got, kp.prv, kp.pub, ct)
		c.Check(err == nil && bytes.Equal(got, ss), "honest-rejected", "%s %s: honest ciphertext gives %x err %v, want %x", im.name, p.Name, got, err, ss)
		c.Count("honest:"+p.Name, 1)
		c.Sample("%s %s: %d-byte ciphertext, flips at %d mod %d", im.name, p.Name, len(ct), part, parts)
	})
	// one coordinate of the ephemeral key gets an equivalent encoding, the
	// rest (and so the decrypted message) stays as it was
	mon.Register("C10", "equivalent", 4*18, 4*18*20, func(c *mon.Case) {
		p := ref.Sidh[c.Idx%3]
		field := c.Idx / 3 % 6
		im := pickKem(c)
		kp := newPair(c, p)
		k := newKem(c, im, p.ID, mon.NewReader(c.Rand))
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*p.Bytes))
		for try := 0; try < 40; try++ {
			ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
			if err := k.Encapsulate(ct, ss, kp.pub); err != nil {
				c.Fail("encaps-error", "%v", err)
			}
			w := ct[field*p.Bytes : (field+1)*p.Bytes]
			x := ref.LeInt(w)
			x.Add(x, p.Field.P)
			if x.Cmp(lim) >= 0 {
				continue
			}
			copy(w, ref.LeBytes(x, p.Bytes))
			got := make([]byte, p.KemSize)
			err := k.Decapsulate(got, kp.prv, kp.pub, ct)
			want := p.Reject(kp.s, ct)
			c.Check(err == nil && bytes.Equal(got, want), "not-rejected", "%s %s sk %x S %x: p added to coordinate %d of the ephemeral key: got %x err %v, H(S||ct) is %x ct=%x", im.name, p.Name, kp.sc, kp.s, field, got, err, want, ct)
			c.Count("equivalent-coordinate:"+p.Name, 1)
			c.Key(p.Name, field)
			c.Sample("%s %s coordinate %d", im.name, p.Name, field)
			return
		}
		c.Skip("no non-canonical encoding fits")
	})
	// another ephemeral key, on the same curve, that leads to the same j-invariant and message
	mon.Register("C10", "same-kernel", 60, 4000, func(c *mon.Case) {
		p := pset(c)
		im := pickKem(c)
		kp := newPair(c, p)
		k := newKem(c, im, p.ID, mon.NewReader(c.Rand))
		ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
		if err := k.Encapsulate(ct, ss, kp.pub); err != nil {
			c.Fail("encaps-error", "%v", err)
		}
		x := append(p.Scaled(ct[:p.PkLen()], 1+c.IntN(12)), ct[p.PkLen():]...)
		if bytes.Equal(derive(p, kp.prv, mkPub(c, p, varA, x[:p.PkLen()])), derive(p, kp.prv, mkPub(c, p, varA, ct[:p.PkLen()]))) {
			c.Count("same-j-invariant:"+p.Name, 1)
		}
		got := make([]byte, p.KemSize)
		err := k.Decapsulate(got, kp.prv, kp.pub, x)
		want := p.Reject(kp.s, x)
		c.Check(err == nil && bytes.Equal(got, want), "not-rejected", "%s %s sk %x S %x: ephemeral key with multiples of the points: got %x err %v, H(S||ct) is %x ct=%x", im.name, p.Name, kp.sc, kp.s, got, err, want, x)
		c.Key(p.Name, x[:16])
		c.Sample("%s %s", im.name, p.Name)
	})
	mon.Register("C10", "forge", 300, 20000, func(c *mon.Case) {
		p := pset(c)
		im := pickKem(c)
		kp := newPair(c, p)
		k := newKem(c, im, p.ID, mon.NewReader(c.Rand))
		ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
		if err := k.Encapsulate(ct, ss, kp.pub); err != nil {
			c.Fail("encaps-error", "%v", err)
		}
		x := append([]byte{}, ct...)
		prv, pub, s := kp.prv, kp.pub, kp.s
		honest := false
		what := ""
		switch c.IntN(11) {
		case 0:
			what = "random ciphertext"
			c.Fill(x)
		case 1:
			what = "all zero ciphertext"
			x = make([]byte, len(ct))
		case 2:
			what = "all one ciphertext"
			for i := range x {
				x[i] = 255
			}
		case 3:
			what = "random ephemeral key"
			c.Fill(x[:p.PkLen()])
		case 4:
			what = "random message part"
			c.Fill(x[p.PkLen():])
		case 5:
			what = "several bytes changed"
			for i := 2 + c.IntN(20); i > 0; i-- {
				x[c.IntN(len(x))] ^= byte(1 + c.IntN(255))
			}
		case 6:
			what = "honest ephemeral key of another scalar"
			sc, _ := scalarOf(c, p.ABits, p.ABytes)
			copy(x, pubFor(c, p, varA, sc))
		case 7:
			what = "non-canonical encoding of the honest ephemeral key"
			y, n := unreduce(c, p, ct[:p.PkLen()])
			if n == 0 {
				c.Skip("no non-canonical encoding fits")
				return
			}
			copy(x, y)
		case 8:
			what = "private key of somebody else"
			o := newPair(c, p)
			prv, s = o.prv, o.s
		case 9:
			what = "public key of somebody else"
			pub = newPair(c, p).pub
		case 10:
			what = "another S value"
			s = pat(c, p.MsgLen)
			prv = mkPrv(c, p, varSike, kp.sc, s)
			honest = true
		}
		got := make([]byte, p.KemSize)
		err := k.Decapsulate(got, prv, pub, x)
		mine := make([]byte, prv.Size())
		prv.Export(mine)
		if honest || (bytes.Equal(x, ct) && bytes.Equal(mine[p.MsgLen:], kp.sc) && bytes.Equal(pubBytes(p, pub), kp.pk)) {
			c.Check(err == nil && bytes.Equal(got, ss), "honest-rejected", "%s %s: %s: %x err %v, want %x", im.name, p.Name, what, got, err, ss)
		} else {
			want := p.Reject(s, x)
			c.Check(err == nil && bytes.Equal(got, want), "not-rejected", "%s %s sk %x S %x: %s: got %x err %v, H(S||ct) is %x (honest secret %x) ct=%x", im.name, p.Name, kp.sc, s, what, got, err, want, ss, x)
		}
		c.Count("forgery:"+what, 1)
		c.Key(im.name, p.Name, what, x[:16])
		c.Sample("%s %s %s -> %x", im.name, p.Name, what, got)
	})

	// ---------------------------------------------------------------- C11
	mon.Register("C11", "codec-history", 3000, 300000, codecHistory)
	mon.Register("C11", "acts-identically", 250, 15000, func(c *mon.Case) {
		p := pset(c)
		kp := newPair(c, p)
		// exported private and public keys imported into used objects act like the original
		prv := sidh.NewPrivateKey(p.ID, varSike)
		pub := sidh.NewPublicKey(p.ID, varSike)
		for i := c.IntN(3); i > 0; i-- {
			_ = prv.Import(c.Bytes(prv.Size()))
			_ = pub.Import(canonPk(c, p))
		}
		buf := make([]byte, kp.prv.Size())
		kp.prv.Export(buf)
		if err := prv.Import(buf); err != nil {
			c.Fail("import", "%v", err)
		}
		for i := range buf {
			buf[i] = 0x5a
		}
		pb := append([]byte{}, kp.pk...)
		if err := pub.Import(pb); err != nil {
			c.Fail("import", "%v", err)
		}
		for i := range pb {
			pb[i] = 0xa5
		}
		im := pickKem(c)
		m := pat(c, p.MsgLen)
		enc := func(pk *sidh.PublicKey) ([]byte, []byte) {
			k := newKem(c, im, p.ID, &queueReader{q: append([]byte{}, m...)})
			ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
			if err := k.Encapsulate(ct, ss, pk); err != nil {
				c.Fail("encaps-error", "%v", err)
			}
			return ct, ss
		}
		ct1, ss1 := enc(kp.pub)
		ct2, ss2 := enc(pub)
		c.Check(bytes.Equal(ct1, ct2) && bytes.Equal(ss1, ss2), "imported-public-key", "%s: imported public key encapsulates differently", p.Name)
		k := newKem(c, im, p.ID, &queueReader{})
		got := make([]byte, p.KemSize)
		_ = k.Decapsulate(got, prv, pub, ct1)
		c.Check(bytes.Equal(got, ss1), "imported-private-key", "%s: imported key pair decapsulates %x, want %x", p.Name, got, ss1)
		bad := append([]byte{}, ct1...)
		bad[c.IntN(len(bad))] ^= 0x10
		_ = k.Decapsulate(got, prv, pub, bad)
		c.Check(bytes.Equal(got, p.Reject(kp.s, bad)), "imported-S", "%s: imported key rejects with another S", p.Name)
		c.Check(bytes.Equal(pubBytes(p, genPub(p, prv)), kp.pk), "imported-private-key", "%s: imported private key has another public key", p.Name)
		c.Key(p.Name, kp.sc)
		c.Count("imported-key-pairs:"+p.Name, 1)
	})

	// ---------------------------------------------------------------- C12
	mon.Register("C12", "generate", 9000, 900000, func(c *mon.Case) {
		p := ref.Sidh[c.IntN(3)]
		v := []sidh.KeyVariant{varA, varB, varSike}[c.IntN(3)]
		bits, n := sbits(p, v)
		sLen := 0
		if v == varSike {
			sLen = p.MsgLen
		}
		r := mon.NewReader(c.Rand)
		r.Record = true
		pattern := "random"
		switch c.IntN(5) {
		case 0:
			pattern = "zeros"
			r.Src = make([]byte, n+sLen)
		case 1:
			pattern = "ones"
			r.Src = bytes.Repeat([]byte{255}, n+sLen)
		}
		if c.IntN(2) == 0 {
			r.MaxChunk = 1 + c.IntN(40)
		}
		k := newPrivate(c, p, v)
		err, api := genPriv(c, k, r)
		c.Check(err == nil, "keygen-error", "%s %s %s: %v", p.Name, varName(v), api, err)
		c.Check(r.N == n+sLen, "rng-consumption", "%s %s %s: %d bytes of the source consumed, %d expected", p.Name, varName(v), api, r.N, n+sLen)
		want := append([]byte{}, r.Rec...)
		sc := want[sLen:]
		clip(sc, bits)
		sc[(bits-1)/8] |= 1 << uint((bits-1)%8)
		got := make([]byte, k.Size())
		k.Export(got)
		c.Check(bytes.Equal(got, want), "key-space", "%s %s %s from source %x: key %x, expected %x (scalar of exactly %d bits with the top bit set)", p.Name, varName(v), api, r.Rec, got, want, bits)
		c.Count("keys:"+p.Name+":"+varName(v), 1)
		c.Key(p.Name, int(v), pattern, r.MaxChunk, got)
		c.Sample("%s %s %s source %s chunk %d -> %x", p.Name, varName(v), api, pattern, r.MaxChunk, got)
	})
	mon.Register("C12", "rng-fault-keygen", 6000, 400000, func(c *mon.Case) {
		p := ref.Sidh[c.IntN(3)]
		v := []sidh.KeyVariant{varA, varB, varSike}[c.IntN(3)]
		_, n := sbits(p, v)
		tot := n
		if v == varSike {
			tot += p.MsgLen
		}
		r := mon.NewReader(c.Rand)
		r.FailAfter = c.IntN(tot)
		r.ErrWithData = c.IntN(2) == 0
		if c.IntN(2) == 0 {
			r.MaxChunk = 1 + c.IntN(20)
		}
		r.Err = pickErr(c)
		k := newPrivate(c, p, v)
		if c.IntN(2) == 0 {
			_ = k.Generate(mon.NewReader(c.Rand))
		}
		err, api := genPriv(c, k, r)
		c.Check(err != nil, "rng-failure-hidden", "%s %s: %s reports success although the random source failed (%v) after %d of %d bytes", p.Name, varName(v), api, r.Err, r.FailAfter, tot)
		c.Count("faults:"+api, 1)
		c.Key(p.Name, int(v), r.FailAfter, r.MaxChunk, r.ErrWithData, api)
		c.Sample("%s %s %s fails after %d of %d: %v", p.Name, varName(v), api, r.FailAfter, tot, err)
	})
	mon.Register("C12", "rng-fault-encaps", 400, 20000, func(c *mon.Case) {
		p := ref.Sidh[c.IntN(3)]
		im := pickKem(c)
		pk := cachedPk(c, p)
		r := mon.NewReader(c.Rand)
		r.FailAfter = c.IntN(p.MsgLen)
		r.ErrWithData = c.IntN(2) == 0
		if c.IntN(2) == 0 {
			r.MaxChunk = 1 + c.IntN(8)
		}
		r.Err = pickErr(c)
		k := newKem(c, im, p.ID, r)
		ct, ss := mon.NewCanary(p.CtLen(), 8), mon.NewCanary(p.KemSize, 8)
		err := k.Encapsulate(ct.Win(), ss.Win(), pk)
		c.Check(err != nil, "rng-failure-hidden", "%s %s: Encapsulate reports success although the random source failed (%v) after %d of %d bytes", im.name, p.Name, r.Err, r.FailAfter, p.MsgLen)
		c.Count("faults:Encapsulate", 1)
		c.Key(im.name, p.Name, r.FailAfter, r.MaxChunk, r.ErrWithData)
	})
	mon.Register("C12", "short-reads-encaps", 60, 4000, func(c *mon.Case) {
		p := pset(c)
		im := pickKem(c)
		kp := newPair(c, p)
		r := mon.NewReader(c.Rand)
		r.Record = true
		r.MaxChunk = 1 + c.IntN(9)
		k := newKem(c, im, p.ID, r)
		ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
		err := k.Encapsulate(ct, ss, kp.pub)
		c.Check(err == nil && r.N == p.MsgLen, "rng-consumption", "%s %s: err %v, %d bytes consumed", im.name, p.Name, err, r.N)
		wct, wss := p.SikeEncaps(kp.pk, r.Rec)
		c.Check(bytes.Equal(ct, wct) && bytes.Equal(ss, wss), "short-read", "%s %s: encapsulation with reads of at most %d bytes does not use the message %x of the source", im.name, p.Name, r.MaxChunk, r.Rec)
		c.Count("short-read-encapsulations", 1)
		c.Key(im.name, p.Name, r.MaxChunk, kp.sc)
	})

	// ---------------------------------------------------------------- C13
	mon.Register("C13", "misuse", 2500, 200000, sidhMisuse)
}

func sc2(c *mon.Case, bits, n int) []byte { s, _ := scalarOf(c, bits, n); return s }

func clip(sc []byte, bits int) {
	for i := range sc {
		switch {
		case 8*i >= bits:
			sc[i] = 0
		case 8*i+8 > bits:
			sc[i] &= byte(1<<uint(bits-8*i)) - 1
		}
	}
}

func pickErr(c *mon.Case) error {
	return []error{mon.ErrInjected, io.EOF, io.ErrUnexpectedEOF, errors.New("device gone")}[c.IntN(4)]
}

// newPrivate makes a private key object, possibly one that was used for something else.
func newPrivate(c *mon.Case, p *ref.SidhParams, v sidh.KeyVariant) *sidh.PrivateKey {
	switch c.IntN(4) {
	case 0:
		k := new(sidh.PrivateKey)
		k.Init(p.ID, v)
		return k
	case 1:
		k := sidh.NewPrivateKey(ref.Sidh[c.IntN(3)].ID, []sidh.KeyVariant{varA, varB, varSike}[c.IntN(3)])
		_ = k.Generate(mon.NewReader(c.Rand))
		k.Init(p.ID, v)
		return k
	}
	k := sidh.NewPrivateKey(p.ID, v)
	if c.IntN(2) == 0 {
		_ = k.Import(c.Bytes(k.Size()))
	}
	return k
}

// unreduce adds multiples of p to coordinates where the encoding has room.
func unreduce(c *mon.Case, p *ref.SidhParams, pk []byte) ([]byte, int) {
	out := append([]byte{}, pk...)
	lim := new(big.Int).Lsh(big.NewInt(1), uint(8*p.Bytes))
	n := 0
	for i := 0; i < 6; i++ {
		if c.IntN(2) == 0 {
			continue
		}
		w := out[i*p.Bytes : (i+1)*p.Bytes]
		x := ref.LeInt(w)
		room := new(big.Int).Sub(lim, x)
		room.Sub(room, big.NewInt(1)).Div(room, p.Field.P)
		if room.Sign() == 0 {
			continue
		}
		k := int64(1)
		if c.IntN(2) == 0 {
			k = 1 + c.Int64N(room.Int64())
		}
		x.Add(x, new(big.Int).Mul(big.NewInt(k), p.Field.P))
		copy(w, ref.LeBytes(x, p.Bytes))
		n++
	}
	return out, n
}

// canonPk is a random valid encoding (not necessarily of an honest key).
func canonPk(c *mon.Case, p *ref.SidhParams) []byte {
	var b []byte
	for i := 0; i < 6; i++ {
		x := new(big.Int).SetBytes(c.Bytes(p.Bytes + 8))
		switch c.IntN(9) {
		case 0:
			x.SetUint64(uint64(c.IntN(3)))
		case 1:
			x.Sub(p.Field.P, big.NewInt(1+int64(c.IntN(3))))
		case 2:
			x.Lsh(big.NewInt(1), uint(c.IntN(p.Field.P.BitLen()-1)))
		case 3:
			x.Lsh(big.NewInt(1), uint(c.IntN(p.Field.P.BitLen()-1)))
			x.Sub(x, big.NewInt(1))
		}
		x.Mod(x, p.Field.P)
		b = append(b, ref.LeBytes(x, p.Bytes)...)
	}
	return b
}

var (
	pkMu    sync.Mutex
	pkCache = map[string]*sidh.PublicKey{}
)

// cachedPk is one honest SIKE public key per parameter set.
func cachedPk(c *mon.Case, p *ref.SidhParams) *sidh.PublicKey {
	pkMu.Lock()
	defer pkMu.Unlock()
	if k := pkCache[p.Name]; k != nil {
		return k
	}
	k := sidh.NewPublicKey(p.ID, varSike)
	sc := make([]byte, p.BBytes)
	sc[0] = 3
	prv := sidh.NewPrivateKey(p.ID, varSike)
	_ = prv.Import(append(make([]byte, p.MsgLen), sc...))
	prv.GeneratePublicKey(k)
	pkCache[p.Name] = k
	return k
}

func codecHistory(c *mon.Case) {
	p := ref.Sidh[c.IntN(3)]
	v := []sidh.KeyVariant{varA, varB, varSike}[c.IntN(3)]
	pub := sidh.NewPublicKey(p.ID, v)
	if c.IntN(2) == 0 {
		pub = new(sidh.PublicKey)
		pub.Init(p.ID, v)
	}
	prv := newPrivate(c, p, v)
	bits, n := sbits(p, v)
	sLen := 0
	if v == varSike {
		sLen = p.MsgLen
	}
	c.Check(pub.Size() == p.PkLen(), "sizes", "%s: public key Size() %d, specification %d", p.Name, pub.Size(), p.PkLen())
	c.Check(prv.Size() == n+sLen, "sizes", "%s %s: private key Size() %d, specification %d", p.Name, varName(v), prv.Size(), n+sLen)
	c.Check(prv.SharedSecretSize() == p.SsLen(), "sizes", "%s: SharedSecretSize %d", p.Name, prv.SharedSecretSize())
	c.Check(prv.Variant() == v && pub.Variant() == v, "sizes", "%s: Variant()", p.Name)
	var model, pmodel, last []byte
	var first []byte
	for i, steps := 0, 2+c.IntN(8); i < steps; i++ {
		switch c.IntN(6) {
		case 0, 1: // public import
			b := canonPk(c, p)
			if model != nil && c.IntN(3) == 0 {
				// a key that agrees with the stored one in all but a part
				r := append([]byte{}, model...)
				at, l := p.Bytes*c.IntN(6), p.Bytes
				if c.IntN(2) == 0 {
					at, l = p.SsLen()*c.IntN(3), p.SsLen()
				}
				switch c.IntN(3) {
				case 0: // one coordinate (or half of it) replaced
					copy(r[at:at+l], b[at:])
				case 1: // all but one replaced
					copy(r[:at], b)
					copy(r[at+l:], b[at+l:])
				default: // two coordinates swapped
					o := p.SsLen() * c.IntN(3)
					at = p.SsLen() * c.IntN(3)
					t := append([]byte{}, r[at:at+p.SsLen()]...)
					copy(r[at:], r[o:o+p.SsLen()])
					copy(r[o:], t)
				}
				b = r
				c.Count("related-imports", 1)
			} else if last != nil && c.IntN(4) == 0 {
				// the same key once more, whatever happened in between
				b = last
			}
			last = b
			want := b
			if c.IntN(4) == 0 {
				if u, k := unreduce(c, p, b); k > 0 {
					c.Count("non-reduced-imports", 1)
					b = u
				}
			}
			in := append([]byte{}, b...)
			err := pub.Import(in)
			c.Logf("public Import %x", head(b))
			c.Check(err == nil, "import", "%s: %v", p.Name, err)
			c.Check(bytes.Equal(in, b), "input-changed", "%s: public Import changed its input", p.Name)
			for j := range in {
				in[j] ^= 0x77
			}
			model = append([]byte{}, want...)
		case 2: // wrong sizes
			l := []int{0, 1, p.PkLen() - 1, p.PkLen() + 1, p.PkLen() * 2, p.SsLen(), c.IntN(1200)}[c.IntN(7)]
			if l == p.PkLen() {
				continue
			}
			err := pub.Import(c.Bytes(l))
			c.Logf("public Import of %d bytes: %v", l, err)
			c.Check(err != nil, "wrong-size-accepted", "%s: public key of %d bytes accepted (size %d)", p.Name, l, p.PkLen())
			l = []int{0, 1, n + sLen - 1, n + sLen + 1, n, sLen, c.IntN(200)}[c.IntN(7)]
			if l == n+sLen {
				continue
			}
			err = prv.Import(c.Bytes(l))
			c.Check(err != nil, "wrong-size-accepted", "%s %s: private key of %d bytes accepted (size %d)", p.Name, varName(v), l, n+sLen)
			c.Count("wrong-sizes", 2)
		case 3, 4: // private import
			sc, _ := scalarOf(c, bits, n)
			b := append(c.Bytes(sLen), sc...)
			if pmodel != nil && c.IntN(3) == 0 {
				// agrees with the stored key in one part
				if c.IntN(2) == 0 {
					copy(b, pmodel[:sLen])
				} else {
					copy(b[sLen:], pmodel[sLen:])
				}
				b[c.IntN(len(b)-1)] ^= 1
			}
			in := append([]byte{}, b...)
			err := prv.Import(in)
			c.Logf("private Import %x", b)
			c.Check(err == nil && bytes.Equal(in, b), "import", "%s %s: %v", p.Name, varName(v), err)
			for j := range in {
				in[j] ^= 0x77
			}
			pmodel = b
		case 5: // generate the public key of the current private key into the used object
			if pmodel == nil || c.IntN(20) != 0 {
				continue
			}
			prv.GeneratePublicKey(pub)
			c.Logf("GeneratePublicKey")
			f := sidh.NewPublicKey(p.ID, v)
			mkPrv(c, p, v, pmodel[sLen:], pmodel[:sLen]).GeneratePublicKey(f)
			model = pubBytes(p, f)
		}
		if model != nil {
			out := mon.NewCanary(p.PkLen(), 16)
			pub.Export(out.Win())
			c.Check(bytes.Equal(out.Win(), model), "public-key-codec", "%s %s step %d: exports %x, imported %x", p.Name, varName(v), i, out.Win(), model)
			if err := out.Broken(0, p.PkLen()); err != nil {
				c.Fail("export-overrun", "%s: %v", p.Name, err)
			}
			c.Count("public-exports", 1)
			if first == nil {
				first = model
			}
		}
		if pmodel != nil {
			out := mon.NewCanary(n+sLen, 16)
			prv.Export(out.Win())
			c.Check(bytes.Equal(out.Win(), pmodel), "private-key-codec", "%s %s step %d: exports %x, imported %x", p.Name, varName(v), i, out.Win(), pmodel)
			if err := out.Broken(0, n+sLen); err != nil {
				c.Fail("export-overrun", "%s: %v", p.Name, err)
			}
			c.Count("private-exports", 1)
		}
		c.Eval(1)
	}
	c.Key(p.Name, int(v), first, pmodel)
	c.Sample("%s %s: public %x private %x", p.Name, varName(v), head(model), pmodel)
}

// sidhMisuse makes one wrong call and demands a refusal without side effects.
func sidhMisuse(c *mon.Case) {
	p := ref.Sidh[c.IntN(3)]
	q := ref.Sidh[c.IntN(3)]
	im := pickKem(c)
	vs := []sidh.KeyVariant{varA, varB, varSike}
	what := ""
	refused := false
	short := func(n int) int {
		switch c.IntN(4) {
		case 0:
			return 0
		case 1:
			return n - 1
		}
		return c.IntN(n)
	}
	// a pair of honest keys (cached per process: the calls are refused anyway)
	must := func(f func()) {
		v := mon.Panics(f)
		if e, ok := v.(error); ok && v != nil {
			_ = e
		}
		refused = v != nil
		c.Check(refused, "misuse-accepted", "%s", what)
	}
	clean := func(cn *mon.Canary, name string) {
		if err := cn.Broken(0, 0); err != nil {
			c.Fail("output-touched", "%s: %s changed by a refused call: %v", what, name, err)
		}
	}
	// window of a buffer whose capacity is larger than its length
	small := func(l int) (*mon.Canary, []byte) {
		cn := mon.NewCanary(l, 700)
		w := cn.Win()
		if c.IntN(2) == 0 {
			w = w[:l:l]
		}
		return cn, w
	}
	prvOf := func(p *ref.SidhParams, v sidh.KeyVariant) *sidh.PrivateKey {
		k := sidh.NewPrivateKey(p.ID, v)
		if err := k.Generate(mon.NewReader(c.Rand)); err != nil {
			c.Fail("keygen", "%v", err)
		}
		return k
	}
	pubOf := func(p *ref.SidhParams, v sidh.KeyVariant) (*sidh.PublicKey, []byte) {
		b := pubBytes(p, cachedPk(c, p))
		return mkPub(c, p, v, b), b
	}
	switch c.IntN(13) {
	case 0: // public key generation into a key of another kind
		v, w := vs[c.IntN(3)], vs[c.IntN(3)]
		if v == w && p == q {
			return
		}
		prv := prvOf(p, v)
		pub, b := pubOf(q, w)
		what = fmt.Sprintf("GeneratePublicKey of a %s %s key into a %s %s object", p.Name, varName(v), q.Name, varName(w))
		if c.IntN(2) == 0 {
			must(func() { prv.GeneratePublicKey(pub) })
		} else {
			must(func() { sidh.GeneratePublicKey(pub, prv) })
		}
		c.Check(bytes.Equal(pubBytes(q, pub), b), "output-touched", "%s: key changed by a refused call", what)
	case 1: // secret from keys that do not belong together
		v, w := vs[c.IntN(3)], vs[c.IntN(3)]
		if p == q && (v == varA) != (w == varA) {
			return
		}
		prv := prvOf(p, v)
		pub, b := pubOf(q, w)
		cn := mon.NewCanary(max(p.SsLen(), q.SsLen()), 16)
		what = fmt.Sprintf("DeriveSecret of %s %s with a %s %s public key", p.Name, varName(v), q.Name, varName(w))
		if c.IntN(2) == 0 {
			must(func() { prv.DeriveSecret(cn.Win(), pub) })
		} else {
			must(func() { sidh.DeriveSecret(cn.Win(), pub, prv) })
		}
		clean(cn, "secret")
		c.Check(bytes.Equal(pubBytes(q, pub), b), "output-touched", "%s: key changed by a refused call", what)
	case 2: // undersized secret buffer
		if c.IntN(4) != 0 {
			p = ref.Sidh[0]
		}
		v := vs[c.IntN(3)]
		w := varA
		if v == varA {
			w = vs[1+c.IntN(2)]
		}
		prv := prvOf(p, v)
		bits, n := sbits(p, w)
		pub := mkPub(c, p, w, pubFor(c, p, w, sc2(c, bits, n)))
		l := short(p.SsLen())
		cn, win := small(l)
		what = fmt.Sprintf("%s DeriveSecret into %d bytes (cap %d)", p.Name, l, cap(win))
		must(func() { prv.DeriveSecret(win, pub) })
		clean(cn, "secret")
	case 3: // undersized export buffers
		v := vs[c.IntN(3)]
		pub, _ := pubOf(p, v)
		l := short(p.PkLen())
		cn, win := small(l)
		what = fmt.Sprintf("%s PublicKey.Export into %d bytes (cap %d)", p.Name, l, cap(win))
		must(func() { pub.Export(win) })
		clean(cn, "export buffer")
	case 4:
		v := vs[c.IntN(3)]
		prv := prvOf(p, v)
		l := short(prv.Size())
		cn, win := small(l)
		what = fmt.Sprintf("%s %s PrivateKey.Export into %d of %d bytes (cap %d)", p.Name, varName(v), l, prv.Size(), cap(win))
		must(func() { prv.Export(win) })
		clean(cn, "export buffer")
	case 5: // unallocated KEM
		k := im.fresh()
		ct, ss := mon.NewCanary(p.CtLen(), 8), mon.NewCanary(p.KemSize, 8)
		pub, _ := pubOf(p, varSike)
		prv := prvOf(p, varSike)
		if c.IntN(2) == 0 {
			what = im.name + " Encapsulate on an unallocated KEM"
			must(func() { _ = k.Encapsulate(ct.Win(), ss.Win(), pub) })
		} else {
			what = im.name + " Decapsulate on an unallocated KEM"
			must(func() { _ = k.Decapsulate(ss.Win(), prv, pub, ct.Win()) })
		}
		clean(ct, "ciphertext")
		clean(ss, "secret")
	case 6: // wrong variant
		k := newKem(c, im, p.ID, mon.NewReader(c.Rand))
		ct, ss := mon.NewCanary(p.CtLen(), 8), mon.NewCanary(p.KemSize, 8)
		v, w := vs[c.IntN(3)], vs[c.IntN(3)]
		if c.IntN(2) == 0 {
			if w == varSike {
				w = varB
			}
			pub, _ := pubOf(p, w)
			what = fmt.Sprintf("%s %s Encapsulate to a %s key", im.name, p.Name, varName(w))
			must(func() { _ = k.Encapsulate(ct.Win(), ss.Win(), pub) })
		} else {
			if v == varSike && w == varSike {
				v = varA
			}
			pub, _ := pubOf(p, w)
			prv := prvOf(p, v)
			what = fmt.Sprintf("%s %s Decapsulate with a %s private and a %s public key", im.name, p.Name, varName(v), varName(w))
			must(func() { _ = k.Decapsulate(ss.Win(), prv, pub, c.Bytes(p.CtLen())) })
		}
		clean(ct, "ciphertext")
		clean(ss, "secret")
	case 7: // wrong parameter set
		q2 := ref.Sidh[c.IntN(3)]
		r := ref.Sidh[c.IntN(3)]
		k := newKem(c, im, p.ID, mon.NewReader(c.Rand))
		ct, ss := mon.NewCanary(p.CtLen(), 400), mon.NewCanary(p.KemSize, 8)
		if c.IntN(2) == 0 {
			if q == p {
				return
			}
			pub, _ := pubOf(q, varSike)
			what = fmt.Sprintf("%s %s Encapsulate to a %s key", im.name, p.Name, q.Name)
			must(func() { _ = k.Encapsulate(ct.Win(), ss.Win(), pub) })
		} else {
			if q2 == p && r == p {
				return
			}
			pub, _ := pubOf(q2, varSike)
			prv := prvOf(r, varSike)
			what = fmt.Sprintf("%s %s Decapsulate with a %s private and a %s public key", im.name, p.Name, r.Name, q2.Name)
			// the buffer may have spare capacity
			b := make([]byte, p.CtLen(), p.CtLen()+c.IntN(2)*400)
			c.Fill(b)
			must(func() { _ = k.Decapsulate(ss.Win(), prv, pub, b) })
		}
		clean(ct, "ciphertext")
		clean(ss, "secret")
	case 8: // undersized KEM buffers
		k := newKem(c, im, p.ID, mon.NewReader(c.Rand))
		pub, _ := pubOf(p, varSike)
		cl, sl := p.CtLen(), p.KemSize
		if c.IntN(2) == 0 {
			cl = short(cl)
		} else {
			sl = short(sl)
		}
		ct, cw := small(cl)
		ss, sw := small(sl)
		what = fmt.Sprintf("%s %s Encapsulate into %d/%d ciphertext and %d/%d secret bytes", im.name, p.Name, cl, p.CtLen(), sl, p.KemSize)
		must(func() { _ = k.Encapsulate(cw, sw, pub) })
		clean(ct, "ciphertext")
		clean(ss, "secret")
	case 9: // wrong ciphertext length or short secret
		k := newKem(c, im, p.ID, mon.NewReader(c.Rand))
		pub, _ := pubOf(p, varSike)
		prv := prvOf(p, varSike)
		cl, sl := p.CtLen(), p.KemSize
		switch c.IntN(4) {
		case 0:
			cl = short(cl)
		case 1:
			cl += 1 + c.IntN(30)
		case 2:
			cl = ref.Sidh[(c.IntN(3))].CtLen()
		case 3:
			sl = short(sl)
		}
		if cl == p.CtLen() && sl == p.KemSize {
			cl--
		}
		ss, sw := small(sl)
		what = fmt.Sprintf("%s %s Decapsulate of %d/%d ciphertext bytes into %d/%d secret bytes", im.name, p.Name, cl, p.CtLen(), sl, p.KemSize)
		b := make([]byte, cl, cl+c.IntN(2)*500)
		must(func() { _ = k.Decapsulate(sw, prv, pub, b) })
		clean(ss, "secret")
	case 10: // wrong-length imports leave the key unchanged
		v := vs[c.IntN(3)]
		pub, b := pubOf(p, v)
		l := c.IntN(p.PkLen() + 40)
		if l == p.PkLen() {
			l++
		}
		what = fmt.Sprintf("%s PublicKey.Import of %d/%d bytes", p.Name, l, p.PkLen())
		in := make([]byte, l, l+500)
		c.Fill(in)
		err := pub.Import(in)
		c.Check(err != nil, "misuse-accepted", "%s", what)
		c.Check(bytes.Equal(pubBytes(p, pub), b), "output-touched", "%s: key changed by a refused call", what)
	case 11:
		v := vs[c.IntN(3)]
		prv := prvOf(p, v)
		b := make([]byte, prv.Size())
		prv.Export(b)
		l := c.IntN(prv.Size() + 40)
		if l == prv.Size() {
			l--
		}
		what = fmt.Sprintf("%s %s PrivateKey.Import of %d/%d bytes", p.Name, varName(v), l, prv.Size())
		in := make([]byte, l, l+500)
		c.Fill(in)
		err := prv.Import(in)
		c.Check(err != nil, "misuse-accepted", "%s", what)
		got := make([]byte, prv.Size())
		prv.Export(got)
		c.Check(bytes.Equal(got, b), "output-touched", "%s: key changed by a refused call", what)
	case 12: // unknown parameter set
		id := uint8(3 + c.IntN(253))
		v := vs[c.IntN(3)]
		what = fmt.Sprintf("parameter set %d", id)
		switch c.IntN(4) {
		case 0:
			must(func() { sidh.NewPublicKey(id, v) })
		case 1:
			must(func() { sidh.NewPrivateKey(id, v) })
		case 2:
			must(func() { im.fresh().Allocate(id, mon.NewReader(c.Rand)) })
		case 3:
			// an existing key stays what it was
			prv := prvOf(p, v)
			b := make([]byte, prv.Size())
			prv.Export(b)
			must(func() { prv.Init(id, v) })
			got := make([]byte, len(b))
			prv.Export(got)
			c.Check(prv.Size() == len(b) && bytes.Equal(got, b), "output-touched", "%s: key changed by a refused Init", what)
		}
	}
	if what != "" {
		c.Count("refusals", 1)
		c.Key(what)
		c.Sample("%s -> refused", what)
	}
}

func indexOf(p *ref.SidhParams) int {
	for i, q := range ref.Sidh {
		if q == p {
			return i
		}
	}
	return 0
}
