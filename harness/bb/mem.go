//go:build !appengine

package bb

// Monitors of C22: every operation is executed on memory whose limits the processor guards
// (inputs in read-only pages that end or start at an unmapped page, outputs surrounded by
// unmapped pages and pattern bytes, objects passed for reading in read-only memory), and in
// a build that checks pointer conversions.  A read or write outside faults; the result has to
// be the one computed on ordinary memory.

import (
	"bytes"
	"fmt"
	"hash"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/hash/sm3"
	"mkem"

	"vharness/mon"
	"vharness/probe"
	"vharness/ref"
)

func guarded(c *mon.Case, o *mon.Out, from, to int, format string, a ...interface{}) {
	if e := o.Same(from, to); e != nil {
		c.Fail("overrun", "%s: %v", fmt.Sprintf(format, a...), e)
	}
}

// memHash absorbs from guarded memory and squeezes into guarded memory.
func memHash(c *mon.Case) {
	ar := mon.NewArena(c)
	defer ar.Release()
	kind := c.IntN(len(sha3algs) + 2)
	rate, name := 64, "SM3"
	var w io.Writer
	var h hash.Hash
	var x sha3.ShakeHash
	var want func(msg []byte, n int) []byte
	switch {
	case kind < len(sha3algs):
		a := &sha3algs[kind]
		rate, name = a.rate, a.name
		if a.newH != nil {
			h = a.newH()
			w = h
		} else {
			x = a.newX()
			w = x
		}
		want = a.stdDigest
	case kind == len(sha3algs):
		n, s := c.Bytes(c.IntN(300)), c.Bytes(c.IntN(300))
		lv := 128
		f := sha3.NewCShake128
		rate = 168
		if c.IntN(2) == 0 {
			lv, f, rate = 256, sha3.NewCShake256, 136
		}
		name = fmt.Sprintf("cSHAKE%d", lv)
		x = f(ar.In(n), ar.In(s))
		w = x
		want = func(msg []byte, o int) []byte { return stdCShake(lv, n, s, msg, o) }
	default:
		h = sm3.New()
		w = h
		want = func(msg []byte, _ int) []byte { d := ref.SM3(msg); return d[:] }
	}
	var msg []byte
	ops := name
	for i := 0; i < 1+c.IntN(6); i++ {
		in := c.Bytes(pickLen(c, rate) % 2500)
		c.Logf("Write %d", len(in))
		n, err := w.Write(ar.In(in))
		c.Check(n == len(in) && err == nil, "write-contract", "%s Write(%d) = %d, %v", name, len(in), n, err)
		msg = append(msg, in...)
		ops += fmt.Sprintf(" w%d", len(in))
		if h != nil && c.IntN(3) == 0 {
			pre := c.IntN(40)
			if name == "SM3" {
				pre = 0 // known finding: C04
			}
			sz := h.Size()
			spare := 0
			switch c.IntN(3) {
			case 0:
				spare = sz + c.IntN(60)
			case 1:
				spare = c.IntN(sz)
			case 2:
				spare = sz
			}
			o := ar.Out(pre, spare)
			keep := append([]byte{}, o.Win()...)
			d := h.Sum(o.Win())
			c.Check(bytes.Equal(d, append(keep, want(msg, sz)...)), "value", "%s (%s) Sum with %d bytes and %d spare bytes: %x", name, ops, pre, spare, d)
			hi := pre
			if spare >= sz {
				hi = pre + sz
			}
			guarded(c, o, pre, hi, "%s (%s) Sum with %d bytes and %d spare bytes", name, ops, pre, spare)
			ops += " s"
			c.Count("sums", 1)
		}
	}
	if x != nil {
		total := 0
		for i := 0; i < 1+c.IntN(5); i++ {
			n := pickLen(c, rate) % 1500
			o := ar.Out(n, c.IntN(3)*c.IntN(200))
			k, err := x.Read(o.Win())
			ops += fmt.Sprintf(" r%d", n)
			c.Check(k == n && err == nil, "read-contract", "%s Read(%d) = %d, %v", name, n, k, err)
			c.Check(bytes.Equal(o.Win(), want(msg, total+n)[total:]), "value", "%s: output differs from that on ordinary memory", ops)
			guarded(c, o, 0, n, "%s Read(%d)", ops, n)
			total += n
		}
		if name == "SHAKE128" || name == "SHAKE256" {
			f := sha3.ShakeSum128
			if name == "SHAKE256" {
				f = sha3.ShakeSum256
			}
			n := pickLen(c, rate) % 1500
			o := ar.Out(n, c.IntN(2)*c.IntN(200))
			f(o.Win(), ar.In(msg))
			c.Check(bytes.Equal(o.Win(), want(msg, n)), "value", "%s one-shot %d bytes: output differs", name, n)
			guarded(c, o, 0, n, "%s one-shot %d bytes", name, n)
		}
	}
	c.Count("operations:"+name, 1)
	c.Key(ops)
	c.Sample("%s", ops)
}

// memDrbg runs generator calls on guarded memory.
func memDrbg(c *mon.Case) {
	ar := mon.NewArena(c)
	defer ar.Release()
	f := aesFlags()
	aesOn := f[c.IntN(len(f))]
	withAES(aesOn, func() {
		d, r := drbg.NewCtrDrbg(), drbg.NewCtrDrbg()
		ent, per := c.Bytes(32+c.IntN(40)), c.Bytes(c.IntN(2)*c.IntN(70))
		ops := fmt.Sprintf("aes=%v init(%d,%d)", aesOn, len(ent), len(per))
		ok := d.Init(ar.In(ent), ar.In(per))
		c.Check(ok == r.Init(append([]byte{}, ent...), append([]byte{}, per...)), "value", "%s: Init differs", ops)
		if !ok {
			return
		}
		for i := 0; i < 1+c.IntN(6); i++ {
			if c.IntN(4) == 0 {
				e, a := c.Bytes(c.IntN(70)), c.Bytes(c.IntN(2)*c.IntN(70))
				ops += fmt.Sprintf(" reseed(%d,%d)", len(e), len(a))
				d.Reseed(ar.In(e), ar.In(a))
				r.Reseed(e, a)
				continue
			}
			n := c.IntN(100)
			if c.IntN(3) == 0 {
				n = 16 * c.IntN(20)
			}
			ad := c.Bytes(c.IntN(2) * c.IntN(70))
			ops += fmt.Sprintf(" read(%d,%d)", n, len(ad))
			o := ar.Out(n, c.IntN(3)*c.IntN(40))
			b := make([]byte, n)
			var e1, e2 error
			var n1, n2 int
			if len(ad) > 0 {
				n1, e1 = d.ReadWithAdditionalData(o.Win(), ar.In(ad))
				n2, e2 = r.ReadWithAdditionalData(b, ad)
			} else {
				n1, e1 = d.Read(o.Win())
				n2, e2 = r.Read(b)
			}
			c.Check(n1 == n2 && (e1 == nil) == (e2 == nil) && bytes.Equal(b, o.Win()), "value", "%s: output differs from that on ordinary memory", ops)
			guarded(c, o, 0, n, "%s", ops)
		}
		c.Count(fmt.Sprintf("drbg-aes-%v", aesOn), 1)
		c.Key(ops)
		c.Sample("%s", ops)
	})
}

// memAes runs the block ciphers on guarded memory.
func memAes(c *mon.Case) {
	ar := mon.NewArena(c)
	defer ar.Release()
	im := aesImpls(c)
	for _, name := range implNames {
		nw := im[name]
		if nw == nil {
			continue
		}
		for i := 0; i < 2; i++ {
			kl := 16 + 8*c.IntN(3)
			key := c.Bytes(kl)
			b, r := nw(), nw()
			c.Check(b.SetKey(ar.In(key)) == nil && r.SetKey(key) == nil, "setkey", "%s: key of %d bytes refused", name, kl)
			src := c.Bytes(16 + c.IntN(3)*c.IntN(20))
			for dir := 0; dir < 2; dir++ {
				o := ar.Out(16+c.IntN(2)*c.IntN(30), c.IntN(2)*c.IntN(30))
				want := make([]byte, 16)
				if dir == 0 {
					b.Encrypt(o.Win(), ar.In(src))
					r.Encrypt(want, src)
				} else {
					b.Decrypt(o.Win(), ar.In(src))
					r.Decrypt(want, src)
				}
				c.Check(bytes.Equal(o.Win()[:16], want), "value", "%s direction %d: output differs from that on ordinary memory", name, dir)
				guarded(c, o, 0, 16, "%s direction %d", name, dir)
				c.Count("blocks:"+name, 1)
			}
			c.Key(name, key)
			c.Sample("%s key of %d bytes", name, kl)
		}
	}
}

// memSidh runs the SIDH operations on guarded memory with sealed keys.
func memSidh(c *mon.Case) {
	ar := mon.NewArena(c)
	defer ar.Release()
	p := pset(c)
	v, peer := varA, varB
	if c.IntN(2) == 0 {
		v, peer = varB, varA
	}
	bitsN, n := sbits(p, v)
	ob, on := sbits(p, peer)
	sc, _ := scalarOf(c, bitsN, n)
	osc, _ := scalarOf(c, ob, on)
	ppk := pubFor(c, p, peer, osc)
	what := p.Name + " " + varName(v)
	// import from guarded input
	prv := sidh.NewPrivateKey(p.ID, v)
	in := ar.In(sc)
	c.Check(prv.Import(in) == nil, "import", "%s: private key import refused", what)
	pub := sidh.NewPublicKey(p.ID, peer)
	c.Check(pub.Import(ar.In(ppk)) == nil, "import", "%s: public key import refused", what)
	var seg []string
	// sealed keys, guarded outputs
	sprv, spub := mon.Sealed(ar, prv), mon.Sealed(ar, pub)
	wantSS := derive(p, prv, pub)
	for i := 0; i < 1+c.IntN(2); i++ {
		ex := c.IntN(2) * c.IntN(50)
		o := ar.Out(p.SsLen()+ex, c.IntN(2)*c.IntN(50))
		sprv.DeriveSecret(o.Win(), spub)
		c.Check(bytes.Equal(o.Win()[:p.SsLen()], wantSS), "value", "%s: secret differs from that on ordinary memory", what)
		guarded(c, o, 0, p.SsLen(), "%s DeriveSecret", what)
	}
	seg = append(seg, "derive")
	// public key object in guarded memory, sealed private key
	gp := mon.Guarded(ar, sidh.NewPublicKey(p.ID, v))
	sprv.GeneratePublicKey(gp)
	own := genPub(p, prv)
	c.Check(bytes.Equal(pubBytes(p, gp), pubBytes(p, own)), "value", "%s: public key differs from that on ordinary memory", what)
	seg = append(seg, "generate-public")
	// exports
	ex := c.IntN(2) * c.IntN(50)
	o := ar.Out(p.PkLen()+ex, c.IntN(2)*c.IntN(50))
	spub.Export(o.Win())
	c.Check(bytes.Equal(o.Win()[:p.PkLen()], pubBytes(p, pub)), "value", "%s: exported public key differs", what)
	guarded(c, o, 0, p.PkLen(), "%s public Export", what)
	o = ar.Out(n+ex, c.IntN(2)*c.IntN(50))
	sprv.Export(o.Win())
	c.Check(bytes.Equal(o.Win()[:n], sc), "value", "%s: exported private key differs", what)
	guarded(c, o, 0, n, "%s private Export", what)
	// private key object in guarded memory
	gk := mon.Guarded(ar, sidh.NewPrivateKey(p.ID, v))
	c.Check(gk.Import(in) == nil, "import", "%s: import refused", what)
	src := c.Bytes(n)
	g2 := sidh.NewPrivateKey(p.ID, v)
	e1, e2 := gk.Generate(&queueReader{q: append([]byte{}, src...)}), g2.Generate(&queueReader{q: append([]byte{}, src...)})
	b1, b2 := make([]byte, n), make([]byte, n)
	gk.Export(b1)
	g2.Export(b2)
	c.Check((e1 == nil) == (e2 == nil) && bytes.Equal(b1, b2), "value", "%s: generated key differs from that on ordinary memory", what)
	c.Check(sprv.Size() == prv.Size() && spub.Size() == pub.Size(), "value", "%s: sizes differ", what)
	c.Count("operations:"+what, 6)
	c.Key(what, sc, osc)
	c.Sample("%s scalar %x peer scalar %x", what, sc, osc)
}

// memSike runs encapsulation and decapsulation of both packages.
func memSike(c *mon.Case) {
	ar := mon.NewArena(c)
	defer ar.Release()
	p := pset(c)
	kp := newPair(c, p)
	sprv, spub := mon.Sealed(ar, kp.prv), mon.Sealed(ar, kp.pub)
	im := pickKem(c)
	m := c.Bytes(p.MsgLen)
	q := &queueReader{q: append([]byte{}, m...)}
	k := newKem(c, im, p.ID, q)
	ct := ar.Out(p.CtLen()+c.IntN(2)*c.IntN(60), c.IntN(2)*c.IntN(60))
	ss := ar.Out(p.KemSize+c.IntN(2)*c.IntN(60), c.IntN(2)*c.IntN(60))
	err := k.Encapsulate(ct.Win(), ss.Win(), spub)
	c.Check(err == nil, "encaps", "%s %s: %v", im.name, p.Name, err)
	k2 := newKem(c, im, p.ID, &queueReader{q: append([]byte{}, m...)})
	wct, wss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
	c.Check(k2.Encapsulate(wct, wss, kp.pub) == nil, "encaps", "%s %s", im.name, p.Name)
	c.Check(bytes.Equal(ct.Win()[:p.CtLen()], wct) && bytes.Equal(ss.Win()[:p.KemSize], wss), "value", "%s %s: encapsulation differs from that on ordinary memory", im.name, p.Name)
	guarded(c, ct, 0, p.CtLen(), "%s %s Encapsulate ciphertext", im.name, p.Name)
	guarded(c, ss, 0, p.KemSize, "%s %s Encapsulate secret", im.name, p.Name)
	for i := 0; i < 2; i++ {
		x := append([]byte{}, wct...)
		if i == 1 {
			x[c.IntN(len(x))] ^= 1 << uint(c.IntN(8))
		}
		o := ar.Out(p.KemSize+c.IntN(2)*c.IntN(60), c.IntN(2)*c.IntN(60))
		e1 := k.Decapsulate(o.Win(), sprv, spub, ar.In(x))
		e2 := k2.Decapsulate(wss, kp.prv, kp.pub, x)
		c.Check(e1 == nil && e2 == nil && bytes.Equal(o.Win()[:p.KemSize], wss), "value", "%s %s: decapsulation differs from that on ordinary memory (%v %v)", im.name, p.Name, e1, e2)
		guarded(c, o, 0, p.KemSize, "%s %s Decapsulate", im.name, p.Name)
	}
	c.Count("operations:"+im.name+"-"+p.Name, 3)
	c.Key(im.name, p.Name, kp.sc, m)
	c.Sample("%s %s scalar %x m %x", im.name, p.Name, kp.sc, m)
}

// memCsidh runs the CSIDH operations.
func memCsidh(c *mon.Case) {
	ar := mon.NewArena(c)
	defer ar.Release()
	var e, e2 [74]int
	for i := 0; i < 3+c.IntN(5); i++ {
		e[c.IntN(74)] = c.IntN(11) - 5
		e2[c.IntN(74)] = c.IntN(11) - 5
	}
	seed := c.Uint64()
	rng := func() *mon.Reader { return mon.NewReader(mon.NewRand(seed, "mem", 0)) }
	prv, peer := cPrv(c, e), cPrv(c, e2)
	gk := mon.Guarded(ar, new(csidh.PrivateKey))
	c.Check(gk.Import(ar.In(cKey(e))), "import", "private key import refused")
	sprv := mon.Sealed(ar, prv)
	o := ar.Out(37+c.IntN(2)*c.IntN(40), c.IntN(2)*c.IntN(40))
	c.Check(sprv.Export(o.Win()) && bytes.Equal(o.Win()[:37], cKey(e)), "value", "exported private key differs")
	guarded(c, o, 0, 37, "csidh private Export")
	var pub, ppub csidh.PublicKey
	csidh.GeneratePublicKey(&pub, prv, rng())
	csidh.GeneratePublicKey(&ppub, peer, rng())
	gp := mon.Guarded(ar, new(csidh.PublicKey))
	csidh.GeneratePublicKey(gp, sprv, rng())
	spub := mon.Sealed(ar, gp)
	o = ar.Out(64, c.IntN(2)*c.IntN(40))
	c.Check(spub.Export(o.Win()) && bytes.Equal(o.Win(), cExport(&pub)), "value", "public key on guarded memory differs")
	guarded(c, o, 0, 64, "csidh public Export")
	// refused sizes leave the buffer alone
	n := c.IntN(140)
	if n != 64 {
		o = ar.Out(n, c.IntN(2)*c.IntN(100))
		ok := spub.Export(o.Win())
		if !ok {
			guarded(c, o, 0, 0, "csidh public Export refused for %d bytes", n)
		} else {
			guarded(c, o, 0, 64, "csidh public Export into %d bytes", n)
		}
		b := ar.In(c.Bytes(n))
		mon.Guarded(ar, new(csidh.PublicKey)).Import(b)
		mon.Guarded(ar, new(csidh.PrivateKey)).Import(b)
	}
	n = c.IntN(80)
	o = ar.Out(n, c.IntN(2)*c.IntN(100))
	if !sprv.Export(o.Win()) {
		guarded(c, o, 0, 0, "csidh private Export refused for %d bytes", n)
	} else {
		guarded(c, o, 0, 37, "csidh private Export into %d bytes", n)
	}
	gp2 := mon.Guarded(ar, new(csidh.PublicKey))
	c.Check(gp2.Import(ar.In(cExport(&ppub))), "import", "public key import refused")
	sp2 := mon.Sealed(ar, gp2)
	c.Check(csidh.Validate(sp2, rng()), "value", "valid key on guarded memory refused")
	bad := cRandEnc(c, cExport(&ppub))
	bk, bk2 := new(csidh.PublicKey), new(csidh.PublicKey)
	bk.Import(bad)
	bk2.Import(bad)
	c.Check(csidh.Validate(mon.Sealed(ar, bk), rng()) == csidh.Validate(bk2, rng()), "value", "validation of %x differs on guarded memory", bad)
	if c.IntN(2) == 0 {
		so := ar.Out(64, 0)
		var ss [64]byte
		w := csidh.DeriveSecret(&ss, &ppub, prv, rng())
		g := csidh.DeriveSecret((*[64]byte)(so.Win()), sp2, sprv, rng())
		c.Check(w && g && bytes.Equal(ss[:], so.Win()), "value", "secret on guarded memory differs")
		guarded(c, so, 0, 64, "csidh DeriveSecret")
		// refused keys: nothing is written
		if !csidh.Validate(bk, rng()) {
			so = ar.Out(64, 0)
			c.Check(!csidh.DeriveSecret((*[64]byte)(so.Win()), mon.Sealed(ar, bk), sprv, rng()), "value", "invalid key accepted")
			guarded(c, so, 0, 0, "csidh DeriveSecret with an invalid key")
		}
		c.Count("operations:csidh-derive", 1)
	}
	gg := mon.Guarded(ar, new(csidh.PrivateKey))
	var hg csidh.PrivateKey
	e1, e3 := csidh.GeneratePrivateKey(gg, rng()), csidh.GeneratePrivateKey(&hg, rng())
	b1, b2 := make([]byte, 37), make([]byte, 37)
	gg.Export(b1)
	hg.Export(b2)
	c.Check((e1 == nil) == (e3 == nil) && bytes.Equal(b1, b2), "value", "key generated on guarded memory differs")
	c.Count("operations:csidh", 9)
	c.Key(cKey(e), cKey(e2))
	c.Sample("csidh %x %x", cKey(e), cKey(e2))
}

// memMkem runs the multi-recipient schemes.
func memMkem(c *mon.Case) {
	ar := mon.NewArena(c)
	defer ar.Release()
	if c.IntN(6) > 0 {
		p := pset(c)
		n := 1 + c.IntN(3)
		m := c.Bytes(p.MsgLen)
		var k, k2 mkem.MultiKEM
		k.Allocate(p.ID, uint(n), &queueReader{q: append([]byte{}, m...)})
		k2.Allocate(p.ID, uint(n), &queueReader{q: append([]byte{}, m...)})
		var pubs, spubs []*sidh.PublicKey
		var kps []*sikePair
		for i := 0; i < n; i++ {
			kp := newPair(c, p)
			kps = append(kps, kp)
			pubs = append(pubs, kp.pub)
			spubs = append(spubs, mon.Sealed(ar, kp.pub))
		}
		o := ar.Out(p.KemSize+c.IntN(2)*c.IntN(50), c.IntN(2)*c.IntN(50))
		ss := make([]byte, p.KemSize)
		e1, e2 := k.Encapsulate(o.Win(), spubs), k2.Encapsulate(ss, pubs)
		c.Check(e1 == nil && e2 == nil && bytes.Equal(o.Win()[:p.KemSize], ss), "value", "%s multi-recipient secret differs on guarded memory (%v %v)", p.Name, e1, e2)
		guarded(c, o, 0, p.KemSize, "%s MultiKEM.Encapsulate", p.Name)
		if _, cts, ok := mkCts(&k2, n, p.PkLen(), p.MsgLen); ok {
			i := c.IntN(n)
			x := append([]byte{}, cts[i]...)
			if c.IntN(2) == 0 {
				x[c.IntN(len(x))] ^= 4
			}
			o := ar.Out(p.KemSize+c.IntN(2)*c.IntN(50), c.IntN(2)*c.IntN(50))
			e1 := k.Decapsulate(o.Win(), mon.Sealed(ar, kps[i].prv), mon.Sealed(ar, kps[i].pub), ar.In(x))
			e2 := k2.Decapsulate(ss, kps[i].prv, kps[i].pub, x)
			c.Check(e1 == nil && e2 == nil && bytes.Equal(o.Win()[:p.KemSize], ss), "value", "%s multi-recipient decapsulation differs on guarded memory (%v %v)", p.Name, e1, e2)
			guarded(c, o, 0, p.KemSize, "%s MultiKEM.Decapsulate", p.Name)
		}
		c.Count("operations:MultiKEM-"+p.Name, 2)
		c.Key(p.Name, m)
		c.Sample("%s MultiKEM m=%x", p.Name, m)
		return
	}
	var e [74]int
	e[c.IntN(74)] = 1 + c.IntN(5)
	prv := cPrv(c, e)
	var pub csidh.PublicKey
	csidh.GeneratePublicKey(&pub, prv, cRng(c))
	ent := c.Bytes(48)
	d1, d2 := drbg.NewCtrDrbg(), drbg.NewCtrDrbg()
	d1.Init(ent, nil)
	d2.Init(ent, nil)
	var pt [16]byte
	c.Fill(pt[:])
	sprv, spub, spt := mon.Sealed(ar, prv), mon.Sealed(ar, &pub), mon.Sealed(ar, &pt)
	var k, k2 mkem.PKE
	k.Allocate(d1)
	k2.Allocate(d2)
	ct, ct2 := k.Enc(spub, spt), k2.Enc(&pub, &pt)
	c.Check(ct == ct2, "value", "PKE ciphertext differs on guarded memory")
	out := k.Dec(sprv, mon.Sealed(ar, &ct))
	c.Check(out == pt, "value", "PKE plaintext differs on guarded memory")
	c.Count("operations:PKE", 2)
	c.Key("pke", pt[:])
	c.Sample("PKE plaintext %x", pt)
}

// how many leading pointer parameters a primitive writes
var primOuts = map[string]int{"fp_mod": 1, "fp_rdc": 2 /* its input is scratch */, "fp_cswap": 2, "fp2_cswap": 4, "cswap512": 2, "xIso": 2, "xDblAdd": 2,
	"isLess": 0, "isNonQuadRes": 0, "isZero": 0, "equal": 0}

// memPrim runs the arithmetic primitives with operands directly against unmapped memory.
func memPrim(c *mon.Case) {
	initSfields()
	initCfield()
	var names []string
	for _, n := range probe.Names() {
		if _, ok := probe.Get(n).(*bool); ok || strings.HasPrefix(n, "aes.") || strings.HasPrefix(n, "csidh.modExp512") {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	if len(names) == 0 {
		c.Skip("primitives")
		return
	}
	name := names[c.IntN(len(names))]
	fn := reflect.ValueOf(probe.Get(name))
	if fn.Kind() != reflect.Func || fn.Type().NumIn() == 0 {
		return
	}
	ar := mon.NewArena(c)
	defer ar.Release()
	pk, op, _ := strings.Cut(name, ".")
	outs, ok := primOuts[op]
	if !ok {
		outs = 1
	}
	if strings.HasPrefix(op, "ct") {
		return
	}
	var sf *sfield
	for _, f := range sfields {
		if f.name == pk {
			sf = f
		}
	}
	flags, avail := cFlags, cAvail
	if sf != nil {
		flags, avail = sf.flags, sf.flagsAvail
	}
	var gua [][]reflect.Value
	// the same operand values for both calls
	mk := func() []reflect.Value {
		var a []reflect.Value
		for i := 0; i < fn.Type().NumIn(); i++ {
			t := fn.Type().In(i)
			if t.Kind() != reflect.Pointer {
				a = append(a, reflect.New(t).Elem())
				switch t.Kind() {
				case reflect.Uint8:
					a[i].SetUint(uint64(c.IntN(2)))
				case reflect.Uint64:
					a[i].SetUint([]uint64{3, 5, 7, 13, 587, 373}[c.IntN(6)])
				}
				continue
			}
			v := reflect.New(t.Elem())
			switch x := v.Interface().(type) {
			case *common.Fp:
				*x = sf.fp(sf.elem(c))
			case *common.Fp2:
				*x = sf.elem2(c)
			case *common.FpX2:
				*x = sf.fpx(sf.wide(c))
			case *[8]uint64:
				*x = cfpOf(cElem(c))
			case *[2][8]uint64:
				x[0], x[1] = cfpOf(cElem(c)), cfpOf(cElem(c))
			case *[25]uint64:
				for j := range x {
					x[j] = c.Uint64()
				}
			case *[9]uint64:
			}
			a = append(a, v)
		}
		return a
	}
	vals := mk()
	eachPath(flags, avail, func(path string) {
		var h, g []reflect.Value
		for i, v := range vals {
			if v.Kind() != reflect.Pointer {
				h, g = append(h, v), append(g, v)
				continue
			}
			cp := reflect.New(v.Type().Elem())
			cp.Elem().Set(v.Elem())
			h = append(h, cp)
			g = append(g, ar.Value(v, i >= outs))
		}
		rh := fn.Call(h)
		rg := fn.Call(g)
		for i := range h {
			if h[i].Kind() == reflect.Pointer {
				c.Check(reflect.DeepEqual(h[i].Interface(), g[i].Interface()), "value", "%s (%s): operand %d after the call differs from that on ordinary memory", name, path, i)
				if i >= outs {
					c.Check(reflect.DeepEqual(h[i].Interface(), vals[i].Interface()), "input-changed", "%s (%s): operand %d changed", name, path, i)
				}
			}
		}
		for i := range rh {
			c.Check(reflect.DeepEqual(rh[i].Interface(), rg[i].Interface()), "value", "%s (%s): result differs from that on ordinary memory", name, path)
		}
		gua = append(gua, g)
	})
	c.Count("operations:"+name, len(gua))
	c.Key(name, c.Idx)
	c.Sample("%s on %d paths", name, len(gua))
}

func init() {
	mon.Register("C22", "hash", 12000, 400000, memHash)
	mon.Register("C22", "drbg", 8000, 300000, memDrbg)
	mon.Register("C22", "aes", 6000, 200000, memAes)
	mon.Register("C22", "primitives", 12000, 600000, memPrim)
	mon.Register("C22", "sidh", 240, 12000, memSidh)
	mon.Register("C22", "sike", 120, 6000, memSike)
	mon.Register("C22", "csidh", 100, 5000, memCsidh)
	mon.Register("C22", "mkem", 60, 3000, memMkem)
}
