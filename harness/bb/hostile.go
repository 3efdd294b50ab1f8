package bb

// C24: data that comes over the wire never crashes an operation or keeps it busy, and what comes
// out depends on nothing but that data and the private key.

import (
	"bytes"
	"fmt"
	"math/big"
	"syscall"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"

	"vharness/mon"
	"vharness/ref"
)

// CPU seconds one operation on hostile data may use; ordinary ones need less than a second, the
// slowest (CSIDH without assembly) a few.
const hostileCPU = 60

func cpuNow() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func bounded(c *mon.Case, what string, f func()) {
	t := cpuNow()
	if v := mon.Panics(f); v != nil {
		c.Fail("panic", "%s: panic: %v", what, v)
	}
	if t = cpuNow() - t; t > hostileCPU {
		c.Fail("slow", "%s: took %.0f CPU seconds", what, t)
	}
}

// hostileCoord is the encoding of some integer that fits the coordinate.
func hostileCoord(c *mon.Case, p *ref.SidhParams, near []byte) ([]byte, string) {
	lim := new(big.Int).Lsh(big.NewInt(1), uint(8*p.Bytes))
	x := new(big.Int)
	cl := ""
	switch c.IntN(12) {
	case 0, 1:
		cl = "0"
	case 2:
		cl = "1"
		x.SetInt64(1)
	case 3:
		cl = "-1"
		x.Sub(p.Field.P, big.NewInt(1))
	case 4:
		cl = "p"
		x.Set(p.Field.P)
	case 5:
		cl = "top"
		x.Sub(lim, big.NewInt(1+int64(c.IntN(3))))
	case 6:
		cl = "small"
		x.SetInt64(int64(c.IntN(20)))
	case 7:
		cl = "power"
		x.Lsh(big.NewInt(1), uint(c.IntN(8*p.Bytes)))
	case 8:
		cl = "near-p"
		x.Add(p.Field.P, big.NewInt(int64(c.IntN(7))-3))
	case 10:
		cl = "multiple of p"
		q := new(big.Int).Div(lim, p.Field.P)
		x.Mul(p.Field.P, big.NewInt(1+c.Int64N(q.Int64())))
		switch c.IntN(4) {
		case 0:
			x.Add(x, big.NewInt(int64(c.IntN(5))-2))
		case 1: // another encoding of the same value
			x.Add(x, new(big.Int).Mod(ref.LeInt(near), p.Field.P))
			if x.Cmp(lim) >= 0 {
				x.Sub(x, p.Field.P)
			}
		}
	case 9:
		cl = "neg"
		x.Sub(p.Field.P, new(big.Int).Mod(ref.LeInt(near), p.Field.P))
	default:
		return c.Bytes(p.Bytes), "random"
	}
	if x.Cmp(lim) >= 0 {
		x.Sub(lim, big.NewInt(1))
	}
	return ref.LeBytes(x, p.Bytes), cl
}

// hostileKey is an encoding of the right length that no honest party sends; v is the variant it
// is going to be imported as.
func hostileKey(c *mon.Case, p *ref.SidhParams, v sidh.KeyVariant) ([]byte, string) {
	n := p.Bytes
	sc, _ := scalarOf(c, p.ABits, p.ABytes)
	hv := varA
	if v != varA {
		hv = varB
		sc, _ = scalarOf(c, p.BBits, p.BBytes)
	}
	var b []byte
	if c.IntN(3) == 0 {
		b = ref.Sidh[indexOf(p)].PublicKey(hv == varA, sc)
	} else {
		b = pubFor(c, p, hv, sc)
	}
	elem := func(i int) []byte { return b[2*n*i : 2*n*(i+1)] }
	cl := ""
	switch c.IntN(9) {
	case 0, 1: // all coordinates
		for i := 0; i < 6; i++ {
			x, k := hostileCoord(c, p, b[n*i:n*(i+1)])
			copy(b[n*i:], x)
			cl += k + " "
		}
	case 2, 3: // one coordinate
		i := c.IntN(6)
		x, k := hostileCoord(c, p, b[n*i:n*(i+1)])
		copy(b[n*i:], x)
		cl = fmt.Sprint("coordinate ", i, "=", k)
	case 4: // one or two points with x = 0, 1, -1
		for j := 1 + c.IntN(2); j > 0; j-- {
			i := c.IntN(3)
			copy(elem(i), make([]byte, 2*n))
			switch c.IntN(3) {
			case 1:
				elem(i)[0] = 1
			case 2:
				copy(elem(i), ref.LeBytes(new(big.Int).Sub(p.Field.P, big.NewInt(1)), n))
			}
			cl += fmt.Sprint("point ", i, "=", elem(i)[0], " ")
		}
	case 5: // equal points
		i, j := c.IntN(3), c.IntN(3)
		copy(elem(i), elem(j))
		cl = fmt.Sprint("point ", i, "=point ", j)
		if c.IntN(3) == 0 {
			copy(b, bytes.Repeat(append([]byte{}, elem(j)...), 3))
		}
	case 6: // a permutation
		o := append([]byte{}, b...)
		pm := c.Perm(3)
		for i, j := range pm {
			copy(elem(i), o[2*n*j:])
		}
		cl = fmt.Sprint("permuted ", pm)
	case 7: // real
		for i := 0; i < 3; i++ {
			copy(elem(i)[n:], make([]byte, n))
		}
		cl = "real parts only"
	default: // the key of the other group
		if hv == varA {
			sc, _ = scalarOf(c, p.BBits, p.BBytes)
			b = pubFor(c, p, varB, sc)
		} else {
			sc, _ = scalarOf(c, p.ABits, p.ABytes)
			b = pubFor(c, p, varA, sc)
		}
		cl = "key of the other torsion group"
	}
	return b, cl
}

// reduceKey gives each coordinate its canonical encoding.
func reduceKey(p *ref.SidhParams, b []byte) []byte {
	var o []byte
	for i := 0; i < len(b)/p.Bytes; i++ {
		x := ref.LeInt(b[i*p.Bytes : (i+1)*p.Bytes])
		o = append(o, ref.LeBytes(x.Mod(x, p.Field.P), p.Bytes)...)
	}
	return o
}

func init() {
	mon.Register("C24", "sidh", 500, 30000, func(c *mon.Case) {
		p := pset(c)
		my, peer := varB, varA
		if c.IntN(2) == 0 {
			my, peer = varA, varB
		}
		if my == varB && c.IntN(3) == 0 {
			my = varSike
		} else if peer == varB && c.IntN(3) == 0 {
			peer = varSike
		}
		bits, n := sbits(p, my)
		sc, _ := scalarOf(c, bits, n)
		var s []byte
		if my == varSike {
			s = make([]byte, p.MsgLen)
		}
		prv := mkPrv(c, p, my, sc, s)
		b, cl := hostileKey(c, p, peer)
		what := fmt.Sprintf("%s %s scalar %x, peer key %x (%s)", p.Name, varName(my), sc, b, cl)
		pub := sidh.NewPublicKey(p.ID, peer)
		var err error
		keep := append([]byte{}, b...)
		bounded(c, what+": Import", func() { err = pub.Import(b) })
		c.Check(err == nil && bytes.Equal(b, keep), "import", "%s: Import: %v", what, err)
		red := reduceKey(p, b)
		c.Check(bytes.Equal(pubBytes(p, pub), red), "export", "%s: exported as %x", what, pubBytes(p, pub))
		var s1, s2, s3 []byte
		bounded(c, what, func() { s1 = derive(p, prv, pub) })
		bounded(c, what, func() { s2 = derive(p, mkPrv(c, p, my, sc, s), mkPub(c, p, peer, b)) })
		c.Check(bytes.Equal(s1, s2), "not-deterministic", "%s: secret %x, then %x", what, s1, s2)
		c.Check(bytes.Equal(s1, reduceKey(p, s1)), "not-canonical", "%s: secret %x has an element that is not reduced", what, s1)
		bounded(c, what, func() { s3 = derive(p, prv, mkPub(c, p, peer, red)) })
		c.Check(bytes.Equal(s1, s3), "encoding-dependent", "%s: secret %x; with the same elements in canonical encoding %x", what, s1, s3)
		c.Check(bytes.Equal(pubBytes(p, pub), red), "inputs-changed", "%s: the key changed", what)
		c.Count("hostile-keys:"+p.Name, 1)
		c.Key(p.Name, int(my), b)
		c.Sample("%s %s peer key %s -> %x", p.Name, varName(my), cl, head(s1))
	})
	mon.Register("C24", "sike", 240, 14000, func(c *mon.Case) {
		p := pset(c)
		im := pickKem(c)
		q := &queueReader{}
		k := newKem(c, im, p.ID, q)
		if c.IntN(2) == 0 {
			b, cl := hostileKey(c, p, varSike)
			pub := mkPub(c, p, varSike, b)
			m := pat(c, p.MsgLen)
			what := fmt.Sprintf("%s %s: Encapsulate %x to the key %x (%s)", im.name, p.Name, m, b, cl)
			ct, ss := [2][]byte{}, [2][]byte{}
			for i := range ct {
				ct[i], ss[i] = make([]byte, p.CtLen()), make([]byte, p.KemSize)
				q.q = append([]byte{}, m...)
				var err error
				bounded(c, what, func() { err = k.Encapsulate(ct[i], ss[i], pub) })
				c.Check(err == nil, "error", "%s: %v", what, err)
				if i == 0 && c.IntN(2) == 0 {
					im = pickKem(c)
					k = newKem(c, im, p.ID, q)
				}
				pub = mkPub(c, p, varSike, reduceKey(p, b))
			}
			c.Check(bytes.Equal(ct[0], ct[1]) && bytes.Equal(ss[0], ss[1]), "not-deterministic", "%s: ciphertext %x secret %x, then %x %x", what, ct[0], ss[0], ct[1], ss[1])
			r := p.MaskA(ref.Shake256(p.ABytes, m, reduceKey(p, b)))
			c.Check(bytes.Equal(ct[0][:p.PkLen()], pubFor(c, p, varA, r)), "ciphertext", "%s: wrong ephemeral key in %x", what, ct[0])
			c.Check(bytes.Equal(ss[0], ref.Shake256(p.KemSize, m, ct[0])), "secret", "%s: secret %x is not H(m||ciphertext)", what, ss[0])
			c.Count("hostile-public-keys:"+p.Name, 1)
			c.Key(im.name, p.Name, b, m)
			c.Sample("%s %s encapsulation to %s", im.name, p.Name, cl)
			return
		}
		kp := newPair(c, p)
		b, cl := hostileKey(c, p, varA)
		ct := append(b, c.Bytes(p.MsgLen)...)
		if c.IntN(4) == 0 { // the owner of the key pair has the hostile public key
			kp.pk, _ = hostileKey(c, p, varSike)
			kp.pub = mkPub(c, p, varSike, kp.pk)
			cl += " and public key"
		}
		what := fmt.Sprintf("%s %s sk %x: Decapsulate %x (%s)", im.name, p.Name, kp.sc, ct, cl)
		ss := make([]byte, p.KemSize)
		var err error
		bounded(c, what, func() { err = k.Decapsulate(ss, kp.prv, kp.pub, ct) })
		c.Check(err == nil && bytes.Equal(ss, p.Reject(kp.s, ct)), "not-rejected", "%s: %x err %v, H(S||ct) is %x", what, ss, err, p.Reject(kp.s, ct))
		c.Count("hostile-ciphertexts:"+p.Name, 1)
		c.Key(im.name, p.Name, ct)
		c.Sample("%s %s decapsulation of %s -> %x", im.name, p.Name, cl, ss)
	})
	mon.Register("C24", "csidh", 60, 4000, func(c *mon.Case) {
		b, cl, _ := curveEnc(c)
		e, _ := cExps(c)
		prv := cPrv(c, e)
		what := fmt.Sprintf("key %x (%s)", b, cl)
		var ok [2]bool
		var ss [2][64]byte
		for i := range ok {
			pub := cPub(c, b)
			rng := cRng(c)
			if c.IntN(3) == 0 {
				rng, _ = hostileRng(c, ref.CsidhDecode(b))
			}
			bounded(c, what, func() { ok[i] = csidh.DeriveSecret(&ss[i], pub, prv, rng) })
			if !ok[i] {
				ss[i] = [64]byte{}
			}
			c.Check(bytes.Equal(cExport(pub), b), "inputs-changed", "%s: the key changed", what)
		}
		c.Check(ok[0] == ok[1] && ss[0] == ss[1], "not-deterministic", "%s: accepted %v, secret %x; then %v, %x", what, ok[0], ss[0], ok[1], ss[1])
		if ok[0] {
			c.Count("accepted", 1)
			c.Check(ref.LeInt(ss[0][:]).Cmp(ref.CP) < 0, "not-canonical", "%s: secret %x is not reduced", what, ss[0])
		} else {
			c.Count("refused", 1)
		}
		c.Key(b, cKey(e))
		c.Sample("%s -> %v", what, ok[0])
	})
}
