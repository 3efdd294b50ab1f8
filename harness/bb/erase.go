package bb

// C25: what is superseded is gone from the memory of the object.

import (
	"bytes"
	"fmt"
	"hash"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/hash/sha3"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	mon.Register("C25", "hash-reset", 4000, 100000, eraseHash)
	mon.Register("C25", "kem-reset", 100, 3000, eraseKem)
	mon.Register("C25", "key-import", 600, 20000, eraseKey)
}

// gone scans the memory of the object, and the memory that it used before (held).
func gone(c *mon.Case, what string, obj interface{}, secrets map[string][]byte, held ...[]byte) {
	m := append(mon.Reach(obj), held...)
	n := 0
	for _, ch := range m {
		n += len(ch)
	}
	c.Check(n > 0, "harness", "no memory of the object was found")
	c.Count("bytes-scanned", n)
	for name, s := range secrets {
		if at := mon.Holds(m, s); at >= 0 {
			c.Fail("retained", "%s: the object still holds bytes [%d,%d) of %s", what, at, at+8, name)
		}
		c.Count("scanned-for:"+name, 1)
	}
}

func eraseHash(c *mon.Case) {
	k := c.Idx % 8
	var h interface {
		Write([]byte) (int, error)
		Reset()
	}
	name := ""
	N, S := c.Bytes(c.IntN(20)), c.Bytes(1+c.IntN(100))
	mk := func() interface {
		Write([]byte) (int, error)
		Reset()
	} {
		switch {
		case k < 4:
			name = sha3algs[k].name
			return sha3algs[k].newH()
		case k < 6:
			name = sha3algs[k].name
			return sha3algs[k].newX()
		case k == 6:
			name = "cSHAKE128"
			return sha3.NewCShake128(N, S)
		}
		name = "cSHAKE256"
		return sha3.NewCShake256(N, S)
	}
	// what a new object holds anyway (round constants, names, the customisation)
	f := mk()
	base := mon.Words(mon.Reach(f))
	f.Reset()
	for w := range mon.Words(mon.Reach(f)) {
		base[w] = true
	}
	h = mk()
	tr := ""
	for i := 1 + c.IntN(3); i > 0; i-- {
		msg := c.Bytes(pickLen(c, sha3algs[min(k, 5)].rate) % 700)
		h.Write(msg)
		tr += fmt.Sprint("W", len(msg))
		sec := map[string][]byte{"the message": msg[max(0, len(msg)-400):]}
		if x, ok := h.(sha3.ShakeHash); ok && c.IntN(3) != 0 {
			if c.IntN(3) == 0 {
				h = x.Clone()
				x = h.(sha3.ShakeHash)
				tr += "C"
			}
			out := make([]byte, c.IntN(400))
			x.Read(out)
			tr += fmt.Sprint("R", len(out))
			sec["the output"] = out
		} else if x, ok := h.(hash.Hash); ok && k < 4 {
			sec["the digest"] = x.Sum(nil)
			tr += "S"
		}
		before, held := mon.Words(mon.Reach(h)), mon.Live(h)
		h.Reset()
		tr += "0 "
		gone(c, name+" after "+tr, h, sec, held...)
		for w := range mon.Words(mon.Reach(h)) {
			c.Check(!before[w] || base[w], "retained", "%s after %s: a word of the state before Reset, %016x, is still there", name, tr, w)
		}
		c.Count("state-words-compared", len(before))
	}
	c.Key(name, tr)
	c.Sample("%s %s", name, tr)
}

// ephemeral returns the secrets of a SIKE encapsulation.
func ephemeral(c *mon.Case, p *ref.SidhParams, pub *sidh.PublicKey, pk, m, ss []byte) map[string][]byte {
	r := p.MaskA(ref.Shake256(p.ABytes, m, pk))
	j := derive(p, mkPrv(c, p, varA, r, nil), mkPub(c, p, varB, pk))
	return map[string][]byte{"the message": m, "the ephemeral scalar": r, "the shared j-invariant": j, "the shared secret": ss}
}

func eraseKem(c *mon.Case) {
	p := pset(c)
	im := pickKem(c)
	kp := newPair(c, p)
	kp.sc, kp.s = c.Bytes(p.BBytes), c.Bytes(p.MsgLen)
	kp.sc[len(kp.sc)-1] = 1
	kp.prv = mkPrv(c, p, varSike, kp.sc, kp.s)
	kp.pub = genPub(p, kp.prv)
	kp.pk = pubBytes(p, kp.pub)
	q := &queueReader{}
	k := newKem(c, im, p.ID, q)
	tr := ""
	for i := 1 + c.IntN(2); i > 0; i-- {
		m := c.Bytes(p.MsgLen)
		q.q = append([]byte{}, m...)
		ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
		op := c.IntN(4)
		if op != 1 {
			c.Check(k.Encapsulate(ct, ss, kp.pub) == nil, "encaps-error", "")
			tr += "E"
		} else {
			ct, ss = p.SikeEncaps(kp.pk, m)
			q.q = nil
		}
		sec := ephemeral(c, p, kp.pub, kp.pk, m, ss)
		if op != 0 {
			got := make([]byte, p.KemSize)
			if op == 3 {
				ct[len(ct)-1-c.IntN(p.MsgLen)] ^= 1
				sec["the rejection value S"] = kp.s
				tr += "x"
			}
			c.Check(k.Decapsulate(got, kp.prv, kp.pub, ct) == nil, "decaps-error", "")
			sec["the private scalar"] = kp.sc
			sec["the decapsulated secret"] = got
			tr += "D"
		}
		held := mon.Live(k)
		k.Reset()
		tr += "0 "
		gone(c, im.name+" "+p.Name+" KEM after "+tr, k, sec, held...)
	}
	c.Key(im.name, p.Name, tr)
	c.Sample("%s %s %s", im.name, p.Name, tr)
}

func eraseKey(c *mon.Case) {
	p := pset(c)
	v := []sidh.KeyVariant{varA, varB, varSike}[c.IntN(3)]
	k := sidh.NewPrivateKey(p.ID, v)
	old := c.Bytes(k.Size())
	if c.IntN(2) == 0 {
		k.Generate(mon.NewReader(c.Rand))
		k.Export(old)
	} else {
		k.Import(old)
	}
	n := c.Bytes(k.Size())
	tr := "Import"
	if c.IntN(3) == 0 {
		tr = "Generate"
		k.Generate(mon.NewReader(c.Rand))
		k.Export(n)
	} else {
		c.Check(k.Import(n) == nil, "import", "refused")
	}
	gone(c, p.Name+" "+varName(v)+" key after "+tr, k, map[string][]byte{"the old key": old})
	b := make([]byte, k.Size())
	k.Export(b)
	c.Check(bytes.Equal(b, n), "import", "the new key is not there")
	c.Key(p.Name, int(v), tr)
}
