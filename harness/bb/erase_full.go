//go:build !appengine

package bb

import (
	"fmt"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/drbg"
	"mkem"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	mon.Register("C25", "drbg-backtracking", 8000, 200000, eraseDrbg)
	mon.Register("C25", "mkem-reset", 60, 2000, eraseMkem)
}

// eraseDrbg: after a call the generator holds neither the previous key and V (with which the
// output of the call could be computed again), nor the output, nor the seed material.
func eraseDrbg(c *mon.Case) {
	f := aesFlags()
	hw := f[c.IntN(len(f))]
	withAES(hw, func() {
		d := drbg.NewCtrDrbg()
		var m ref.CtrDRBG
		tr := ""
		for i, n := 0, 2+c.IntN(6); i < n; i++ {
			old := m
			sec := map[string][]byte{}
			op := c.IntN(5)
			if i == 0 {
				op = 0
			}
			switch op {
			case 0:
				e, p := c.Bytes(48), c.Bytes(c.IntN(2)*c.IntN(49))
				c.Check(d.Init(e, p), "init", "refused")
				m.Instantiate(e, p)
				sec["the entropy"], sec["the personalisation string"] = e, p
				tr += "I"
			case 1:
				e, p := c.Bytes(48), c.Bytes(c.IntN(2)*c.IntN(49))
				d.Reseed(e, p)
				m.Reseed(e, p)
				sec["the entropy"], sec["the additional input"] = e, p
				tr += "S"
			default:
				out := make([]byte, c.IntN(150))
				ad := c.Bytes(c.IntN(2) * c.IntN(49))
				d.ReadWithAdditionalData(out, ad)
				m.Generate(len(out), ad)
				sec["the output"], sec["the additional input"] = out, ad
				tr += fmt.Sprint("R", len(out))
			}
			if i > 0 {
				sec["the previous key"], sec["the previous V"] = old.Key[:], old.V[:]
			}
			gone(c, fmt.Sprintf("generator (hwaes %v) after %s", hw, tr), d, sec)
			c.Eval(1)
		}
		c.Key(tr, hw)
		c.Sample("%s hwaes %v", tr, hw)
	})
}

func eraseMkem(c *mon.Case) {
	p := pset(c)
	n := 1 + c.IntN(3)
	q := &queueReader{}
	var k mkem.MultiKEM
	k.Allocate(p.ID, uint(n), q)
	var kps []*sikePair
	var pubs []*sidh.PublicKey
	for i := 0; i < n; i++ {
		kp := newPair(c, p)
		kp.sc, kp.s = c.Bytes(p.BBytes), c.Bytes(p.MsgLen)
		kp.sc[len(kp.sc)-1] = 1
		kp.prv = mkPrv(c, p, varSike, kp.sc, kp.s)
		kp.pub = genPub(p, kp.prv)
		kp.pk = pubBytes(p, kp.pub)
		kps, pubs = append(kps, kp), append(pubs, kp.pub)
	}
	m := c.Bytes(p.MsgLen)
	q.q = append([]byte{}, m...)
	ss := make([]byte, p.KemSize)
	c.Check(k.Encapsulate(ss, pubs) == nil, "encaps-error", "")
	r := p.MaskA(ref.Shake256(p.ABytes, []byte{1}, m))
	sec := map[string][]byte{"the message": m, "the ephemeral scalar": r, "the shared secret": ss}
	for i, kp := range kps {
		sec[fmt.Sprint("the j-invariant shared with recipient ", i)] = derive(p, mkPrv(c, p, varA, r, nil), mkPub(c, p, varB, kp.pk))
	}
	tr := "E"
	if c.IntN(2) == 0 {
		_, cts, ok := mkCts(&k, n, p.PkLen(), p.MsgLen)
		if ok {
			j := c.IntN(n)
			ct := append([]byte{}, cts[j]...)
			if c.IntN(2) == 0 {
				ct[0] ^= 1
				sec["the rejection value S"] = kps[j].s
				tr += "x"
			}
			got := make([]byte, p.KemSize)
			c.Check(k.Decapsulate(got, kps[j].prv, kps[j].pub, ct) == nil, "decaps-error", "")
			sec["the decapsulated secret"], sec["the private scalar"] = got, kps[j].sc
			tr += "D"
		}
	}
	held := mon.Live(&k)
	k.Reset()
	gone(c, fmt.Sprintf("MultiKEM %s/%d after %s0", p.Name, n, tr), &k, sec, held...)
	c.Key(p.Name, n, tr)
	c.Sample("%s/%d %s", p.Name, n, tr)
}
