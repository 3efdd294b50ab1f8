//go:build !appengine

package bb

import (
	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/drbg"
	"mkem"

	"vharness/mon"
)

func confDrbg(c *mon.Case) {
	d := drbg.NewCtrDrbg()
	ent, pers := c.Bytes(48), c.Bytes(c.IntN(49))
	c.Check(d.Init(ent, pers), "init", "refused")
	var hist []byte
	for i := 1 + c.IntN(6); i > 0; i-- {
		switch c.IntN(4) {
		case 0:
			e, a := c.Bytes(48), c.Bytes(c.IntN(49))
			d.Reseed(e, a)
			hist = append(append(append(hist, 'R'), e...), a...)
		case 1:
			a := c.Bytes(c.IntN(49))
			out := make([]byte, c.IntN(200))
			d.ReadWithAdditionalData(out, a)
			hist = append(append(append(hist, 'A', byte(len(out))), a...))
			tr(c, "drbg", out, ent, pers, hist)
		default:
			out := make([]byte, c.IntN(200))
			d.Read(out)
			hist = append(hist, 'r', byte(len(out)))
			tr(c, "drbg", out, ent, pers, hist)
		}
	}
	c.Sample("drbg history of %d bytes", len(hist))
}

func confMkem(c *mon.Case) {
	p := pset(c)
	k1, k2 := newPair(c, p), newPair(c, p)
	m := c.Bytes(p.MsgLen)
	var k mkem.MultiKEM
	k.Allocate(p.ID, 2, &queueReader{q: append([]byte{}, m...)})
	ss := make([]byte, p.KemSize)
	if err := k.Encapsulate(ss, []*sidh.PublicKey{k1.pub, k2.pub}); err != nil {
		c.Fail("encaps", "%v", err)
	}
	tr(c, p.Name+"-mkem", ss, k1.pk, k2.pk, m)
	if ct0, cts, ok := mkCts(&k, 2, p.PkLen(), p.MsgLen); ok {
		tr(c, p.Name+"-mkem-ct", append(append(append([]byte{}, ct0...), cts[0]...), cts[1]...), k1.pk, k2.pk, m)
		ct := append([]byte{}, cts[1]...)
		if c.IntN(2) == 0 {
			ct[c.IntN(len(ct))] ^= 1 << uint(c.IntN(8))
		}
		if err := k.Decapsulate(ss, k2.prv, k2.pub, ct); err != nil {
			c.Fail("decaps", "%v", err)
		}
		tr(c, p.Name+"-mkem-decaps", ss, k2.pk, ct0, ct)
	}
	if c.IntN(3) == 0 {
		seed := c.Bytes(48)
		d := drbg.NewCtrDrbg()
		d.Init(seed, nil)
		e, _ := cExps(c)
		var pub csidh.PublicKey
		csidh.GeneratePublicKey(&pub, cPrv(c, e), cRng(c))
		var pke mkem.PKE
		pke.Allocate(d)
		var pt [16]byte
		c.Fill(pt[:])
		ct := pke.Enc(&pub, &pt)
		tr(c, "pke", append(append([]byte{}, ct.U[:]...), ct.V[:]...), seed, cKey(e), pt[:])
	}
	c.Sample("%s", p.Name)
}

func init() {
	mon.Register("C07", "drbg", 3000, 150000, confDrbg)
	mon.Register("C07", "mkem", 24, 1500, confMkem)
}
