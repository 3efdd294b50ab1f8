//go:build !appengine

package bb

import (
	"bytes"
	"fmt"

	"github.com/henrydcase/nobs/dh/sidh"
	"mkem"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	mon.Register("C24", "mkem", 80, 5000, func(c *mon.Case) {
		p := pset(c)
		n := 2 + c.IntN(3)
		q := &queueReader{}
		var k mkem.MultiKEM
		k.Allocate(p.ID, uint(n), q)
		var kps []*sikePair
		var pubs []*sidh.PublicKey
		var pks [][]byte
		bad := c.IntN(n)
		cl := ""
		for i := 0; i < n; i++ {
			kp := newPair(c, p)
			if i == bad {
				kp.pk, cl = hostileKey(c, p, varSike)
				kp.pub = mkPub(c, p, varSike, kp.pk)
			} else {
				pks = append(pks, kp.pk)
			}
			kps, pubs = append(kps, kp), append(pubs, kp.pub)
		}
		m := pat(c, p.MsgLen)
		q.q = append([]byte{}, m...)
		ss := make([]byte, p.KemSize)
		what := fmt.Sprintf("MultiKEM %s: recipient %d of %d has the key %x (%s)", p.Name, bad, n, kps[bad].pk, cl)
		var err error
		bounded(c, what, func() { err = k.Encapsulate(ss, pubs) })
		wct0, wcts, wss := p.MKemEncaps(pks, m)
		c.Check(err == nil && bytes.Equal(ss, wss), "secret", "%s: secret %x err %v, construction gives %x", what, ss, err, wss)
		ct0, cts, ok := mkCts(&k, n, p.PkLen(), p.MsgLen)
		if !ok {
			c.Skip("ciphertexts of MultiKEM are not accessible")
			return
		}
		c.Check(bytes.Equal(ct0, wct0), "shared-part", "%s: wrong shared ciphertext", what)
		for i, j := 0, 0; i < n; i++ {
			if i != bad {
				c.Check(bytes.Equal(cts[i], wcts[j]), "recipient-part", "%s: the part of recipient %d is %x, construction gives %x", what, i, cts[i], wcts[j])
				j++
			}
		}
		i := (bad + 1 + c.IntN(n-1)) % n
		got := make([]byte, p.KemSize)
		bounded(c, what, func() { err = k.Decapsulate(got, kps[i].prv, kps[i].pub, append([]byte{}, cts[i]...)) })
		c.Check(err == nil && bytes.Equal(got, wss), "recipient-secret", "%s: recipient %d gets %x err %v, want %x", what, i, got, err, wss)
		// a hostile shared part
		h, cl2 := hostileKey(c, p, varA)
		copy(ct0, h)
		what = fmt.Sprintf("MultiKEM %s sk %x: shared part %x (%s)", p.Name, kps[i].sc, h, cl2)
		bounded(c, what, func() { err = k.Decapsulate(got, kps[i].prv, kps[i].pub, append([]byte{}, cts[i]...)) })
		want := ref.Shake256(p.KemSize, []byte{3}, kps[i].s)
		c.Check(err == nil && bytes.Equal(got, want), "not-rejected", "%s: %x err %v, want %x", what, got, err, want)
		c.Count("hostile-recipients", 1)
		c.Key(p.Name, kps[bad].pk, h)
		c.Sample("%s/%d recipient %d: %s, shared part: %s", p.Name, n, bad, cl, cl2)
	})
	mon.Register("C24", "csidh-pke", 30, 1500, func(c *mon.Case) {
		b, cl, _ := curveEnc(c)
		var e [74]int
		for i := 1 + c.IntN(6); i > 0; i-- {
			e[c.IntN(74)] = c.IntN(11) - 5
		}
		sk := cPrv(c, e)
		what := fmt.Sprintf("ciphertext with the ephemeral key %x (%s)", b, cl)
		var pt [2][16]byte
		v := c.Bytes(64)
		for i := range pt {
			var p mkem.PKE
			p.Allocate(newDrbg(c))
			ct := zeroOf(p.Enc)
			copy(ct.U[:], b)
			copy(ct.V[:], v)
			bounded(c, what, func() { pt[i] = p.Dec(sk, &ct) })
		}
		c.Check(pt[0] == pt[1], "not-deterministic", "%s decrypts to %x, then %x", what, pt[0], pt[1])
		c.Count("hostile-pke-ciphertexts", 1)
		c.Key(b, v)
		c.Sample("%s", what)
	})
}
