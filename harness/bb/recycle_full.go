//go:build !appengine

package bb

import (
	"bytes"
	"fmt"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"mkem"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	mon.Register("C17", "recycled-objects", 30, 2500, recycledMkem)
	mon.Register("C18", "recycled-objects", 10, 800, recycledPke)
}

func recycledMkem(c *mon.Case) {
	p := pset(c)
	r := newRec(c, p, varSike, 3)
	q := &queueReader{}
	var k mkem.MultiKEM
	k.Allocate(p.ID, 2, q)
	pubs := []*sidh.PublicKey{r.pub[0], r.pub[1]} // the same slice and objects for all calls
	ssb, ctb := make([]byte, p.KemSize), make([]byte, p.MsgLen)
	var wct0 []byte
	var wcts [][]byte
	var wss []byte
	var to [2]int
	for step := 0; step < 8; step++ {
		if wct0 == nil || c.IntN(2) == 0 {
			for j := range pubs {
				if r.mpub[j] < 0 || c.IntN(2) == 0 {
					r.setPub(j, c.IntN(3))
				}
				to[j] = r.mpub[j]
			}
			m := pat(c, p.MsgLen)
			q.q = append([]byte{}, m...)
			r.tr += "enc "
			err := k.Encapsulate(ssb, pubs)
			wct0, wcts, wss = p.MKemEncaps([][]byte{r.mats[to[0]].pk, r.mats[to[1]].pk}, m)
			c.Check(err == nil && bytes.Equal(ssb, wss), "secret-recycled", "%s after %s: secret %x err %v, construction gives %x", p.Name, r.tr, ssb, err, wss)
			ct0, cts, ok := mkCts(&k, 2, p.PkLen(), p.MsgLen)
			c.Check(!ok || bytes.Equal(ct0, wct0) && bytes.Equal(cts[0], wcts[0]) && bytes.Equal(cts[1], wcts[1]), "ciphertext-recycled", "%s after %s: ciphertext %x %x, construction gives %x %x", p.Name, r.tr, head(ct0), cts, head(wct0), wcts)
			c.Count("encapsulations", 1)
		} else {
			i, j, x := r.somePrv(), c.IntN(2), c.IntN(2)
			if r.mpub[j] < 0 || c.IntN(3) == 0 {
				r.setPub(j, c.IntN(3))
			}
			if c.IntN(2) == 0 {
				r.setPrv(i, to[x])
				r.setPub(j, to[x])
			}
			copy(ctb, wcts[x])
			kp := r.mats[r.mprv[i]]
			want := wss
			good := bytes.Equal(kp.pk, r.mats[to[x]].pk) && bytes.Equal(r.mats[r.mpub[j]].pk, kp.pk)
			if !good {
				want = ref.Shake256(p.KemSize, []byte{3}, kp.s)
			}
			r.tr += fmt.Sprintf("dec(prv%d,pub%d,ct%d) ", i, j, x)
			err := k.Decapsulate(ssb, r.prv[i], r.pub[j], ctb)
			c.Check(err == nil && bytes.Equal(ssb, want), "decaps-recycled", "%s after %s: secret %x err %v, want %x (accepted %v)", p.Name, r.tr, ssb, err, want, good)
			if good {
				c.Count("decapsulations", 1)
			} else {
				c.Count("rejections", 1)
			}
		}
		c.Eval(1)
	}
	c.Key(p.Name, r.tr)
	c.Sample("%s %s", p.Name, r.tr)
}

func recycledPke(c *mon.Case) {
	d := newDrbg(c)
	var p mkem.PKE
	var mp mkem.MultiPKE
	p.Allocate(d)
	mp.Allocate(2, d)
	var es [3][74]int
	var encs [3][]byte
	for i := range es {
		for j := 0; j < 5; j++ {
			es[i][c.IntN(30)] = c.IntN(11) - 5
		}
		var k csidh.PublicKey
		csidh.GeneratePublicKey(&k, cPrv(c, es[i]), cRng(c))
		encs[i] = cExport(&k)
	}
	var prv csidh.PrivateKey
	pubs := make([]csidh.PublicKey, 2)
	var at [2]int
	set := func(j int) {
		at[j] = c.IntN(3)
		c.Check(pubs[j].Import(encs[at[j]]), "import", "refused")
	}
	set(0)
	set(1)
	var pt [16]byte // one buffer for all plaintexts
	ct := zeroOf(p.Enc)
	tr := ""
	open := func(u, v []byte, to int, want [16]byte) {
		copy(ct.U[:], u)
		copy(ct.V[:], v)
		c.Check(prv.Import(cKey(es[to])), "import", "refused")
		dec := p.Dec
		if c.IntN(2) == 0 {
			dec = mp.Dec
		}
		got := dec(&prv, &ct)
		c.Check(got == want, "decrypt-recycled", "after %s: recipient with key %d decrypts to %x, plaintext %x", tr, to, got, want)
		c.Count("decryptions", 1)
		c.Eval(1)
	}
	for step := 0; step < 4; step++ {
		for j := range pubs {
			if c.IntN(2) == 0 {
				set(j)
			}
		}
		c.Fill(pt[:])
		want := pt
		if c.IntN(2) == 0 {
			mp.Encrypt(pubs, &pt)
			tr += fmt.Sprint("multi", at, " ")
			u := append([]byte{}, mp.Ct0[:]...)
			for _, j := range c.Perm(2) {
				open(u, append([]byte{}, mp.Cts[j][:]...), at[j], want)
			}
		} else {
			j := c.IntN(2)
			x := p.Enc(&pubs[j], &pt)
			tr += fmt.Sprint("single", at[j], " ")
			open(x.U[:], x.V[:], at[j], want)
		}
		c.Check(pt == want, "inputs-changed", "plaintext changed")
		for j := range pubs {
			c.Check(bytes.Equal(cExport(&pubs[j]), encs[at[j]]), "inputs-changed", "recipient key changed")
		}
	}
	c.Key(tr, encs[0])
	c.Sample("%s", tr)
}

func init() {
	mon.Register("C17", "many-recipients", 34, 96, func(c *mon.Case) {
		p := ref.Sidh[0]
		for _, q := range ref.Sidh {
			if q.Bytes < p.Bytes {
				p = q
			}
		}
		n := 257 + c.IntN(30)
		if c.Idx >= 2 && c.Idx < 48 {
			n = c.Idx
		}
		q := &queueReader{}
		var k mkem.MultiKEM
		k.Allocate(p.ID, uint(n), q)
		var kps []*sikePair
		var pks [][]byte
		for i := 0; i < 4; i++ {
			kps = append(kps, newPair(c, p))
			pks = append(pks, kps[i].pk)
		}
		m := pat(c, p.MsgLen)
		wct0, wcts, wss := p.MKemEncaps(pks, m)
		who := make([]int, n)
		pubs := make([]*sidh.PublicKey, n)
		for i := range who {
			who[i] = c.IntN(4)
			pubs[i] = kps[who[i]].pub
		}
		q.q = append([]byte{}, m...)
		ss := make([]byte, p.KemSize)
		err := k.Encapsulate(ss, pubs)
		c.Check(err == nil && bytes.Equal(ss, wss), "secret", "%s %d recipients: secret %x err %v, construction gives %x", p.Name, n, ss, err, wss)
		ct0, cts, ok := mkCts(&k, n, p.PkLen(), p.MsgLen)
		if ok {
			c.Check(bytes.Equal(ct0, wct0), "shared-part", "%s %d recipients: shared ciphertext %x, construction gives %x", p.Name, n, head(ct0), head(wct0))
			for i := range cts {
				c.Check(bytes.Equal(cts[i], wcts[who[i]]), "recipient-part", "%s recipient %d of %d: ciphertext %x, construction gives %x", p.Name, i, n, cts[i], wcts[who[i]])
			}
		} else {
			c.Skip("ciphertexts of MultiKEM are not accessible")
		}
		for _, i := range []int{0, 1, 254, 255, 256, n - 1, c.IntN(n)} {
			if i >= n {
				continue
			}
			x := wcts[who[i]]
			if ok {
				x = cts[i]
			}
			kp := kps[who[i]]
			err := k.Decapsulate(ss, kp.prv, kp.pub, x)
			c.Check(err == nil && bytes.Equal(ss, wss), "recipient-secret", "%s recipient %d of %d gets %x err %v, encapsulated %x", p.Name, i, n, ss, err, wss)
		}
		c.Eval(n)
		c.Count("many-recipients", n)
		c.Key(p.Name, n, m)
		c.Sample("%s %d recipients", p.Name, n)
	})
	mon.Register("C18", "many-recipients", 9, 60, func(c *mon.Case) {
		n := 257 + c.IntN(10)
		if c.Idx > 0 && c.Idx < 36 || c.Tier != "thorough" && c.Idx > 0 {
			n = 1 + c.Idx
		}
		var mp mkem.MultiPKE
		mp.Allocate(uint(n), newDrbg(c))
		var sks [2]*csidh.PrivateKey
		var pks [2]csidh.PublicKey
		for i := range sks {
			var e [74]int
			for j := 0; j < 3; j++ {
				e[c.IntN(30)] = c.IntN(11) - 5
			}
			sks[i] = cPrv(c, e)
			csidh.GeneratePublicKey(&pks[i], sks[i], cRng(c))
		}
		keys := make([]csidh.PublicKey, n)
		who := make([]int, n)
		for i := range keys {
			who[i] = c.IntN(2)
			keys[i] = pks[who[i]]
		}
		var pt [16]byte
		c.Fill(pt[:])
		want := pt
		mp.Encrypt(keys, &pt)
		var h [2][]byte
		for i := range h {
			var ss [64]byte
			c.Check(csidh.DeriveSecret(&ss, cPub(c, mp.Ct0[:]), sks[i], cRng(c)), "invalid-ephemeral", "ephemeral key %x is invalid", mp.Ct0)
			h[i] = ref.Shake128(16, ss[:])
		}
		for i := range keys {
			for l := 0; l < 16; l++ {
				c.Check(mp.Cts[i][l] == want[l]^h[who[i]][l], "ciphertext-form", "recipient %d of %d: ciphertext %x, plaintext %x, SHAKE128(shared curve) %x", i, n, mp.Cts[i][:16], want, h[who[i]])
			}
		}
		c.Eval(n)
		c.Count("many-recipients", n)
		c.Key(n, want[:])
		c.Sample("%d recipients", n)
	})
}
