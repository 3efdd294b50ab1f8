package bb

// Key objects and buffers that live long and change their value between operations: what an
// operation does depends on the value an object has now, not on the object's identity or past.

import (
	"bytes"
	"fmt"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	for _, prop := range []string{"C08", "C09", "C10"} {
		prop := prop
		mon.Register(prop, "recycled-objects", 40, 3000, func(c *mon.Case) { recycled(c, prop) })
	}
	for _, prop := range []string{"C14", "C15", "C16"} {
		prop := prop
		mon.Register(prop, "recycled-objects", 10, 800, func(c *mon.Case) { recycledCsidh(c, prop) })
	}
}

type recSidh struct {
	c    *mon.Case
	p    *ref.SidhParams
	v    sidh.KeyVariant
	mats []*sikePair
	prv  [2]*sidh.PrivateKey
	pub  [2]*sidh.PublicKey
	mprv [2]int // what the objects hold; -1: nothing
	mpub [2]int
	tr   string
}

func newRec(c *mon.Case, p *ref.SidhParams, v sidh.KeyVariant, n int) *recSidh {
	r := &recSidh{c: c, p: p, v: v}
	for i := 0; i < n; i++ {
		kp := &sikePair{}
		bits, l := sbits(p, v)
		kp.sc, _ = scalarOf(c, bits, l)
		if v == varSike {
			kp.s = pat(c, p.MsgLen)
		}
		kp.prv = mkPrv(c, p, v, kp.sc, kp.s)
		kp.pub = genPub(p, kp.prv)
		kp.pk = pubBytes(p, kp.pub)
		r.mats = append(r.mats, kp)
	}
	for i := range r.prv {
		r.prv[i], r.pub[i] = sidh.NewPrivateKey(p.ID, v), sidh.NewPublicKey(p.ID, v)
		r.mprv[i], r.mpub[i] = -1, -1
	}
	return r
}

// setPrv and setPub give an object the value of some key.
func (r *recSidh) setPrv(i, m int) {
	c, kp := r.c, r.mats[m]
	how := c.IntN(4)
	r.tr += fmt.Sprintf("prv%d=%d(%d) ", i, m, how)
	switch how {
	case 0: // the struct is copied
		*r.prv[i] = *mkPrv(c, r.p, r.v, kp.sc, kp.s)
	case 1: // the fields are set
		copy(r.prv[i].Scalar, kp.sc)
		copy(r.prv[i].S, kp.s)
	default:
		c.Check(r.prv[i].Import(append(append([]byte{}, kp.s...), kp.sc...)) == nil, "import", "")
	}
	r.mprv[i] = m
}

func (r *recSidh) setPub(i, m int) {
	c, kp := r.c, r.mats[m]
	how := c.IntN(5)
	r.tr += fmt.Sprintf("pub%d=%d(%d) ", i, m, how)
	switch {
	case how == 0:
		*r.pub[i] = *kp.pub
	case how == 1:
		kp.prv.GeneratePublicKey(r.pub[i])
	case how == 2 && r.mprv[0] == m:
		r.prv[0].GeneratePublicKey(r.pub[i])
	default:
		c.Check(r.pub[i].Import(kp.pk) == nil, "import", "")
	}
	r.mpub[i] = m
}

// some returns the index of a filled object, and gives objects new values now and then.
func (r *recSidh) somePrv() int {
	i := r.c.IntN(2)
	if r.mprv[i] < 0 || r.c.IntN(2) == 0 {
		r.setPrv(i, r.c.IntN(len(r.mats)))
	}
	return i
}

func (r *recSidh) somePub() int {
	i := r.c.IntN(2)
	if r.mpub[i] < 0 || r.c.IntN(2) == 0 {
		r.setPub(i, r.c.IntN(len(r.mats)))
	}
	return i
}

func recycled(c *mon.Case, prop string) {
	p := pset(c)
	if prop == "C08" {
		recycledExchange(c, p)
		return
	}
	im := pickKem(c)
	r := newRec(c, p, varSike, 3)
	q := &queueReader{}
	k := newKem(c, im, p.ID, q)
	type enc struct {
		m, ct, ss []byte
	}
	table := make([]enc, 3)
	for i := range table {
		e := &table[i]
		e.m = pat(c, p.MsgLen)
		e.ct, e.ss = p.SikeEncaps(r.mats[i].pk, e.m)
	}
	ctb, ssb := make([]byte, p.CtLen()), make([]byte, p.KemSize)
	for step := 0; step < 10; step++ {
		what := func() string { return fmt.Sprintf("%s %s after %s", im.name, p.Name, r.tr) }
		if c.IntN(12) == 0 {
			k.Reset()
			r.tr += "reset "
		}
		if op := c.IntN(3); op == 0 && prop == "C09" || op == 0 && c.IntN(3) == 0 {
			j := r.somePub()
			e := table[r.mpub[j]]
			q.q = append([]byte{}, e.m...)
			r.tr += fmt.Sprintf("enc(pub%d) ", j)
			err := k.Encapsulate(ctb, ssb, r.pub[j])
			c.Check(err == nil && bytes.Equal(ctb, e.ct) && bytes.Equal(ssb, e.ss), "encaps-recycled", "%s: ciphertext %x secret %x err %v, specification %x %x", what(), ctb, ssb, err, e.ct, e.ss)
			c.Count("encapsulations", 1)
		} else {
			i, j, x := r.somePrv(), r.somePub(), c.IntN(3)
			if c.IntN(2) == 0 && r.mprv[i] != r.mpub[j] {
				r.setPub(j, r.mprv[i])
			}
			if c.IntN(2) == 0 {
				x = r.mpub[j]
			}
			e := table[x]
			copy(ctb, e.ct)
			want, alt := e.ss, false
			if c.IntN(3) == 0 || prop == "C10" && c.IntN(3) == 0 {
				ctb[c.IntN(len(ctb))] ^= byte(1 << c.IntN(8))
				alt = true
			}
			kp := r.mats[r.mprv[i]]
			same := bytes.Equal(kp.sc, r.mats[x].sc) && bytes.Equal(r.mats[r.mpub[j]].pk, r.mats[x].pk)
			if alt || !same {
				want = p.Reject(kp.s, ctb)
			}
			in := append([]byte{}, ctb...)
			r.tr += fmt.Sprintf("dec(prv%d,pub%d,ct%d,%v) ", i, j, x, alt)
			err := k.Decapsulate(ssb, r.prv[i], r.pub[j], ctb)
			c.Check(err == nil && bytes.Equal(ssb, want), "decaps-recycled", "%s: secret %x err %v, want %x (sk %x S %x pk %x ct %x)", what(), ssb, err, want, kp.sc, kp.s, head(r.mats[r.mpub[j]].pk), in)
			c.Check(bytes.Equal(in, ctb), "inputs-changed", "%s: ciphertext changed", what())
			if alt || !same {
				c.Count("rejections", 1)
			} else {
				c.Count("decapsulations", 1)
			}
		}
		c.Eval(1)
	}
	for j := range r.pub {
		if r.mpub[j] >= 0 {
			c.Check(bytes.Equal(pubBytes(p, r.pub[j]), r.mats[r.mpub[j]].pk), "inputs-changed", "public key changed")
		}
	}
	c.Key(im.name, p.Name, r.tr)
	c.Sample("%s %s %s", im.name, p.Name, r.tr)
}

func recycledExchange(c *mon.Case, p *ref.SidhParams) {
	bv := []sidh.KeyVariant{varB, varSike}[c.IntN(2)]
	a, b := newRec(c, p, varA, 2), newRec(c, p, bv, 2)
	var sec [2][2][]byte
	for i := range sec {
		for j := range sec[i] {
			if i == j {
				sec[i][j] = p.Secret(true, a.mats[i].sc, b.mats[j].pk)
			} else {
				sec[i][j] = derive(p, a.mats[i].prv, b.mats[j].pub)
			}
		}
	}
	ss := make([]byte, p.SsLen())
	tr := ""
	for step := 0; step < 12; step++ {
		me, peer := a, b
		if c.IntN(2) == 0 {
			me, peer = b, a
		}
		a.tr, b.tr = "", ""
		if c.IntN(4) == 0 {
			i, j := me.somePrv(), c.IntN(2)
			me.prv[i].GeneratePublicKey(me.pub[j])
			me.mpub[j] = me.mprv[i]
			tr += me.tr + fmt.Sprintf("pub%d=gen(prv%d) ", j, i)
			got := pubBytes(p, me.pub[j])
			c.Check(bytes.Equal(got, me.mats[me.mpub[j]].pk), "public-key-recycled", "%s %s after %s: public key %x, want %x", p.Name, varName(me.v), tr, head(got), head(me.mats[me.mpub[j]].pk))
			c.Count("public-keys", 1)
		} else {
			i, j := me.somePrv(), peer.somePub()
			tr += me.tr + peer.tr + fmt.Sprintf("%s derive(prv%d,pub%d) ", varName(me.v), i, j)
			x, y := me.mprv[i], peer.mpub[j]
			if me == b {
				x, y = y, x
			}
			me.prv[i].DeriveSecret(ss, peer.pub[j])
			c.Check(bytes.Equal(ss, sec[x][y]), "secret-recycled", "%s after %s: secret %x, want %x", p.Name, tr, ss, sec[x][y])
			c.Count("secrets", 1)
		}
		c.Eval(1)
	}
	c.Key(p.Name, tr)
	c.Sample("%s %s", p.Name, tr)
}

func recycledCsidh(c *mon.Case, prop string) {
	// curves: some honest ones, their keys, and invalid ones
	var es [2][74]int
	var encs [][]byte
	var valid []bool
	var sec [2][][]byte
	for i := range es {
		es[i], _ = cExps(c)
		if c.IntN(2) == 0 { // cheap ones
			es[i] = [74]int{}
			for j := 0; j < 6; j++ {
				es[i][c.IntN(40)] = c.IntN(11) - 5
			}
		}
		encs = append(encs, ref.CsidhEncode(ref.CsidhAction(ref.CsidhDecode(make([]byte, 64)), es[i], c.Rand)))
		valid = append(valid, true)
	}
	encs, valid = append(encs, make([]byte, 64)), append(valid, true)
	for i := 0; i < 2; i++ {
		b, _, hint := curveEnc(c)
		ok := ref.LeInt(b).Cmp(ref.CP) < 0
		if ok && hint != nil {
			ok = *hint
		} else if ok {
			ok = ref.CsidhSupersingular(ref.CsidhDecode(b), c.Rand)
		}
		encs, valid = append(encs, b), append(valid, ok)
	}
	for i := range es {
		sec[i] = make([][]byte, len(encs))
	}
	var prv [2]csidh.PrivateKey
	var pub [2]csidh.PublicKey
	mprv, mpub := [2]int{-1, -1}, [2]int{-1, -1}
	tr := ""
	setPub := func(j int) {
		m := c.IntN(len(encs))
		how := c.IntN(3)
		if how == 0 {
			pub[j] = *cPub(c, encs[m])
		} else {
			c.Check(pub[j].Import(encs[m]), "import", "refused")
		}
		mpub[j] = m
		tr += fmt.Sprintf("pub%d=%d ", j, m)
	}
	var ss [64]byte
	for step := 0; step < 8; step++ {
		i, j := c.IntN(2), c.IntN(2)
		if mprv[i] < 0 || c.IntN(3) == 0 {
			m := c.IntN(len(es))
			if c.IntN(3) == 0 {
				prv[i] = *cPrv(c, es[m])
			} else {
				c.Check(prv[i].Import(cKey(es[m])), "import", "refused")
			}
			mprv[i] = m
			tr += fmt.Sprintf("prv%d=%d ", i, m)
		}
		op := c.IntN(3)
		if mpub[j] < 0 && op != 0 || c.IntN(2) == 0 {
			setPub(j)
		}
		switch op {
		case 0:
			csidh.GeneratePublicKey(&pub[j], &prv[i], cRng(c))
			mpub[j] = mprv[i]
			tr += fmt.Sprintf("pub%d=gen(prv%d) ", j, i)
			c.Check(bytes.Equal(cExport(&pub[j]), encs[mpub[j]]), "public-key-recycled", "after %s: public key %x, want %x", tr, cExport(&pub[j]), encs[mpub[j]])
			c.Count("public-keys", 1)
		case 1:
			got := csidh.Validate(&pub[j], cRng(c))
			tr += fmt.Sprintf("validate(pub%d) ", j)
			c.Check(got == valid[mpub[j]], "validate-recycled", "after %s: Validate of %x gives %v", tr, encs[mpub[j]], got)
			c.Count("validations", 1)
		default:
			x, y := mprv[i], mpub[j]
			ok := csidh.DeriveSecret(&ss, &pub[j], &prv[i], cRng(c))
			tr += fmt.Sprintf("derive(prv%d,pub%d) ", i, j)
			c.Check(ok == valid[y], "derive-recycled", "after %s: DeriveSecret with %x reports %v", tr, encs[y], ok)
			if ok {
				if sec[x][y] == nil {
					sec[x][y] = ref.CsidhEncode(ref.CsidhAction(ref.CsidhDecode(encs[y]), es[x], c.Rand))
				}
				c.Check(bytes.Equal(ss[:], sec[x][y]), "secret-recycled", "after %s: secret %x, want %x", tr, ss, sec[x][y])
			}
			c.Count("secrets", 1)
		}
		if mpub[j] >= 0 {
			c.Check(bytes.Equal(cExport(&pub[j]), encs[mpub[j]]), "inputs-changed", "after %s: public key changed", tr)
		}
		c.Eval(1)
	}
	for i := range prv {
		if mprv[i] >= 0 {
			b := make([]byte, 37)
			c.Check(prv[i].Export(b) && bytes.Equal(b, cKey(es[mprv[i]])), "inputs-changed", "after %s: private key changed", tr)
		}
	}
	c.Key(tr, encs[0], encs[1])
	c.Sample("%s", tr)
}
