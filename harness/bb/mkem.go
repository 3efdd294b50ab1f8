//go:build !appengine

package bb

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"unsafe"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/drbg"
	"mkem"

	"vharness/mon"
	"vharness/ref"
)

func init() {
	kemImpls = append(kemImpls, kemImpl{"mkem", func() kemAPI { return new(mkem.KEM) }, func(id uint8, rng io.Reader) kemAPI {
		switch id {
		case sidh.Fp434:
			return mkem.NewSike434(rng)
		case sidh.Fp503:
			return mkem.NewSike503(rng)
		}
		return mkem.NewSike751(rng)
	}})
}

// mkCts gives access to the ciphertexts of a MultiKEM (kept in unexported fields): shared
// part and per-recipient parts.  ok is false when this tree keeps them elsewhere.
func mkCts(k *mkem.MultiKEM, n, pkLen, msgLen int) (ct0 []byte, cts [][]byte, ok bool) {
	v := reflect.ValueOf(k).Elem()
	bytesOf := func(f reflect.Value, n int) []byte {
		switch f.Kind() {
		case reflect.Array:
			if f.Type().Elem().Kind() == reflect.Uint8 && f.Len() >= n {
				return unsafe.Slice((*byte)(unsafe.Pointer(f.UnsafeAddr())), n)
			}
		case reflect.Slice:
			if f.Type().Elem().Kind() == reflect.Uint8 && f.Len() >= n {
				return unsafe.Slice((*byte)(unsafe.Pointer(f.Pointer())), n)
			}
		}
		return nil
	}
	f := v.FieldByName("ct0")
	if !f.IsValid() {
		return nil, nil, false
	}
	if ct0 = bytesOf(f, pkLen); ct0 == nil {
		return nil, nil, false
	}
	l := v.FieldByName("cts")
	if !l.IsValid() || l.Kind() != reflect.Slice || l.Len() < n {
		return nil, nil, false
	}
	for i := 0; i < n; i++ {
		b := bytesOf(l.Index(i), msgLen)
		if b == nil {
			return nil, nil, false
		}
		cts = append(cts, b)
	}
	return ct0, cts, true
}

func newDrbg(c *mon.Case) *drbg.CtrDrbg {
	d := drbg.NewCtrDrbg()
	c.Check(d.Init(c.Bytes(48), nil), "drbg-init", "Init refused 48 bytes of entropy")
	return d
}

func init() {
	mon.Register("C17", "recipients", 140, 8000, func(c *mon.Case) {
		p := pset(c)
		n := 1 + c.IntN(4)
		slots := n + c.IntN(2)*c.IntN(3)
		q := &queueReader{}
		var k mkem.MultiKEM
		k.Allocate(p.ID, uint(slots), q)
		var kps []*sikePair
		var pubs []*sidh.PublicKey
		var pks [][]byte
		for i := 0; i < n; i++ {
			kp := newPair(c, p)
			if i > 0 && c.IntN(8) == 0 {
				kp = kps[0] // the same recipient twice
			}
			kps = append(kps, kp)
			pubs = append(pubs, kp.pub)
			pks = append(pks, kp.pk)
		}
		m := pat(c, p.MsgLen)
		q.q = append([]byte{}, m...)
		ssb := mon.NewCanary(p.KemSize+c.IntN(2)*c.IntN(30), 16)
		err := k.Encapsulate(ssb.Win(), pubs)
		c.Check(err == nil, "encaps-error", "%s: %v", p.Name, err)
		if err := ssb.Broken(0, p.KemSize); err != nil {
			c.Fail("secret-overrun", "%s: %v", p.Name, err)
		}
		wct0, wcts, wss := p.MKemEncaps(pks, m)
		ss := append([]byte{}, ssb.Win()[:p.KemSize]...)
		c.Check(bytes.Equal(ss, wss), "secret", "%s m %x: secret %x, construction gives %x", p.Name, m, ss, wss)
		for i, pub := range pubs {
			c.Check(bytes.Equal(pubBytes(p, pub), pks[i]), "inputs-changed", "public key changed")
		}
		ct0, cts, ok := mkCts(&k, n, p.PkLen(), p.MsgLen)
		if ok {
			c.Check(bytes.Equal(ct0, wct0), "shared-part", "%s m %x: shared ciphertext %x, construction gives %x", p.Name, m, head(ct0), head(wct0))
			for i := range cts {
				c.Check(bytes.Equal(cts[i], wcts[i]), "recipient-part", "%s m %x recipient %d of %d: ciphertext %x, construction gives %x", p.Name, m, i, n, cts[i], wcts[i])
			}
		} else {
			c.Skip("ciphertexts of MultiKEM are not accessible")
		}
		// in any order, from the object's own storage or from a copy
		order := append(c.Perm(n), c.IntN(n))
		own := ok && c.IntN(3) != 0
		for _, i := range order {
			kp := kps[i]
			x := append([]byte{}, wcts[i]...)
			if own {
				x = cts[i]
			}
			got := make([]byte, p.KemSize)
			err := k.Decapsulate(got, kp.prv, kp.pub, x)
			c.Check(err == nil && bytes.Equal(got, ss), "recipient-secret", "%s recipient %d (order %v, from the stored ciphertexts %v) gets %x err %v, encapsulated %x", p.Name, i, order, own, got, err, ss)
			c.Count("recipients-served", 1)
		}
		if ok {
			c.Check(bytes.Equal(ct0, wct0), "ciphertext-changed", "%s: shared ciphertext changed by decapsulations %v", p.Name, order)
			for i := range cts {
				c.Check(bytes.Equal(cts[i], wcts[i]), "ciphertext-changed", "%s: ciphertext of recipient %d changed by decapsulations %v", p.Name, i, order)
			}
		}
		c.Eval(n)
		c.Key(p.Name, m, n)
		c.Sample("%s %d recipients m=%x -> %x", p.Name, n, m, ss)
	})
	mon.Register("C17", "history", 110, 6000, func(c *mon.Case) {
		p := pset(c)
		q := &queueReader{}
		const n = 2
		var k mkem.MultiKEM
		k.Allocate(p.ID, n, q)
		kps := []*sikePair{newPair(c, p), newPair(c, p)}
		type enc struct {
			ct0 []byte
			cts [][]byte
			ss  []byte
			m   []byte
		}
		var pool []*enc
		for i := 0; i < 2; i++ {
			e := &enc{m: pat(c, p.MsgLen)}
			e.ct0, e.cts, e.ss = p.MKemEncaps([][]byte{kps[0].pk, kps[1].pk}, e.m)
			pool = append(pool, e)
		}
		pubs := []*sidh.PublicKey{kps[0].pub, kps[1].pub}
		var cur *enc
		tr := ""
		bad := false // the shared part was altered
		for i, steps := 0, 8+c.IntN(16); i < steps; i++ {
			op := c.IntN(12)
			if cur == nil && op < 10 {
				op = 0
			}
			switch op {
			case 10, 11: // a refused call must not spoil the object
				w := c.IntN(6)
				q.q = c.Bytes(p.MsgLen)
				over := q.over
				mon.Panics(func() {
					ss := make([]byte, p.KemSize)
					l := c.IntN(p.KemSize)
					switch w {
					case 0:
						k.Encapsulate(ss[:l:l], pubs)
					case 1:
						cur = nil // the shared part may have been replaced
						k.Encapsulate(ss, []*sidh.PublicKey{pubs[0], sidh.NewPublicKey(p.ID, varB)})
					case 2:
						cur = nil
						k.Encapsulate(ss, []*sidh.PublicKey{pubs[0], pubs[1], pubs[0]})
					case 3:
						k.Decapsulate(ss, kps[0].prv, kps[0].pub, ss[:l:l])
					case 4:
						k.Decapsulate(ss[:l:l], kps[0].prv, kps[0].pub, c.Bytes(p.MsgLen))
					case 5:
						id := (p.ID + 1) % 3
						k.Decapsulate(ss, sidh.NewPrivateKey(id, varSike), sidh.NewPublicKey(id, varSike), c.Bytes(p.MsgLen))
					}
				})
				q.q, q.over = nil, over
				c.Count("refused-calls", 1)
				tr += fmt.Sprintf("!%d", w)
			case 0, 1:
				e := pool[c.IntN(2)]
				q.q = append([]byte{}, e.m...)
				ss := make([]byte, p.KemSize)
				c.Check(k.Encapsulate(ss, pubs) == nil, "encaps-error", "")
				c.Check(bytes.Equal(ss, e.ss), "secret-history", "%s step %d (%s): secret %x, want %x", p.Name, i, tr, ss, e.ss)
				cur, bad = e, false
				tr += "E"
			case 2: // a failing encapsulation must not disturb later decapsulations
				q.q = c.Bytes(c.IntN(p.MsgLen))
				err := k.Encapsulate(make([]byte, p.KemSize), pubs)
				q.q = nil
				c.Check(err != nil, "rng-failure-hidden", "%s: Encapsulate succeeds although the source failed", p.Name)
				tr += "F"
			case 3:
				k.Reset()
				tr += "R"
			case 4: // alter the shared part kept by the object, or put it back
				ct0, _, ok := mkCts(&k, n, p.PkLen(), p.MsgLen)
				if !ok {
					c.Skip("ciphertexts of MultiKEM are not accessible")
					continue
				}
				if bad {
					copy(ct0, cur.ct0)
				} else {
					ct0[c.IntN(len(ct0))] ^= byte(1 << c.IntN(8))
				}
				bad = !bad
				tr += "0"
			case 5: // install another ciphertext as a recipient would receive it
				ct0, _, ok := mkCts(&k, n, p.PkLen(), p.MsgLen)
				if !ok {
					c.Skip("ciphertexts of MultiKEM are not accessible")
					continue
				}
				cur, bad = pool[c.IntN(2)], false
				copy(ct0, cur.ct0)
				tr += "I"
			default:
				j := c.IntN(n)
				prv, pub, s := kps[j].prv, kps[j].pub, kps[j].s
				x := append([]byte{}, cur.cts[j]...)
				want := cur.ss
				alt := ""
				switch c.IntN(6) {
				case 0:
					x[c.IntN(len(x))] ^= byte(1 << c.IntN(8))
					alt = "altered"
				case 1:
					if bytes.Equal(kps[0].sc, kps[1].sc) {
						continue
					}
					prv, s = kps[1-j].prv, kps[1-j].s
					alt = "other private key"
				case 2:
					if bytes.Equal(kps[0].sc, kps[1].sc) {
						continue
					}
					pub = kps[1-j].pub
					alt = "other public key"
				}
				if alt != "" || bad {
					want = ref.Shake256(p.KemSize, []byte{3}, s)
				}
				got := mon.NewCanary(p.KemSize, 16)
				err := k.Decapsulate(got.Win(), prv, pub, x)
				c.Check(err == nil && bytes.Equal(got.Win(), want), "decaps-history", "%s step %d (%s) recipient %d %s shared part altered %v: got %x err %v, want %x", p.Name, i, tr, j, alt, bad, got.Win(), err, want)
				if err := got.Broken(0, p.KemSize); err != nil {
					c.Fail("secret-overrun", "%v", err)
				}
				if alt != "" || bad {
					tr += "X"
					c.Count("rejections", 1)
				} else {
					tr += "D"
					c.Count("decapsulations", 1)
				}
			}
			c.Eval(1)
		}
		c.Key(p.Name, tr)
		c.Sample("%s %s", p.Name, tr)
	})
	// a shared part that is not the one sent, but gives every recipient the same j-invariant
	mon.Register("C17", "equivalent", 60, 4000, func(c *mon.Case) {
		p := pset(c)
		q := &queueReader{}
		n := 1 + c.IntN(3)
		var k mkem.MultiKEM
		k.Allocate(p.ID, uint(n), q)
		var kps []*sikePair
		var pubs []*sidh.PublicKey
		for i := 0; i < n; i++ {
			kps = append(kps, newPair(c, p))
			pubs = append(pubs, kps[i].pub)
		}
		for try := 0; try < 20; try++ {
			q.q = c.Bytes(p.MsgLen)
			ss := make([]byte, p.KemSize)
			c.Check(k.Encapsulate(ss, pubs) == nil, "encaps-error", "")
			ct0, cts, ok := mkCts(&k, n, p.PkLen(), p.MsgLen)
			if !ok {
				c.Skip("ciphertexts of MultiKEM are not accessible")
				return
			}
			what := "multiples of the points"
			var y []byte
			if c.IntN(2) == 0 {
				y = p.Scaled(ct0, 1+c.IntN(12))
			} else {
				what = "non-canonical encoding"
				m := 0
				if y, m = unreduce(c, p, ct0); m == 0 {
					continue
				}
			}
			copy(ct0, y)
			j := c.IntN(n)
			got := make([]byte, p.KemSize)
			err := k.Decapsulate(got, kps[j].prv, kps[j].pub, append([]byte{}, cts[j]...))
			want := ref.Shake256(p.KemSize, []byte{3}, kps[j].s)
			c.Check(err == nil && bytes.Equal(got, want), "not-rejected", "%s recipient %d of %d, shared part with %s: got %x err %v, H(S) is %x (encapsulated %x)", p.Name, j, n, what, got, err, want, ss)
			c.Count("equivalent:"+what, 1)
			c.Key(p.Name, n, what, y[:16])
			c.Sample("%s/%d %s", p.Name, n, what)
			return
		}
		c.Skip("no non-canonical encoding fits")
	})
	mon.Register("C17", "reallocate", 50, 3000, func(c *mon.Case) {
		// one object, allocated again and again for any parameter set and number of recipients
		q := &queueReader{}
		var k mkem.MultiKEM
		tr := ""
		pairs := map[uint8][]*sikePair{}
		for i, steps := 0, 3+c.IntN(4); i < steps; i++ {
			p := pset(c)
			n := 1 + c.IntN(3)
			for len(pairs[p.ID]) < n {
				pairs[p.ID] = append(pairs[p.ID], newPair(c, p))
			}
			var pubs []*sidh.PublicKey
			var pks [][]byte
			for _, kp := range pairs[p.ID][:n] {
				pubs = append(pubs, kp.pub)
				pks = append(pks, kp.pk)
			}
			k.Allocate(p.ID, uint(n), q)
			tr += fmt.Sprint(p.Name, "/", n, " ")
			np, nk := k.NewPublicKey(), k.NewPrivateKey()
			c.Check(np.Size() == p.PkLen() && nk.Generate(mon.NewReader(c.Rand)) == nil, "key-factories", "allocated %s: NewPublicKey has size %d", tr, np.Size())
			nk.GeneratePublicKey(np)
			c.Check(pubMatches(p, nk, np), "key-factories", "allocated %s: NewPrivateKey/NewPublicKey yield a wrong public key", tr)
			m := pat(c, p.MsgLen)
			q.q = append([]byte{}, m...)
			ss := mon.NewCanary(p.KemSize, 16)
			var err error
			pv := mon.Panics(func() { err = k.Encapsulate(ss.Win(), pubs) })
			wct0, wcts, wss := p.MKemEncaps(pks, m)
			c.Check(pv == nil && err == nil && bytes.Equal(ss.Win(), wss), "secret-reallocated", "allocated %s: secret %x err %v panic %v, construction gives %x", tr, ss.Win(), err, pv, wss)
			c.Check(len(q.q) == 0, "secret-reallocated", "allocated %s: %d bytes of the message were not read", tr, len(q.q))
			if ct0, cts, ok := mkCts(&k, n, p.PkLen(), p.MsgLen); ok {
				c.Check(bytes.Equal(ct0, wct0), "shared-part", "allocated %s: shared ciphertext %x, construction gives %x", tr, head(ct0), head(wct0))
				for i := range cts {
					c.Check(bytes.Equal(cts[i], wcts[i]), "recipient-part", "allocated %s recipient %d: %x, construction gives %x", tr, i, cts[i], wcts[i])
				}
			}
			j := c.IntN(n)
			got := make([]byte, p.KemSize)
			pv = mon.Panics(func() { err = k.Decapsulate(got, pairs[p.ID][j].prv, pubs[j], append([]byte{}, wcts[j]...)) })
			c.Check(pv == nil && err == nil && bytes.Equal(got, wss), "recipient-secret", "allocated %s: recipient %d gets %x err %v panic %v, want %x", tr, j, got, err, pv, wss)
			if c.IntN(3) == 0 {
				k.Reset()
			}
			c.Eval(2)
			c.Count("reallocations", 1)
		}
		c.Key(tr)
		c.Sample("%s", tr)
	})
	mon.Register("C17", "long-life", 2, 30, mkemLongLife)
	mon.Register("C17", "misuse", 400, 20000, func(c *mon.Case) {
		p := pset(c)
		var k mkem.MultiKEM
		what := ""
		alloc := c.IntN(5) != 0
		if alloc {
			k.Allocate(p.ID, 2, mon.NewReader(c.Rand))
		}
		ssn := p.KemSize
		pub := cachedPk(c, p)
		prv := sidh.NewPrivateKey(p.ID, varSike)
		_ = prv.Generate(mon.NewReader(c.Rand))
		ctn := p.MsgLen
		switch {
		case !alloc:
			what = "unallocated"
		case c.IntN(4) == 0:
			ssn = c.IntN(p.KemSize)
			what = "short secret buffer"
		case c.IntN(3) == 0:
			what = "wrong kind of key"
			pub = mkPub(c, p, []sidh.KeyVariant{varA, varB}[c.IntN(2)], pubBytes(p, pub))
		case c.IntN(2) == 0:
			what = "other parameter set"
			pub = cachedPk(c, ref.Sidh[(indexOf(p)+1+c.IntN(2))%3])
		default:
			what = "wrong ciphertext length"
			ctn = []int{0, ctn - 1, ctn + 1, 2 * ctn}[c.IntN(4)]
		}
		ss := mon.NewCanary(ssn, 64)
		v := mon.Panics(func() {
			if what == "wrong ciphertext length" || c.IntN(2) == 0 {
				what = "Decapsulate: " + what
				_ = k.Decapsulate(ss.Win(), prv, pub, make([]byte, ctn))
			} else {
				what = "Encapsulate: " + what
				_ = k.Encapsulate(ss.Win(), []*sidh.PublicKey{pub})
			}
		})
		c.Check(v != nil, "misuse-accepted", "%s %s", p.Name, what)
		if err := ss.Broken(0, 0); err != nil {
			c.Fail("output-touched", "%s %s: %v", p.Name, what, err)
		}
		c.Count("refusals", 1)
		c.Key(p.Name, what, ssn, ctn)
	})

	mon.Register("C18", "history", 40, 3000, pkeHistory)
	mon.Register("C18", "long-life", 2, 30, pkeLongLife)
	mon.Register("C18", "invalid-keys", 40, 3000, func(c *mon.Case) {
		d := newDrbg(c)
		var p mkem.PKE
		var mp mkem.MultiPKE
		p.Allocate(d)
		mp.Allocate(3, d)
		var b []byte
		cl := ""
		for {
			var hint *bool
			b, cl, hint = curveEnc(c)
			if hint != nil && *hint {
				continue
			}
			if hint == nil && ref.LeInt(b).Cmp(ref.CP) < 0 && ref.CsidhSupersingular(ref.CsidhDecode(b), c.Rand) {
				continue
			}
			break
		}
		bad := cPub(c, b)
		var pt [16]byte
		c.Fill(pt[:])
		// candidates for a pad that somebody without a secret key can compute
		zero := ref.Shake128(16, make([]byte, 64))
		self := ref.Shake128(16, b)
		guess := func(what string, v []byte, more ...[]byte) {
			pad := make([]byte, 16)
			for i := range pad {
				pad[i] = v[i] ^ pt[i]
			}
			c.Check(!bytes.Equal(pad, make([]byte, 16)), "plaintext-exposed", "%s to the invalid key %x (%s) yields the plaintext itself", what, b, cl)
			for _, g := range append([][]byte{zero, self}, more...) {
				c.Check(!bytes.Equal(pad, g), "plaintext-exposed", "%s to the invalid key %x (%s) yields a ciphertext whose pad %x anybody can compute", what, b, cl, g)
			}
		}
		if c.IntN(2) == 0 {
			var ct struct{ V [64]byte }
			v := mon.Panics(func() { ct.V = p.Enc(bad, &pt).V })
			if v == nil {
				guess("Enc", ct.V[:])
			}
			c.Count("enc-refused-or-safe", 1)
		} else {
			// one recipient is honest, the next is not: the honest one must not be
			// able to read what was meant for the other
			e, _ := cExps(c)
			sk := cPrv(c, e)
			var pk csidh.PublicKey
			csidh.GeneratePublicKey(&pk, sk, cRng(c))
			var keys []csidh.PublicKey
			at := c.IntN(2)
			if at == 1 {
				keys = append(keys, pk)
			}
			keys = append(keys, *bad)
			if c.IntN(2) == 0 {
				keys = append(keys, pk)
			}
			v := mon.Panics(func() { mp.Encrypt(keys, &pt) })
			if v == nil {
				var more [][]byte
				if at == 1 {
					var ss [64]byte
					u := cPub(c, mp.Ct0[:])
					if csidh.DeriveSecret(&ss, u, sk, cRng(c)) {
						h := ref.Shake128(16, ss[:])
						more = append(more, h, ref.Shake128(16, append(append([]byte{}, h...), ss[16:]...)))
					}
				}
				guess(fmt.Sprintf("Encrypt (recipient %d)", at), mp.Cts[at][:16], more...)
			}
			c.Count("encrypt-refused-or-safe", 1)
		}
		c.Key(b, cl)
		c.Sample("%s %x", cl, b)
	})
}

// pubMatches reports whether pub is the public key of the SIKE private key prv, by a second
// object that imports its bytes.
func pubMatches(p *ref.SidhParams, prv *sidh.PrivateKey, pub *sidh.PublicKey) bool {
	b := make([]byte, p.MsgLen+p.BBytes)
	prv.Export(b)
	k := sidh.NewPrivateKey(p.ID, varSike)
	return k.Import(b) == nil && bytes.Equal(pubBytes(p, genPub(p, k)), pubBytes(p, pub))
}

func zeroOf[T any](func(*csidh.PublicKey, *[16]byte) T) (t T) { return }

func pkeHistory(c *mon.Case) {
	d := newDrbg(c)
	var p mkem.PKE
	var mp mkem.MultiPKE
	p.Allocate(d)
	slots := 1 + c.IntN(4)
	mp.Allocate(uint(slots), d)
	type kp struct {
		sk *csidh.PrivateKey
		pk csidh.PublicKey
		b  []byte
	}
	var ks []*kp
	for i := 0; i < 3; i++ {
		e, _ := cExps(c)
		if c.IntN(2) == 0 {
			// cheap keys keep the histories long
			e = [74]int{}
			for j := 0; j < 5; j++ {
				e[c.IntN(20)] = c.IntN(11) - 5
			}
		}
		k := &kp{sk: cPrv(c, e)}
		csidh.GeneratePublicKey(&k.pk, k.sk, cRng(c))
		k.b = cExport(&k.pk)
		ks = append(ks, k)
	}
	ct := zeroOf(p.Enc)
	var pt [16]byte
	have := -1  // recipient of ct
	mpart := -1 // recipient index of the last multi ciphertext
	var mpt [16]byte
	var mk []*kp
	seen := map[[64]byte]bool{}
	tr := ""
	pad := func(u []byte, k *kp) []byte {
		var ss [64]byte
		c.Check(csidh.DeriveSecret(&ss, cPub(c, u), k.sk, cRng(c)), "invalid-ephemeral", "ephemeral key %x of a ciphertext is invalid", u)
		return ref.Shake128(16, ss[:])
	}
	for i, n := 0, 4+c.IntN(5); i < n; i++ {
		switch op := c.IntN(8); {
		case op == 7: // calls with an invalid key, which are refused in one way or another
			var bad csidh.PublicKey
			b := make([]byte, 64)
			b[0] = 2 // singular
			if c.IntN(2) == 0 {
				c.Fill(b)
				b[63] |= 0xc0 // not reduced
			}
			bad.Import(b)
			in := c.Bytes(16)
			w := c.IntN(3)
			mon.Panics(func() {
				switch w {
				case 0:
					p.Enc(&bad, (*[16]byte)(in))
				case 1:
					mpart = -1
					mp.Encrypt([]csidh.PublicKey{bad}, (*[16]byte)(in))
				case 2:
					x := zeroOf(p.Enc)
					copy(x.U[:], b)
					p.Dec(ks[0].sk, &x)
				}
			})
			tr += fmt.Sprintf("!%d", w)
			c.Count("refused-calls", 1)
		case op == 6: // allocate again, for another number of recipients and another generator
			slots = 1 + c.IntN(4)
			d = newDrbg(c)
			mp.Allocate(uint(slots), d)
			mpart = -1
			tr += fmt.Sprintf("A%d", slots)
			if c.IntN(2) == 0 {
				p.Allocate(d)
				tr += "a"
			}
			c.Check(len(mp.Cts) == slots, "allocate", "after Allocate(%d): room for %d ciphertexts", slots, len(mp.Cts))
			c.Count("reallocations", 1)
		case op < 2:
			have = c.IntN(3)
			copy(pt[:], pat(c, 16))
			in := pt
			if c.IntN(2) == 0 {
				ct = p.Enc(&ks[have].pk, &in)
				tr += "e"
			} else {
				ct = mp.Enc(&ks[have].pk, &in)
				tr += "E"
			}
			c.Check(in == pt && bytes.Equal(cExport(&ks[have].pk), ks[have].b), "inputs-changed", "plaintext or key changed")
			h := pad(ct.U[:], ks[have])
			for j := 0; j < 16; j++ {
				c.Check(ct.V[j] == pt[j]^h[j], "ciphertext-form", "step %d (%s): V %x, plaintext %x, SHAKE128(shared curve) %x", i, tr, ct.V[:16], pt, h)
			}
			c.Check(bytes.Equal(ct.V[16:], make([]byte, 48)), "ciphertext-form", "step %d (%s): bytes after the ciphertext are not zero: %x", i, tr, ct.V)
			c.Check(!seen[ct.U], "ephemeral-reused", "step %d (%s): ephemeral key %x used twice", i, tr, ct.U)
			seen[ct.U] = true
			c.Count("encryptions", 1)
		case op == 2 && have >= 0:
			keep := ct
			var got [16]byte
			if c.IntN(2) == 0 {
				got = p.Dec(ks[have].sk, &ct)
				tr += "d"
			} else {
				got = mp.Dec(ks[have].sk, &ct)
				tr += "D"
			}
			c.Check(got == pt, "decrypt", "step %d (%s): decrypts to %x, plaintext %x", i, tr, got, pt)
			c.Check(keep == ct, "inputs-changed", "Dec changed the ciphertext")
			c.Count("decryptions", 1)
		case op == 3 || op == 4:
			m := 1 + c.IntN(slots)
			var keys []csidh.PublicKey
			mk = nil
			for j := 0; j < m; j++ {
				k := ks[c.IntN(3)]
				mk = append(mk, k)
				keys = append(keys, k.pk)
			}
			copy(mpt[:], pat(c, 16))
			in := mpt
			mp.Encrypt(keys, &in)
			tr += fmt.Sprintf("M%d", m)
			mpart = m
			c.Check(in == mpt, "inputs-changed", "plaintext changed")
			for j := range keys {
				c.Check(bytes.Equal(cExport(&keys[j]), mk[j].b), "inputs-changed", "recipient key changed")
			}
			for j, k := range mk {
				h := pad(mp.Ct0[:], k)
				for l := 0; l < 16; l++ {
					c.Check(mp.Cts[j][l] == mpt[l]^h[l], "ciphertext-form", "step %d (%s) recipient %d of %d: ciphertext %x, plaintext %x, SHAKE128(shared curve) %x", i, tr, j, m, mp.Cts[j][:16], mpt, h)
				}
			}
			c.Check(!seen[mp.Ct0], "ephemeral-reused", "step %d (%s): ephemeral key %x used twice", i, tr, mp.Ct0)
			seen[mp.Ct0] = true
			c.Count("multi-encryptions", 1)
		case op == 5 && mpart > 0:
			j := c.IntN(mpart)
			x := zeroOf(p.Enc)
			x.U = mp.Ct0
			x.V = mp.Cts[j]
			got := p.Dec(mk[j].sk, &x)
			tr += "m"
			c.Check(got == mpt, "multi-decrypt", "step %d (%s): recipient %d decrypts to %x, plaintext %x", i, tr, j, got, mpt)
			c.Count("multi-decryptions", 1)
		}
		c.Eval(1)
	}
	c.Key(tr, ks[0].b, pt[:], mpt[:])
	c.Sample("%s", tr)
}

// mkemLongLife: hundreds of operations on one MultiKEM object.
func mkemLongLife(c *mon.Case) {
	p := ref.Sidh[0]
	for _, q := range ref.Sidh {
		if q.Bytes < p.Bytes {
			p = q
		}
	}
	q := &queueReader{}
	var k mkem.MultiKEM
	const n = 2
	k.Allocate(p.ID, n, q)
	kps := []*sikePair{newPair(c, p), newPair(c, p)}
	m := pat(c, p.MsgLen)
	ct0, cts, ss := p.MKemEncaps([][]byte{kps[0].pk, kps[1].pk}, m)
	pubs := []*sidh.PublicKey{kps[0].pub, kps[1].pub}
	steps := 270 + c.IntN(10)
	mode := c.Idx % 2 // mostly encapsulations, mostly decapsulations
	for i := 0; i < steps; i++ {
		op := []int{0, 1, 2, 3}[c.IntN(4)]
		if c.IntN(32) != 0 {
			op = mode
		}
		if i == 0 {
			op = 0
		}
		got := make([]byte, p.KemSize)
		j := c.IntN(n)
		switch op {
		case 0:
			q.q = append(q.q[:0], m...)
			err := k.Encapsulate(got, pubs)
			c.Check(err == nil && bytes.Equal(got, ss), "secret-history", "%s: operation %d of a long life (mode %d): err %v, secret %x want %x", p.Name, i, mode, err, got, ss)
			if g0, gs, ok := mkCts(&k, n, p.PkLen(), p.MsgLen); ok {
				c.Check(bytes.Equal(g0, ct0) && bytes.Equal(gs[0], cts[0]) && bytes.Equal(gs[1], cts[1]), "ciphertext-history", "%s: operation %d of a long life: wrong ciphertext", p.Name, i)
			}
		case 1, 2:
			x, want := append([]byte{}, cts[j]...), ss
			if op == 2 {
				x[c.IntN(len(x))] ^= 1
				want = ref.Shake256(p.KemSize, []byte{3}, kps[j].s)
			}
			err := k.Decapsulate(got, kps[j].prv, kps[j].pub, x)
			c.Check(err == nil && bytes.Equal(got, want), "decaps-history", "%s: operation %d of a long life (mode %d, altered %v): recipient %d err %v, secret %x want %x", p.Name, i, mode, op == 2, j, err, got, want)
		default:
			k.Reset()
		}
		c.Eval(1)
	}
	c.Count("long-life-operations", steps)
	c.Key(mode, steps)
}

// pkeLongLife: many encryptions by one object.
func pkeLongLife(c *mon.Case) {
	d := newDrbg(c)
	var p mkem.PKE
	p.Allocate(d)
	var e [74]int
	for j := 0; j < 4; j++ {
		e[c.IntN(20)] = c.IntN(11) - 5
	}
	sk := cPrv(c, e)
	var pk csidh.PublicKey
	csidh.GeneratePublicKey(&pk, sk, cRng(c))
	n := 35
	if c.Tier == "thorough" {
		n = 270
	}
	seen := map[[64]byte]bool{}
	for i := 0; i < n; i++ {
		var pt [16]byte
		c.Fill(pt[:])
		ct := p.Enc(&pk, &pt)
		c.Check(!seen[ct.U], "ephemeral-reused", "encryption #%d: ephemeral key %x used twice", i, ct.U)
		seen[ct.U] = true
		got := p.Dec(sk, &ct)
		c.Check(got == pt, "decrypt", "encryption #%d decrypts to %x, plaintext %x", i, got, pt)
		c.Eval(1)
	}
	c.Count("long-life-encryptions", n)
	c.Key(cExport(&pk))
}
