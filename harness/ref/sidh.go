package ref

import (
	"math/big"
)

// Fp2 element a+bi with i^2=-1, canonical representatives.
type Fp2 struct{ A, B *big.Int }

// Field is F_{p^2} over math/big.
type Field struct {
	P *big.Int
}

func (f *Field) red(x *big.Int) *big.Int { return x.Mod(x, f.P) }

func (f *Field) add(x, y Fp2) Fp2 {
	return Fp2{f.red(new(big.Int).Add(x.A, y.A)), f.red(new(big.Int).Add(x.B, y.B))}
}
func (f *Field) sub(x, y Fp2) Fp2 {
	return Fp2{f.red(new(big.Int).Sub(x.A, y.A)), f.red(new(big.Int).Sub(x.B, y.B))}
}
func (f *Field) mul(x, y Fp2) Fp2 {
	ac := new(big.Int).Mul(x.A, y.A)
	bd := new(big.Int).Mul(x.B, y.B)
	ad := new(big.Int).Mul(x.A, y.B)
	bc := new(big.Int).Mul(x.B, y.A)
	return Fp2{f.red(ac.Sub(ac, bd)), f.red(ad.Add(ad, bc))}
}
func (f *Field) sqr(x Fp2) Fp2 { return f.mul(x, x) }
func (f *Field) small(n int64) Fp2 {
	return Fp2{f.red(big.NewInt(n)), new(big.Int)}
}
func (f *Field) scale(n int64, x Fp2) Fp2 { return f.mul(f.small(n), x) }
func (f *Field) inv(x Fp2) Fp2 {
	n := new(big.Int).Mul(x.A, x.A)
	n.Add(n, new(big.Int).Mul(x.B, x.B))
	f.red(n)
	if n.Sign() == 0 {
		return f.small(0)
	}
	n.ModInverse(n, f.P)
	return Fp2{f.red(new(big.Int).Mul(x.A, n)), f.red(new(big.Int).Neg(new(big.Int).Mul(x.B, n)))}
}

// Mul, Sqr, Inv, Add, Sub are exported for the field monitors.
func (f *Field) Mul(x, y Fp2) Fp2 { return f.mul(x, y) }
func (f *Field) Add(x, y Fp2) Fp2 { return f.add(x, y) }
func (f *Field) Sub(x, y Fp2) Fp2 { return f.sub(x, y) }
func (f *Field) Inv(x Fp2) Fp2    { return f.inv(x) }

func (x Fp2) isZero() bool { return x.A.Sign() == 0 && x.B.Sign() == 0 }

// SidhParams are the domain parameters of the SIKE specification.
type SidhParams struct {
	Name       string
	ID         uint8
	Field      *Field
	E2, E3     int
	Bytes      int // bytes of a field element
	Words      int
	MsgLen     int
	KemSize    int
	ABits      int
	BBits      int
	ABytes     int
	BBytes     int
	PA, QA, RA Fp2
	PB, QB, RB Fp2
}

// PkLen, SsLen, CtLen are wire sizes.
func (p *SidhParams) PkLen() int { return 6 * p.Bytes }
func (p *SidhParams) SsLen() int { return 2 * p.Bytes }
func (p *SidhParams) CtLen() int { return p.PkLen() + p.MsgLen }

func hx(a, b string) Fp2 {
	x, ok1 := new(big.Int).SetString(a, 16)
	y, ok2 := new(big.Int).SetString(b, 16)
	if !ok1 || !ok2 {
		panic("ref: bad constant")
	}
	return Fp2{x, y}
}

func mk(name string, id uint8, e2, e3, bytes, words, msg, kem, abits, abytes, bbits, bbytes int, pts [6]Fp2) *SidhParams {
	p := new(big.Int).Lsh(big.NewInt(1), uint(e2))
	p.Mul(p, new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(e3)), nil))
	p.Sub(p, big.NewInt(1))
	return &SidhParams{name, id, &Field{p}, e2, e3, bytes, words, msg, kem, abits, bbits, abytes, bbytes,
		pts[0], pts[1], pts[2], pts[3], pts[4], pts[5]}
}

// Sidh lists the three parameter sets (indices are not the library's ids).
var Sidh = []*SidhParams{
	mk("p434", 2, 216, 137, 55, 7, 16, 16, 216, 28, 217, 28, [6]Fp2{
		hx("3ccfc5e1f050030363e6920a0f7a4c6c71e63de63a0e6475af621995705f7c84500cb2bb61e950e19eab8661d25c4a50ed279646cb48", "1ad1c1cae7840edda6d8a924520f60e573d3b9dfac6d189941cb22326d284a8816cc4249410fe80d68047d823c97d705246f869e3ea50"),
		hx("c7461738340efcf09ce388f666eb38f7f3afd42dc0b664d9f461f31aa2edc6b4ab71bd42f4d7c058e13f64b237ef7ddd2abc0deb0c6c", "25de37157f50d75d320dd0682ab4a67e471586fbc2d31aa32e6957fa2b2614c4cd40a1e27283eaaf4272ae517847197432e2d61c85f5"),
		hx("f37ab34ba0cead94f43cdc50de06ad19c67ce4928346e829cb92580da84d7c36506a2516696bbe3aeb523ad7172a6d239513c5fd2516", "196ca2ed06a657e90a73543f3902c208f410895b49cf84cd89be9ed6e4ee7e8df90b05f3fdb8bdfe489d1b3558e987013f9806036c5ac"),
		hx("8664865ea7d816f03b31e223c26d406a2c6cd0c3d667466056aae85895ec37368bfc009dfafcb3d97e639f65e9e45f46573b0637b7a9", "0"),
		hx("12e84d7652558e694bf84c1fbdaaf99b83b4266c32ec65b10457bcaf94c63eb063681e8b1e7398c0b241c19b9665fdb9e1406da3d3846", "0"),
		hx("1cd28597256d4ffe7e002e87870752a8f8a64a1cc78b5a2122074783f51b4fde90e89c48ed91a8f4a0ccbacbfa7f51a89ce518a52b76c", "147073290d78dd0cc8420b1188187d1a49dbfa24f26aad46b2d9bb547dbb6f63a760ecb0c2b20be52fb77bd2776c3d14bcbc404736ae4"),
	}),
	mk("p503", 0, 250, 159, 63, 8, 24, 24, 250, 32, 252, 32, [6]Fp2{
		hx("2ed31a03825fa14bc1d92c503c061d843223e611a92d7c5fbec0f2c915ee7eee73374df6a1161ea00cdcb786155e21fd38220c3772ce670bc68274b851678", "1ee4e4e9448fbbab4b5baef280a99b7bf86a1ce05d55bd603c3ba9d7c08fd8de7968b49a78851ffbc6d0a17cb2fa1b57f3babef87720dd9a489b5581f915d2"),
		hx("325cf6a8e2c6183a8b9932198039a7f965ba8587b67925d08d809dbf9a69de1b621f7f134fa2dab82ff5a2615f92cc71419fffaaf86a290d604ab167616461", "3e7b0494c8e60a8b72308ae09ed34845b34ea0911e356b77a11872cf7feeff745d98d0624097bc1ad7cd2adf7ffc2c1aa5ba3c6684b964fa555a0715e57db1"),
		hx("3d24cf1f347f1da54c1696442e6afc192cee5e320905e0eab3c9d3fb595ca26c154f39427a0416a9f36337354cf1e6e5aedd73df80c710026d49550ac8ce9f", "6869ea28e4cee05dcee8b08acd59775d03daa0dc8b094c85156c212c23c72cb2ab2d2d90d46375aa6d66e58e44f8f219431d3006fded7993f51649c029498"),
		hx("32d03fd1e99ed0cb05c0707af74617cbea5ac6b75905b4b54b1b0c2d73697840155e7b1005efb02b5d02797a8b66a5d258c76a3c9ef745cece11e9a178badf", "0"),
		hx("39014a74763076675d24cf3fa28318dac75bcb04e54addc6494693f72ebb7da7dc6a3bbcd188dad5bece9d6bb4abdd05db38c5fbe52d985dcaf74422c24d53", "0"),
		hx("c1465fd048ffb8bf2158ed57f0cfff0c4d5a4397c7542d722567700fdbb8b2825cab4b725764f5f528294b7f95c17d560e25660ad3d07ab011d95b2cb522", "288165466888be1e78db339034e2b8c7bdf0483bfa7ab943dfa05b2d1712317916690f5e713740e7c7d4838296e67357dc34e3460a95c330d5169721981758"),
	}),
	mk("p751", 1, 372, 239, 94, 12, 32, 32, 372, 47, 378, 48, [6]Fp2{
		hx("4514f8cc94b140f24874f8b87281fa6004ca5b3637c68ac0c0bdb29838051f385fbbcc300bbb24bfbbf6710d7dc8b29acb81e429bd1bd5629ad0ecad7c90622f6bb801d0337ee6bc78a7f12fdcb09decfae8bfd643c89c3bac1d87f8b6fa", "158abf500b5914b3a96ced5fdb37d6dd925f2d6e4f7fea3cc16e1085754077737ea6f8cc74938d971da289dcf2435bcac1897d2627693f9bb167dc01be34ac494c60b8a0f65a28d7a31ea0d54640653a8099ce5a84e4f0168d818af02041"),
		hx("1723d2bfa01a78bf4e39e3a333f8a7e0b415a17f208d3419e7591d59d8abdb7ee6d2b2dfcb21ac29a40f837983c0f057fd041ad93237704f1597d87f074f682961a38b5489d1019924f8a0ef5e4f1b2e64a7ba536e219f5090f76276290e", "2569d7eafb6c60b244ef49e05b5e23f73c4f44169a7e02405e90ceb680cb0756054ac0e3dce95e2950334262cc973235c2f87d89500bcd465b078bd0debdf322a2f86aedfdcfee65c09377efba0c5384dd837bedb710209fbc8ddb8c35c7"),
		hx("6066e07f3c0d964e8bc963519fac8397df477aea9a067f3be343bc53c883af29ccf008e5a30719a29357a8c33eb3600cd078af1c40ed5792763a4d213ebde44cc623195c387e0201e7231c529a15af5ab743ee9e7c9c37af3051167525bb", "50e30c2c06494249bc4a144eb5f31212bd05a2af0cb3064c322fc3604fc5f5fe3a08fb3a02b05a48557e15c992254ffc8910b72b8e1328b4893cdcfbfc003878881ce390d909e39f83c5006e0ae979587775443483d13c65b107fada5165"),
		hx("605d4697a245c394b98024a5554746dc12ff56d0c6f15d2f48123b6d9c498eee98e8f7cd6e216e2f1ff7ce0c969cca29caa2faa57174ef985ac0a504260018760e9fdf67467e20c13982ff5b49b8beab05f6023af873f827400e453432fe", "0"),
		hx("5bf9544781803cbd7e0ea8b96d934c5cbca970f9cc327a0a7e4dad931ec29baa8a854b8a9fde5409af96c5426fa375d99c68e9ae714172d7f04502d45307fa4839f39a28338bbafd54a461a535408367d5132e6aa0d3da6973360f8cd0f1", "0"),
		hx("55e5124a05d4809585f67fe9ea1f02a06cd411f38588bb631bf789c3f98d1c3325843bb53d9b011d8bd1f682c0e4d8a5e723364364e40dad1b7a476716ac7d1ba705ccdd680bfd4fe4739cc21a9a59ed544b82566bf633e8950186a79fe3", "5ac57eafd6cc7569e8b53a148721953262c5b404c143380adcc184b6c21f0cafe095b7e9c79ca88791f9a72f1b2f3121829b2622515b694a16875ed637f421b539e66f2fef1ce8dcefc8aea608055e9c44077266ab64611bf851ba06c821"),
	}),
}

// pp is a projective x-coordinate.
type pp struct{ X, Z Fp2 }

type curve struct {
	f *Field
	// a24 = (A+2)/4
	A, a24 Fp2
}

func newCurve(f *Field, A Fp2) *curve {
	return &curve{f, A, f.mul(f.add(A, f.small(2)), f.inv(f.small(4)))}
}

func (c *curve) dbl(p pp) pp {
	f := c.f
	s, d := f.sqr(f.add(p.X, p.Z)), f.sqr(f.sub(p.X, p.Z))
	m := f.sub(s, d) // 4XZ
	return pp{f.mul(s, d), f.mul(m, f.add(d, f.mul(c.a24, m)))}
}

// dadd is x(P+Q) from x(P), x(Q), x(P-Q).
func (c *curve) dadd(p, q, pmq pp) pp {
	f := c.f
	u := f.mul(f.sub(p.X, p.Z), f.add(q.X, q.Z))
	v := f.mul(f.add(p.X, p.Z), f.sub(q.X, q.Z))
	return pp{f.mul(pmq.Z, f.sqr(f.add(u, v))), f.mul(pmq.X, f.sqr(f.sub(u, v)))}
}

func (c *curve) tpl(p pp) pp { return c.dadd(c.dbl(p), p, p) }

func (c *curve) mulPow(p pp, three bool, k int) pp {
	for i := 0; i < k; i++ {
		if three {
			p = c.tpl(p)
		} else {
			p = c.dbl(p)
		}
	}
	return p
}

// ladder computes x(P+[m]Q).
func (c *curve) ladder(xP, xQ, xR Fp2, bits int, m *big.Int) pp {
	one := c.f.small(1)
	p0, p1, p2 := pp{xQ, one}, pp{xP, one}, pp{xR, one}
	for i := 0; i < bits; i++ {
		if m.Bit(i) == 1 {
			p1 = c.dadd(p0, p1, p2)
		} else {
			p2 = c.dadd(p0, p2, p1)
		}
		p0 = c.dbl(p0)
	}
	return p1
}

func (f *Field) affine(p pp) Fp2 { return f.mul(p.X, f.inv(p.Z)) }

// step applies one isogeny whose kernel generator has affine x-coordinate k.
type step struct {
	f     *Field
	three bool
	k     Fp2
}

func (s step) image() Fp2 {
	f, k := s.f, s.k
	if s.three {
		// A' = (A*k - 6k^2 + 6)*k is expressed through the caller's A
		panic("unused")
	}
	return f.sub(f.scale(4, f.sqr(f.sqr(k))), f.small(2))
}

func (s step) image3(A Fp2) Fp2 {
	f, k := s.f, s.k
	t := f.add(f.sub(f.mul(A, k), f.scale(6, f.sqr(k))), f.small(6))
	return f.mul(t, k)
}

func (s step) eval(p pp) pp {
	f, k := s.f, s.k
	if s.three {
		// x' = x (x k - 1)^2 / (x-k)^2
		n := f.sub(f.mul(p.X, k), p.Z)
		d := f.sub(p.X, f.mul(k, p.Z))
		return pp{f.mul(p.X, f.sqr(n)), f.mul(p.Z, f.sqr(d))}
	}
	// x' = -(x k^2 + x - 2k) x (x k - 1)^2 / ((x-k)^2 (2 x k - k^2 - 1))
	k2 := f.sqr(k)
	n1 := f.sub(f.add(f.mul(p.X, k2), p.X), f.mul(f.scale(2, k), p.Z))
	n2 := f.sqr(f.sub(f.mul(p.X, k), p.Z))
	num := f.mul(f.mul(n1, p.X), n2)
	d1 := f.sqr(f.sub(p.X, f.mul(k, p.Z)))
	d2 := f.sub(f.scale(2, f.mul(k, p.X)), f.mul(f.add(k2, f.small(1)), p.Z))
	den := f.mul(f.mul(d1, d2), p.Z)
	return pp{f.sub(f.small(0), num), den}
}

// isogeny walks the e-step isogeny with kernel <K> and carries pts along.
func isogeny(f *Field, A Fp2, K pp, e int, three bool, pts []pp) Fp2 {
	type ent struct {
		p pp
		h int // K scaled by l^h
	}
	per := 2
	if three {
		per = 1
	}
	stack := []ent{{K, 0}}
	c := newCurve(f, A)
	for i := 0; i < e; i++ {
		// remaining order of current top must be reduced to l
		for {
			t := stack[len(stack)-1]
			left := e - i - t.h // order of t.p is l^left
			if left == 1 {
				break
			}
			k := left / 2
			stack = append(stack, ent{c.mulPow(t.p, three, per*k), t.h + k})
		}
		top := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		s := step{f, three, f.affine(top.p)}
		if three {
			A = s.image3(A)
		} else {
			A = s.image()
		}
		c = newCurve(f, A)
		for j := range stack {
			stack[j].p = s.eval(stack[j].p)
		}
		for j := range pts {
			pts[j] = s.eval(pts[j])
		}
		// every remaining entry lost one factor
	}
	return A
}

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// LeInt is the little-endian integer of b.
func LeInt(b []byte) *big.Int { return leInt(b) }

// LeBytes is the n-byte little-endian encoding.
func LeBytes(x *big.Int, n int) []byte {
	b := x.Bytes()
	r := make([]byte, n)
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func (p *SidhParams) enc(x Fp2) []byte {
	return append(LeBytes(x.A, p.Bytes), LeBytes(x.B, p.Bytes)...)
}

func (p *SidhParams) dec(b []byte) Fp2 {
	f := p.Field
	return Fp2{f.red(leInt(b[:p.Bytes])), f.red(leInt(b[p.Bytes : 2*p.Bytes]))}
}

// PublicKey computes the public key of a private scalar (isA: 2-torsion).
func (p *SidhParams) PublicKey(isA bool, sk []byte) []byte {
	f := p.Field
	A := f.small(6)
	c := newCurve(f, A)
	one := f.small(1)
	var K pp
	var pts []pp
	if isA {
		K = c.ladder(p.PA, p.QA, p.RA, p.ABits, leInt(sk))
		pts = []pp{{p.PB, one}, {p.QB, one}, {p.RB, one}}
		isogeny(f, A, K, p.E2/2, false, pts)
	} else {
		K = c.ladder(p.PB, p.QB, p.RB, p.BBits, leInt(sk))
		pts = []pp{{p.PA, one}, {p.QA, one}, {p.RA, one}}
		isogeny(f, A, K, p.E3, true, pts)
	}
	var out []byte
	for _, q := range pts {
		out = append(out, p.enc(f.affine(q))...)
	}
	return out
}

// Scaled multiplies the three points of a public key by 2^k: another key, on the same curve, of
// which any scalar of the odd torsion group makes the same subgroup (for the ephemeral keys of
// SIKE: the same j-invariant, and so the same message).
func (p *SidhParams) Scaled(pk []byte, k int) []byte {
	f := p.Field
	n := 2 * p.Bytes
	xP, xQ, xR := p.dec(pk[:n]), p.dec(pk[n:2*n]), p.dec(pk[2*n:3*n])
	c := newCurve(f, f.recoverA(xP, xQ, xR))
	var out []byte
	for _, x := range []Fp2{xP, xQ, xR} {
		out = append(out, p.enc(f.affine(c.mulPow(pp{x, f.small(1)}, false, k)))...)
	}
	return out
}

func (f *Field) recoverA(xP, xQ, xR Fp2) Fp2 {
	one := f.small(1)
	t := f.sub(f.sub(f.sub(one, f.mul(xP, xQ)), f.mul(xP, xR)), f.mul(xQ, xR))
	A := f.mul(f.sqr(t), f.inv(f.scale(4, f.mul(f.mul(xP, xQ), xR))))
	return f.sub(f.sub(f.sub(A, xP), xQ), xR)
}

// Secret computes the j-invariant shared by sk and the peer's public key.
func (p *SidhParams) Secret(isA bool, sk, pk []byte) []byte {
	f := p.Field
	n := 2 * p.Bytes
	xP, xQ, xR := p.dec(pk[:n]), p.dec(pk[n:2*n]), p.dec(pk[2*n:3*n])
	A := f.recoverA(xP, xQ, xR)
	c := newCurve(f, A)
	if isA {
		K := c.ladder(xP, xQ, xR, p.ABits, leInt(sk))
		A = isogeny(f, A, K, p.E2/2, false, nil)
	} else {
		K := c.ladder(xP, xQ, xR, p.BBits, leInt(sk))
		A = isogeny(f, A, K, p.E3, true, nil)
	}
	a2 := f.sqr(A)
	u := f.sub(a2, f.small(3))
	j := f.mul(f.scale(256, f.mul(u, f.sqr(u))), f.inv(f.sub(a2, f.small(4))))
	return p.enc(j)
}

// SikeEncaps is SIKE.Encaps for message m: ciphertext and secret.
func (p *SidhParams) SikeEncaps(pk, m []byte) (ct, ss []byte) {
	r := p.MaskA(Shake256(p.ABytes, m, pk))
	c0 := p.PublicKey(true, r)
	j := p.Secret(true, r, pk)
	h := Shake256(p.MsgLen, j)
	c1 := make([]byte, p.MsgLen)
	for i := range c1 {
		c1[i] = h[i] ^ m[i]
	}
	ct = append(c0, c1...)
	return ct, Shake256(p.KemSize, m, ct)
}

// MaskA truncates r to ABits bits.
func (p *SidhParams) MaskA(r []byte) []byte {
	r = append([]byte{}, r...)
	for i := range r {
		switch {
		case 8*i >= p.ABits:
			r[i] = 0
		case 8*i+8 > p.ABits:
			r[i] &= byte(1<<uint(p.ABits-8*i)) - 1
		}
	}
	return r
}

// Reject is the implicit-rejection secret.
func (p *SidhParams) Reject(s, ct []byte) []byte { return Shake256(p.KemSize, s, ct) }

// MKemEncaps is the multi-recipient KEM: ephemeral key, one ciphertext per key, secret.
func (p *SidhParams) MKemEncaps(pks [][]byte, m []byte) (ct0 []byte, cts [][]byte, ss []byte) {
	r := p.MaskA(Shake256(p.ABytes, []byte{1}, m))
	ct0 = p.PublicKey(true, r)
	for _, pk := range pks {
		h := Shake256(p.MsgLen, []byte{2}, p.Secret(true, r, pk))
		for i := range h {
			h[i] ^= m[i]
		}
		cts = append(cts, h)
	}
	return ct0, cts, Shake256(p.KemSize, []byte{3}, m)
}
