package ref

import (
	"math/big"
	"math/rand/v2"
)

// CsidhPrimes are the odd primes of cSIDH-512 (p+1 = 4*prod).  The library uses the
// list below; 587 completes it.
var CsidhPrimes []int64

// CP is the cSIDH-512 prime, CR the Montgomery radix.
var CP, CR, crInv *big.Int

func init() {
	for n := int64(3); len(CsidhPrimes) < 73; n += 2 {
		if big.NewInt(n).ProbablyPrime(20) {
			CsidhPrimes = append(CsidhPrimes, n)
		}
	}
	CsidhPrimes = append(CsidhPrimes, 587)
	CP = big.NewInt(4)
	for _, l := range CsidhPrimes {
		CP.Mul(CP, big.NewInt(l))
	}
	CP.Sub(CP, big.NewInt(1))
	CR = new(big.Int).Lsh(big.NewInt(1), 512)
	crInv = new(big.Int).ModInverse(new(big.Int).Mod(CR, CP), CP)
}

// CsidhExps decodes a private key (37 bytes, two signed nibbles per byte, the high
// nibble first).
func CsidhExps(sk []byte) [74]int {
	var e [74]int
	for i := range e {
		b := sk[i/2]
		n := b & 15
		if i%2 == 0 {
			n = b >> 4
		}
		e[i] = int(int8(n<<4)) >> 4
	}
	return e
}

// CsidhDecode / CsidhEncode convert public keys from and to bytes (Montgomery domain).
func CsidhDecode(pk []byte) *big.Int {
	x := leInt(pk)
	x.Mul(x, crInv)
	return x.Mod(x, CP)
}
func CsidhEncode(a *big.Int) []byte {
	x := new(big.Int).Mul(a, CR)
	return LeBytes(x.Mod(x, CP), 64)
}

type cfp = *big.Int

func cadd(x, y cfp) cfp {
	z := new(big.Int).Add(x, y)
	if z.Cmp(CP) >= 0 {
		z.Sub(z, CP)
	}
	return z
}
func csub(x, y cfp) cfp {
	z := new(big.Int).Sub(x, y)
	if z.Sign() < 0 {
		z.Add(z, CP)
	}
	return z
}
func cmul(x, y cfp) cfp {
	z := new(big.Int).Mul(x, y)
	return z.Rem(z, CP)
}

type cpt struct{ X, Z cfp }

// a24 = (A+2)/4
func cdbl(p cpt, a24 cfp) cpt {
	s := cadd(p.X, p.Z)
	s = cmul(s, s)
	d := csub(p.X, p.Z)
	d = cmul(d, d)
	m := csub(s, d)
	return cpt{cmul(s, d), cmul(m, cadd(d, cmul(a24, m)))}
}
func cdadd(p, q, r cpt) cpt {
	u := cmul(csub(p.X, p.Z), cadd(q.X, q.Z))
	v := cmul(cadd(p.X, p.Z), csub(q.X, q.Z))
	s, d := cadd(u, v), csub(u, v)
	return cpt{cmul(r.Z, cmul(s, s)), cmul(r.X, cmul(d, d))}
}
func cxmul(p cpt, k *big.Int, a24 cfp) cpt {
	r0, r1 := p, cdbl(p, a24)
	for i := k.BitLen() - 2; i >= 0; i-- {
		if k.Bit(i) == 1 {
			r0, r1 = cdadd(r0, r1, p), cdbl(r1, a24)
		} else {
			r0, r1 = cdbl(r0, a24), cdadd(r0, r1, p)
		}
	}
	if k.Sign() == 0 {
		return cpt{big.NewInt(1), new(big.Int)}
	}
	return r0
}

var inv4 *big.Int

func ca24(A cfp) cfp {
	if inv4 == nil {
		inv4 = new(big.Int).ModInverse(big.NewInt(4), CP)
	}
	return cmul(cadd(A, big.NewInt(2)), inv4)
}

func randFp(r *rand.Rand) cfp {
	b := make([]byte, 72)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	x := new(big.Int).SetBytes(b)
	return x.Mod(x, CP)
}

// CsidhAction applies the ideal-class action of exponents e to the curve A.
func CsidhAction(A *big.Int, e [74]int, r *rand.Rand) *big.Int {
	A = new(big.Int).Set(A)
	one := big.NewInt(1)
	for {
		todo := false
		for _, x := range e {
			todo = todo || x != 0
		}
		if !todo {
			return A
		}
		x := randFp(r)
		if x.Sign() == 0 {
			continue
		}
		rhs := cmul(cadd(cadd(cmul(x, x), cmul(A, x)), one), x)
		sg := big.Jacobi(rhs, CP)
		if sg == 0 {
			continue
		}
		var set []int
		k := big.NewInt(4)
		for i, v := range e {
			if v*sg > 0 {
				set = append(set, i)
			} else {
				k.Mul(k, big.NewInt(CsidhPrimes[i]))
			}
		}
		if len(set) == 0 {
			continue
		}
		// random order of the isogenies: the action is commutative
		r.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
		a24 := ca24(A)
		P := cxmul(cpt{x, one}, k, a24)
		for n, i := range set {
			if P.Z.Sign() == 0 {
				break
			}
			cof := big.NewInt(1)
			for _, j := range set[n+1:] {
				cof.Mul(cof, big.NewInt(CsidhPrimes[j]))
			}
			K := cxmul(P, cof, a24)
			if K.Z.Sign() == 0 {
				continue
			}
			A, P = velu(A, K, P, CsidhPrimes[i], a24)
			a24 = ca24(A)
			e[i] -= sg
		}
	}
}

// velu is the l-isogeny with kernel <K> in the form of Costello-Hisil / Renes:
// A' = pi*(A-3*sigma), x' = x*prod((x*xi-1)/(x-xi))^2.
func velu(A cfp, K, P cpt, l int64, a24 cfp) (cfp, cpt) {
	d := int(l-1) / 2
	pts := make([]cpt, d)
	pts[0] = K
	if d > 1 {
		pts[1] = cdbl(K, a24)
	}
	for i := 2; i < d; i++ {
		pts[i] = cdadd(pts[i-1], K, pts[i-2])
	}
	// batch inversion of all X*Z to get x and 1/x
	acc := make([]cfp, d+1)
	acc[0] = big.NewInt(1)
	for i, q := range pts {
		acc[i+1] = cmul(acc[i], cmul(q.X, q.Z))
	}
	inv := new(big.Int).ModInverse(acc[d], CP)
	pi, sigma := big.NewInt(1), new(big.Int)
	nX, nZ := big.NewInt(1), big.NewInt(1)
	for i := d - 1; i >= 0; i-- {
		q := pts[i]
		iv := cmul(inv, acc[i])
		inv = cmul(inv, cmul(q.X, q.Z))
		xi := cmul(iv, cmul(q.X, q.X))
		xinv := cmul(iv, cmul(q.Z, q.Z))
		pi = cmul(pi, xi)
		sigma = cadd(sigma, csub(xi, xinv))
		nX = cmul(nX, csub(cmul(P.X, xi), P.Z))
		nZ = cmul(nZ, csub(P.X, cmul(P.Z, xi)))
	}
	pi = cmul(pi, pi)
	sigma = cadd(sigma, sigma)
	A2 := cmul(pi, csub(A, cmul(big.NewInt(3), sigma)))
	return A2, cpt{cmul(P.X, cmul(nX, nX)), cmul(P.Z, cmul(nZ, nZ))}
}

// CsidhSupersingular decides supersingularity of y^2=x^3+Ax^2+x over F_p exactly enough:
// it finds a point order > 4 sqrt(p) dividing p+1, or a point not killed by p+1.
func CsidhSupersingular(A *big.Int, r *rand.Rand) bool {
	if A.Cmp(big.NewInt(2)) == 0 || A.Cmp(new(big.Int).Sub(CP, big.NewInt(2))) == 0 {
		return false
	}
	a24 := ca24(A)
	one := big.NewInt(1)
	bound := new(big.Int).Lsh(new(big.Int).Sqrt(CP), 2)
	for {
		x := randFp(r)
		if x.Sign() == 0 {
			continue
		}
		P := cpt{x, one}
		full := cxmul(P, new(big.Int).Add(CP, one), a24)
		if full.Z.Sign() != 0 {
			return false
		}
		ord := big.NewInt(1)
		for _, l := range CsidhPrimes {
			k := new(big.Int).Add(CP, one)
			k.Div(k, big.NewInt(l))
			if cxmul(P, k, a24).Z.Sign() != 0 {
				ord.Mul(ord, big.NewInt(l))
				if ord.Cmp(bound) > 0 {
					return true
				}
			}
		}
	}
}

// CsidhSmallPoint finds the affine x-coordinate of a point of order dividing the product of
// m on the supersingular curve A or its twist (ok is false when none was found: the curve
// may be ordinary).
func CsidhSmallPoint(A *big.Int, m []int64, r *rand.Rand) (*big.Int, bool) {
	a24 := ca24(A)
	k := new(big.Int).Add(CP, big.NewInt(1))
	for _, l := range m {
		if new(big.Int).Mod(k, big.NewInt(l)).Sign() == 0 {
			k.Div(k, big.NewInt(l))
		}
	}
	for i := 0; i < 3; i++ {
		x := randFp(r)
		if x.Sign() == 0 {
			continue
		}
		p := cxmul(cpt{x, big.NewInt(1)}, k, a24)
		if p.Z.Sign() != 0 {
			z := new(big.Int).ModInverse(p.Z, CP)
			return cmul(p.X, z), true
		}
	}
	return nil, false
}

// CDbl, CDAdd, CMul and CVelu are x-only arithmetic on y^2=x^3+Ax^2+x by textbook formulas.
func CDbl(x, z, A *big.Int) (*big.Int, *big.Int) {
	r := cdbl(cpt{x, z}, ca24(A))
	return r.X, r.Z
}

// CMul is [k](x:z) on the curve A.
func CMul(x, z, k, A *big.Int) (*big.Int, *big.Int) {
	r := cxmul(cpt{x, z}, k, ca24(A))
	return r.X, r.Z
}

// CVelu is the l-isogeny with kernel point (kx:kz): image curve and image of (x:z).
func CVelu(A, kx, kz, x, z *big.Int, l int64) (*big.Int, *big.Int, *big.Int) {
	a, q := velu(A, cpt{kx, kz}, cpt{x, z}, l, ca24(A))
	return a, q.X, q.Z
}
