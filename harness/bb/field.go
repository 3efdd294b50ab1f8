package bb

import (
	"fmt"
	"math/big"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"

	"vharness/mon"
	"vharness/probe"
	"vharness/ref"
)

var (
	b0  = new(big.Int)
	b1  = big.NewInt(1)
	b2  = big.NewInt(2)
	b64 = new(big.Int).Lsh(b1, 64)
)

func mulMod(x, y, p *big.Int) *big.Int {
	z := new(big.Int).Mul(x, y)
	return z.Mod(z, p)
}

// wordsToInt and intToWords convert little-endian limbs.
func wordsToInt(w []uint64) *big.Int {
	b := make([]byte, 8*len(w))
	for i, v := range w {
		for j := 0; j < 8; j++ {
			b[8*len(w)-1-8*i-j] = byte(v >> (8 * j))
		}
	}
	return new(big.Int).SetBytes(b)
}

func intToWords(w []uint64, x *big.Int) {
	b := ref.LeBytes(x, 8*len(w))
	for i := range w {
		w[i] = 0
		for j := 7; j >= 0; j-- {
			w[i] = w[i]<<8 | uint64(b[8*i+j])
		}
	}
}

// edgeInt makes an integer in [0,lim) with edge-heavy limb patterns; marks are values around
// which the code changes behaviour.
func edgeInt(c *mon.Case, lim *big.Int, words int, marks []*big.Int) *big.Int {
	x := new(big.Int)
	switch k := c.IntN(16); {
	case k < 3: // uniform
		x.SetBytes(c.Bytes(8*words + 8))
		return x.Mod(x, lim)
	case k < 6: // a mark plus or minus a small or limb-sized amount
		x.Set(marks[c.IntN(len(marks))])
		d := new(big.Int).SetUint64(uint64(c.IntN(4)))
		if c.IntN(3) == 0 {
			d.Lsh(b1, uint(c.IntN(64*words)))
		}
		if c.IntN(2) == 0 {
			x.Add(x, d)
		} else {
			x.Sub(x, d)
		}
	case k == 6: // power of two and neighbours
		x.Lsh(b1, uint(c.IntN(64*words)))
		x.Add(x, big.NewInt(int64(c.IntN(3)-1)))
	case k == 7: // small
		x.SetUint64(c.Uint64() >> uint(c.IntN(64)))
	case k == 8: // lim minus something short
		x.Sub(lim, b1)
		y := new(big.Int).SetBytes(c.Bytes(1 + c.IntN(8*words)))
		x.Sub(x, y)
	default: // every limb from an edge set
		w := make([]uint64, words)
		m := make([]uint64, words)
		intToWords(m, new(big.Int).And(marks[c.IntN(len(marks))], new(big.Int).Sub(new(big.Int).Lsh(b1, uint(64*words)), b1)))
		for i := range w {
			switch c.IntN(10) {
			case 0:
				w[i] = 0
			case 1, 2:
				w[i] = ^uint64(0)
			case 3:
				w[i] = 1 << 63
			case 4:
				w[i] = 1
			case 5:
				w[i] = m[i]
			case 6:
				w[i] = m[i] + 1
			case 7:
				w[i] = m[i] - 1
			case 8:
				w[i] = 0xffffffff << uint(32*c.IntN(2))
			default:
				w[i] = c.Uint64()
			}
		}
		x = wordsToInt(w)
		// make it fit by clearing high limbs' bits first, so that the low pattern survives
		for n := x.BitLen() - 1; x.Cmp(lim) >= 0 && n >= 0; n-- {
			x.SetBit(x, n, 0)
		}
	}
	if x.Sign() < 0 || x.Cmp(lim) >= 0 {
		x.Mod(x, lim)
	}
	return x
}

// sfield is one SIDH base field with its probes.
type sfield struct {
	name       string
	p, p2, r   *big.Int
	pR, rinv   *big.Int
	words      int
	bytes      int
	marks      []*big.Int
	marks2     []*big.Int
	params     *ref.SidhParams
	flags      []*bool
	flagsAvail []bool
}

var sfields []*sfield

func initSfields() {
	if sfields != nil {
		return
	}
	for _, q := range ref.Sidh {
		f := &sfield{name: q.Name, p: q.Field.P, words: q.Words, bytes: q.Bytes, params: q}
		f.p2 = new(big.Int).Lsh(f.p, 1)
		f.r = new(big.Int).Lsh(b1, uint(64*f.words))
		f.pR = new(big.Int).Mul(f.p, f.r)
		f.rinv = new(big.Int).ModInverse(f.r, f.p)
		rm := new(big.Int).Mod(f.r, f.p)
		f.marks = []*big.Int{f.p, new(big.Int).Sub(f.p2, b1), new(big.Int).Rsh(f.p, 1), rm, new(big.Int).Add(f.p, b1), mulMod(rm, rm, f.p)}
		f.marks2 = []*big.Int{f.pR, new(big.Int).Mul(f.p, f.p), new(big.Int).Mul(f.p2, f.p2), f.r, new(big.Int).Sub(f.r, b1)}
		for _, n := range []string{".HasADXandBMI2", ".HasBMI2"} {
			if b, ok := probe.Get(f.name + n).(*bool); ok {
				f.flags = append(f.flags, b)
				f.flagsAvail = append(f.flagsAvail, *b)
			}
		}
		sfields = append(sfields, f)
	}
}

// eachPath runs fn once for every feature-dependent path this processor can take.
func eachPath(flags []*bool, avail []bool, fn func(path string)) {
	for n := 0; n <= len(flags); n++ {
		// the flags are ordered from the most to the least demanding feature: switch off the
		// first n
		dup := false
		for i, f := range flags {
			*f = avail[i] && i >= n
			if i == n-1 && !avail[i] {
				dup = true
			}
		}
		if dup {
			continue
		}
		fn(fmt.Sprintf("off%d", n))
	}
	for i, f := range flags {
		*f = avail[i]
	}
}

func (f *sfield) fp(x *big.Int) (r common.Fp) {
	intToWords(r[:f.words], x)
	return
}
func (f *sfield) fpx(x *big.Int) (r common.FpX2) {
	intToWords(r[:2*f.words], x)
	return
}
func (f *sfield) val(x *common.Fp) *big.Int    { return wordsToInt(x[:f.words]) }
func (f *sfield) valx(x *common.FpX2) *big.Int { return wordsToInt(x[:2*f.words]) }
func (f *sfield) elem(c *mon.Case) *big.Int    { return edgeInt(c, f.p2, f.words, f.marks) }
func (f *sfield) elem2(c *mon.Case) common.Fp2 {
	return common.Fp2{A: f.fp(f.elem(c)), B: f.fp(f.elem(c))}
}

// pair makes two elements of [0,2p), often related so that sums and differences hit edges.
func (f *sfield) pair(c *mon.Case) (x, y *big.Int) {
	x = f.elem(c)
	switch c.IntN(5) {
	case 0: // x+y near p, 2p, 3p
		y = new(big.Int).Mul(f.p, big.NewInt(int64(1+c.IntN(3))))
		y.Sub(y, x)
		y.Add(y, big.NewInt(int64(c.IntN(5)-2)))
		y.Mod(y, f.p2)
	case 1: // x-y near 0, +-p
		y = new(big.Int).Add(x, new(big.Int).Mul(f.p, big.NewInt(int64(c.IntN(3)-1))))
		y.Add(y, big.NewInt(int64(c.IntN(5)-2)))
		y.Mod(y, f.p2)
	case 2:
		y = new(big.Int).Set(x)
	default:
		y = f.elem(c)
	}
	return
}

// column makes a reduction input for which, in some column of the product of the quotient and
// p+1, the middle word of the accumulator is all ones when the word of the input is added with a
// carry (the carry then runs into the third word; it happens once in 2^64 inputs otherwise).
// It gives nil if the search fails.
func (f *sfield) column(c *mon.Case) *big.Int {
	n := f.words
	m := make([]uint64, n)
	intToWords(m, new(big.Int).Add(f.p, b1))
	k0 := 0
	for m[k0] == 0 {
		k0++
	}
	M := ^uint64(0)
	for try := 0; try < 12; try++ {
		q, x := make([]uint64, n), make([]uint64, 2*n)
		intToWords(q, edgeInt(c, f.r, n, f.marks))
		if c.IntN(2) == 0 {
			intToWords(q, new(big.Int).SetBytes(c.Bytes(8*n)))
		}
		for i := n; i < 2*n-1; i++ {
			x[i] = c.Uint64() | -uint64(c.IntN(4)/3)
		}
		x[2*n-1] = c.Uint64() % (m[n-1] + 1) >> uint(c.IntN(2))
		i := k0 + c.IntN(2*n-1-k0)
		// sum is the accumulator of column i before its input word is added
		sum := func() *big.Int {
			acc := new(big.Int)
			for k := 0; k <= i; k++ {
				for j := max(0, k-n+1); j <= min(k, n-1); j++ {
					if m[k-j] != 0 {
						t := new(big.Int).SetUint64(q[j])
						acc.Add(acc, t.Mul(t, new(big.Int).SetUint64(m[k-j])))
					}
				}
				if k == i {
					break
				}
				if k < n {
					x[k] = q[k] - new(big.Int).And(acc, new(big.Int).SetUint64(M)).Uint64()
				}
				acc.Add(acc, new(big.Int).SetUint64(x[k]))
				acc.Rsh(acc, 64)
			}
			return acc
		}
		lo, hi := max(0, i-n+1), min(i-k0, n-1)
		mod := new(big.Int).Lsh(b1, 128)
		ok := false
		var s *big.Int
		for fix := 0; fix < 8 && !ok; fix++ {
			s = sum()
			mid := new(big.Int).Rsh(s, 64)
			if mid.And(mid, new(big.Int).SetUint64(M)).Uint64() == M {
				ok = true
				break
			}
			j := hi - c.IntN(min(2, hi-lo+1))
			w := m[i-j]
			if w == 0 {
				continue
			}
			want := new(big.Int).SetUint64(M)
			want.Lsh(want, 64)
			want.Or(want, new(big.Int).SetUint64(c.Uint64()))
			d := want.Sub(want, s)
			d.Mod(d, mod)
			if c.IntN(2) == 0 {
				d.Sub(d, mod)
			}
			d.Quo(d, new(big.Int).SetUint64(w))
			d.Add(d, new(big.Int).SetUint64(q[j]))
			if d.Sign() < 0 || d.Cmp(b64) >= 0 {
				q[j] = c.Uint64()
				continue
			}
			q[j] = d.Uint64()
		}
		if !ok {
			continue
		}
		low := new(big.Int).And(s, new(big.Int).SetUint64(M)).Uint64()
		if low == 0 {
			continue
		}
		if i < n {
			q[i] = c.Uint64() % low
		} else if i < 2*n-1 {
			x[i] = M - c.Uint64()%low
		}
		i = 2*n - 2
		sum()
		v := wordsToInt(x)
		if v.Cmp(f.pR) >= 0 {
			x[2*n-1] = 0
			v = wordsToInt(x)
		}
		c.Count("carry-through-a-column:"+f.name, 1)
		return v
	}
	return nil
}

// wide makes a reduction input in [0,pR): a product, an edge value, or one chosen so that the
// reduced value and the quotient are edge values.
func (f *sfield) wide(c *mon.Case) *big.Int {
	switch c.IntN(7) {
	case 5, 6:
		if x := f.column(c); x != nil {
			return x
		}
		fallthrough
	case 0:
		x, y := f.pair(c)
		return new(big.Int).Mul(x, y)
	case 1:
		return edgeInt(c, f.pR, 2*f.words, f.marks2)
	case 2: // sum of three products
		s := new(big.Int)
		for i := 0; i < 3; i++ {
			s.Add(s, new(big.Int).Mul(f.elem(c), f.elem(c)))
		}
		return s.Mod(s, f.pR)
	default:
		// x = t*R - q*p with result t and quotient q
		for i := 0; i < 20; i++ {
			t := f.elem(c)
			q := edgeInt(c, f.r, f.words, f.marks)
			x := new(big.Int).Mul(t, f.r)
			x.Sub(x, new(big.Int).Mul(q, f.p))
			if x.Sign() >= 0 && x.Cmp(f.pR) < 0 {
				return x
			}
		}
		return edgeInt(c, f.pR, 2*f.words, f.marks2)
	}
}

type (
	fpBin   = func(z, x, y *common.Fp)
	fpxBin  = func(z, x, y *common.FpX2)
	fpUn    = func(z, x *common.Fp)
	fp2Bin  = func(z, x, y *common.Fp2)
	fp2Un   = func(z, x *common.Fp2)
	fpMul   = func(z *common.FpX2, x, y *common.Fp)
	fpRdc   = func(z *common.Fp, x *common.FpX2)
	fpMod   = func(x *common.Fp)
	fpSwap  = func(x, y *common.Fp, c uint8)
	fp2Swap = func(a, b, c, d *common.Fp2, ch uint8)
)

func (f *sfield) tail(z *common.Fp) bool {
	for _, v := range z[f.words:] {
		if v != 0 {
			return false
		}
	}
	return true
}

// congr checks z == want (mod p) and z < lim.
func (f *sfield) congr(c *mon.Case, what string, z *common.Fp, want, lim *big.Int) {
	v := f.val(z)
	c.Check(v.Cmp(lim) < 0, "range", "%s: result %x is not below %x", what, v, lim)
	d := new(big.Int).Sub(v, want)
	c.Check(d.Mod(d, f.p).Sign() == 0, "value", "%s: result %x is not congruent to %x", what, v, want)
	c.Check(f.tail(z), "tail", "%s: limbs above the field size were written", what)
}

func fieldPrim(c *mon.Case) {
	initSfields()
	f := sfields[c.IntN(3)]
	fieldPrimOf(c, f, func(n string) interface{} {
		v := probe.Get(f.name + "." + n)
		if v == nil {
			c.Skip(f.name + "." + n)
		}
		return v
	}, f.flags, f.flagsAvail)
}

func fieldPrimOf(c *mon.Case, f *sfield, get func(n string) interface{}, flags []*bool, flagsAvail []bool) {
	ops := []string{"fp_add", "fp_sub", "fp_adl", "fp_sul", "fp_mod", "fp_mul", "fp_mul", "fp_rdc", "fp_rdc", "fp_cswap", "fp_mulP", "fp2_add", "fp2_sub", "fp2_mul", "fp2_sqr", "fp2_ToMontgomery", "fp2_FromMontgomery", "fp2_cswap"}
	op := ops[c.IntN(len(ops))]
	pr := get(op)
	if pr == nil {
		return
	}
	x, y := f.pair(c)
	x2, y2 := common.Fp2{A: f.fp(x), B: f.fp(f.elem(c))}, common.Fp2{A: f.fp(y), B: f.fp(f.elem(c))}
	if c.IntN(3) == 0 {
		u, v := f.pair(c)
		x2, y2 = common.Fp2{A: f.fp(u), B: f.fp(v)}, common.Fp2{A: f.fp(f.elem(c)), B: f.fp(f.elem(c))}
	}
	w, w2 := f.wide(c), f.wide(c)
	al := c.IntN(4) // aliasing of the result: none, x, y, x and y
	ch := uint8(c.IntN(2))
	n := 0
	eachPath(flags, flagsAvail, func(path string) {
		n++
		what := fmt.Sprintf("%s %s (%s, aliasing %d) x=%x y=%x", f.name, op, path, al, x, y)
		c.Count("ops:"+f.name+"."+op, 1)
		bin := func(g fpBin, want *big.Int, lim *big.Int) {
			a, b := f.fp(x), f.fp(y)
			z := f.fp(edgeInt(c, f.r, f.words, f.marks)) // the result is not expected to be zero
			zp, ap, bp := &z, &a, &b
			switch al {
			case 1:
				zp = ap
			case 2:
				zp = bp
			case 3:
				if x.Cmp(y) == 0 {
					bp = ap
					zp = ap
				}
			}
			g(zp, ap, bp)
			f.congr(c, what, zp, want, lim)
			if zp != ap {
				c.Check(a == f.fp(x), "input-changed", "%s: first operand changed", what)
			}
			if zp != bp && ap != bp {
				c.Check(b == f.fp(y), "input-changed", "%s: second operand changed", what)
			}
		}
		switch g := pr.(type) {
		case fpBin:
			switch op {
			case "fp_add":
				bin(g, new(big.Int).Add(x, y), f.p2)
			case "fp_sub":
				bin(g, new(big.Int).Sub(x, y), f.p2)
			case "fp_mulP":
				bin(g, mulMod(new(big.Int).Mul(x, y), f.rinv, f.p), f.p2)
			}
		case fpxBin:
			a, b := f.fpx(w), f.fpx(w2)
			var z common.FpX2
			zp := &z
			if al == 1 {
				zp = &a
			} else if al == 2 {
				zp = &b
			}
			what = fmt.Sprintf("%s %s (%s, aliasing %d) x=%x y=%x", f.name, op, path, al, w, w2)
			g(zp, &a, &b)
			v := f.valx(zp)
			if op == "fp_adl" {
				s := new(big.Int).Add(w, w2)
				s.And(s, new(big.Int).Sub(new(big.Int).Mul(f.r, f.r), b1))
				c.Check(v.Cmp(s) == 0, "value", "%s = %x, want %x", what, v, s)
			} else {
				d := new(big.Int).Sub(w, w2)
				c.Check(v.Cmp(f.pR) < 0, "range", "%s = %x is not below p*R", what, v)
				c.Check(new(big.Int).Mod(new(big.Int).Sub(v, d), f.p).Sign() == 0, "value", "%s = %x is not congruent to the difference", what, v)
			}
			for _, t := range zp[2*f.words:] {
				c.Check(t == 0, "tail", "%s: limbs above the double field size were written", what)
			}
		case fpMod:
			z := f.fp(x)
			g(&z)
			f.congr(c, what, &z, x, f.p)
		case fpMul:
			a, b := f.fp(x), f.fp(y)
			var z common.FpX2
			for i := range z[:2*f.words] {
				z[i] = 0xA5A5A5A5A5A5A5A5
			}
			bp := &b
			if al == 3 && x.Cmp(y) == 0 {
				bp = &a
			}
			g(&z, &a, bp)
			v, want := f.valx(&z), new(big.Int).Mul(x, y)
			c.Check(v.Cmp(want) == 0, "value", "%s = %x, want %x", what, v, want)
			c.Check(a == f.fp(x) && b == f.fp(y), "input-changed", "%s: operand changed", what)
			for _, t := range z[2*f.words:] {
				c.Check(t == 0, "tail", "%s: limbs above the double field size were written", what)
			}
		case fpRdc:
			a := f.fpx(w)
			z := f.fp(edgeInt(c, f.r, f.words, f.marks))
			g(&z, &a)
			f.congr(c, fmt.Sprintf("%s rdc (%s) x=%x", f.name, path, w), &z, mulMod(w, f.rinv, f.p), f.p2)
		case fpSwap:
			a, b := f.fp(x), f.fp(y)
			g(&a, &b, ch)
			wa, wb := f.fp(x), f.fp(y)
			if ch == 1 {
				wa, wb = wb, wa
			}
			c.Check(a == wa && b == wb, "value", "%s choice=%d: %x %x", what, ch, a, b)
		case fp2Swap:
			a, b, d, e := x2, y2, f.elem2(c), f.elem2(c)
			wa, wb, wd, we := a, b, d, e
			if ch == 1 {
				wa, wb, wd, we = d, e, a, b
			}
			g(&a, &b, &d, &e, ch)
			c.Check(a == wa && b == wb && d == wd && e == we, "value", "%s choice=%d", what, ch)
		case fp2Bin:
			a, b := x2, y2
			if c.IntN(4) == 0 {
				b = a
			}
			xa, xb, ya, yb := f.val(&a.A), f.val(&a.B), f.val(&b.A), f.val(&b.B)
			var z common.Fp2
			zp, bp := &z, &b
			switch al {
			case 1:
				zp = &a
			case 2:
				zp = &b
			case 3:
				if a == b {
					bp, zp = &a, &a
				}
			}
			what = fmt.Sprintf("%s %s (%s, aliasing %d) x=%x+%xi y=%x+%xi", f.name, op, path, al, xa, xb, ya, yb)
			g(zp, &a, bp)
			var wa, wb *big.Int
			switch op {
			case "fp2_add":
				wa, wb = new(big.Int).Add(xa, ya), new(big.Int).Add(xb, yb)
			case "fp2_sub":
				wa, wb = new(big.Int).Sub(xa, ya), new(big.Int).Sub(xb, yb)
			case "fp2_mul":
				t := new(big.Int).Sub(new(big.Int).Mul(xa, ya), new(big.Int).Mul(xb, yb))
				wa = mulMod(t, f.rinv, f.p)
				t = new(big.Int).Add(new(big.Int).Mul(xa, yb), new(big.Int).Mul(xb, ya))
				wb = mulMod(t, f.rinv, f.p)
			}
			f.congr(c, what+" real part", &zp.A, wa, f.p2)
			f.congr(c, what+" imaginary part", &zp.B, wb, f.p2)
		case fp2Un:
			a := x2
			if op == "fp2_ToMontgomery" {
				// callers give any value of the encoded size
				lim := new(big.Int).Lsh(b1, uint(8*f.bytes))
				a = common.Fp2{A: f.fp(edgeInt(c, lim, f.words, f.marks)), B: f.fp(edgeInt(c, lim, f.words, f.marks))}
			}
			in := a
			xa, xb := f.val(&a.A), f.val(&a.B)
			var z common.Fp2
			zp := &z
			if al == 1 && op != "fp2_FromMontgomery" {
				zp = &a
			}
			what = fmt.Sprintf("%s %s (%s, aliasing %d) x=%x+%xi", f.name, op, path, al, xa, xb)
			g(zp, &a)
			if zp != &a {
				c.Check(a == in, "input-changed", "%s: operand changed", what)
			}
			var wa, wb *big.Int
			lim := f.p2
			switch op {
			case "fp2_sqr":
				wa = mulMod(new(big.Int).Sub(new(big.Int).Mul(xa, xa), new(big.Int).Mul(xb, xb)), f.rinv, f.p)
				wb = mulMod(new(big.Int).Mul(b2, new(big.Int).Mul(xa, xb)), f.rinv, f.p)
			case "fp2_ToMontgomery":
				wa, wb = mulMod(xa, f.r, f.p), mulMod(xb, f.r, f.p)
			case "fp2_FromMontgomery":
				wa, wb = mulMod(xa, f.rinv, f.p), mulMod(xb, f.rinv, f.p)
				lim = f.p
			}
			f.congr(c, what+" real part", &zp.A, wa, lim)
			f.congr(c, what+" imaginary part", &zp.B, wb, lim)
		default:
			c.Skip("type of " + op)
		}
	})
	c.Eval(n - 1)
	c.Key(op, f.name, fmt.Sprintf("%x %x %x %x", x, y, w, w2))
	c.Sample("%s %s x=%x y=%x", f.name, op, x, y)
}

func fieldPow(c *mon.Case) {
	initSfields()
	f := sfields[c.IntN(3)]
	op := []string{"fp_p34", "fp2_inv"}[c.IntN(2)]
	pr := probe.Get(f.name + "." + op)
	if pr == nil {
		c.Skip(f.name + "." + op)
		return
	}
	al := c.IntN(2)
	x := f.elem2(c)
	eachPath(f.flags, f.flagsAvail, func(path string) {
		c.Count("ops:"+f.name+"."+op, 1)
		switch g := pr.(type) {
		case fpUn:
			a := x.A
			v := f.val(&a)
			var z common.Fp
			zp := &z
			if al == 1 {
				zp = &a
			}
			g(zp, &a)
			e := new(big.Int).Rsh(f.p, 2) // (p-3)/4
			want := mulMod(new(big.Int).Exp(mulMod(v, f.rinv, f.p), e, f.p), f.r, f.p)
			f.congr(c, fmt.Sprintf("%s p34 (%s, aliasing %d) x=%x", f.name, path, al, v), zp, want, f.p2)
		case fp2Un:
			a := x
			va, vb := mulMod(f.val(&a.A), f.rinv, f.p), mulMod(f.val(&a.B), f.rinv, f.p)
			if va.Sign() == 0 && vb.Sign() == 0 {
				return
			}
			var z common.Fp2
			zp := &z
			if al == 1 {
				zp = &a
			}
			g(zp, &a)
			r := f.params.Field.Inv(ref.Fp2{A: va, B: vb})
			what := fmt.Sprintf("%s inv (%s, aliasing %d) x=%x+%xi", f.name, path, al, va, vb)
			f.congr(c, what+" real part", &zp.A, mulMod(r.A, f.r, f.p), f.p2)
			f.congr(c, what+" imaginary part", &zp.B, mulMod(r.B, f.r, f.p), f.p2)
		}
	})
	c.Key(op, f.name, fmt.Sprintf("%x", x))
	c.Sample("%s %s x=%x", f.name, op, f.val(&x.A))
}

// codecEdge observes conversions to and from the Montgomery domain through the public API.
func codecEdge(c *mon.Case) {
	initSfields()
	f := sfields[c.IntN(3)]
	p := f.params
	lim := new(big.Int).Lsh(b1, uint(8*f.bytes))
	in := make([]byte, 0, p.PkLen())
	want := make([]byte, 0, p.PkLen())
	for i := 0; i < 6; i++ {
		x := edgeInt(c, lim, f.words, f.marks)
		if c.IntN(2) == 0 {
			x.Mod(x, f.p)
		}
		in = append(in, ref.LeBytes(x, f.bytes)...)
		want = append(want, ref.LeBytes(new(big.Int).Mod(x, f.p), f.bytes)...)
	}
	v := []sidh.KeyVariant{varA, varB, varSike}[c.IntN(3)]
	eachPath(f.flags, f.flagsAvail, func(path string) {
		got := pubBytes(p, mkPub(c, p, v, in))
		c.Check(string(got) == string(want), "value", "%s (%s): importing %x exports %x, want the residues %x", f.name, path, in, got, want)
		c.Count("ops:"+f.name+".import-export", 1)
	})
	c.Key(f.name, in)
	c.Sample("%s import %x", f.name, in[:32])
}

// secretEdge derives secrets from public keys with arbitrary field elements, which drives the
// whole arithmetic with values no honest key gives, and compares with the reference.
func secretEdge(c *mon.Case) {
	initSfields()
	f := sfields[c.IntN(3)]
	p := f.params
	prvA := c.IntN(2) == 0
	v, peer := varA, varB
	if !prvA {
		v, peer = varB, varA
	}
	bitsN, n := sbits(p, v)
	sc, cl := scalarOf(c, bitsN, n)
	// an honest key of the other party, re-encoded with unreduced representatives
	ob, on := sbits(p, peer)
	osc, _ := scalarOf(c, ob, on)
	pk := pubFor(c, p, peer, osc)
	lim := new(big.Int).Lsh(b1, uint(8*f.bytes))
	enc := make([]byte, 0, len(pk))
	for i := 0; i < 6; i++ {
		x := ref.LeInt(pk[i*f.bytes : (i+1)*f.bytes])
		for k := c.IntN(4); k > 0; k-- {
			y := new(big.Int).Add(x, f.p)
			if y.Cmp(lim) >= 0 {
				break
			}
			x = y
		}
		enc = append(enc, ref.LeBytes(x, f.bytes)...)
	}
	var first []byte
	eachPath(f.flags, f.flagsAvail, func(path string) {
		ss := derive(p, mkPrv(c, p, v, sc, nil), mkPub(c, p, peer, enc))
		if first == nil {
			first = ss
		}
		c.Check(string(ss) == string(first), "path-dependent", "%s: secret for scalar %x and key %x depends on the path %s", f.name, sc, enc, path)
		c.Count("ops:"+f.name+".derive", 1)
	})
	c.Key(f.name, sc, enc)
	c.Sample("%s scalar class %s", f.name, cl)
}

// ---------------------------------------------------------------- CSIDH

var (
	cMarks []*big.Int
	cFlags []*bool
	cAvail []bool
	cRinv  *big.Int
)

func initCfield() {
	if cMarks != nil {
		return
	}
	rm := new(big.Int).Mod(ref.CR, ref.CP)
	cMarks = []*big.Int{new(big.Int).Sub(ref.CP, b1), new(big.Int).Rsh(ref.CP, 1), rm, mulMod(rm, rm, ref.CP), new(big.Int).Sub(ref.CP, rm), new(big.Int).Lsh(b1, 510)}
	cRinv = new(big.Int).ModInverse(ref.CR, ref.CP)
	for _, n := range []string{"hasADXandBMI2", "hasBMI2"} {
		if b, ok := probe.Get("csidh." + n).(*bool); ok {
			cFlags = append(cFlags, b)
			cAvail = append(cAvail, *b)
		}
	}
}

type cw = [8]uint64

func cfpOf(x *big.Int) (r cw) { intToWords(r[:], x); return }
func cval(x *cw) *big.Int     { return wordsToInt(x[:]) }
func cElem(c *mon.Case) *big.Int {
	return edgeInt(c, ref.CP, 8, cMarks)
}

func cPair(c *mon.Case) (x, y *big.Int) {
	x = cElem(c)
	switch c.IntN(6) {
	case 0:
		y = new(big.Int).Sub(ref.CP, x)
		y.Add(y, big.NewInt(int64(c.IntN(5)-2)))
	case 1:
		y = new(big.Int).Add(x, big.NewInt(int64(c.IntN(5)-2)))
	case 2: // x*y/R is an edge value
		if x.Sign() == 0 {
			return x, cElem(c)
		}
		t := mulMod(cElem(c), ref.CR, ref.CP)
		y = mulMod(t, new(big.Int).ModInverse(x, ref.CP), ref.CP)
	case 3:
		y = new(big.Int).Set(x)
	default:
		y = cElem(c)
	}
	y = new(big.Int).Mod(y, ref.CP)
	return
}

func cfPrim(c *mon.Case) {
	initCfield()
	ops := []string{"addRdc", "subRdc", "mulRdc", "mulRdc", "mulGeneric", "sub512", "mul512", "mul576", "cswap512", "isLess", "isZero", "equal", "montEval", "ctPick64", "ctIsNonZero64"}
	op := ops[c.IntN(len(ops))]
	pr := probe.Get("csidh." + op)
	if pr == nil {
		c.Skip("csidh." + op)
		return
	}
	x, y := cPair(c)
	full := new(big.Int).Lsh(b1, 512)
	if op == "isLess" || op == "equal" || op == "sub512" || op == "cswap512" {
		if c.IntN(2) == 0 {
			x = edgeInt(c, full, 8, cMarks)
			y = edgeInt(c, full, 8, cMarks)
			if c.IntN(2) == 0 { // one limb differs
				t := cfpOf(x)
				t[c.IntN(8)] += uint64(c.IntN(3)) - 1
				y = cval(&t)
			}
		}
	}
	al := c.IntN(4)
	k := edgeInt(c, b64, 1, []*big.Int{new(big.Int).SetUint64(1 << 63), new(big.Int).SetUint64(^uint64(0))}).Uint64()
	p := ref.CP
	n := 0
	eachPath(cFlags, cAvail, func(path string) {
		n++
		c.Count("ops:csidh."+op, 1)
		what := fmt.Sprintf("csidh %s (%s, aliasing %d) x=%x y=%x k=%x", op, path, al, x, y, k)
		a, b := cfpOf(x), cfpOf(y)
		z := cfpOf(edgeInt(c, full, 8, cMarks))
		zp, bp := &z, &b
		exp := func(v, want *big.Int) {
			c.Check(v.Cmp(want) == 0, "value", "%s = %x, want %x", what, v, want)
		}
		switch g := pr.(type) {
		case func(r, x, y *cw):
			switch al {
			case 1:
				zp = &a
			case 2:
				zp = &b
			case 3:
				if x.Cmp(y) == 0 {
					zp, bp = &a, &a
				}
			}
			if op == "mulGeneric" {
				// works word by word into its result only at the end; callers alias freely
				g(zp, &a, bp)
				v := cval(zp)
				w := mulMod(new(big.Int).Mul(x, y), cRinv, p)
				c.Check(new(big.Int).Mod(new(big.Int).Sub(v, w), p).Sign() == 0, "value", "%s = %x, not congruent to %x", what, v, w)
				c.Check(v.Cmp(new(big.Int).Lsh(p, 1)) < 0, "range", "%s = %x is not below 2p", what, v)
				return
			}
			if op == "montEval" {
				zp = &z
				if al == 1 || al == 2 {
					// aliasing is not documented for montEval
					bp = &b
				}
				g(zp, &a, &b)
				A, X := mulMod(x, cRinv, p), mulMod(y, cRinv, p)
				w := mulMod(X, X, p)
				w.Add(w, mulMod(A, X, p))
				w.Add(w, b1)
				w = mulMod(w, X, p)
				exp(cval(zp), mulMod(w, ref.CR, p))
				return
			}
			g(zp, &a, bp)
			switch op {
			case "addRdc":
				exp(cval(zp), new(big.Int).Mod(new(big.Int).Add(x, y), p))
			case "subRdc":
				exp(cval(zp), new(big.Int).Mod(new(big.Int).Sub(x, y), p))
			case "mulRdc":
				exp(cval(zp), mulMod(new(big.Int).Mul(x, y), cRinv, p))
			}
			if zp == &z {
				c.Check(a == cfpOf(x) && b == cfpOf(y), "input-changed", "%s: operand changed", what)
			}
		case func(r, x, y *cw) uint64:
			br := g(&z, &a, &b)
			d := new(big.Int).Sub(x, y)
			w := uint64(0)
			if d.Sign() < 0 {
				w = 1
				d.Add(d, full)
			}
			exp(cval(&z), d)
			c.Check(br == w, "value", "%s: borrow %d", what, br)
		case func(r, x *cw, y uint64):
			if al == 1 {
				zp = &a
			}
			g(zp, &a, k)
			w := new(big.Int).Mul(x, new(big.Int).SetUint64(k))
			exp(cval(zp), w.Mod(w, full))
		case func(r *[9]uint64, x *cw, y uint64):
			var r [9]uint64
			for i := range r {
				r[i] = c.Uint64()
			}
			g(&r, &a, k)
			exp(wordsToInt(r[:]), new(big.Int).Mul(x, new(big.Int).SetUint64(k)))
		case func(x, y *cw, ch uint8):
			ch := uint8(k & 1)
			g(&a, &b, ch)
			wa, wb := cfpOf(x), cfpOf(y)
			if ch == 1 {
				wa, wb = wb, wa
			}
			c.Check(a == wa && b == wb, "value", "%s", what)
		case func(x, y *cw) bool:
			r := g(&a, &b)
			w := x.Cmp(y) < 0
			if op == "equal" {
				w = x.Cmp(y) == 0
			}
			c.Check(r == w, "value", "%s = %v", what, r)
		case func(x *cw) bool:
			if k&3 == 0 {
				a = cw{}
				if k&4 == 0 {
					a[k>>3&7] = k
				}
			}
			r := g(&a)
			c.Check(r == (a == cw{}), "value", "isZero(%x) = %v", a, r)
		case func(w, a, b uint64) uint64:
			w := -(k & 1)
			want := a[0]
			if k&1 == 0 {
				want = b[0]
			}
			c.Check(g(w, a[0], b[0]) == want, "value", "ctPick64(%x,%x,%x)", w, a[0], b[0])
		case func(w uint64) int:
			for _, v := range []uint64{0, k, a[0], k & 1} {
				w := 1
				if v == 0 {
					w = 0
				}
				c.Check(g(v) == w, "value", "ctIsNonZero64(%x)", v)
			}
		default:
			c.Skip("type of csidh." + op)
		}
	})
	c.Eval(n - 1)
	c.Key(op, fmt.Sprintf("%x %x %x", x, y, k))
	c.Sample("%s x=%x y=%x", op, x, y)
}

func cfPow(c *mon.Case) {
	initCfield()
	op := []string{"modExp512", "modExp64", "isNonQuadRes"}[c.IntN(3)]
	pr := probe.Get("csidh." + op)
	if pr == nil {
		c.Skip("csidh." + op)
		return
	}
	p := ref.CP
	x := cElem(c)
	full := new(big.Int).Lsh(b1, 512)
	e := edgeInt(c, full, 8, cMarks)
	eachPath(cFlags, cAvail, func(path string) {
		c.Count("ops:csidh."+op, 1)
		a, b := cfpOf(x), cfpOf(e)
		v := mulMod(x, cRinv, p)
		switch g := pr.(type) {
		case func(r, b, e *cw):
			var z cw
			g(&z, &a, &b)
			w := mulMod(new(big.Int).Exp(v, e, p), ref.CR, p)
			c.Check(cval(&z).Cmp(w) == 0, "value", "modExp512 (%s) b=%x e=%x: %x, want %x", path, x, e, z, w)
		case func(r, b *cw, e uint64):
			var z cw
			g(&z, &a, b[3])
			w := mulMod(new(big.Int).Exp(v, new(big.Int).SetUint64(b[3]), p), ref.CR, p)
			c.Check(cval(&z).Cmp(w) == 0, "value", "modExp64 (%s) b=%x e=%x: %x, want %x", path, x, b[3], z, w)
		case func(x *cw) int:
			if x.Sign() == 0 {
				return
			}
			w := 0
			if big.Jacobi(v, p) == -1 {
				w = 1
			}
			c.Check(g(&a) == w, "value", "isNonQuadRes (%s) %x = %d", path, x, g(&a))
		}
	})
	c.Key(op, fmt.Sprintf("%x %x", x, e))
	c.Sample("%s x=%x e=%x", op, x, e)
}

// cfCurve checks the x-only formulas against textbook formulas on big integers.
func cfCurve(c *mon.Case) {
	initCfield()
	op := []string{"xDbl", "xAdd", "xDblAdd", "xMul", "xIso"}[c.IntN(5)]
	pr := probe.Get("csidh." + op)
	if pr == nil {
		c.Skip("csidh." + op)
		return
	}
	p := ref.CP
	nz := func() *big.Int {
		for {
			if x := cElem(c); x.Sign() != 0 {
				return x
			}
		}
	}
	M := func(x *big.Int) cw { return cfpOf(mulMod(x, ref.CR, p)) } // to Montgomery form
	U := func(w *cw) *big.Int { return mulMod(cval(w), cRinv, p) }
	// random curve (edge-biased), random projective scaling
	A := nz()
	for t := mulMod(A, A, p); t.Cmp(big.NewInt(4)) == 0; t = mulMod(A, A, p) {
		A = nz()
	}
	proj := func(x, z *big.Int) [2]cw {
		s := nz()
		return [2]cw{M(mulMod(x, s, p)), M(mulMod(z, s, p))}
	}
	same := func(what string, got *[2]cw, x, z *big.Int) {
		for i := range got {
			c.Check(cval(&got[i]).Cmp(p) < 0, "range", "%s: coordinate %x is not reduced", what, got[i])
		}
		gx, gz := U(&got[0]), U(&got[1])
		c.Check(mulMod(gx, z, p).Cmp(mulMod(gz, x, p)) == 0, "value", "%s: (%x:%x), want (%x:%x)", what, gx, gz, x, z)
		c.Check((gx.Sign() == 0 && gz.Sign() == 0) == (x.Sign() == 0 && z.Sign() == 0), "value", "%s: (%x:%x), want (%x:%x)", what, gx, gz, x, z)
	}
	bx, bz := nz(), nz()
	eachPath(cFlags, cAvail, func(path string) {
		c.Count("ops:csidh."+op, 1)
		what := fmt.Sprintf("%s (%s) A=%x P=(%x:%x)", op, path, A, bx, bz)
		co := proj(A, b1)
		P := proj(bx, bz)
		mul := func(k int64) (*big.Int, *big.Int) { return ref.CMul(bx, bz, big.NewInt(k), A) }
		switch g := pr.(type) {
		case func(r, p, co *[2]cw):
			var r [2]cw
			g(&r, &P, &co)
			x, z := ref.CDbl(bx, bz, A)
			same(what, &r, x, z)
		case func(r, p, q, d *[2]cw):
			i, j := int64(2+c.IntN(20)), int64(1)
			j = 1 + c.Int64N(i-1)
			var r [2]cw
			ix, iz := mul(i)
			jx, jz := mul(j)
			dx, dz := mul(i - j)
			if iz.Sign() == 0 || jz.Sign() == 0 || dz.Sign() == 0 || dx.Sign() == 0 {
				return
			}
			I, J, D := proj(ix, iz), proj(jx, jz), proj(dx, dz)
			g(&r, &I, &J, &D)
			x, z := mul(i + j)
			same(fmt.Sprintf("%s [%d]+[%d]", what, i, j), &r, x, z)
		case func(r, s, p, q, d, co *[2]cw):
			i, j := int64(2+c.IntN(20)), int64(1)
			j = 1 + c.Int64N(i-1)
			var r, s [2]cw
			ix, iz := mul(i)
			jx, jz := mul(j)
			dx, dz := mul(i - j)
			if iz.Sign() == 0 || jz.Sign() == 0 || dz.Sign() == 0 || dx.Sign() == 0 {
				return
			}
			I, J, D := proj(ix, iz), proj(jx, jz), proj(dx, dz)
			s0 := nz()
			a24 := [2]cw{M(mulMod(new(big.Int).Add(A, b2), s0, p)), M(mulMod(big.NewInt(4), s0, p))}
			g(&r, &s, &I, &J, &D, &a24)
			x, z := mul(2 * i)
			same(fmt.Sprintf("%s 2[%d]", what, i), &r, x, z)
			x, z = mul(i + j)
			same(fmt.Sprintf("%s [%d]+[%d]", what, i, j), &s, x, z)
		case func(r, p, co *[2]cw, k *cw):
			k := edgeInt(c, new(big.Int).Lsh(b1, 512), 8, cMarks)
			if c.IntN(3) == 0 {
				k = big.NewInt(1 + int64(c.IntN(600)))
			}
			if k.Sign() == 0 {
				return
			}
			kw := cfpOf(k)
			var r [2]cw
			g(&r, &P, &co, &kw)
			x, z := ref.CMul(bx, bz, k, A)
			same(fmt.Sprintf("%s [%x]", what, k), &r, x, z)
		case func(img, co, kern *[2]cw, order uint64):
			// a kernel of order l on the supersingular curve or a curve isogenous to it
			var e [74]int
			e[c.IntN(74)] = 1
			S := b0
			if c.IntN(2) == 0 {
				S = ref.CsidhAction(b0, e, c.Rand)
			}
			l := ref.CsidhPrimes[c.IntN(74)]
			kx, ok := ref.CsidhSmallPoint(S, []int64{l}, c.Rand)
			if !ok {
				return
			}
			co = proj(S, b1)
			K := proj(kx, b1)
			g(&P, &co, &K, uint64(l))
			a2, x, z := ref.CVelu(S, kx, b1, bx, bz, l)
			same(fmt.Sprintf("%s image point, l=%d S=%x K=%x", what, l, S, kx), &P, x, z)
			same(fmt.Sprintf("%s image curve, l=%d S=%x K=%x", what, l, S, kx), &co, a2, b1)
		}
	})
	c.Key(op, fmt.Sprintf("%x %x %x", A, bx, bz))
	c.Sample("%s A=%x x=%x z=%x", op, A, bx, bz)
}

// cfCodec observes reduced arithmetic through the public API: the codomain encoding of the
// action by single primes and key comparisons at the ends of the range.
func cfApi(c *mon.Case) {
	initCfield()
	var e [74]int
	i := c.IntN(74)
	e[i] = 1 - 2*c.IntN(2)
	prv := cPrv(c, e)
	want := ref.CsidhEncode(ref.CsidhAction(b0, e, c.Rand))
	eachPath(cFlags, cAvail, func(path string) {
		var pub = cPub(c, make([]byte, 64))
		csidh.GeneratePublicKey(pub, prv, cRng(c))
		got := cExport(pub)
		c.Check(string(got) == string(want), "value", "(%s) action of prime %d^%d: %x, want %x", path, ref.CsidhPrimes[i], e[i], got, want)
		c.Count("ops:csidh.action", 1)
	})
	c.Key(i, e[i])
	c.Sample("prime %d exponent %d", ref.CsidhPrimes[i], e[i])
}

func init() {
	mon.Register("C19", "primitives", 400000, 30000000, fieldPrim)
	mon.Register("C19", "powers", 4000, 300000, fieldPow)
	mon.Register("C19", "codec-edges", 6000, 400000, codecEdge)
	mon.Register("C19", "secret-edges", 160, 10000, secretEdge)
	mon.Register("C20", "primitives", 400000, 30000000, cfPrim)
	mon.Register("C20", "powers", 6000, 400000, cfPow)
	mon.Register("C20", "curve", 3000, 200000, cfCurve)
	mon.Register("C20", "action", 200, 5000, cfApi)
}
