//go:build amd64 && !appengine

package bb

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"reflect"
	"strings"
	"sync"

	"github.com/henrydcase/nobs/dh/sidh/common"

	"vharness/a64"
	"vharness/mon"
)

const modPath = "github.com/henrydcase/nobs/"

var (
	imgOnce sync.Once
	img     *a64.Image
	imgErr  error
)

// image is the program that was built for arm64 from the same tree.
func image(c *mon.Case) *a64.Image {
	imgOnce.Do(func() {
		p := os.Getenv("VERIF_IMAGE")
		if p == "" {
			imgErr = errors.New("no arm64 program")
			return
		}
		img, imgErr = a64.Load(p)
	})
	if imgErr != nil {
		c.Skip("arm64: " + imgErr.Error())
	}
	return img
}

// callArm runs a function of the arm64 program.
func callArm(c *mon.Case, im *a64.Image, name string, args ...a64.Arg) *a64.CPU {
	fn, ok := im.Func(modPath + name)
	if !ok {
		c.Skip("arm64." + name)
		return nil
	}
	cpu, err := im.Call(fn, c.Uint64, args...)
	if err != nil {
		if u, ok := err.(*a64.Unsupported); ok {
			c.Skip("arm64." + name + ": " + u.Error())
			return nil
		}
		c.Fail("arm64-memory", "%s: %v", name, err)
	}
	if cpu.FPLost {
		c.Count("arm64-frame-pointer-changed", 1)
	}
	c.Count("arm64-instructions", cpu.Steps)
	for k, n := range cpu.Ops {
		c.Count("arm64-op:"+k, n)
	}
	return cpu
}

func wordBytes(w []uint64) []byte {
	b := make([]byte, 8*len(w))
	for i, v := range w {
		binary.LittleEndian.PutUint64(b[8*i:], v)
	}
	return b
}

func bytesWord(w []uint64, b []byte) {
	for i := range w {
		w[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
}

// armPtrs passes pointers to limb arrays; equal pointers stay equal.  The first nout may be
// written.
func armPtrs(c *mon.Case, nout int, ptrs ...[]uint64) ([]a64.Arg, func()) {
	var as []a64.Arg
	for i, p := range ptrs {
		a := a64.Arg{Out: i < nout, Skew: 8 * c.IntN(8)}
		for j := 0; j < i; j++ {
			if &ptrs[j][0] == &p[0] && as[j].Same == 0 {
				a.Same = j + 1
			}
		}
		if a.Same == 0 {
			a.Mem = wordBytes(p)
		}
		as = append(as, a)
	}
	return as, func() {
		for i, p := range ptrs {
			if as[i].Same == 0 {
				bytesWord(p, as[i].Mem)
			}
		}
	}
}

// armField gives the arm64 implementation of a base-field operation.
func armField(c *mon.Case, im *a64.Image, f *sfield, op string) interface{} {
	pkg := "dh/sidh/internal/" + f.name + "."
	up := "P" + f.name[1:]
	sym := map[string]string{"fp_add": "add", "fp_sub": "sub", "fp_adl": "adl", "fp_sul": "sul", "fp_mod": "mod", "fp_mul": "mul", "fp_rdc": "rdc", "fp_cswap": "cswap"}[op]
	if sym == "" {
		return nil
	}
	name := pkg + sym + up
	if strings.Contains(","+os.Getenv("VERIF_IMAGE_DROPPED")+",", ",dh/sidh/internal/"+f.name+"/zz_verif_"+op+".go,") {
		c.Skip("arm64." + name + " (signature)")
		return nil
	}
	if _, ok := im.Func(modPath + name); !ok {
		c.Skip("arm64." + name)
		return nil
	}
	run := func(nout int, extra []a64.Arg, ptrs ...[]uint64) {
		as, back := armPtrs(c, nout, ptrs...)
		if callArm(c, im, name, append(as, extra...)...) == nil {
			c.Stop()
		}
		back()
	}
	switch op {
	case "fp_add", "fp_sub":
		return func(z, x, y *common.Fp) { run(1, nil, z[:], x[:], y[:]) }
	case "fp_adl", "fp_sul":
		return func(z, x, y *common.FpX2) { run(1, nil, z[:], x[:], y[:]) }
	case "fp_mod":
		return func(x *common.Fp) { run(1, nil, x[:]) }
	case "fp_mul":
		return func(z *common.FpX2, x, y *common.Fp) { run(1, nil, z[:], x[:], y[:]) }
	case "fp_rdc": // the callers pass a scratch value, which may be changed
		return func(z *common.Fp, x *common.FpX2) { run(2, nil, z[:], x[:]) }
	case "fp_cswap":
		return func(x, y *common.Fp, ch uint8) { run(2, []a64.Arg{{Word: uint64(ch), Size: 1}}, x[:], y[:]) }
	}
	return nil
}

// armAES is the arm64 AES.
type armAES struct {
	c      *mon.Case
	im     *a64.Image
	rounds int
	enc    []byte
	dec    []byte
}

func (a *armAES) SetKey(key []byte) error {
	switch len(key) {
	case 16, 24, 32:
		a.rounds = 6 + len(key)/4
	default:
		return fmt.Errorf("bad length %d", len(key))
	}
	if a.enc == nil {
		a.enc, a.dec = make([]byte, 240), make([]byte, 240)
	}
	k := append([]byte{}, key...)
	dec := a64.Arg{Mem: a.dec, Out: true, Skew: 4 * a.c.IntN(16)}
	if callArm(a.c, a.im, "drbg/internal/aes.expandKeyAsm", a64.Arg{Word: uint64(a.rounds)}, a64.Arg{Mem: k, Skew: a.c.IntN(64)},
		a64.Arg{Mem: a.enc, Out: true, Skew: 4 * a.c.IntN(16)}, dec) == nil {
		a.c.Stop()
	}
	if a.c.IntN(4) == 0 { // encryption schedule only
		e := make([]byte, 240)
		copy(e, a.enc)
		callArm(a.c, a.im, "drbg/internal/aes.expandKeyAsm", a64.Arg{Word: uint64(a.rounds)}, a64.Arg{Mem: k}, a64.Arg{Mem: e, Out: true}, a64.Arg{Nil: true})
		a.c.Check(string(e) == string(a.enc), "value", "arm64 expandKeyAsm without a decryption schedule gives another encryption schedule, key %x", key)
	}
	return nil
}

func (a *armAES) block(fn string, xk []byte, dst, src []byte) {
	as := []a64.Arg{{Word: uint64(a.rounds)}, {Mem: append([]byte{}, xk[:16*(a.rounds+1)]...), Skew: 4 * a.c.IntN(16)}}
	out := make([]byte, 16)
	if &dst[0] == &src[0] {
		copy(out, src)
		as = append(as, a64.Arg{Mem: out, Out: true, Skew: a.c.IntN(64)}, a64.Arg{Same: 3})
	} else {
		copy(out, dst)
		as = append(as, a64.Arg{Mem: out, Out: true, Skew: a.c.IntN(64)}, a64.Arg{Mem: append([]byte{}, src[:16]...), Skew: a.c.IntN(64)})
	}
	if callArm(a.c, a.im, "drbg/internal/aes."+fn, as...) == nil {
		a.c.Stop()
	}
	copy(dst[:16], out)
}

func (a *armAES) Encrypt(dst, src []byte) { a.block("encryptBlockAsm", a.enc, dst, src) }
func (a *armAES) Decrypt(dst, src []byte) { a.block("decryptBlockAsm", a.dec, dst, src) }

// armTrace is a digest of the addresses of the instructions and of the memory they touch.
func armTrace(c *mon.Case, im *a64.Image, name string, args ...a64.Arg) (uint64, int) {
	h := fnv.New64a()
	n := 0
	a64.Trace = func(kind byte, addr uint64) {
		var t [9]byte
		t[0] = kind
		binary.LittleEndian.PutUint64(t[1:], addr)
		h.Write(t[:])
		n++
	}
	defer func() { a64.Trace = nil }()
	if callArm(c, im, name, args...) == nil {
		c.Stop()
	}
	return h.Sum64(), n
}

func init() {
	field := func(c *mon.Case) {
		im := image(c)
		if im == nil {
			return
		}
		initSfields()
		f := sfields[1+c.IntN(2)]
		for try, done := 0, false; try < 200 && !done; try++ {
			fieldPrimOf(c, f, func(op string) interface{} {
				v := armField(c, im, f, op)
				if v != nil && !reflect.ValueOf(v).IsNil() {
					done = true
					c.Count("arm64:"+f.name+"."+op, 1)
				}
				return v
			}, nil, nil)
		}
	}
	ciph := func(c *mon.Case) {
		im := image(c)
		if im == nil {
			return
		}
		if strings.Contains(os.Getenv("VERIF_IMAGE_DROPPED"), "aes/zz_verif_asmfuncs.go") {
			c.Skip("arm64 aes (signature)")
			return
		}
		aesBlocks(c, map[string]func() blockCipher{"arm64": func() blockCipher { return &armAES{c: c, im: im} }}, []string{"arm64"})
	}
	mon.Register("C19", "arm64", 60000, 3000000, field)
	mon.Register("C05", "arm64", 1500, 100000, ciph)
	mon.Register("C22", "arm64", 8000, 400000, func(c *mon.Case) {
		if c.IntN(20) == 0 {
			ciph(c)
		} else {
			field(c)
		}
	})
	mon.Register("C23", "arm64", 3000, 100000, func(c *mon.Case) {
		im := image(c)
		if im == nil {
			return
		}
		initSfields()
		f := sfields[1+c.IntN(2)]
		pkg := "dh/sidh/internal/" + f.name + "."
		up := "P" + f.name[1:]
		op := []string{"add", "sub", "adl", "sul", "mod", "mul", "rdc", "cswap"}[c.IntN(8)]
		if armField(c, im, f, "fp_"+op) == nil {
			return
		}
		var first uint64
		for i := 0; i < 6; i++ {
			x, y := f.pair(c)
			w, w2 := f.wide(c), f.wide(c)
			fp := func(v *big.Int) a64.Arg { t := f.fp(v); return a64.Arg{Mem: wordBytes(t[:])} }
			fpx := func(v *big.Int) a64.Arg { t := f.fpx(v); return a64.Arg{Mem: wordBytes(t[:])} }
			out := func(a a64.Arg) a64.Arg { a.Out = true; return a }
			var as []a64.Arg
			switch op {
			case "add", "sub":
				as = []a64.Arg{out(fp(y)), fp(x), fp(y)}
			case "adl", "sul":
				as = []a64.Arg{out(fpx(w2)), fpx(w), fpx(w2)}
			case "mod":
				as = []a64.Arg{out(fp(x))}
			case "mul":
				as = []a64.Arg{out(fpx(w)), fp(x), fp(y)}
			case "rdc":
				as = []a64.Arg{out(fp(x)), out(fpx(w))}
			case "cswap":
				as = []a64.Arg{out(fp(x)), out(fp(y)), {Word: uint64(c.IntN(2)), Size: 1}}
			}
			h, n := armTrace(c, im, pkg+op+up, as...)
			if i == 0 {
				first = h
			}
			c.Check(h == first, "leak", "arm64 %s%s executes other instructions or touches other addresses for other operands (x=%x y=%x w=%x)", op, up, x, y, w)
			c.Count("arm64-trace-events", n)
			c.Key(op, f.name, h, fmt.Sprintf("%x %x", x, w))
		}
		c.Count("arm64:"+f.name+"."+op, 1)
		c.Sample("arm64 %s%s", op, up)
	})
}
