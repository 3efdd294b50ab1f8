package bb

// Monitors of C23 at the level of machine instructions: the sequence of instruction addresses
// that an operation executes is recorded by single-stepping and has to be the same for every
// secret.

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"

	"vharness/mon"
	"vharness/probe"
	"vharness/ref"
)

// How much is traced: everything, everything but the insides of the field arithmetic and the
// permutation, or only what calls the isogeny arithmetic.
const (
	stEverything = iota
	stNoLeaves
	stGlue
)

func traceDiff(a, b []uint32) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) != len(b) {
		return n
	}
	return -1
}

func traceAt(t []uint32, i int) string {
	if i >= len(t) {
		return "the end"
	}
	return pcName(t[i])
}

// sameTrace compares instruction traces.
func sameTrace(c *mon.Case, what string, mode int, ops []secretOp) {
	if e := stepReady(); e != nil {
		c.Skip("instruction tracing: " + e.Error())
		return
	}
	first, err := stepTrace(ops[0].run, mode, 0)
	if err != nil {
		c.Skip("instruction tracing: " + err.Error())
		return
	}
	if len(first) == 0 {
		c.Skip("no instruction of the library was seen in " + what)
		return
	}
	c.Count("instructions-observed", len(first))
	for _, o := range ops[1:] {
		t, err := stepTrace(o.run, mode, 1)
		if err != nil {
			c.Skip("instruction tracing: " + err.Error())
			return
		}
		c.Count("instructions-observed", len(t))
		c.Count("trace-pairs:"+what, 1)
		c.Eval(1)
		d := traceDiff(first, t)
		if d < 0 {
			continue
		}
		// once more, to be sure that it is the secret that makes the difference
		a, e1 := stepTrace(ops[0].run, mode, 2)
		b, e2 := stepTrace(o.run, mode, 3)
		if e1 != nil || e2 != nil || traceDiff(a, first) >= 0 || traceDiff(b, t) >= 0 {
			c.Skip("instruction trace of " + what + " varies for one secret")
			continue
		}
		lo := d - 1
		if lo < 0 {
			lo = 0
		}
		c.Fail("secret-dependent-execution", "%s executes different instructions for %s and for %s: after %d equal instructions, the last one %s, comes %s and %s",
			what, ops[0].label, o.label, d, traceAt(first, lo), traceAt(first, d), traceAt(t, d))
	}
}

// stepPrim traces one arithmetic primitive of a SIDH field for several operands.
func stepPrim(c *mon.Case) {
	initSfields()
	var names []string
	for _, n := range probe.Names() {
		if _, ok := probe.Get(n).(*bool); !ok && strings.HasPrefix(n, "p") {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		c.Skip("primitives")
		return
	}
	name := names[c.Idx%len(names)]
	pk, op, _ := strings.Cut(name, ".")
	var f *sfield
	for _, x := range sfields {
		if x.name == pk {
			f = x
		}
	}
	if f == nil {
		return
	}
	fn := reflect.ValueOf(probe.Get(name))
	n, mode := 6, stEverything
	if op == "fp_p34" || op == "fp2_inv" {
		n, mode = 3, stNoLeaves
	}
	type args struct {
		fp  [3]common.Fp
		fpx [3]common.FpX2
		fp2 [4]common.Fp2
		ch  uint8
	}
	eachPath(f.flags, f.flagsAvail, func(path string) {
		var ops []secretOp
		for i := 0; i < n; i++ {
			var a args
			for j := range a.fp {
				a.fp[j] = f.fp(f.elem(c))
				a.fpx[j] = f.fpx(f.wide(c))
			}
			if c.IntN(2) == 0 {
				x, y := f.pair(c)
				a.fp[1], a.fp[2] = f.fp(x), f.fp(y)
				a.fp[0] = a.fp[1]
			}
			for j := range a.fp2 {
				a.fp2[j] = f.elem2(c)
			}
			a.ch = uint8(i & 1)
			var x args
			var run func()
			switch g := fn.Interface().(type) {
			case fpBin:
				run = func() { g(&x.fp[0], &x.fp[1], &x.fp[2]) }
			case fpxBin:
				run = func() { g(&x.fpx[0], &x.fpx[1], &x.fpx[2]) }
			case fpUn:
				run = func() { g(&x.fp[0], &x.fp[1]) }
			case fpMod:
				run = func() { g(&x.fp[0]) }
			case fpMul:
				run = func() { g(&x.fpx[0], &x.fp[1], &x.fp[2]) }
			case fpRdc:
				run = func() { g(&x.fp[0], &x.fpx[1]) }
			case fpSwap:
				run = func() { g(&x.fp[0], &x.fp[1], x.ch) }
			case fp2Bin:
				run = func() { g(&x.fp2[0], &x.fp2[1], &x.fp2[2]) }
			case fp2Un:
				run = func() { g(&x.fp2[0], &x.fp2[1]) }
			case fp2Swap:
				run = func() { g(&x.fp2[0], &x.fp2[1], &x.fp2[2], &x.fp2[3], x.ch) }
			default:
				c.Skip("type of " + name)
				return
			}
			ops = append(ops, secretOp{fmt.Sprintf("operands %x %x %x %x choice %d", f.val(&a.fp[1]), f.val(&a.fp[2]), f.valx(&a.fpx[1]), f.valx(&a.fpx[2]), a.ch), func() { x = a; run() }})
		}
		sameTrace(c, name+" ("+path+")", mode, ops)
	})
	c.Key(name, c.Idx)
	c.Sample("%s for %d operands", name, n)
}

// stepWhole traces complete secret-key operations.
func stepWhole(c *mon.Case) {
	p := ref.Sidh[0] // the smallest one in this order
	for _, q := range ref.Sidh {
		if q.Name == "p434" {
			p = q
		}
	}
	kind := c.Idx % 8
	if c.Idx >= 8 && c.Tier == "quick" {
		kind = 4 + c.Idx%4
	}
	mode := stGlue
	if kind < 4 || c.Tier == "thorough" {
		mode = stNoLeaves
	}
	if c.Tier == "thorough" || mode == stGlue {
		p = ref.Sidh[(c.Idx/8)%3]
	}
	switch {
	case kind < 4:
		v, peer := varA, varB
		if kind%2 == 1 {
			v, peer = varB, varA
		}
		bitsN, n := sbits(p, v)
		ob, on := sbits(p, peer)
		osc, _ := scalarOf(c, ob, on)
		pub := mkPub(c, p, peer, pubFor(c, p, peer, osc))
		var ops []secretOp
		what := p.Name + " GeneratePublicKey " + varName(v)
		if kind >= 2 {
			what = p.Name + " DeriveSecret " + varName(v)
		}
		for i := 0; i < 2; i++ {
			sc, cl := scalarOf(c, bitsN, n)
			prv := mkPrv(c, p, v, sc, nil)
			out, ss := sidh.NewPublicKey(p.ID, v), make([]byte, p.SsLen())
			run := func() { prv.GeneratePublicKey(out) }
			if kind >= 2 {
				run = func() { prv.DeriveSecret(ss, pub) }
			}
			ops = append(ops, secretOp{fmt.Sprintf("scalar %x (%s)", sc, cl), run})
			c.Key(what, sc)
		}
		sameTrace(c, what, mode, ops)
		c.Sample("%s: %s; %s", what, ops[0].label, ops[1].label)
	default:
		im := kemImpls[(c.Idx/4)%len(kemImpls)]
		if kind == 4 || kind == 5 {
			im = kemImpls[0]
		} else {
			im = kemImpls[len(kemImpls)-1]
		}
		k := im.fresh()
		k.Allocate(p.ID, &queueReader{})
		var ops []secretOp
		kp := newPair(c, p)
		m := c.Bytes(p.MsgLen)
		e := im.fresh()
		e.Allocate(p.ID, &queueReader{q: append([]byte{}, m...)})
		ct0 := make([]byte, p.CtLen())
		ss := make([]byte, p.KemSize)
		if err := e.Encapsulate(ct0, ss, kp.pub); err != nil {
			c.Fail("encaps", "%v", err)
		}
		for i := 0; i < 2; i++ {
			ct := append([]byte{}, ct0...)
			prv, pub := kp.prv, kp.pub
			lab := "an honest ciphertext"
			if i == 1 {
				if kind%2 == 0 { // rejected: altered message part
					ct[p.PkLen()+c.IntN(p.MsgLen)] ^= 1 << uint(c.IntN(8))
					lab = "a ciphertext with an altered message part"
				} else { // another key pair
					o := newPair(c, p)
					prv, pub = o.prv, o.pub
					lab = "a ciphertext for another key pair"
				}
			}
			ops = append(ops, secretOp{lab, func() { k.Decapsulate(ss, prv, pub, ct) }})
		}
		sameTrace(c, p.Name+" "+im.name+" Decapsulate", mode, ops)
		c.Key(p.Name, im.name, kind, kp.sc, m)
		c.Sample("%s %s: %s; %s", p.Name, im.name, ops[0].label, ops[1].label)
	}
}

func init() {
	mon.Register("C23", "instructions", 330, 6000, stepPrim)
	mon.Register("C23", "instructions-whole", 24, 384, stepWhole)
}
