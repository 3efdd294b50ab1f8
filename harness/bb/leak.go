package bb

// Monitors of C23: in a build with statement counters, the same secret-key operation is
// executed for several secrets and the complete counter vectors of the library (how often
// each basic block was executed) have to be identical.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/coverage"
	"sort"
	"strings"

	"github.com/henrydcase/nobs/dh/sidh"

	"vharness/mon"
	"vharness/ref"
)

// counters executes f and returns the counter vector of that execution; it does so on one
// thread with nothing else of the library running.
func counters(c *mon.Case, f func()) []byte {
	if err := coverage.ClearCounters(); err != nil {
		return nil
	}
	f()
	var b bytes.Buffer
	if err := coverage.WriteCounters(&b); err != nil {
		c.Fail("monitor", "WriteCounters: %v", err)
	}
	return counterPart(b.Bytes())
}

// counterPart is what follows the header, the string table and the arguments (whose order
// varies) of a counter file: function entries with their counters.
func counterPart(b []byte) []byte {
	const header, segment = 32, 16
	if len(b) < header+segment {
		return nil
	}
	le := binary.LittleEndian
	pos := header + segment + int(le.Uint32(b[header+8:])) + int(le.Uint32(b[header+12:]))
	pos = (pos + 3) &^ 3
	if pos > len(b) {
		return nil
	}
	return append(b[header:header+8:header+8], b[pos:]...)
}

// decodeCounters counts functions, executed blocks and executions of blocks.
func decodeCounters(b []byte) (fn, bl, ex int) {
	if len(b) < 8 {
		return
	}
	n := int(binary.LittleEndian.Uint64(b))
	b = b[8:]
	next := func() uint64 {
		v, k := binary.Uvarint(b)
		if k <= 0 {
			b = nil
			return 0
		}
		b = b[k:]
		return v
	}
	for ; n > 0 && len(b) > 0; n-- {
		k := next()
		next()
		next()
		fn++
		for ; k > 0; k-- {
			if v := next(); v > 0 {
				bl++
				ex += int(v)
			}
		}
	}
	return
}

// blocks lists count per block of an execution.
func blocks(f func()) map[string]string {
	dir, err := os.MkdirTemp("", "vcov-")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	coverage.ClearCounters()
	f()
	if coverage.WriteMetaDir(dir) != nil || coverage.WriteCountersDir(dir) != nil {
		return nil
	}
	out := filepath.Join(dir, "txt")
	if exec.Command(filepath.Join(runtime.GOROOT(), "bin", "go"), "tool", "covdata", "textfmt", "-i="+dir, "-o="+out).Run() != nil {
		if exec.Command("go", "tool", "covdata", "textfmt", "-i="+dir, "-o="+out).Run() != nil {
			return nil
		}
	}
	b, _ := os.ReadFile(out)
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.LastIndexByte(l, ' '); i > 0 {
			m[l[:i]] = l[i+1:]
		}
	}
	return m
}

func blockDiff(f, g func()) string {
	a, b := blocks(f), blocks(g)
	var d []string
	for k, v := range a {
		if b[k] != v {
			d = append(d, fmt.Sprintf("%s: %s times, %s times", k, v, b[k]))
		}
	}
	sort.Strings(d)
	if len(d) > 12 {
		d = d[:12]
	}
	return strings.Join(d, "; ")
}

// secretOp is one operation with its secret fixed.
type secretOp struct {
	label string
	run   func()
}

// sameCode executes the operations and compares their counter vectors with the first one.
func sameCode(c *mon.Case, what string, ops []secretOp) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var first []byte
	for i, o := range ops {
		b := counters(c, o.run)
		if b == nil {
			c.Skip("statement counters are not available in this build")
			return
		}
		if i == 0 {
			first = b
			// the same secret again: the monitor itself has to be deterministic
			if again := counters(c, o.run); !bytes.Equal(again, first) {
				c.Skip("execution counts of " + what + " vary for one secret")
				return
			}
			fn, bl, ex := decodeCounters(first)
			if fn < 3 || ex < 1000 {
				c.Skip(fmt.Sprintf("only %d functions were counted in %s", fn, what))
				return
			}
			c.Count("functions-observed", fn)
			c.Count("blocks-observed", bl)
			c.Count("block-executions-observed", ex)
			continue
		}
		c.Eval(1)
		c.Count("pairs:"+what, 1)
		c.Count("counter-bytes-compared", len(b))
		if !bytes.Equal(b, first) {
			d := blockDiff(ops[0].run, o.run)
			c.Fail("secret-dependent-execution", "%s executes different code for %s and for %s: %s", what, ops[0].label, o.label, d)
		}
	}
}

func leakPset(c *mon.Case) *ref.SidhParams { return ref.Sidh[[]int{0, 0, 0, 1, 1, 2}[c.Idx%6]] }

func leakDerive(c *mon.Case) {
	p := leakPset(c)
	v, peer := varA, varB
	if c.IntN(2) == 0 {
		v, peer = varB, varA
	}
	bitsN, n := sbits(p, v)
	ob, on := sbits(p, peer)
	osc, _ := scalarOf(c, ob, on)
	pub := mkPub(c, p, peer, pubFor(c, p, peer, osc))
	var gen, der []secretOp
	for i := 0; i < 4; i++ {
		sc, cl := scalarOf(c, bitsN, n)
		prv := mkPrv(c, p, v, sc, nil)
		lab := fmt.Sprintf("scalar %x (%s)", sc, cl)
		out := sidh.NewPublicKey(p.ID, v)
		ss := make([]byte, p.SsLen())
		gen = append(gen, secretOp{lab, func() { prv.GeneratePublicKey(out) }})
		der = append(der, secretOp{lab, func() { prv.DeriveSecret(ss, pub) }})
		c.Key(p.Name, v, sc)
	}
	sameCode(c, p.Name+" GeneratePublicKey "+varName(v), gen)
	sameCode(c, p.Name+" DeriveSecret "+varName(v), der)
	c.Sample("%s %s: %s; %s", p.Name, varName(v), gen[0].label, gen[1].label)
}

func leakDecaps(c *mon.Case) {
	p := leakPset(c)
	im := pickKem(c)
	var ops []secretOp
	// one ciphertext; key pairs, values S and acceptance vary
	k := im.fresh()
	k.Allocate(p.ID, &queueReader{})
	for i := 0; i < 6; i++ {
		kp := newPair(c, p)
		m := c.Bytes(p.MsgLen)
		e := im.fresh()
		e.Allocate(p.ID, &queueReader{q: append([]byte{}, m...)})
		ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
		if err := e.Encapsulate(ct, ss, kp.pub); err != nil {
			c.Fail("encaps", "%v", err)
		}
		lab := fmt.Sprintf("scalar %x S %x message %x", kp.sc, kp.s, m)
		switch i {
		case 1, 4: // the encrypted message is altered: rejected
			ct[p.PkLen()+c.IntN(p.MsgLen)] ^= 1 << uint(c.IntN(8))
			lab += " rejected (message part altered)"
		case 2: // the ephemeral key is another honest key: rejected
			a, _ := scalarOf(c, p.ABits, p.ABytes)
			copy(ct, pubFor(c, p, varA, a))
			lab += " rejected (other ephemeral key)"
		case 3: // first byte of the ephemeral key differs only
			if ct[0] != 0 {
				ct[0]--
			} else {
				ct[0]++
			}
			lab += " rejected (first byte of the ephemeral key altered)"
		default:
			lab += " accepted"
		}
		prv, pub := kp.prv, kp.pub
		ops = append(ops, secretOp{lab, func() { k.Decapsulate(ss, prv, pub, ct) }})
		c.Key(p.Name, im.name, kp.sc, m, i)
	}
	sameCode(c, p.Name+" "+im.name+" Decapsulate", ops)
	c.Sample("%s %s: %s; %s", p.Name, im.name, ops[0].label, ops[1].label)
}

func leakEncaps(c *mon.Case) {
	p := leakPset(c)
	im := pickKem(c)
	kp := newPair(c, p)
	var ops []secretOp
	for i := 0; i < 4; i++ {
		m := c.Bytes(p.MsgLen)
		k := im.fresh()
		q := &queueReader{}
		k.Allocate(p.ID, q)
		ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
		ops = append(ops, secretOp{fmt.Sprintf("message %x", m), func() {
			q.q = append(q.q[:0:0], m...)
			k.Encapsulate(ct, ss, kp.pub)
		}})
		c.Key(p.Name, im.name, m)
	}
	sameCode(c, p.Name+" "+im.name+" Encapsulate", ops)
	c.Sample("%s %s: %s; %s", p.Name, im.name, ops[0].label, ops[1].label)
}

func init() {
	mon.Register("C23", "derive", 240, 12000, leakDerive)
	mon.Register("C23", "decaps", 160, 8000, leakDecaps)
	mon.Register("C23", "encaps", 80, 4000, leakEncaps)
}
