//go:build !appengine

package bb

// Monitors of C21: concurrent executions, observed by the race detector (race builds), by
// read-only memory (sealed keys) and by comparison with sequential execution.

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/hash/sm3"
	"mkem"

	"vharness/mon"
	"vharness/ref"
)

// pop is one operation of a parallel program: a deterministic function of what it captured.
type pop struct {
	name string
	run  func() []byte
}

// runParallel executes the operations, sequentially first (on seq) and then on g goroutines
// (on par, the same operations over the shared objects), and compares the results.
func runParallel(c *mon.Case, g int, seq, par []pop) {
	want := make([][]byte, len(seq))
	for i, o := range seq {
		want[i] = o.run()
	}
	var wg sync.WaitGroup
	got := make([][]byte, len(par))
	perr := make([]string, len(par))
	order := make([]int32, 2*len(par))
	var tick int32 = -1
	start := make(chan struct{})
	delays := make([]int, len(par))
	for i := range delays {
		delays[i] = c.IntN(12)
	}
	for w := 0; w < g; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			<-start
			for i := w; i < len(par); i += g {
				switch d := delays[i]; {
				case d < 3:
					for ; d >= 0; d-- {
						runtime.Gosched()
					}
				case d == 3:
					time.Sleep(50 * time.Microsecond)
				}
				order[atomic.AddInt32(&tick, 1)] = int32(i)
				if p := mon.Panics(func() { got[i] = par[i].run() }); p != nil {
					perr[i] = fmt.Sprint(p)
				}
				order[atomic.AddInt32(&tick, 1)] = int32(-1 - i)
			}
		}(w)
	}
	close(start)
	wg.Wait()
	for i := range par {
		c.Check(perr[i] == "", "panic", "%s in parallel: %s", par[i].name, perr[i])
		c.Check(bytes.Equal(got[i], want[i]), "parallel-result", "operation %d %s: in parallel %x, sequentially %x", i, par[i].name, head(got[i]), head(want[i]))
		c.Count("parallel:"+par[i].name, 1)
	}
	// overlapping pairs of operations observed
	open, pairs := map[int32]bool{}, 0
	h := fnv.New64a()
	for _, o := range order {
		fmt.Fprint(h, o, ",")
		if o >= 0 {
			pairs += len(open)
			open[o] = true
		} else {
			delete(open, -1-o)
		}
	}
	c.Count("overlapping-pairs", pairs)
	c.Eval(len(par) - 1)
	names := ""
	for _, o := range par {
		names += o.name + " "
	}
	c.Key(h.Sum64(), names)
	c.Sample("%d operations on %d goroutines, %d overlapping pairs: %s", len(par), g, pairs, names)
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// sidhShared is a set of keys shared by all goroutines.
type sidhShared struct {
	p                *ref.SidhParams
	prvA, prvB, prvS *sidh.PrivateKey
	pubA, pubB, pubS *sidh.PublicKey
	ct               []byte
}

func sidhOps(c *mon.Case, p *ref.SidhParams, n int) (seq, par []pop) {
	a, _ := scalarOf(c, p.ABits, p.ABytes)
	b, _ := scalarOf(c, p.BBits, p.BBytes)
	s, m := c.Bytes(p.MsgLen), c.Bytes(p.MsgLen)
	mk := func() *sidhShared {
		x := &sidhShared{p: p, prvA: mkPrv(c, p, varA, a, nil), prvB: mkPrv(c, p, varB, b, nil), prvS: mkPrv(c, p, varSike, b, s)}
		x.pubA, x.pubB, x.pubS = genPub(p, x.prvA), genPub(p, x.prvB), genPub(p, x.prvS)
		k := new(sidh.KEM)
		k.Allocate(p.ID, &queueReader{q: append([]byte{}, m...)})
		x.ct = make([]byte, p.CtLen())
		k.Encapsulate(x.ct, make([]byte, p.KemSize), x.pubS)
		return x
	}
	one, two := mk(), mk()
	for i := 0; i < n; i++ {
		kind := c.IntN(10)
		im := pickKem(c)
		seed, msg := c.Bytes(64), c.Bytes(p.MsgLen)
		flip := c.IntN(len(one.ct) * 2)
		f := func(x *sidhShared) pop {
			switch kind {
			case 0:
				return pop{"sidh-GeneratePublicKey", func() []byte {
					return cat(pubBytes(p, genPub(p, x.prvA)), pubBytes(p, genPub(p, x.prvB)))
				}}
			case 1, 2:
				return pop{"sidh-DeriveSecret", func() []byte { return cat(derive(p, x.prvA, x.pubB), derive(p, x.prvB, x.pubA)) }}
			case 3:
				return pop{"sidh-Export", func() []byte {
					o := make([]byte, 3*p.PkLen())
					x.prvS.Export(o[:100])
					x.prvA.Export(o[100:200])
					x.pubS.Export(o[p.PkLen():])
					return cat(o, []byte(fmt.Sprint(x.pubA.Size(), x.prvS.Size())))
				}}
			case 4, 5:
				return pop{im.name + "-Encapsulate", func() []byte {
					k := im.fresh()
					k.Allocate(p.ID, &queueReader{q: append([]byte{}, msg...)})
					ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
					err := k.Encapsulate(ct, ss, x.pubS)
					return cat(ct, ss, []byte(fmt.Sprint(err)))
				}}
			case 6, 7:
				return pop{im.name + "-Decapsulate", func() []byte {
					k := im.fresh()
					k.Allocate(p.ID, &queueReader{})
					ct := append([]byte{}, x.ct...)
					if flip < len(ct) {
						ct[flip] ^= 1
					}
					ss := make([]byte, p.KemSize)
					err := k.Decapsulate(ss, x.prvS, x.pubS, ct)
					return cat(ss, []byte(fmt.Sprint(err)))
				}}
			case 8:
				return pop{"sidh-Generate", func() []byte {
					k := sidh.NewPrivateKey(p.ID, varSike)
					err := k.Generate(&queueReader{q: append([]byte{}, seed...), over: 0})
					o := make([]byte, 100)
					k.Export(o)
					q := sidh.NewPublicKey(p.ID, varSike)
					q.Import(pubBytes(p, x.pubS))
					return cat(o, pubBytes(p, q), []byte(fmt.Sprint(err)))
				}}
			}
			return pop{"mkem-MultiKEM", func() []byte {
				var k mkem.MultiKEM
				pubs := []*sidh.PublicKey{x.pubS, x.pubS, x.pubS}[:1+flip%3]
				k.Allocate(p.ID, uint(len(pubs)), &queueReader{q: append([]byte{}, msg...)})
				ss := make([]byte, p.KemSize)
				err := k.Encapsulate(ss, pubs)
				s2 := make([]byte, p.KemSize)
				if _, cts, ok := mkCts(&k, 1, p.PkLen(), p.MsgLen); ok {
					k.Decapsulate(s2, x.prvS, x.pubS, append([]byte{}, cts[0]...))
				}
				return cat(ss, s2, []byte(fmt.Sprint(err)))
			}}
		}
		seq, par = append(seq, f(one)), append(par, f(two))
	}
	return
}

func csidhOps(c *mon.Case, n int, heavy bool) (seq, par []pop) {
	type shared struct {
		prv  *csidh.PrivateKey
		pub  *csidh.PublicKey
		bad  *csidh.PublicKey
		peer *csidh.PublicKey
	}
	var e, e2 [74]int
	for i := 0; i < 4; i++ {
		e[c.IntN(74)] = c.IntN(11) - 5
		e2[c.IntN(74)] = c.IntN(11) - 5
	}
	bad := c.Bytes(64)
	bad[63] &= 0x3f
	mk := func() *shared {
		x := &shared{prv: cPrv(c, e), pub: new(csidh.PublicKey), peer: new(csidh.PublicKey)}
		csidh.GeneratePublicKey(x.pub, x.prv, mon.NewReader(mon.NewRand(7, "x", 0)))
		csidh.GeneratePublicKey(x.peer, cPrv(c, e2), mon.NewReader(mon.NewRand(7, "x", 0)))
		x.bad = cPub(c, bad)
		return x
	}
	one, two := mk(), mk()
	for i := 0; i < n; i++ {
		kind := c.IntN(8)
		if heavy && i == 0 {
			kind = 6
		}
		multi := c.IntN(2) == 0
		seed := c.Uint64()
		rng := func() *mon.Reader { return mon.NewReader(mon.NewRand(seed, "csidh-rng", 0)) }
		var pt [16]byte
		c.Fill(pt[:])
		f := func(x *shared) pop {
			switch {
			case kind < 2:
				return pop{"csidh-Validate", func() []byte {
					return []byte(fmt.Sprint(csidh.Validate(x.pub, rng()), csidh.Validate(x.bad, rng())))
				}}
			case kind < 4:
				return pop{"csidh-DeriveSecret", func() []byte {
					var ss [64]byte
					ok := csidh.DeriveSecret(&ss, x.peer, x.prv, rng())
					return append(ss[:], fmt.Sprint(ok)...)
				}}
			case kind == 4:
				return pop{"csidh-GeneratePublicKey", func() []byte {
					var p csidh.PublicKey
					csidh.GeneratePublicKey(&p, x.prv, rng())
					return cExport(&p)
				}}
			case kind == 5:
				return pop{"csidh-Export", func() []byte {
					o := make([]byte, 37)
					x.prv.Export(o)
					return cat(o, cExport(x.pub), cExport(x.bad))
				}}
			case kind == 6 && heavy && multi:
				return pop{"mkem-MultiPKE", func() []byte {
					d := drbg.NewCtrDrbg()
					d.Init(append([]byte{}, bad[:48]...), nil)
					var k mkem.MultiPKE
					keys := []csidh.PublicKey{*x.pub, *x.peer, *x.pub}[:2+int(seed%2)]
					k.Allocate(uint(len(keys)), d)
					k.Encrypt(keys, &pt)
					out := append([]byte{}, k.Ct0[:]...)
					for i := range k.Cts {
						out = append(out, k.Cts[i][:]...)
					}
					return out
				}}
			case kind == 6 && heavy:
				return pop{"mkem-PKE", func() []byte {
					d := drbg.NewCtrDrbg()
					d.Init(append([]byte{}, bad[:48]...), nil)
					var k mkem.PKE
					k.Allocate(d)
					ct := k.Enc(x.pub, &pt)
					out := k.Dec(x.prv, &ct)
					return cat(ct.U[:], ct.V[:], out[:])
				}}
			}
			return pop{"csidh-GeneratePrivateKey", func() []byte {
				var k csidh.PrivateKey
				err := csidh.GeneratePrivateKey(&k, rng())
				o := make([]byte, 37)
				k.Export(o)
				var q csidh.PublicKey
				q.Import(cExport(x.pub))
				return cat(o, cExport(&q), []byte(fmt.Sprint(err)))
			}}
		}
		seq, par = append(seq, f(one)), append(par, f(two))
	}
	return
}

// objectOps work on objects of their own (hashes, generators).
func objectOps(c *mon.Case, n int) (seq, par []pop) {
	msg := make([]byte, 3000) // shared read-only input
	if c.IntN(8) == 0 {
		msg = make([]byte, 200000)
		n = min(n, 8)
	}
	c.Fill(msg)
	for i := 0; i < n; i++ {
		kind, l, k := c.IntN(5), c.IntN(len(msg)), 1+c.IntN(200)
		ent := c.Bytes(48)
		a := &sha3algs[c.IntN(len(sha3algs))]
		o := pop{}
		switch kind {
		case 0:
			o = pop{"sha3", func() []byte {
				if a.newH == nil {
					out := make([]byte, k)
					a.oneSum(out, msg[:l])
					return out
				}
				h := a.newH()
				for off := 0; off < l; off += k {
					h.Write(msg[off:min(off+k, l)])
				}
				return h.Sum(nil)
			}}
		case 1:
			o = pop{"cshake-clone", func() []byte {
				h := sha3.NewCShake128(msg[:5], msg[:l%400])
				h.Write(msg[:l])
				g := h.Clone()
				out := make([]byte, 2*k)
				h.Read(out[:k])
				g.Write(msg[:k])
				g.Read(out[k:])
				h.Reset()
				return out
			}}
		case 2:
			o = pop{"sm3", func() []byte {
				h := sm3.New()
				for off := 0; off < l; off += k {
					h.Write(msg[off:min(off+k, l)])
				}
				return h.Sum(nil)
			}}
		default:
			o = pop{"drbg", func() []byte {
				d := drbg.NewCtrDrbg()
				d.Init(append([]byte{}, ent...), msg[:k%49])
				out := make([]byte, 3*k)
				d.Read(out[:k])
				d.Reseed(append([]byte{}, ent...), nil)
				d.ReadWithAdditionalData(out[k:2*k], msg[:k%49])
				d.Read(out[2*k:])
				return out
			}}
		}
		seq, par = append(seq, o), append(par, o)
	}
	return
}

func shuffleOps(c *mon.Case, seq, par []pop) {
	c.Shuffle(len(seq), func(i, j int) { seq[i], seq[j] = seq[j], seq[i]; par[i], par[j] = par[j], par[i] })
}

func parSidh(c *mon.Case) {
	p := pset(c)
	if strings.Contains(variant(), "noasm") {
		p = ref.Sidh[c.IntN(8)/6]
	}
	seq, par := sidhOps(c, p, 8+c.IntN(9))
	runParallel(c, 2+c.IntN(7), seq, par)
}

func parCsidh(c *mon.Case) {
	seq, par := csidhOps(c, 6+c.IntN(7), c.IntN(4) == 0)
	runParallel(c, 2+c.IntN(7), seq, par)
}

func parObjects(c *mon.Case) {
	seq, par := objectOps(c, 8+c.IntN(60))
	runParallel(c, 2+c.IntN(14), seq, par)
}

func parMix(c *mon.Case) {
	seq, par := objectOps(c, 10)
	s2, p2 := sidhOps(c, ref.Sidh[0], 6)
	s3, p3 := csidhOps(c, 4, false)
	seq, par = append(append(seq, s2...), s3...), append(append(par, p2...), p3...)
	shuffleOps(c, seq, par)
	runParallel(c, 4+c.IntN(8), seq, par)
}

func variant() string { return os.Getenv("VERIF_VARIANT") }

// parFirst starts a process in which the very first operations of the library run in
// parallel (lazy initialisation, registration).
func parFirst(c *mon.Case) {
	seed := c.Uint64()
	cmd := exec.Command("/proc/self/exe", "-firstuse", fmt.Sprint(seed))
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66")
	err := cmd.Run()
	s := out.String()
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 && strings.Contains(s, "henrydcase/nobs") {
		c.Fail("data-race", "first use in parallel: %s", s[i:])
	}
	i := strings.Index(s, "FIRSTUSE ")
	c.Check(err == nil && i >= 0, "first-use", "first use in parallel failed: %v %s", err, s)
	first := strings.TrimSpace(s[i+9:])
	want := ""
	for _, o := range firstOps(seed) {
		h := sha256.Sum256(o.run())
		want += fmt.Sprintf("%s:%x ", o.name, h[:6])
	}
	c.Check(first == strings.TrimSpace(want), "first-use", "results of parallel first use %s, sequential %s", first, want)
	c.Count("processes-started", 1)
	c.Key(seed)
	c.Sample("%s", first)
}

// firstOps build everything themselves, so that nothing of the library ran before.
func firstOps(seed uint64) []pop {
	r := mon.NewRand(seed, "first", 0)
	b := func(n int) []byte {
		o := make([]byte, n)
		for i := range o {
			o[i] = byte(r.Uint32())
		}
		return o
	}
	var ops []pop
	for i := 0; i < 16; i++ {
		id := []uint8{sidh.Fp434, sidh.Fp503, sidh.Fp751, sidh.Fp434, sidh.Fp434}[r.IntN(5)]
		src, n := b(400), r.IntN(300)
		alg := r.IntN(len(sha3algs))
		kind := r.IntN(9)
		if i < 7 {
			kind = i
		}
		switch kind {
		case 0:
			ops = append(ops, pop{"sidh", func() []byte {
				k := sidh.NewPrivateKey(id, varA)
				k.Generate(bytes.NewReader(src))
				q := sidh.NewPublicKey(id, varA)
				k.GeneratePublicKey(q)
				o := make([]byte, q.Size())
				q.Export(o)
				return o
			}})
		case 1:
			ops = append(ops, pop{"sike", func() []byte {
				k := sidh.NewPrivateKey(id, varSike)
				k.Generate(bytes.NewReader(src))
				q := sidh.NewPublicKey(id, varSike)
				k.GeneratePublicKey(q)
				m := new(sidh.KEM)
				m.Allocate(id, bytes.NewReader(src))
				ct, ss := make([]byte, m.CiphertextSize()), make([]byte, m.SharedSecretSize())
				m.Encapsulate(ct, ss, q)
				return cat(ct, ss)
			}})
		case 2:
			ops = append(ops, pop{"csidh", func() []byte {
				var k csidh.PublicKey
				k.Import(src[:64])
				return []byte(fmt.Sprint(csidh.Validate(&k, mon.NewReader(mon.NewRand(seed, "v", i)))))
			}})
		case 3:
			ops = append(ops, pop{"drbg", func() []byte {
				d := drbg.NewCtrDrbg()
				d.Init(append([]byte{}, src[:48]...), nil)
				o := make([]byte, n)
				d.Read(o)
				return o
			}})
		case 4:
			ops = append(ops, pop{"sm3", func() []byte { h := sm3.New(); h.Write(src[:n]); return h.Sum(nil) }})
		case 5:
			ops = append(ops, pop{"mkem", func() []byte {
				var k mkem.MultiKEM
				k.Allocate(id, 1, bytes.NewReader(src))
				p, q := k.NewPrivateKey(), k.NewPublicKey()
				p.Generate(bytes.NewReader(src))
				p.GeneratePublicKey(q)
				ss := make([]byte, k.SharedSecretSize())
				k.Encapsulate(ss, []*sidh.PublicKey{q})
				return ss
			}})
		default:
			ops = append(ops, pop{"sha3", func() []byte {
				a := &sha3algs[alg]
				if a.newH != nil {
					h := a.newH()
					h.Write(src[:n])
					return h.Sum(nil)
				}
				o := make([]byte, n)
				a.oneSum(o, src)
				return o
			}})
		}
	}
	return ops
}

func firstUse(seed uint64) {
	ops := firstOps(seed)
	out := make([]string, len(ops))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			h := sha256.Sum256(ops[i].run())
			out[i] = fmt.Sprintf("%s:%x", ops[i].name, h[:6])
		}(i)
	}
	close(start)
	wg.Wait()
	fmt.Println("FIRSTUSE " + strings.Join(out, " "))
}

func init() {
	mon.Register("C21", "sidh-shared-keys", 80, 6000, parSidh)
	mon.Register("C21", "csidh-shared-keys", 48, 3000, parCsidh)
	mon.Register("C21", "own-objects", 300, 30000, parObjects)
	mon.Register("C21", "mix", 32, 2000, parMix)
	mon.Register("C21", "first-use", 24, 1500, parFirst)
	firstUseHook = firstUse
}
