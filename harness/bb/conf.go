package bb

// Monitors of C07: the same cases are executed in several configurations and the driver
// compares the recorded transcripts offline.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"unsafe"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/hash/sm3"
	"github.com/henrydcase/nobs/utils"

	"vharness/mon"
	"vharness/ref"
)

// tr records an outcome under a key that contains the inputs.
func tr(c *mon.Case, what string, out []byte, in ...[]byte) {
	h := fnv.New64a()
	for _, b := range in {
		fmt.Fprintf(h, "%d:", len(b))
		h.Write(b)
	}
	c.Transcript(fmt.Sprintf("%s/%016x", what, h.Sum64()), out)
	c.Count("outcomes:"+what, 1)
	c.Key(what, h.Sum64())
}

func confHash(c *mon.Case) {
	a := &sha3algs[c.IntN(len(sha3algs))]
	msg := make([]byte, pickLen(c, a.rate))
	fillMsg(c, msg)
	n := a.size
	if n == 0 {
		n = c.IntN(500)
	}
	ch := cuts(c, len(msg), a.rate)
	d := digestChunked(c, a, msg, ch, n)
	tr(c, a.name, d, msg, []byte(fmt.Sprint(ch, n)))
	N, S := c.Bytes(c.IntN(40)), c.Bytes(c.IntN(300))
	x := sha3.NewCShake256(N, S)
	if c.IntN(2) == 0 {
		x = sha3.NewCShake128(N, S)
		N = append(N, 1)
	}
	x.Write(msg)
	out := make([]byte, 1+c.IntN(400))
	x.Read(out)
	tr(c, "cSHAKE", out, N, S, msg)
	s := sm3.New()
	for off, i := 0, 0; i < len(ch); i++ {
		s.Write(misaligned(c, msg[off:off+ch[i]]))
		off += ch[i]
	}
	tr(c, "SM3", s.Sum(nil), msg)
	c.Sample("%s of %d bytes in %d writes", a.name, len(msg), len(ch))
}

func confSidh(c *mon.Case) {
	p := pset(c)
	a, _ := scalarOf(c, p.ABits, p.ABytes)
	b, cl := scalarOf(c, p.BBits, p.BBytes)
	s := c.Bytes(p.MsgLen)
	m := c.Bytes(p.MsgLen)
	pa := pubFor(c, p, varA, a)
	tr(c, p.Name+"-pkA", pa, a)
	pb := pubFor(c, p, varB, b)
	tr(c, p.Name+"-pkB", pb, b)
	// unreduced encodings of the same key take other carry paths
	ua, _ := unreduce(c, p, pa)
	tr(c, p.Name+"-ss", derive(p, mkPrv(c, p, varB, b, nil), mkPub(c, p, varA, ua)), b, ua)
	tr(c, p.Name+"-ss", derive(p, mkPrv(c, p, varA, a, nil), mkPub(c, p, varB, pb)), a, pb)
	prv := mkPrv(c, p, varSike, b, s)
	pub := genPub(p, prv)
	k := kemImpls[0].mk(p.ID, &queueReader{q: append([]byte{}, m...)})
	ct, ss := make([]byte, p.CtLen()), make([]byte, p.KemSize)
	if err := k.Encapsulate(ct, ss, pub); err != nil {
		c.Fail("encaps", "%v", err)
	}
	tr(c, p.Name+"-encaps", append(append([]byte{}, ct...), ss...), b, s, m)
	if c.IntN(2) == 0 {
		ct[c.IntN(len(ct))] ^= 1 << uint(c.IntN(8))
	}
	if err := k.Decapsulate(ss, prv, pub, ct); err != nil {
		c.Fail("decaps", "%v", err)
	}
	tr(c, p.Name+"-decaps", ss, b, s, ct)
	// key generation from a stream
	v := []sidh.KeyVariant{varA, varB, varSike}[c.IntN(3)]
	src := c.Bytes(200)
	g := sidh.NewPrivateKey(p.ID, v)
	if err := g.Generate(&queueReader{q: append([]byte{}, src...)}); err != nil {
		c.Fail("generate", "%v", err)
	}
	gb := make([]byte, 100)
	g.Export(gb)
	tr(c, p.Name+"-generate", gb, []byte(varName(v)), src)
	c.Sample("%s scalar class %s", p.Name, cl)
}

func confCsidh(c *mon.Case) {
	e, cl := cExps(c)
	k := cKey(e)
	var pub csidh.PublicKey
	csidh.GeneratePublicKey(&pub, cPrv(c, e), cRng(c))
	pk := cExport(&pub)
	tr(c, "csidh-pk", pk, k)
	if c.IntN(2) == 0 {
		e2, _ := cExps(c)
		var ss [64]byte
		ok := csidh.DeriveSecret(&ss, &pub, cPrv(c, e2), cRng(c))
		tr(c, "csidh-ss", append(ss[:], fmt.Sprint(ok)...), pk, cKey(e2))
	}
	for i := 0; i < 6; i++ {
		b := cRandEnc(c, pk)
		ok := csidh.Validate(cPub(c, b), cRng(c))
		tr(c, "csidh-validate", []byte(fmt.Sprint(ok)), b)
	}
	c.Sample("csidh key class %s", cl)
}

// cRandEnc makes encodings without a reference decision.
func cRandEnc(c *mon.Case, pk []byte) []byte {
	b := append([]byte{}, pk...)
	switch c.IntN(5) {
	case 0:
		b[c.IntN(64)] ^= 1 << uint(c.IntN(8))
	case 1:
		return ref.CsidhEncode(edgeInt(c, ref.CP, 8, []*big.Int{ref.CP, ref.CR}))
	case 2:
		x := new(big.Int).Add(ref.LeInt(pk), ref.CP)
		if x.BitLen() <= 512 {
			return ref.LeBytes(x, 64)
		}
	case 3:
		return ref.LeBytes(edgeInt(c, new(big.Int).Lsh(b1, 512), 8, []*big.Int{ref.CP}), 64)
	}
	return b
}

// ---- CPU features

// reported gives utils.X86 by name.
func reported() map[string]bool {
	m := map[string]bool{}
	v := reflect.ValueOf(utils.X86)
	if v.Kind() != reflect.Struct {
		return m
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Bool {
			m[v.Type().Field(i).Name] = v.Field(i).Bool()
		}
	}
	return m
}

func printFlags() {
	b, _ := json.Marshal(reported())
	fmt.Printf("CPUFLAGS%s\n", b)
}

func parseFlags(out []byte) map[string]bool {
	i := strings.Index(string(out), "CPUFLAGS")
	if i < 0 {
		return nil
	}
	var m map[string]bool
	s := string(out[i+8:])
	if j := strings.IndexByte(s, '\n'); j >= 0 {
		s = s[:j]
	}
	if json.Unmarshal([]byte(s), &m) != nil {
		return nil
	}
	return m
}

var featNames = map[string]string{"HasAES": "aes", "HasBMI2": "bmi2", "HasADX": "adx", "HasRDSEED": "rdseed"}

// onCore runs fn with this thread (and the children it starts) on one core.
func onCore(n int, fn func()) bool {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var old, one [16]uint64
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&old))); e != 0 {
		return false
	}
	if old[n/64]>>(n%64)&1 == 0 {
		return false
	}
	one[n/64] = 1 << (n % 64)
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&one))); e != 0 {
		return false
	}
	defer syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, 128, uintptr(unsafe.Pointer(&old)))
	fn()
	return true
}

func cpuinfoOf(core int) map[string]bool {
	b, _ := os.ReadFile("/proc/cpuinfo")
	cur := -1
	for _, l := range strings.Split(string(b), "\n") {
		k, v, _ := strings.Cut(l, ":")
		switch strings.TrimSpace(k) {
		case "processor":
			fmt.Sscan(v, &cur)
		case "flags":
			if cur == core {
				m := map[string]bool{}
				for _, f := range strings.Fields(v) {
					m[f] = true
				}
				return m
			}
		}
	}
	return nil
}

func confCores(c *mon.Case) {
	fl := cpuinfoOf(c.Idx)
	if fl == nil {
		c.Count("cores-not-present", 1)
		return
	}
	var out []byte
	var err error
	if !onCore(c.Idx, func() { out, err = exec.Command("/proc/self/exe", "-cpuflags").Output() }) {
		c.Skip("core-not-available")
		return
	}
	m := parseFlags(out)
	if err != nil || m == nil {
		c.Fail("flags", "the feature report of core %d failed: %v %s", c.Idx, err, out)
	}
	for n, f := range featNames {
		v, ok := m[n]
		if !ok {
			c.Skip("utils.X86." + n)
			continue
		}
		c.Check(v == fl[f], "cpu-features", "core %d: utils.X86.%s=%v, the kernel lists %s=%v", c.Idx, n, v, f, fl[f])
		c.Count("flags-compared", 1)
	}
	c.Key(c.Idx)
	c.Sample("core %d: %v", c.Idx, m)
}

func init() {
	mon.Register("C07", "hash", 6000, 300000, confHash)
	mon.Register("C07", "sidh", 64, 4000, confSidh)
	mon.Register("C07", "csidh", 32, 2500, confCsidh)
	mon.Register("C07x", "cores", 64, 256, confCores)
}
