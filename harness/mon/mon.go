// Package mon is the monitor runtime: deterministic case generation, violation and
// coverage recording, fenced memory and fault-tolerant execution of one case.
package mon

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Stream is one family of cases of one property.
type Stream struct {
	Prop, Name string
	// Number of cases at quick and at thorough tier.
	Quick, Thorough int
	Run             func(c *Case)
}

var streams []*Stream

// Register adds a stream.
func Register(prop, name string, quick, thorough int, run func(c *Case)) {
	streams = append(streams, &Stream{prop, name, quick, thorough, run})
}

// Case is one execution under observation.
type Case struct {
	*rand.Rand
	Prop, Stream string
	Idx          int
	Seed         uint64
	Tier         string
	r            *Result
	keyed        bool
	log          []string
}

// Violation is a refuted property with its witness.
type Violation struct {
	Kind   string   `json:"kind"`
	Stream string   `json:"stream"`
	Idx    int      `json:"idx"`
	Seed   uint64   `json:"seed"`
	Detail string   `json:"detail"`
	Log    []string `json:"log,omitempty"`
	// Finding is set when the monitor identified the failure as one specific,
	// named input class; the driver looks it up in known_findings.
	Finding string `json:"finding,omitempty"`
}

// Result of a worker.
type Result struct {
	mu          sync.Mutex
	Evaluations int64            `json:"evaluations"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Findings    []Violation      `json:"findings"`
	Transcript  []string         `json:"transcript,omitempty"`
	Skipped     map[string]int64 `json:"skipped"`
	keys        map[uint64]struct{}
	sampleBy    map[string]int
}

type abort struct{}

// Fail records a violation and aborts the case.
func (c *Case) Fail(kind, format string, a ...interface{}) {
	c.record(kind, fmt.Sprintf(format, a...))
	panic(abort{})
}

// Stop ends the case without a verdict.
func (c *Case) Stop() { panic(abort{}) }

// Check is Fail unless ok.
func (c *Case) Check(ok bool, kind, format string, a ...interface{}) {
	if !ok {
		c.Fail(kind, format, a...)
	}
}

func (c *Case) record(kind, d string) {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	if len(c.r.Violations) < 50 {
		c.r.Violations = append(c.r.Violations, Violation{Kind: kind, Stream: c.Stream, Idx: c.Idx, Seed: c.Seed, Detail: trunc(d, 4000), Log: tail(c.log, 60)})
	}
}

// Finding records a failure that is identified with a stable key; the driver reports
// it as KNOWN-FINDING if listed and as a VIOLATION otherwise.  The case goes on.
func (c *Case) Finding(key, format string, a ...interface{}) {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	c.r.Counters["finding:"+key]++
	for _, f := range c.r.Findings {
		if f.Finding == key {
			return
		}
	}
	c.r.Findings = append(c.r.Findings, Violation{Kind: "finding", Finding: key, Stream: c.Stream, Idx: c.Idx, Seed: c.Seed, Detail: trunc(fmt.Sprintf(format, a...), 2000)})
}

// Count adds to a counter of observed events.
func (c *Case) Count(name string, n int) {
	c.r.mu.Lock()
	c.r.Counters[name] += int64(n)
	c.r.mu.Unlock()
}

// Skip says that a part could not be observed.
func (c *Case) Skip(name string) {
	c.r.mu.Lock()
	c.r.Skipped[name]++
	c.r.mu.Unlock()
}

// Logf records a step of the history of this case (kept for the witness).
func (c *Case) Logf(format string, a ...interface{}) {
	if len(c.log) < 2000 {
		c.log = append(c.log, trunc(fmt.Sprintf(format, a...), 400))
	}
}

// Key marks the case as distinct and non-trivial; equal data counts once.
func (c *Case) Key(parts ...interface{}) {
	h := fnv.New64a()
	h.Write([]byte(c.Stream))
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "|%v|", v)
		}
	}
	c.r.mu.Lock()
	c.r.keys[h.Sum64()] = struct{}{}
	c.r.mu.Unlock()
	c.keyed = true
}

// Eval counts an additional evaluation of the oracle.
func (c *Case) Eval(n int) {
	c.r.mu.Lock()
	c.r.Evaluations += int64(n)
	c.r.mu.Unlock()
}

// Sample keeps a written-out case (a few per stream).
func (c *Case) Sample(format string, a ...interface{}) {
	c.r.mu.Lock()
	if c.r.sampleBy[c.Stream] < 2 {
		c.r.sampleBy[c.Stream]++
		c.r.Samples = append(c.r.Samples, c.Stream+": "+trunc(fmt.Sprintf(format, a...), 600))
	}
	c.r.mu.Unlock()
}

// Transcript records the outcome of a case for cross-configuration comparison.
func (c *Case) Transcript(what string, data []byte) {
	h := fnv.New64a()
	h.Write(data)
	c.r.mu.Lock()
	c.r.Transcript = append(c.r.Transcript, fmt.Sprintf("%s/%d/%s=%016x:%s", c.Stream, c.Idx, what, h.Sum64(), trunc(hex.EncodeToString(data), 64)))
	c.r.mu.Unlock()
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d more)", len(s)-n)
	}
	return s
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Bytes returns n pseudo-random bytes.
func (c *Case) Bytes(n int) []byte {
	b := make([]byte, n)
	c.Fill(b)
	return b
}

// Fill fills b.
func (c *Case) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], c.Uint64())
		copy(b[i:], t[:])
	}
}

// Panics runs f and returns the recovered value (nil if it returned).
func Panics(f func()) (v interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				panic(r)
			}
			v = r
		}
	}()
	f()
	return nil
}

func sub(seed uint64, s string, idx int) (uint64, uint64) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, s, idx)
	a := h.Sum64()
	fmt.Fprintf(h, "/2")
	return a, h.Sum64()
}

// NewRand makes a PRNG determined by a seed and label.
func NewRand(seed uint64, label string, idx int) *rand.Rand {
	a, b := sub(seed, label, idx)
	return rand.New(rand.NewPCG(a, b))
}

var curDesc atomic.Value

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// Config of a worker run.
type Config struct {
	Prop, Tier string
	Streams    map[string]bool
	Seed       uint64
	Shard, Of  int
	Only       int
	Scale      float64
	Out        string
	// CPU seconds one case may use before the worker reports it as non-terminating.
	CaseCPU float64
	// Seconds after which no further cases are started (0: no limit), shared by the streams.
	Budget float64
}

// Run executes the registered streams and writes the result file.
func Run(cfg Config) int {
	debug.SetPanicOnFault(true)
	r := &Result{Counters: map[string]int64{}, Skipped: map[string]int64{}, keys: map[uint64]struct{}{}, sampleBy: map[string]int{}}
	write := func() {
		r.mu.Lock()
		defer r.mu.Unlock()
		type out struct {
			*Result
			Keys []string `json:"keys"`
		}
		o := out{Result: r}
		for k := range r.keys {
			o.Keys = append(o.Keys, fmt.Sprintf("%x", k))
		}
		sort.Strings(o.Keys)
		b, err := json.Marshal(o)
		if err != nil {
			fmt.Fprintln(os.Stderr, "marshal:", err)
			os.Exit(2)
		}
		if err := os.WriteFile(cfg.Out, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, "write:", err)
			os.Exit(2)
		}
	}
	var gen int64 // generation of the running case
	var started atomic.Value
	started.Store(0.0)
	var current atomic.Pointer[Case]
	go func() {
		for {
			time.Sleep(2 * time.Second)
			g := atomic.LoadInt64(&gen)
			c := current.Load()
			if c == nil {
				continue
			}
			if used := cpuSeconds() - started.Load().(float64); used > cfg.CaseCPU && atomic.LoadInt64(&gen) == g {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				c.record("no-termination", fmt.Sprintf("one case used %.0f CPU seconds (limit %.0f) without finishing\n%s", used, cfg.CaseCPU, buf))
				write()
				os.Exit(0)
			}
		}
	}()
	var todo []*Stream
	for _, s := range streams {
		if s.Name == "arm64" && os.Getenv("VERIF_IMAGE") == "" {
			continue // needs a program to interpret
		}
		if s.Prop == cfg.Prop && (len(cfg.Streams) == 0 || cfg.Streams[s.Name]) {
			todo = append(todo, s)
		}
	}
	begin := time.Now()
	for k, s := range todo {
		n := s.Quick
		if cfg.Tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n)*cfg.Scale + 0.5)
		for i := 0; i < n; i++ {
			if i%cfg.Of != cfg.Shard || (cfg.Only >= 0 && i != cfg.Only) {
				continue
			}
			if cfg.Budget > 0 && time.Since(begin).Seconds() > cfg.Budget*float64(k+1)/float64(len(todo)) {
				r.mu.Lock()
				r.Counters["stopped-by-time-budget:"+s.Name]++
				r.mu.Unlock()
				break
			}
			c := &Case{Rand: NewRand(cfg.Seed, s.Prop+"/"+s.Name, i), Prop: s.Prop, Stream: s.Name, Idx: i, Seed: cfg.Seed, Tier: cfg.Tier, r: r}
			started.Store(cpuSeconds())
			atomic.AddInt64(&gen, 1)
			current.Store(c)
			runCase(s, c)
			current.Store(nil)
			r.mu.Lock()
			r.Evaluations++
			r.Counters["cases:"+s.Name]++
			nv := len(r.Violations)
			r.mu.Unlock()
			if nv >= 5 {
				break
			}
		}
	}
	write()
	return 0
}

func runCase(s *Stream, c *Case) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(abort); ok {
				return
			}
			st := string(debug.Stack())
			kind := "panic"
			if e, ok := x.(runtime.Error); ok && strings.Contains(e.Error(), "invalid memory address or nil pointer") {
				kind = "fault"
			}
			c.record(kind, fmt.Sprintf("unexpected panic: %v\n%s", x, st))
		}
	}()
	s.Run(c)
}

// StreamNames lists the streams of a property.
func StreamNames(prop string) []string {
	var r []string
	for _, s := range streams {
		if prop == "" || s.Prop == prop {
			r = append(r, fmt.Sprintf("%s %s %d %d", s.Prop, s.Name, s.Quick, s.Thorough))
		}
	}
	return r
}
