package mon

import (
	"errors"
	"io"
	"math/rand/v2"
)

// ErrInjected is what fault-injecting readers return.
var ErrInjected = errors.New("injected rng failure")

// Reader is a deterministic, optionally hostile random source.
type Reader struct {
	R *rand.Rand
	// MaxChunk > 0 returns at most that many bytes per Read.
	MaxChunk int
	// FailAfter >= 0: fail after delivering that many bytes.
	FailAfter int
	// Err to return (ErrInjected if nil).
	Err error
	// ErrWithData: deliver the last bytes together with the error.
	ErrWithData bool
	// Limit on bytes before the reader panics: bounded progress.
	Limit int
	// Src replays bytes before the PRNG is used.
	Src []byte
	// Rec records what was delivered when Record is set.
	Record bool
	Rec    []byte
	N      int
	Calls  int
	// Failed: an error was returned for bytes the caller still needed.
	Failed bool
	fails  int
}

// NewReader returns a well-behaved reader.
func NewReader(r *rand.Rand) *Reader { return &Reader{R: r, FailAfter: -1, Limit: 1 << 26} }

// TooMuch is the panic value when Limit is exceeded.
type TooMuch struct{ N int }

func (r *Reader) Read(p []byte) (int, error) {
	r.Calls++
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if r.MaxChunk > 0 && n > r.MaxChunk {
		n = r.MaxChunk
	}
	var err error
	if r.FailAfter >= 0 && r.N+n > r.FailAfter {
		n = r.FailAfter - r.N
		if n <= 0 || r.ErrWithData {
			err = r.Err
			if err == nil {
				err = ErrInjected
			}
		}
		if n < 0 {
			n = 0
		}
	}
	for i := 0; i < n; i++ {
		if len(r.Src) > 0 {
			p[i] = r.Src[0]
			r.Src = r.Src[1:]
		} else {
			p[i] = byte(r.R.Uint32())
		}
	}
	if r.Record {
		r.Rec = append(r.Rec, p[:n]...)
	}
	r.N += n
	if r.Limit > 0 && r.N > r.Limit {
		panic(TooMuch{r.N})
	}
	if err != nil && n < len(p) {
		r.Failed = true
		if r.fails++; r.fails > 1<<14 {
			// asked again and again although it keeps failing
			panic(TooMuch{r.N})
		}
	}
	return n, err
}

var _ io.Reader = (*Reader)(nil)
