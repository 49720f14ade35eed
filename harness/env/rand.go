// Package env holds the environment stubs: random sources whose answers are enumerated.
package env

import (
	"errors"
	"io"

	"vh/mc"
)

// ErrSource is what a failing source returns.
var ErrSource = errors.New("random source failed")

// ErrOnce is for sources which fail once and then go on.
var ErrOnce = errors.New("random source failed for now")

// Rand answers with Prefix, then with the fixed filler stream Seed.
type Rand struct {
	Prefix  []byte
	Seed    int
	Chunks  []int // sizes of successive answers, cycled; 0 means an empty answer without error
	FailAt  int   // byte position from which on it fails; <0 never
	WithErr bool  // hand over the last bytes together with the error
	Err     error
	Once    bool // fails only once, then goes on
	Horizon int  // give up (livelock) after this many bytes
	Pos     int
	Calls   int
	buf     []byte
	fired   bool
	fails   int
}

// New is a healthy source.
func New(seed int) *Rand { return &Rand{Seed: seed, FailAt: -1, Horizon: 1 << 20} }

// With is a source which answers prefix first.
func With(seed int, prefix []byte) *Rand {
	r := New(seed)
	r.Prefix = prefix
	return r
}

// At returns byte i of the stream.
func (r *Rand) at(i int) byte {
	if i < len(r.Prefix) {
		return r.Prefix[i]
	}
	i -= len(r.Prefix)
	if i >= len(r.buf) {
		r.buf = mc.Pattern(r.Seed, (i+1)*2+256)
	}
	return r.buf[i]
}

// Bytes returns the first n bytes of the stream without consuming them.
func (r *Rand) Bytes(n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = r.at(i)
	}
	return out
}

func (r *Rand) Read(b []byte) (int, error) {
	r.Calls++
	if r.Pos > r.Horizon || r.Calls > r.Horizon {
		panic(mc.ErrHorizon)
	}
	n := len(b)
	if len(r.Chunks) > 0 {
		if c := r.Chunks[(r.Calls-1)%len(r.Chunks)]; c < n {
			n = c
		}
	}
	var err error
	if r.FailAt >= 0 && !r.fired && r.Pos+n >= r.FailAt {
		k := r.FailAt - r.Pos
		if k < 0 {
			k = 0
		}
		if k < n || (k == n && r.WithErr && !r.Once) {
			if k == 0 || r.WithErr {
				err = r.Err
				if err == nil {
					err = ErrSource
				}
				r.fired = r.Once
				if r.fails++; r.fails > 1000 { // keeps asking a source which has failed
					panic(mc.ErrHorizon)
				}
			}
			n = k
		}
	}
	for i := 0; i < n; i++ {
		b[i] = r.at(r.Pos + i)
	}
	r.Pos += n
	return n, err
}

var _ io.Reader = (*Rand)(nil)
