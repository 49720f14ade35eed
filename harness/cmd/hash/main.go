// hash decides S01..S04, M01 and M02 by exhausting bounded histories of the
// real hash objects against the reference sponges.
package main

import (
	"bytes"
	libsha3 "crypto/sha3"
	"fmt"
	"hash"
	"runtime"
	"strings"
	"sync"

	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/hash/sm3"

	"vh/mc"
	"vh/ref"
)

type kind struct {
	name  string
	bits  int
	rate  int
	d     int
	fresh func() hash.Hash
}

var kinds = []kind{
	{"SHA3-224", 224, 144, 28, sha3.New224},
	{"SHA3-256", 256, 136, 32, sha3.New256},
	{"SHA3-384", 384, 104, 48, sha3.New384},
	{"SHA3-512", 512, 72, 64, sha3.New512},
}

type xkind struct {
	name     string
	strength int
	rate     int
	n, s     []byte
	fresh    func() sha3.ShakeHash
}

var shakes = []xkind{
	{"SHAKE128", 128, 168, nil, nil, sha3.NewShake128},
	{"SHAKE256", 256, 136, nil, nil, sha3.NewShake256},
}

var cN, cS = []byte("fn"), mc.Pattern(77, 40)

var cshakes = []xkind{
	{"cSHAKE128", 128, 168, cN, cS, func() sha3.ShakeHash { return sha3.NewCShake128(cN, cS) }},
	{"cSHAKE256", 256, 136, cN, cS, func() sha3.ShakeHash { return sha3.NewCShake256(cN, cS) }},
	{"cSHAKE128-fullblock", 128, 168, nil, mc.Pattern(78, 168-2-2-3), func() sha3.ShakeHash {
		return sha3.NewCShake128(nil, mc.Pattern(78, 168-2-2-3))
	}},
}

func (k xkind) model() *ref.Sponge { return ref.NewCShake(k.strength, k.n, k.s) }

func main() {
	mc.Main(map[string]func(*mc.Run){"S01": s01, "S02": s02, "S03": s03, "S04": s04, "M01": m01, "M02": m02})
}

// cache of reference values
type cache struct {
	mu sync.Mutex
	m  map[string][]byte
}

func (c *cache) get(k string, f func() []byte) []byte {
	c.mu.Lock()
	v, ok := c.m[k]
	c.mu.Unlock()
	if ok {
		return v
	}
	v = f()
	c.mu.Lock()
	c.m[k] = v
	c.mu.Unlock()
	return v
}

var memo = &cache{m: map[string][]byte{}}

func mustWrite(t *mc.T, w interface{ Write([]byte) (int, error) }, b []byte) {
	t.Lend("Write", b, func(in []byte) { writeRaw(t, w, in) })
}

// writeRaw hands over b itself.
func writeRaw(t *mc.T, w interface{ Write([]byte) (int, error) }, b []byte) {
	l := len(b)
	n, err := w.Write(b)
	t.Step(1)
	if n != l || err != nil {
		t.Fail("Write(%d bytes) returned %d, %v", l, n, err)
	}
}

func mustRead(t *mc.T, r interface{ Read([]byte) (int, error) }, n int) []byte {
	return t.Space("Read", n, func(out []byte) {
		m, err := r.Read(out)
		t.Step(1)
		if m != n || err != nil {
			t.Fail("Read(%d bytes) returned %d, %v", n, m, err)
		}
	})
}

// ---------------------------------------------------------------- fixed-size hashes

type fixed struct {
	name  string
	rate  int
	d     int
	fresh func() hash.Hash
	want  func(m []byte) []byte
}

func fixedKinds() (out []fixed) {
	for _, k := range kinds {
		k := k
		out = append(out, fixed{k.name, k.rate, k.d, k.fresh, func(m []byte) []byte { return ref.SHA3(k.bits, m) }})
	}
	return
}

func checkFixed(r *mc.Run, ks []fixed) {
	msg := mc.Pattern(1, 1<<16)
	contents := map[string][]byte{"pattern": msg, "zeros": make([]byte, 1<<13), "ones": bytes.Repeat([]byte{0xff}, 1<<13)}
	want := func(k fixed, c string, n int) []byte {
		return memo.get(fmt.Sprintf("%s/%s/%d", k.name, c, n), func() []byte { return k.want(contents[c][:n]) })
	}
	r.Group("lengths", "every message length 0..8*rate+8 in one write, three contents", func(emit mc.Emit) {
		for _, k := range ks {
			k := k
			for _, c := range []string{"pattern", "zeros", "ones"} {
				c := c
				for n := 0; n <= 8*k.rate+8; n++ {
					n := n
					emit(fmt.Sprintf("%s %s len=%d", k.name, c, n), func(t *mc.T) {
						h := k.fresh()
						if h.Size() != k.d || h.BlockSize() != k.rate {
							t.Fail("Size %d BlockSize %d", h.Size(), h.BlockSize())
						}
						mustWrite(t, h, contents[c][:n:n])
						t.Eq("digest", h.Sum(nil), want(k, c, n))
					})
				}
			}
		}
	})
	r.Group("split2", "every cut of every message length 0..2*rate+8 (quick) or 4*rate+8 (thorough) into two writes", func(emit mc.Emit) {
		for _, k := range ks {
			k := k
			top := r.Pick(2, 4)*k.rate + 8
			for n := 0; n <= top; n++ {
				n := n
				emit(fmt.Sprintf("%s len=%d all cuts", k.name, n), func(t *mc.T) {
					w := want(k, "pattern", n)
					for i := 0; i <= n; i++ {
						h := k.fresh()
						mustWrite(t, h, msg[:i:i])
						mustWrite(t, h, msg[i:n:n])
						t.State(fmt.Sprintf("%s %d/%d", k.name, i%k.rate, n%k.rate))
						if g := h.Sum(nil); !bytes.Equal(g, w) {
							t.Fail("cut at %d: got %x want %x", i, g, w)
						}
					}
					t.Observe(w)
				})
			}
		}
	})
	if r.Thorough() {
		r.Group("split3", "every cut of every message length 0..rate+8 into three writes", func(emit mc.Emit) {
			for _, k := range ks {
				k := k
				for n := 0; n <= k.rate+8; n++ {
					n := n
					emit(fmt.Sprintf("%s len=%d all double cuts", k.name, n), func(t *mc.T) {
						w := want(k, "pattern", n)
						for i := 0; i <= n; i++ {
							for j := i; j <= n; j++ {
								h := k.fresh()
								mustWrite(t, h, msg[:i:i])
								mustWrite(t, h, msg[i:j:j])
								mustWrite(t, h, msg[j:n:n])
								if g := h.Sum(nil); !bytes.Equal(g, w) {
									t.Fail("cuts at %d,%d: got %x want %x", i, j, g, w)
								}
							}
						}
						t.Observe(w)
					})
				}
			}
		})
	}
	depth := r.Pick(4, 6)
	r.Group("write-sequences", fmt.Sprintf("every sequence of up to %d writes with sizes {0,1,7,8,r-9,r-8,r-1,r,r+1,2r-1,2r,2r+1}", depth), func(emit mc.Emit) {
		for _, k := range ks {
			k := k
			sz := []int{0, 1, 7, 8, k.rate - 9, k.rate - 8, k.rate - 1, k.rate, k.rate + 1, 2*k.rate - 1, 2 * k.rate, 2*k.rate + 1}
			mc.Seqs(len(sz), depth, func(s []int) bool {
				return emit(fmt.Sprintf("%s %v", k.name, s), func(t *mc.T) {
					h := k.fresh()
					n := 0
					for _, c := range s {
						mustWrite(t, h, msg[n:n+sz[c]:n+sz[c]])
						n += sz[c]
						t.State(fmt.Sprintf("%s %d", k.name, n))
					}
					t.Eq("digest", h.Sum(nil), want(k, "pattern", n))
				})
			})
		}
	})
	r.Group("one-bit", "every single-bit message of the lengths r-1,r,r+1 (and 2r,3r-1)", func(emit mc.Emit) {
		for _, k := range ks {
			k := k
			for _, n := range []int{k.rate - 1, k.rate, k.rate + 1, 2 * k.rate, 3*k.rate - 1} {
				n := n
				for b := 0; b < n; b++ {
					b := b
					emit(fmt.Sprintf("%s len=%d byte=%d", k.name, n, b), func(t *mc.T) {
						for bit := 0; bit < 8; bit++ {
							m := make([]byte, n)
							m[b] = 1 << uint(bit)
							h := k.fresh()
							mustWrite(t, h, m)
							t.Eq("digest", h.Sum(nil), k.want(m))
						}
					})
				}
			}
		}
	})
	r.Group("alignment", "input buffers at every offset 0..15 of an aligned array and cut at every offset, lengths around one and two blocks", func(emit mc.Emit) {
		for _, k := range ks {
			k := k
			for off := 0; off < 16; off++ {
				off := off
				for _, n := range []int{1, 8, k.rate - 1, k.rate, k.rate + 1, 2 * k.rate, 2*k.rate + 7, 3*k.rate + 5} {
					n := n
					emit(fmt.Sprintf("%s offset=%d len=%d", k.name, off, n), func(t *mc.T) {
						for first := 0; first <= 16 && first <= n; first++ {
							buf := make([]byte, n+48)
							copy(buf[off:], msg[:n])
							h := k.fresh()
							writeRaw(t, h, buf[off:off+first:off+first])
							writeRaw(t, h, buf[off+first:off+n:off+n])
							if !bytes.Equal(buf[off:off+n], msg[:n]) {
								t.Fail("Write changed the caller's buffer")
							}
							t.Eq("digest", h.Sum(nil), want(k, "pattern", n))
						}
					})
				}
			}
		}
	})
	r.Group("long", "message lengths 2^k-1, 2^k, 2^k+1 for k up to 20 (22 thorough) in chunks of {1,63,64,r-1,r,r+1,4096,whole}", func(emit mc.Emit) {
		top := r.Pick(18, 22)
		big := mc.Pattern(2, 1<<uint(top)+1)
		for _, k := range ks {
			k := k
			for e := 12; e <= top; e += 2 {
				for dl := -1; dl <= 1; dl++ {
					n := 1<<uint(e) + dl
					emit(fmt.Sprintf("%s len=%d", k.name, n), func(t *mc.T) {
						w := k.want(big[:n])
						for _, c := range []int{1, 63, 64, k.rate - 1, k.rate, k.rate + 1, 4096, n} {
							if c == 1 && e > 16 {
								continue
							}
							h := k.fresh()
							for i := 0; i < n; i += c {
								j := i + c
								if j > n {
									j = n
								}
								h.Write(big[i:j:j])
							}
							t.Eq(fmt.Sprintf("digest, chunk %d", c), h.Sum(nil), w)
						}
					})
				}
			}
		}
	})
}

// endurance uses one object many times.
func endurance(r *mc.Run, ks []fixed) {
	uses := r.Pick(1<<16+300, 1<<20+300)
	r.Group("endurance", fmt.Sprintf("one object used %d times: empty and one-byte writes, Sum after each, Reset before each message", uses), func(emit mc.Emit) {
		msg := mc.Pattern(6, uses)
		for _, k := range ks {
			k := k
			emit(k.name+" write 1", func(t *mc.T) {
				h := k.fresh()
				for i := 0; i < uses; i++ {
					mustWrite(t, h, nil)
					mustWrite(t, h, msg[i:i+1:i+1])
				}
				t.Eq("digest", h.Sum(nil), k.want(msg))
			})
			emit(k.name+" sums", func(t *mc.T) {
				h := k.fresh()
				mustWrite(t, h, msg[:k.rate+3])
				w := k.want(msg[:k.rate+3])
				for i := 0; i < uses/2; i++ {
					if g := h.Sum(nil); !bytes.Equal(g, w) {
						t.Fail("Sum number %d: got %x want %x", i, g, w)
					}
				}
				mustWrite(t, h, msg[:9])
				t.Eq("after them", h.Sum(nil), k.want(append(append([]byte{}, msg[:k.rate+3]...), msg[:9]...)))
			})
			emit(k.name+" messages", func(t *mc.T) {
				h := k.fresh()
				n := 23
				var w [][]byte
				for i := 0; i < n; i++ {
					w = append(w, k.want(msg[:i*7]))
				}
				for i := 0; i < uses; i++ {
					h.Reset()
					mustWrite(t, h, msg[:i%n*7])
					if i%3 == 0 || i > uses-300 {
						if g := h.Sum(nil); !bytes.Equal(g, w[i%n]) {
							t.Fail("message number %d: got %x want %x", i, g, w[i%n])
						}
					}
				}
				t.Outcome("%s", k.name)
			})
		}
	})
}

func sumShapes(t *mc.T, sum func([]byte) []byte, plen, slack int, nilIn bool, want []byte, eq func(in, got []byte)) {
	d := len(want)
	back := mc.Pattern(3, plen+slack+16)
	orig := append([]byte(nil), back...)
	var in []byte
	if !nilIn {
		in = back[: plen : plen+slack]
	}
	got := sum(in)
	t.Step(1)
	if len(in) > 0 && !bytes.Equal(in, orig[:plen]) {
		t.Fail("Sum changed the caller's %d prefix bytes", plen)
	}
	for i := plen; i < len(back); i++ {
		if (i >= plen+d || i >= plen+slack) && back[i] != orig[i] {
			t.Fail("Sum(prefix %d, spare %d) wrote byte %d of the backing array", plen, slack, i)
		}
	}
	eq(orig[:len(in)], got)
}

func s01(r *mc.Run) {
	ks := fixedKinds()
	r.Group("model", "the model against the Go library for every message length to three blocks", func(emit mc.Emit) {
		emit("all", func(t *mc.T) {
			lib := map[int]func([]byte) []byte{
				224: func(b []byte) []byte { d := libsha3.Sum224(b); return d[:] },
				256: func(b []byte) []byte { d := libsha3.Sum256(b); return d[:] },
				384: func(b []byte) []byte { d := libsha3.Sum384(b); return d[:] },
				512: func(b []byte) []byte { d := libsha3.Sum512(b); return d[:] },
			}
			for n := 0; n <= 3*144+1; n++ {
				for bits, f := range lib {
					t.Eq(fmt.Sprintf("SHA3-%d of %d bytes", bits, n), ref.SHA3(bits, mc.Pattern(3, n)), f(mc.Pattern(3, n)))
				}
			}
		})
	})
	checkFixed(r, ks)
	endurance(r, ks)
	r.Group("append", "Sum onto prefixes of length 0..40 with 0..digest+2 spare bytes (and nil), at message lengths 0,1,r-1,r", func(emit mc.Emit) {
		for _, k := range ks {
			k := k
			for plen := 0; plen <= 40; plen++ {
				plen := plen
				for slack := -1; slack <= k.d+2; slack++ {
					slack := slack
					emit(fmt.Sprintf("%s prefix=%d spare=%d", k.name, plen, slack), func(t *mc.T) {
						for _, n := range []int{0, 1, k.rate - 1, k.rate} {
							m := mc.Pattern(1, n)
							w := memo.get(fmt.Sprintf("%s/pattern/%d", k.name, n), func() []byte { return k.want(m) })
							h := k.fresh()
							mustWrite(t, h, m)
							sl := slack
							if slack < 0 {
								sl = 0
							}
							sumShapes(t, h.Sum, plen, sl, slack < 0, w, func(in, got []byte) {
								t.Eq("Sum(in)", got, append(append([]byte(nil), in...), w...))
							})
							t.Eq("Sum(nil) after", h.Sum(nil), w)
						}
					})
				}
			}
		}
	})
	r.Group("reset", "messages of lengths 0..2r+1 after every history of up to 3 operations {write 1, write r-1, write r, Sum} and a Reset", func(emit mc.Emit) {
		msg := mc.Pattern(1, 1024)
		for _, k := range ks {
			k := k
			mc.Seqs(4, 3, func(s []int) bool {
				return emit(fmt.Sprintf("%s %v reset", k.name, s), func(t *mc.T) {
					for n := 0; n <= 2*k.rate+1; n++ {
						h := k.fresh()
						for _, o := range s {
							switch o {
							case 0:
								mustWrite(t, h, msg[5:6])
							case 1:
								mustWrite(t, h, msg[7:7+k.rate-1])
							case 2:
								mustWrite(t, h, msg[9:9+k.rate])
							case 3:
								h.Sum(nil)
							}
						}
						h.Reset()
						mustWrite(t, h, msg[:n:n])
						w := memo.get(fmt.Sprintf("%s/pattern/%d", k.name, n), func() []byte { return k.want(msg[:n]) })
						if g := h.Sum(nil); !bytes.Equal(g, w) {
							t.Fail("len %d after reset: got %x want %x", n, g, w)
						}
					}
					t.Outcome("%s %v", k.name, s)
				})
			})
		}
	})
}

// ---------------------------------------------------------------- SHAKE

func stream(k xkind, msg []byte, n int) []byte {
	s := k.model()
	s.Absorb(msg)
	return s.Squeeze(n)
}

func s02(r *mc.Run) {
	msg := mc.Pattern(4, 4096)
	r.Group("model", "the model against the Go library for every message and output length to three blocks", func(emit mc.Emit) {
		emit("all", func(t *mc.T) {
			for n := 0; n <= 3*168+1; n++ {
				t.Eq("SHAKE128", ref.SHAKE(128, msg[:n], n), libsha3.SumSHAKE128(msg[:n], n))
				t.Eq("SHAKE256", ref.SHAKE(256, msg[:n], n), libsha3.SumSHAKE256(msg[:n], n))
			}
		})
	})
	r.Group("read-pairs", "every pair of read sizes (a,b), a in 0..2r+9, b in 0..2r+9, then a third read of r+1, after messages of 0,1,r-1,r bytes", func(emit mc.Emit) {
		for _, k := range shakes {
			k := k
			for _, ml := range []int{0, 1, k.rate - 1, k.rate} {
				ml := ml
				w := stream(k, msg[:ml], 6*k.rate+64)
				for a := 0; a <= 2*k.rate+9; a++ {
					a := a
					emit(fmt.Sprintf("%s msg=%d first=%d", k.name, ml, a), func(t *mc.T) {
						base := k.fresh()
						mustWrite(t, base, msg[:ml])
						first := mustRead(t, base, a)
						if !bytes.Equal(first, w[:a]) {
							t.Fail("read %d: got %s want %s", a, mc.Hex(first), mc.Hex(w[:a]))
						}
						t.Observe(first)
						for b := 0; b <= 2*k.rate+9; b++ {
							h := k.fresh()
							mustWrite(t, h, msg[:ml])
							mustRead(t, h, a)
							got := append(append([]byte(nil), mustRead(t, h, b)...), mustRead(t, h, k.rate+1)...)
							if !bytes.Equal(got, w[a:a+b+k.rate+1]) {
								t.Fail("reads %d,%d,%d: got %s want %s", a, b, k.rate+1, mc.Hex(got), mc.Hex(w[a:a+b+k.rate+1]))
							}
							t.State(fmt.Sprintf("%s unread=%d", k.name, (k.rate-(a+b)%k.rate)%k.rate))
						}
					})
				}
			}
		}
	})
	depth := r.Pick(5, 6)
	r.Group("read-sequences", fmt.Sprintf("every sequence of up to %d reads with sizes {0,1,8,r-1,r,r+1,2r-1,2r,2r+1}", depth), func(emit mc.Emit) {
		for _, k := range shakes {
			k := k
			w := stream(k, msg[:k.rate-1], (depth+1)*(2*k.rate+1))
			sz := []int{0, 1, 8, k.rate - 1, k.rate, k.rate + 1, 2*k.rate - 1, 2 * k.rate, 2*k.rate + 1}
			mc.Seqs(len(sz), depth, func(s []int) bool {
				return emit(fmt.Sprintf("%s %v", k.name, s), func(t *mc.T) {
					h := k.fresh()
					mustWrite(t, h, msg[:k.rate-1])
					n := 0
					for _, c := range s {
						g := mustRead(t, h, sz[c])
						if !bytes.Equal(g, w[n:n+sz[c]]) {
							t.Fail("read at %d of %d: got %s want %s", n, sz[c], mc.Hex(g), mc.Hex(w[n:n+sz[c]]))
						}
						n += sz[c]
						t.State(fmt.Sprintf("%s %d", k.name, n))
					}
					t.Outcome("%s %d", k.name, n)
				})
			})
		}
	})
	d2 := r.Pick(5, 6)
	r.Group("write-read-histories", fmt.Sprintf("every history of up to %d operations over writes {0,1,r-1,r,r+1} and reads {0,1,r-1,r,r+1}; a write after output was read must be refused and change nothing", d2), func(emit mc.Emit) {
		for _, k := range shakes {
			k := k
			sz := []int{0, 1, k.rate - 1, k.rate, k.rate + 1}
			mc.Seqs(10, d2, func(s []int) bool {
				return emit(fmt.Sprintf("%s %v", k.name, s), func(t *mc.T) { shakeHistory(t, k, sz, s, msg) })
			})
		}
	})
	r.Group("one-shot", "ShakeSum for message lengths {0,1,r-1,r,r+1,2r} and every output length 0..3r+8", func(emit mc.Emit) {
		for _, k := range shakes {
			k := k
			f := sha3.ShakeSum128
			if k.strength == 256 {
				f = sha3.ShakeSum256
			}
			for _, ml := range []int{0, 1, k.rate - 1, k.rate, k.rate + 1, 2 * k.rate} {
				ml := ml
				emit(fmt.Sprintf("%s msg=%d", k.name, ml), func(t *mc.T) {
					w := stream(k, msg[:ml], 3*k.rate+8)
					for n := 0; n <= 3*k.rate+8; n++ {
						out := bytes.Repeat([]byte{0x5A}, n+16)
						f(out[8:8+n:8+n], msg[:ml:ml])
						t.Step(1)
						if !bytes.Equal(out[8:8+n], w[:n]) {
							t.Fail("output length %d: got %s want %s", n, mc.Hex(out[8:8+n]), mc.Hex(w[:n]))
						}
						for i := 0; i < 8; i++ {
							if out[i] != 0x5A || out[n+8+i] != 0x5A {
								t.Fail("output length %d: wrote outside", n)
							}
						}
					}
					t.Observe(w)
				})
			}
		}
	})
	r.Group("read-alignment", "output buffers at every offset 0..15, read sizes around block boundaries", func(emit mc.Emit) {
		for _, k := range shakes {
			k := k
			w := stream(k, msg[:3], 8*k.rate)
			for off := 0; off < 16; off++ {
				off := off
				emit(fmt.Sprintf("%s offset=%d", k.name, off), func(t *mc.T) {
					for _, pre := range []int{0, 1, 7, k.rate - 1, k.rate} {
						for _, n := range []int{0, 1, 7, 8, 9, k.rate - 1, k.rate, k.rate + 1, 2 * k.rate, 3*k.rate + 5} {
							h := k.fresh()
							mustWrite(t, h, msg[:3])
							mustRead(t, h, pre)
							buf := bytes.Repeat([]byte{1}, n+64)
							m, err := h.Read(buf[off : off+n : off+n])
							if m != n || err != nil || !bytes.Equal(buf[off:off+n], w[pre:pre+n]) {
								t.Fail("pre=%d n=%d: %d %v %s", pre, n, m, err, mc.Hex(buf[off:off+n]))
							}
							for i := range buf {
								if (i < off || i >= off+n) && buf[i] != 1 {
									t.Fail("pre=%d n=%d wrote outside at %d", pre, n, i-off)
								}
							}
							t.Step(1)
						}
					}
					t.Outcome("%s %d", k.name, off)
				})
			}
		}
	})
	uses := r.Pick(1<<16+300, 1<<20+300)
	r.Group("endurance", fmt.Sprintf("one object used %d times: one-byte writes, one-byte reads, messages with a Reset before each, refused writes, clones of clones", uses), func(emit mc.Emit) {
		long := mc.Pattern(7, uses)
		for _, k := range shakes {
			k := k
			emit(k.name+" writes and reads", func(t *mc.T) {
				h := k.fresh()
				for i := range long {
					mustWrite(t, h, long[i:i+1:i+1])
				}
				got := make([]byte, uses)
				for i := range got {
					if n, err := h.Read(got[i : i+1 : i+1]); n != 1 || err != nil {
						t.Fail("read number %d: %d %v", i, n, err)
					}
				}
				t.Eq("stream", got, stream(k, long, uses))
			})
			emit(k.name+" messages", func(t *mc.T) {
				h := k.fresh()
				n := 23
				var w [][]byte
				for i := 0; i < n; i++ {
					w = append(w, stream(k, long[:i*7], 20))
				}
				o := make([]byte, 20)
				for i := 0; i < uses; i++ {
					h.Reset()
					h.Write(long[:i%n*7])
					h.Read(o)
					if !bytes.Equal(o, w[i%n]) {
						t.Fail("message number %d: got %x want %x", i, o, w[i%n])
					}
				}
				t.Outcome("%s", k.name)
			})
			emit(k.name+" clones", func(t *mc.T) {
				h := k.fresh()
				h.Write(long[:50])
				var got []byte
				for i := 0; i < uses/8; i++ {
					h = h.Clone()
					o := make([]byte, 1)
					h.Read(o)
					got = append(got, o...)
				}
				t.Eq("stream", got, stream(k, long[:50], uses/8))
			})
		}
	})
	r.Group("long-stream", "streams of 2^k+{-1,0,1} bytes, k up to 18 (22 thorough), read in chunks {13,r-1,r,r+1,1000,whole}", func(emit mc.Emit) {
		for _, k := range shakes {
			k := k
			for e := 12; e <= r.Pick(18, 22); e += 2 {
				for dl := -1; dl <= 1; dl++ {
					n := 1<<uint(e) + dl
					emit(fmt.Sprintf("%s out=%d", k.name, n), func(t *mc.T) {
						w := stream(k, msg[:n%300], n)
						for _, c := range []int{13, k.rate - 1, k.rate, k.rate + 1, 1000, n} {
							h := k.fresh()
							mustWrite(t, h, msg[:n%300])
							var got []byte
							for len(got) < n {
								m := c
								if m > n-len(got) {
									m = n - len(got)
								}
								got = append(got, mustRead(t, h, m)...)
							}
							t.Eq(fmt.Sprintf("stream in chunks of %d", c), got, w)
						}
					})
				}
			}
		}
	})
	resets := r.Pick(3, 4)
	r.Group("reset", fmt.Sprintf("messages of boundary lengths after every history of up to %d operations {write 1, r-1, r, r+1; read 0, 1, r-1, r, r+1, 2r+1} and a Reset, for SHAKE and cSHAKE", resets), func(emit mc.Emit) {
		for _, k := range append(append([]xkind{}, shakes...), cshakes...) {
			k := k
			ops := []int{1, k.rate - 1, k.rate, k.rate + 1, 0, -1, -(k.rate - 1), -k.rate, -(k.rate + 1), -(2*k.rate + 1)}
			mc.Seqs(len(ops), resets, func(s []int) bool {
				return emit(fmt.Sprintf("%s %v reset", k.name, s), func(t *mc.T) {
					h := k.fresh()
					reading := false
					for _, o := range s {
						switch n := ops[o]; {
						case n > 0 && !reading:
							mustWrite(t, h, msg[:n])
						case n > 0:
							if m, err := h.Write(msg[:n]); m != 0 || err == nil {
								t.Fail("write of %d bytes after a read returned %d, %v", n, m, err)
							}
						default:
							mustRead(t, h, -n)
							reading = true
						}
					}
					for _, n := range []int{0, 1, 7, 8, k.rate - 8, k.rate - 1, k.rate, k.rate + 1, 2 * k.rate} {
						h.Reset()
						mustWrite(t, h, msg[:n])
						if g, w := mustRead(t, h, k.rate+9), stream(k, msg[:n], k.rate+9); !bytes.Equal(g, w) {
							t.Fail("%d bytes after reset: got %s want %s", n, mc.Hex(g), mc.Hex(w))
						}
					}
				})
			})
		}
	})
	// the absorb side of SHAKE
	r.Group("absorb", "every message length 0..4r+8 and every cut of lengths 0..r+8", func(emit mc.Emit) {
		for _, k := range shakes {
			k := k
			for n := 0; n <= 4*k.rate+8; n++ {
				n := n
				emit(fmt.Sprintf("%s msg=%d", k.name, n), func(t *mc.T) {
					w := stream(k, msg[:n], k.rate+9)
					for i := 0; i <= n; i++ {
						if n > k.rate+8 && i > 0 {
							break
						}
						h := k.fresh()
						mustWrite(t, h, msg[:i:i])
						mustWrite(t, h, msg[i:n:n])
						if g := mustRead(t, h, k.rate+9); !bytes.Equal(g, w) {
							t.Fail("cut %d: got %s want %s", i, mc.Hex(g), mc.Hex(w))
						}
					}
					t.Observe(w)
				})
			}
		}
	})
}

func shakeHistory(t *mc.T, k xkind, sz []int, s []int, msg []byte) {
	h := k.fresh()
	m := k.model()
	read, touched := false, false // read: output was read; touched: Read(0) was called
	pos := 0
	for _, o := range s {
		n := sz[o%len(sz)]
		if o < len(sz) {
			b := msg[pos : pos+n : pos+n]
			if read {
				c, err := h.Write(b)
				t.Step(1)
				if n > 0 && (err == nil || c != 0) {
					t.Fail("write of %d after read accepted: %d, %v", n, c, err)
				}
			} else if touched {
				// nothing was read yet: both accepting and refusing are allowed, but a refusal must change nothing
				c, err := h.Write(b)
				t.Step(1)
				if err == nil {
					if c != n {
						t.Fail("Write returned %d", c)
					}
					m.Absorb(b)
				}
			} else {
				mustWrite(t, h, b)
				m.Absorb(b)
			}
			pos += n
		} else {
			g := mustRead(t, h, n)
			if n == 0 {
				touched = true
				continue
			}
			read = true
			if w := m.Squeeze(n); !bytes.Equal(g, w) {
				t.Fail("read of %d: got %s want %s", n, mc.Hex(g), mc.Hex(w))
			}
			t.Observe(g)
		}
		t.State(fmt.Sprintf("%s %v %v %d", k.name, read, touched, pos%k.rate))
	}
	g := mustRead(t, h, k.rate+3)
	if w := m.Squeeze(k.rate + 3); !bytes.Equal(g, w) {
		t.Fail("final read: got %s want %s", mc.Hex(g), mc.Hex(w))
	}
	t.Observe(g)
}

// ---------------------------------------------------------------- cSHAKE

func newC(strength int, n, s []byte) sha3.ShakeHash {
	if strength == 128 {
		return sha3.NewCShake128(n, s)
	}
	return sha3.NewCShake256(n, s)
}

func s03(r *mc.Run) {
	nb, sb := mc.Pattern(5, 1<<21+8), mc.Pattern(6, 1<<21+8)
	r.Group("model", "the model against the Go library for every length of N to two blocks with several lengths of S", func(emit mc.Emit) {
		emit("all", func(t *mc.T) {
			for n := 1; n <= 2*168+1; n++ {
				for _, l := range []int{0, 1, 32, 200} {
					for _, h := range []struct {
						bits int
						h    *libsha3.SHAKE
					}{{128, libsha3.NewCSHAKE128(nb[:n], sb[:l])}, {256, libsha3.NewCSHAKE256(nb[:n], sb[:l])}} {
						m := ref.NewCShake(h.bits, nb[:n], sb[:l])
						out := make([]byte, 40)
						h.h.Write(nb[:n])
						h.h.Read(out)
						m.Absorb(nb[:n])
						t.Eq("cSHAKE", m.Squeeze(40), out)
					}
				}
			}
		})
	})
	one := func(t *mc.T, strength, nl, sl, ml, out int) {
		n, s := append([]byte{}, nb[:nl]...), append([]byte{}, sb[:sl]...)
		h := newC(strength, n, s)
		m := ref.NewCShake(strength, n, s)
		for i := range n {
			n[i] ^= 0xff
		}
		for i := range s {
			s[i] ^= 0xff
		}
		mustWrite(t, h, nb[7:7+ml])
		m.Absorb(nb[7 : 7+ml])
		w := m.Squeeze(out)
		t.Eq("output", mustRead(t, h, out), w)
		h.Reset()
		mustWrite(t, h, nb[7:7+ml])
		t.Eq("output after Reset", mustRead(t, h, out), w)
	}
	r.Group("lengths-small", "every pair of N and S lengths in 0..48, message and output lengths {0,1} and {r+1}; N and S overwritten by the caller right after construction", func(emit mc.Emit) {
		for _, st := range []int{128, 256} {
			st := st
			for nl := 0; nl <= 48; nl++ {
				for sl := 0; sl <= 48; sl++ {
					nl, sl := nl, sl
					emit(fmt.Sprintf("cSHAKE%d N=%d S=%d", st, nl, sl), func(t *mc.T) {
						one(t, st, nl, sl, 0, 33)
						one(t, st, nl, sl, 1, 169)
					})
				}
			}
		}
	})
	r.Group("lengths-block", "N length in {0,1,2,31,32,33,100} with every S length 0..4*rate+8, and the same with N and S exchanged", func(emit mc.Emit) {
		for _, st := range []int{128, 256} {
			st := st
			for _, f := range []int{0, 1, 2, 31, 32, 33, 100} {
				for v := 0; v <= 4*168+8; v++ {
					f, v := f, v
					emit(fmt.Sprintf("cSHAKE%d N=%d S=%d", st, f, v), func(t *mc.T) { one(t, st, f, v, 5, 40) })
					emit(fmt.Sprintf("cSHAKE%d N=%d S=%d", st, v, f), func(t *mc.T) { one(t, st, v, f, 5, 40) })
				}
			}
		}
	})
	r.Group("lengths-encode", "N and S lengths at which the length encoding grows: 31/32, 8191/8192, 2^21-1/2^21 bytes (and neighbours), all pairs", func(emit mc.Emit) {
		ls := []int{0, 31, 32, 8190, 8191, 8192, 8193, 1<<21 - 1, 1 << 21, 1<<21 + 1}
		for _, st := range []int{128, 256} {
			st := st
			for _, a := range ls {
				for _, b := range ls {
					a, b := a, b
					if !r.Thorough() && a > 1<<20 && b > 1<<20 {
						continue
					}
					emit(fmt.Sprintf("cSHAKE%d N=%d S=%d", st, a, b), func(t *mc.T) { one(t, st, a, b, 3, 64) })
				}
			}
		}
	})
	r.Group("empty", "N and S both empty, as nil or empty slices: equal to SHAKE for every message length 0..r+1", func(emit mc.Emit) {
		for _, st := range []int{128, 256} {
			st := st
			for v := 0; v < 4; v++ {
				v := v
				emit(fmt.Sprintf("cSHAKE%d variant=%d", st, v), func(t *mc.T) {
					pick := func(b bool) []byte {
						if b {
							return nil
						}
						return []byte{}
					}
					for ml := 0; ml <= 169; ml++ {
						h := newC(st, pick(v&1 == 0), pick(v&2 == 0))
						mustWrite(t, h, nb[:ml])
						t.Eq("output", mustRead(t, h, 200), ref.SHAKE(st, nb[:ml], 200))
					}
				})
			}
		}
	})
	depth := r.Pick(5, 6)
	r.Group("histories", fmt.Sprintf("every history of up to %d operations {write 1, write r-1, write r, read 1, read r, Reset, replace by Clone, caller overwrites N and S} for five (N,S) choices", depth), func(emit mc.Emit) {
		type cfg struct {
			st     int
			nl, sl int
		}
		for _, c := range []cfg{{128, 4, 0}, {128, 0, 7}, {256, 3, 136 - 2 - 2 - 2 - 3}, {256, 0, 300}, {128, 33, 33}} {
			c := c
			mc.Seqs(8, depth, func(s []int) bool {
				return emit(fmt.Sprintf("cSHAKE%d N=%d S=%d %v", c.st, c.nl, c.sl, s), func(t *mc.T) {
					n, sx := append([]byte{}, nb[:c.nl]...), append([]byte{}, sb[:c.sl]...)
					h := newC(c.st, n, sx)
					fresh := ref.NewCShake(c.st, n, sx)
					m := fresh.Copy()
					rate := 200 - c.st/4
					pos := 0
					for _, o := range s {
						switch o {
						case 0, 1, 2:
							l := []int{1, rate - 1, rate}[o]
							b := nb[pos : pos+l : pos+l]
							pos += l
							if m.Squeezing {
								if k, err := h.Write(b); err == nil || k != 0 {
									t.Fail("write after read accepted")
								}
								t.Step(1)
							} else {
								mustWrite(t, h, b)
								m.Absorb(b)
							}
						case 3, 4:
							l := []int{1, rate}[o-3]
							t.Eq("read", mustRead(t, h, l), m.Squeeze(l))
						case 5:
							h.Reset()
							m = fresh.Copy()
						case 6:
							old := h
							h = h.Clone()
							old.Write([]byte{9})
							old.Read(make([]byte, 5))
							old.Reset()
						case 7:
							for i := range n {
								n[i]++
							}
							for i := range sx {
								sx[i]++
							}
						}
						t.Step(1)
					}
					t.Eq("final read", mustRead(t, h, rate+2), m.Squeeze(rate+2))
				})
			})
		}
	})
}

// ---------------------------------------------------------------- independence

func s04(r *mc.Run) {
	msg := mc.Pattern(8, 1<<14)
	depth := r.Pick(4, 5)
	r.Group("two-hashes", fmt.Sprintf("every history of up to %d operations {write 1, write r-1, write r, Sum(nil), Sum(prefix), Reset} on two hash objects, same and different algorithm", depth), func(emit mc.Emit) {
		for _, pr := range [][2]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {1, 3}} {
			ka, kb := kinds[pr[0]], kinds[pr[1]]
			mc.Seqs(12, depth, func(s []int) bool {
				return emit(fmt.Sprintf("%s+%s %v", ka.name, kb.name, s), func(t *mc.T) {
					k := [2]kind{ka, kb}
					h := [2]hash.Hash{ka.fresh(), kb.fresh()}
					var m [2][]byte
					check := func(i int, what string) {
						w := memo.get(fmt.Sprintf("%s|%s", k[i].name, m[i]), func() []byte { return ref.SHA3(k[i].bits, m[i]) })
						t.Eq(fmt.Sprintf("object %d %s", i, what), h[i].Sum(nil), w)
					}
					for j, o := range s {
						i, op := o/6, o%6
						switch op {
						case 0, 1, 2:
							l := []int{1, k[i].rate - 1, k[i].rate}[op]
							b := msg[l+i : 2*l+i : 2*l+i]
							mustWrite(t, h[i], b)
							m[i] = append(m[i][:len(m[i]):len(m[i])], b...)
						case 3:
							check(i, fmt.Sprintf("Sum at step %d", j))
						case 4:
							in := append(make([]byte, 0, 80), 1, 2, 3)
							g := h[i].Sum(in)
							w := memo.get(fmt.Sprintf("%s|%s", k[i].name, m[i]), func() []byte { return ref.SHA3(k[i].bits, m[i]) })
							t.Eq("Sum(prefix)", g, append([]byte{1, 2, 3}, w...))
						case 5:
							h[i].Reset()
							m[i] = nil
						}
						t.State(fmt.Sprintf("%s %s %d %d", ka.name, kb.name, len(m[0]), len(m[1])))
					}
					for i := range h {
						check(i, "at the end")
						check(i, "again")
					}
				})
			})
		}
	})
	xk := append(append([]xkind{}, shakes...), cshakes...)
	slots := func(name string, nslots int, sizes func(k xkind) []int, depth int) {
		r.Group(name, fmt.Sprintf("every history of up to %d operations on %d slots: writes and reads of sizes %v (r=100), Reset, and Clone from any slot into any other; every slot is drained at the end", depth, nslots, sizes(xkind{rate: 100})), func(emit mc.Emit) {
			for _, k := range xk {
				k := k
				sz := sizes(k)
				type op struct{ kind, a, b int }
				var ops []op
				for a := 0; a < nslots; a++ {
					for _, l := range sz {
						ops = append(ops, op{0, a, l}, op{1, a, l})
					}
					ops = append(ops, op{2, a, 0})
					for b := 0; b < nslots; b++ {
						if b != a {
							ops = append(ops, op{3, a, b})
						}
					}
				}
				mc.Seqs(len(ops), depth, func(s []int) bool {
					return emit(fmt.Sprintf("%s %v", k.name, s), func(t *mc.T) {
						h := make([]sha3.ShakeHash, nslots)
						m := make([]*ref.Sponge, nslots)
						for i := range h {
							h[i], m[i] = k.fresh(), k.model()
						}
						for _, c := range s {
							o := ops[c]
							switch o.kind {
							case 0:
								b := msg[3*o.a+o.b : 3*o.a+2*o.b : 3*o.a+2*o.b]
								if m[o.a].Squeezing {
									if n, err := h[o.a].Write(b); err == nil || n != 0 {
										t.Fail("write after read accepted")
									}
								} else {
									mustWrite(t, h[o.a], b)
									m[o.a].Absorb(b)
								}
							case 1:
								t.Eq("read", mustRead(t, h[o.a], o.b), m[o.a].Squeeze(o.b))
							case 2:
								h[o.a].Reset()
								m[o.a] = k.model()
							case 3:
								h[o.b] = h[o.a].Clone()
								m[o.b] = m[o.a].Copy()
							}
							t.Step(1)
						}
						for i := range h {
							t.Eq(fmt.Sprintf("drain slot %d", i), mustRead(t, h[i], k.rate+5), m[i].Squeeze(k.rate+5))
						}
						t.State(fmt.Sprintf("%s %v", k.name, squeezing(m)))
					})
				})
			}
		})
	}
	slots("two-xofs", 2, func(k xkind) []int { return []int{1, k.rate - 1, k.rate} }, depth)
	slots("three-xofs", 3, func(k xkind) []int { return []int{k.rate - 1} }, depth)
	if !r.Thorough() {
		slots("two-xofs-deep", 2, func(k xkind) []int { return []int{k.rate - 1} }, 5)
	} else {
		slots("two-xofs-deep", 2, func(k xkind) []int { return []int{k.rate - 1} }, 6)
	}
}

func squeezing(m []*ref.Sponge) (s []bool) {
	for _, x := range m {
		s = append(s, x.Squeezing)
	}
	return
}

// ---------------------------------------------------------------- SM3

func m01(r *mc.Run) {
	k := fixed{"SM3", 64, 32, func() hash.Hash { return sm3.New() }, ref.SM3}
	r.Group("model", "the model against the two published examples", func(emit mc.Emit) {
		emit("all", func(t *mc.T) {
			for m, want := range map[string]string{"abc": "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0",
				strings.Repeat("abcd", 16): "debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732"} {
				if got := fmt.Sprintf("%x", ref.SM3([]byte(m))); got != want {
					t.Fail("%q: %s, want %s", m, got, want)
				}
			}
		})
	})
	checkFixed(r, []fixed{k})
	endurance(r, []fixed{k})
	r.Group("reset", "messages of lengths 0..130 after every history of up to 3 operations {write 1, 55, 56, 63, 64, 65, Sum} and a Reset", func(emit mc.Emit) {
		msg := mc.Pattern(1, 1024)
		mc.Seqs(7, 3, func(s []int) bool {
			return emit(fmt.Sprintf("%v reset", s), func(t *mc.T) {
				for n := 0; n <= 130; n++ {
					h := sm3.New()
					for _, o := range s {
						if o == 6 {
							h.Sum(nil)
						} else {
							h.Write(msg[9 : 9+[]int{1, 55, 56, 63, 64, 65}[o]])
						}
					}
					h.Reset()
					mustWrite(t, h, msg[:n:n])
					w := memo.get(fmt.Sprintf("SM3/pattern/%d", n), func() []byte { return ref.SM3(msg[:n]) })
					if g := h.Sum(nil); !bytes.Equal(g, w) {
						t.Fail("len %d: got %x want %x", n, g, w)
					}
				}
				t.Outcome("%v", s)
			})
		})
	})
	r.Group("huge", "messages whose bit length crosses 2^32 (and 2^35 thorough): digests at every byte around the boundary, a reset afterwards, and the same length in one write", func(emit mc.Emit) {
		tops := []uint64{1 << 29}
		if r.Thorough() {
			tops = append(tops, 1<<32)
		}
		chunk := mc.Pattern(9, 1<<20)
		for _, top := range tops {
			top := top
			emit(fmt.Sprintf("bytes=%d", top), func(t *mc.T) {
				h := sm3.New()
				m := ref.NewSM3()
				var wg sync.WaitGroup
				wg.Add(2)
				n := top - 66
				feed := func(w func([]byte)) {
					defer wg.Done()
					var left = n
					for left > 0 {
						c := uint64(len(chunk))
						if c > left {
							c = left
						}
						w(chunk[:c])
						left -= c
					}
				}
				go feed(func(b []byte) { h.Write(b) })
				go feed(func(b []byte) { m.Write(b) })
				wg.Wait()
				for i := 0; i < 140; i++ {
					t.Eq(fmt.Sprintf("digest of %d bytes", m.Len()), h.Sum(nil), m.Sum())
					mustWrite(t, h, chunk[i:i+1])
					m.Write(chunk[i : i+1])
				}
				h.Reset()
				for i := 0; i < 130; i++ {
					m := ref.NewSM3()
					m.Write(chunk[:i])
					t.Eq(fmt.Sprintf("digest of %d bytes after the reset", i), h.Sum(nil), m.Sum())
					mustWrite(t, h, chunk[i:i+1])
				}
			})
			if top > uint64(^uint(0)>>2) {
				continue // no such buffer on a 32-bit platform
			}
			emit(fmt.Sprintf("bytes=%d in one write", top), func(t *mc.T) {
				b := make([]byte, top+7)
				for i := 0; i < len(b); i += len(chunk) {
					copy(b[i:], chunk)
				}
				h := sm3.New()
				m := ref.NewSM3()
				var wg sync.WaitGroup
				wg.Add(1)
				go func() { defer wg.Done(); m.Write(b) }()
				mustWrite(t, h, b)
				wg.Wait()
				t.Eq("digest", h.Sum(nil), m.Sum())
				mustWrite(t, h, b[:61])
				m.Write(b[:61])
				t.Eq("digest of 61 bytes more", h.Sum(nil), m.Sum())
			})
		}
	})
	runtime.GC()
}

const knownSM3Sum = "M02/sum-nonempty-in"

func m02(r *mc.Run) {
	msg := mc.Pattern(10, 4096)
	want := func(n int) []byte {
		return memo.get(fmt.Sprintf("m02/%d", n), func() []byte { return ref.SM3(msg[:n]) })
	}
	depth := r.Pick(5, 6)
	sz := []int{0, 1, 55, 63, 64, 65}
	r.Group("histories", fmt.Sprintf("every history of up to %d operations {write 0,1,55,63,64,65; Sum(nil); Sum(empty with spare capacity); Sum(3 byte prefix); Reset}", depth), func(emit mc.Emit) {
		mc.Seqs(10, depth, func(s []int) bool {
			return emit(fmt.Sprint(s), func(t *mc.T) {
				h := sm3.New()
				n := 0
				for _, o := range s {
					switch {
					case o < 6:
						mustWrite(t, h, msg[n:n+sz[o]:n+sz[o]])
						n += sz[o]
					case o == 6:
						t.Eq("Sum(nil)", h.Sum(nil), want(n))
					case o == 7:
						t.Eq("Sum(empty)", h.Sum(make([]byte, 0, 40)), want(n))
					case o == 8:
						in := []byte{7, 8, 9}
						h.Sum(in) // the value is judged in group append; here: it must not disturb the object
						if in[0] != 7 || in[1] != 8 || in[2] != 9 {
							t.Fail("Sum changed its argument")
						}
						t.Step(1)
					case o == 9:
						h.Reset()
						n = 0
					}
					t.State(fmt.Sprint(n))
				}
				t.Eq("final Sum", h.Sum(nil), want(n))
				t.Eq("final Sum again", h.Sum(nil), want(n))
				mustWrite(t, h, msg[n:n+9])
				t.Eq("after more", h.Sum(nil), want(n+9))
			})
		})
	})
	r.Group("writes", "Write result for every length 0..300 from every buffer fill 0..63", func(emit mc.Emit) {
		for f := 0; f < 64; f++ {
			f := f
			emit(fmt.Sprintf("fill=%d", f), func(t *mc.T) {
				for n := 0; n <= 300; n++ {
					h := sm3.New()
					mustWrite(t, h, msg[:f:f])
					mustWrite(t, h, msg[f:f+n:f+n])
				}
				t.Outcome("%d", f)
			})
		}
	})
	r.Group("append", "Sum onto prefixes of 0..70 bytes with 0..40 spare bytes, after messages of 0,1,55,56,63,64 bytes: digest appended, prefix kept, object unchanged", func(emit mc.Emit) {
		for plen := 0; plen <= 70; plen++ {
			plen := plen
			for slack := -1; slack <= 40; slack++ {
				slack := slack
				emit(fmt.Sprintf("prefix=%d spare=%d", plen, slack), func(t *mc.T) {
					known := ""
					for _, n := range []int{0, 1, 55, 56, 63, 64} {
						h := sm3.New()
						mustWrite(t, h, msg[:n:n])
						w := want(n)
						sl := slack
						if slack < 0 {
							sl = 0
						}
						sumShapes(t, h.Sum, plen, sl, slack < 0, w, func(in, got []byte) {
							full := append(append([]byte(nil), in...), w...)
							if bytes.Equal(got, full) {
								t.Observe(got)
								return
							}
							if len(in) > 0 && bytes.Equal(got, ref.SM3(append(append([]byte(nil), msg[:n]...), in...))) {
								known = fmt.Sprintf("Sum(in) with %d byte in after %d byte message returned SM3(message||in) alone", len(in), n)
								return
							}
							t.Fail("Sum(in): got %x want %x", got, full)
						})
						t.Eq("Sum(nil) after", h.Sum(nil), w)
					}
					if known != "" {
						t.FailSig(knownSM3Sum, "%s", known)
					}
				})
			}
		}
	})
}
