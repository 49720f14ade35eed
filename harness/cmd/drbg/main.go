// drbg decides D01 and D02 by exhausting bounded histories of the real
// generator against SP 800-90A CTR_DRBG written over crypto/aes.
package main

import (
	"bytes"
	"fmt"

	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/utils"

	"vh/mc"
	"vh/ref"
)

func main() {
	mc.Main(map[string]func(*mc.Run){
		"D01": both(func(r *mc.Run, path string) { d01(r, path); d02(r, path) }),
		"D02": both(d02),
	})
}

// both runs the check with and without the AES instructions.
func both(f func(r *mc.Run, path string)) func(*mc.Run) {
	return func(r *mc.Run) {
		real := utils.X86.HasAES
		if real {
			f(r, "aesni")
		} else {
			r.Note("this CPU has no AES instructions: only the portable path ran")
		}
		utils.X86.HasAES = false
		f(r, "portable")
		utils.X86.HasAES = real
	}
}

func initG(t *mc.T, g *drbg.CtrDrbg, e, p []byte) (ok bool) {
	t.Lend("entropy", e, func(e []byte) {
		t.Lend("personalization", p, func(p []byte) { ok = g.Init(e, p) })
	})
	t.Step(1)
	return ok
}

func reseedG(t *mc.T, g *drbg.CtrDrbg, e, a []byte) {
	t.Lend("entropy", e, func(e []byte) {
		t.Lend("additional data", a, func(a []byte) { g.Reseed(e, a) })
	})
	t.Step(1)
}

func readG(t *mc.T, g *drbg.CtrDrbg, n int, ad []byte) []byte {
	return t.Space("output", n, func(out []byte) {
		var m int
		var err error
		if ad == nil {
			m, err = g.Read(out)
		} else {
			t.Lend("additional data", ad, func(ad []byte) { m, err = g.ReadWithAdditionalData(out, ad) })
		}
		t.Step(1)
		if m != n || err != nil {
			t.Fail("read of %d bytes returned %d, %v", n, m, err)
		}
	})
}

var ent = mc.Pattern(20, 256)
var per = mc.Pattern(21, 256)

type op struct {
	kind string
	a, b int
}

var alphabet = []op{
	{"init", 32, 0}, {"init", 48, 48}, {"init", 40, 7}, {"badinit", 31, 3},
	{"reseed", 48, 0}, {"reseed", 32, 20}, {"reseed", 0, 0},
	{"read", 0, 0}, {"read", 1, 0}, {"read", 16, 0}, {"read", 17, 0}, {"read", 48, 0}, {"read", 79, 0},
	{"readad", 33, 16}, {"readad", 16, 48}, {"readad", 5, 60}, {"readad", 0, 1},
}

func apply(t *mc.T, g *drbg.CtrDrbg, m *ref.DRBG, o op, i int) {
	e, p := ent[i:i+o.a:i+o.a], per[i:i+o.b:i+o.b]
	switch o.kind {
	case "init":
		if !initG(t, g, e, p) {
			t.Fail("Init with %d bytes of entropy refused", o.a)
		}
		m.Init(e, p)
	case "badinit":
		if initG(t, g, e, p) {
			t.Fail("Init with %d bytes of entropy accepted on a generator of strength 256", o.a)
		}
	case "reseed":
		reseedG(t, g, e, p)
		m.Reseed(e, p)
	case "read":
		t.Eq(fmt.Sprintf("step %d read %d", i, o.a), readG(t, g, o.a, nil), m.Read(o.a, nil))
	case "readad":
		ad := per[i : i+o.b : i+o.b]
		t.Eq(fmt.Sprintf("step %d read %d with %d bytes of additional data", i, o.a, o.b), readG(t, g, o.a, ad), m.Read(o.a, ad))
	}
}

// forced returns a generator whose key and V have the given values and the model in the same state.
func forced(t *mc.T, key [32]byte, v [16]byte) (*drbg.CtrDrbg, *ref.DRBG) {
	seed := ref.ForceSeed(key, v)
	g, m := drbg.NewCtrDrbg(), &ref.DRBG{}
	if !g.Init(seed, nil) {
		t.Fail("Init refused")
	}
	m.Init(seed, nil)
	if m.Key != key || m.V != v {
		panic("model: forced state not reached")
	}
	return g, m
}

func key0() (k [32]byte) { copy(k[:], mc.Pattern(22, 32)); return }

// counterValues calls f with every V = high bytes, byte b, then k bytes 0xff, minus d.
func counterValues(r *mc.Run, f func(name string, v [16]byte)) {
	for k := 0; k <= 15; k++ {
		for b := 0; b < 256; b++ {
			for hi, h := range []byte{0x00, 0xff, 0x5a} {
				var v [16]byte
				for i := range v {
					switch {
					case i < 15-k:
						v[i] = h
					case i == 15-k:
						v[i] = byte(b)
					default:
						v[i] = 0xff
					}
				}
				for d := 0; d < 4; d++ {
					w := v
					for i := 0; i < d; i++ { // w = v - d
						for j := 15; j >= 0; j-- {
							w[j]--
							if w[j] != 0xff {
								break
							}
						}
					}
					f(fmt.Sprintf("ff-run=%d byte=%d high=%d minus=%d", k, b, hi, d), w)
				}
			}
		}
	}
}

func d01(r *mc.Run, path string) {
	uses := r.Pick(1<<16+300, 1<<20+300)
	r.Group(path+"/endurance", fmt.Sprintf("one generator used %d times in each of nine ways, every output against the model", uses), func(emit mc.Emit) {
		ways := [][]op{{{"read", 1, 0}}, {{"read", 16, 0}}, {{"read", 33, 0}}, {{"readad", 17, 5}}, {{"reseed", 48, 0}, {"read", 16, 0}}, {{"init", 48, 3}, {"read", 16, 0}},
			{{"badinit", 31, 0}, {"read", 5, 0}}, {{"reseed", 32, 9}, {"readad", 16, 48}, {"read", 0, 0}, {"read", 3, 0}, {"init", 32, 0}}, {{"read", 0, 0}}}
		for _, w := range ways {
			w := w
			emit(fmt.Sprint(w), func(t *mc.T) {
				g, m := drbg.NewCtrDrbg(), &ref.DRBG{}
				apply(t, g, m, alphabet[1], 0)
				for i := 0; i < uses/len(w); i++ {
					for _, o := range w {
						apply(t, g, m, o, i%100)
					}
				}
				t.Eq("at the end", readG(t, g, 40, nil), m.Read(40, nil))
			})
		}
	})
	depth := r.Pick(4, 5)
	r.Group(path+"/histories", fmt.Sprintf("an Init and then every history of up to %d operations over %d operations (instantiate, refused instantiate, reseed, generate, generate with additional input, of boundary sizes)", depth, len(alphabet)), func(emit mc.Emit) {
		for first := 0; first < 3; first++ {
			first := first
			mc.Seqs(len(alphabet), depth, func(s []int) bool {
				return emit(fmt.Sprintf("first=%d %v", first, s), func(t *mc.T) {
					g, m := drbg.NewCtrDrbg(), &ref.DRBG{}
					apply(t, g, m, alphabet[first], 0)
					for i, c := range s {
						apply(t, g, m, alphabet[c], i+1)
					}
					t.State(fmt.Sprintf("%x%x", m.Key[:4], m.V[:4]))
					t.Eq("final read", readG(t, g, 35, nil), m.Read(35, nil))
				})
			})
		}
	})
	r.Group(path+"/counters", "V forced to every value high|b|ff..ff minus 0..3 (all carry-chain lengths, through the wrap to zero), then generate 96 bytes, generate with additional input and generate again", func(emit mc.Emit) {
		counterValues(r, func(name string, v [16]byte) {
			emit(name, func(t *mc.T) {
				g, m := forced(t, key0(), v)
				t.Eq("read 96", readG(t, g, 96, nil), m.Read(96, nil))
				t.Eq("next read", readG(t, g, 20, nil), m.Read(20, nil))
				g, m = forced(t, key0(), v)
				ad := per[:48:48]
				t.Eq("read with additional data", readG(t, g, 50, ad), m.Read(50, ad))
				t.Eq("next read", readG(t, g, 20, nil), m.Read(20, nil))
				g, m = forced(t, key0(), v)
				reseedG(t, g, ent[:48:48], nil)
				m.Reseed(ent[:48], nil)
				t.Eq("read after reseed", readG(t, g, 20, nil), m.Read(20, nil))
				g, m = forced(t, key0(), v)
				t.Eq("partial read", readG(t, g, 39, nil), m.Read(39, nil))
				t.Eq("next read", readG(t, g, 20, nil), m.Read(20, nil))
				t.State(name)
			})
		})
	})
	r.Group(path+"/long-carry", "generate calls of 4096+{0,1,15} bytes and 65536 bytes from V ending in every low byte (65536 bytes: every multiple of 16), so that carries happen inside the block loop", func(emit mc.Emit) {
		for lo := 0; lo < 256; lo++ {
			lo := lo
			emit(fmt.Sprintf("low=%d", lo), func(t *mc.T) {
				for _, hi := range []byte{0, 0xfe, 0xff} {
					var v [16]byte
					for i := range v {
						v[i] = hi
					}
					v[15] = byte(lo)
					for _, n := range []int{4096, 4097, 4111} {
						g, m := forced(t, key0(), v)
						t.Eq("read", readG(t, g, n, nil), m.Read(n, nil))
						t.Eq("next", readG(t, g, 16, nil), m.Read(16, nil))
					}
				}
				if lo%16 == 0 {
					var v [16]byte
					v[13], v[14], v[15] = 0xff, 0xf8, byte(lo)
					g, m := forced(t, key0(), v)
					t.Eq("read", readG(t, g, 65536, nil), m.Read(65536, nil))
					t.Eq("next", readG(t, g, 16, nil), m.Read(16, nil))
				}
			})
		}
	})
	r.Group(path+"/seed-lengths", "every entropy and personalization length 0..64 at Init of a fresh generator and at Reseed, every additional-input length 0..96", func(emit mc.Emit) {
		for e := 0; e <= 64; e++ {
			e := e
			emit(fmt.Sprintf("entropy=%d", e), func(t *mc.T) {
				for p := 0; p <= 64; p++ {
					g, m := drbg.NewCtrDrbg(), &ref.DRBG{}
					if !initG(t, g, ent[:e:e], per[:p:p]) {
						t.Fail("fresh Init refused: entropy %d", e)
					}
					m.Init(ent[:e], per[:p])
					t.Eq("read", readG(t, g, 40, nil), m.Read(40, nil))
					reseedG(t, g, ent[3:3+e:3+e], per[5:5+p:5+p])
					m.Reseed(ent[3:3+e], per[5:5+p])
					t.Eq("read", readG(t, g, 40, nil), m.Read(40, nil))
					if e >= 32 {
						if !initG(t, g, ent[9:9+e:9+e], per[1:1+p:1+p]) {
							t.Fail("second Init refused: entropy %d", e)
						}
						m.Init(ent[9:9+e], per[1:1+p])
						t.Eq("read", readG(t, g, 40, nil), m.Read(40, nil))
					}
				}
			})
		}
		for a := 0; a <= 96; a++ {
			a := a
			emit(fmt.Sprintf("additional=%d", a), func(t *mc.T) {
				for _, n := range []int{0, 1, 15, 16, 17, 32, 33, 48, 100} {
					g, m := forced(t, key0(), [16]byte{1})
					t.Eq("read", readG(t, g, n, per[:a:a]), m.Read(n, per[:a]))
					t.Eq("next", readG(t, g, n, per[a:a+a:a+a]), m.Read(n, per[a:a+a]))
					t.Eq("next", readG(t, g, 40, nil), m.Read(40, nil))
				}
			})
		}
	})
	r.Group(path+"/one-bit-seeds", "every seed of 48 bytes with a single bit set (entropy, personalization, reseed entropy, reseed data, additional input), and every byte value at every position of the forced key", func(emit mc.Emit) {
		for b := 0; b < 384; b++ {
			b := b
			emit(fmt.Sprintf("bit=%d", b), func(t *mc.T) {
				s := make([]byte, 48)
				s[b/8] = 1 << uint(b%8)
				for v := 0; v < 5; v++ {
					g, m := drbg.NewCtrDrbg(), &ref.DRBG{}
					e, p := make([]byte, 48), []byte(nil)
					if v == 0 {
						e = s
					} else if v == 1 {
						p = s
					}
					initG(t, g, e, p)
					m.Init(e, p)
					switch v {
					case 2:
						reseedG(t, g, s, nil)
						m.Reseed(s, nil)
					case 3:
						reseedG(t, g, nil, s)
						m.Reseed(nil, s)
					case 4:
						t.Eq("read ad", readG(t, g, 16, s), m.Read(16, s))
					}
					t.Eq("read", readG(t, g, 33, nil), m.Read(33, nil))
				}
			})
		}
		for pos := 0; pos < 48; pos++ {
			pos := pos
			emit(fmt.Sprintf("state byte %d", pos), func(t *mc.T) {
				for x := 0; x < 256; x++ {
					k, v := key0(), [16]byte{}
					if pos < 32 {
						k[pos] = byte(x)
					} else {
						v[pos-32] = byte(x)
					}
					g, m := forced(t, k, v)
					t.Eq("read", readG(t, g, 33, nil), m.Read(33, nil))
					t.Eq("read", readG(t, g, 33, nil), m.Read(33, nil))
				}
			})
		}
	})
	r.Group(path+"/two-generators", "every interleaving of two generators' operations, up to 5 operations over {read 17, read with additional data, reseed} on each", func(emit mc.Emit) {
		ops := []op{{"read", 17, 0}, {"readad", 20, 9}, {"reseed", 48, 4}}
		mc.Seqs(6, 5, func(s []int) bool {
			return emit(fmt.Sprint(s), func(t *mc.T) {
				var g [2]*drbg.CtrDrbg
				var m [2]*ref.DRBG
				for i := range g {
					g[i], m[i] = drbg.NewCtrDrbg(), &ref.DRBG{}
					apply(t, g[i], m[i], op{"init", 48, 10 * i}, i)
				}
				for i, c := range s {
					apply(t, g[c/3], m[c/3], ops[c%3], i)
				}
				for i := range g {
					t.Eq("final", readG(t, g[i], 33, nil), m[i].Read(33, nil))
				}
			})
		})
	})
}

func d02(r *mc.Run, path string) {
	starts := [][16]byte{{}, {0xff, 15: 0xf0}, {}, {}}
	for i := range starts[2] {
		starts[2][i] = 0xff
	}
	for i := range starts[3] {
		starts[3][i] = 0xff
	}
	starts[3][15] = 0xfa
	top := r.Pick(600, 4200)
	r.Group(path+"/lengths", fmt.Sprintf("every request length 0..%d from four counter positions (including just before the wrap), with and without additional input: count, prefix of the longest request, nothing outside", top), func(emit mc.Emit) {
		for si, v := range starts {
			si, v := si, v
			for _, ad := range [][]byte{nil, per[:30:30]} {
				ad := ad
				g, _ := newForced(v)
				long := make([]byte, top+64)
				g.ReadWithAdditionalData(long, ad)
				for n := 0; n <= top; n++ {
					n := n
					emit(fmt.Sprintf("start=%d ad=%d n=%d", si, len(ad), n), func(t *mc.T) {
						g, m := forced(t, key0(), v)
						got := readG(t, g, n, ad)
						if !bytes.Equal(got, long[:n]) {
							t.Fail("request of %d bytes is not the prefix of a longer one: got %s want %s", n, mc.Hex(got), mc.Hex(long[:n]))
						}
						want := m.Read(n, ad)
						t.Eq("output", got, want)
						blocks := map[string]int{}
						for i := 0; i+16 <= n; i += 16 {
							if j, ok := blocks[string(got[i:i+16])]; ok {
								t.Fail("blocks %d and %d of the output are equal", j, i/16)
							}
							blocks[string(got[i:i+16])] = i / 16
						}
						if k := n % 16; k >= 8 {
							for b, j := range blocks {
								if b[:k] == string(got[n-k:]) {
									t.Fail("the trailing %d bytes repeat block %d", k, j)
								}
							}
						}
					})
				}
			}
		}
	})
	r.Group(path+"/large", "request lengths 2^k-1, 2^k, 2^k+1, 2^k+15 for k = 9..20 (24 thorough): count, prefix, all blocks distinct", func(emit mc.Emit) {
		topE := r.Pick(20, 24)
		for e := 9; e <= topE; e++ {
			for _, d := range []int{-1, 0, 1, 15} {
				n := 1<<uint(e) + d
				emit(fmt.Sprintf("n=%d", n), func(t *mc.T) {
					var v [16]byte
					v[14], v[15] = 0xff, 0xee
					g, m := forced(t, key0(), v)
					got := readG(t, g, n, nil)
					blocks := map[string]bool{}
					for i := 0; i+16 <= n; i += 16 {
						if blocks[string(got[i:i+16])] {
							t.Fail("block %d repeats an earlier one", i/16)
						}
						blocks[string(got[i:i+16])] = true
					}
					t.Eq("output", got, m.Read(n, nil))
				})
			}
		}
	})
	depth := r.Pick(3, 4)
	r.Group(path+"/refused-init", fmt.Sprintf("refused Init (entropy of every length 0..31, personalization 0, 5 or 60 bytes, once or twice) at every point of every history of up to %d operations leaves later outputs as without it", depth), func(emit mc.Emit) {
		ops := []op{{"read", 17, 0}, {"readad", 20, 9}, {"reseed", 48, 4}, {"init", 48, 0}}
		mc.Seqs(len(ops), depth, func(s []int) bool {
			return emit(fmt.Sprint(s), func(t *mc.T) {
				for at := 0; at <= len(s); at++ {
					for e := 0; e < 32; e++ {
						for _, p := range []int{0, 5, 60, -1} {
							if e%8 > 1 && p > 0 {
								continue
							}
							bad := func(g *drbg.CtrDrbg, m *ref.DRBG) {
								if p < 0 { // refused twice
									apply(t, g, m, op{"badinit", e, 0}, 6)
								}
								apply(t, g, m, op{"badinit", e, max(p, 0)}, 7)
							}
							g, m := drbg.NewCtrDrbg(), &ref.DRBG{}
							apply(t, g, m, op{"init", 48, 3}, 0)
							for i, c := range s {
								if i == at {
									bad(g, m)
								}
								apply(t, g, m, ops[c], i+1)
							}
							if at == len(s) {
								bad(g, m)
							}
							t.Eq("final", readG(t, g, 33, nil), m.Read(33, nil))
						}
					}
				}
			})
		})
	})
	r.Group(path+"/sequences", "every sequence of up to 4 requests with sizes {0,1,15,16,17,31,32,33,47,48,49}: no block of any output repeats in the whole history", func(emit mc.Emit) {
		sz := []int{0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49}
		mc.Seqs(len(sz), 4, func(s []int) bool {
			return emit(fmt.Sprint(s), func(t *mc.T) {
				g, m := forced(t, key0(), starts[3])
				blocks := map[string]bool{}
				for _, c := range s {
					got := readG(t, g, sz[c], nil)
					t.Eq("output", got, m.Read(sz[c], nil))
					for i := 0; i+16 <= len(got); i += 16 {
						if blocks[string(got[i:i+16])] {
							t.Fail("a block repeats")
						}
						blocks[string(got[i:i+16])] = true
					}
					t.State(fmt.Sprintf("%x", m.V))
				}
			})
		})
	})
}

func newForced(v [16]byte) (*drbg.CtrDrbg, *ref.DRBG) {
	seed := ref.ForceSeed(key0(), v)
	g, m := drbg.NewCtrDrbg(), &ref.DRBG{}
	g.Init(seed, nil)
	m.Init(seed, nil)
	return g, m
}
