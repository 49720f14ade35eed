// Checks C01 to C04 on the exported API of dh/csidh.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"sync"

	"github.com/henrydcase/nobs/dh/csidh"

	"vh/env"
	"vh/mc"
	"vh/ref"
)

func main() {
	mc.Main(map[string]func(*mc.Run){"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05})
}

type vec = []int

func unit(i, n int) vec { e := make(vec, 74); e[i] = n; return e }
func neg(e vec) vec {
	o := make(vec, 74)
	for i := range e {
		o[i] = -e[i]
	}
	return o
}
func add(a, b vec) vec {
	o := make(vec, 74)
	for i := range a {
		o[i] = a[i] + b[i]
	}
	return o
}

// short form of an exponent vector
func name(e vec) string {
	s := ""
	for i, v := range e {
		if v != 0 {
			s += fmt.Sprintf("%d^%+d ", ref.CPrimes[i], v)
		}
	}
	if len(s) > 60 {
		return "key " + fmt.Sprintf("%x", ref.CKey(e))
	}
	if s == "" {
		return "zero"
	}
	return s[:len(s)-1]
}

// usedPub returns a new public key object, or one that held another key.
func usedPub(t *mc.T) *csidh.PublicKey {
	k := new(csidh.PublicKey)
	if t.Used() {
		k.Import(bytes.Repeat([]byte{0xFD}, 64))
	}
	return k
}

// usedPrv returns a new private key object, or one that held another key.
func usedPrv(t *mc.T) *csidh.PrivateKey {
	k := new(csidh.PrivateKey)
	if t.Used() {
		k.Import(bytes.Repeat([]byte{0xC5, 0x3B, 0x1F}, 13))
	}
	return k
}

func prv(t *mc.T, e vec) *csidh.PrivateKey {
	k := usedPrv(t)
	t.Lend("private key import", ref.CKey(e), func(b []byte) {
		if !k.Import(b) {
			t.Fail("private key %x refused", b)
		}
	})
	return k
}

func pubOf(t *mc.T, b []byte) *csidh.PublicKey {
	k := usedPub(t)
	t.Lend("public key import", b, func(b []byte) {
		if !k.Import(b) {
			t.Fail("public key %x refused", b)
		}
	})
	return k
}

func export(t *mc.T, k *csidh.PublicKey) []byte {
	return t.Space("public key export", 64, func(out []byte) {
		if !k.Export(out) {
			t.Fail("public key not exported")
		}
	})
}

func exportPrv(t *mc.T, k *csidh.PrivateKey) []byte {
	return t.Space("private key export", 37, func(out []byte) {
		if !k.Export(out) {
			t.Fail("private key not exported")
		}
	})
}

func gen(t *mc.T, e vec, rng io.Reader) []byte {
	k, p := prv(t, e), usedPub(t)
	csidh.GeneratePublicKey(p, k, rng)
	t.Step(1)
	return export(t, p)
}

func derive(t *mc.T, pub []byte, e vec, rng io.Reader) []byte {
	var out [64]byte
	if t.Used() {
		copy(out[:], mc.Pattern(8, 64))
	}
	if !csidh.DeriveSecret(&out, pubOf(t, pub), prv(t, e), rng) {
		t.Fail("valid public key %x refused when deriving with %s", pub, name(e))
	}
	t.Step(1)
	return out[:]
}

var zero64 = make([]byte, 64)

// dense returns structured keys that use every prime.
func dense(n int) (out []vec) {
	f := func(g func(i int) int) {
		e := make(vec, 74)
		for i := range e {
			e[i] = g(i)
		}
		out = append(out, e)
	}
	f(func(i int) int { return i%11 - 5 })
	f(func(i int) int { return 5 })
	f(func(i int) int { return -5 })
	f(func(i int) int { return 5 - 10*(i%2) })
	f(func(i int) int { return (i * 7 % 11) - 5 })
	f(func(i int) int { return 1 })
	f(func(i int) int { return -1 })
	f(func(i int) int { return (i % 3) - 1 })
	f(func(i int) int {
		if i < 37 {
			return 3
		}
		return 0
	})
	f(func(i int) int {
		if i < 37 {
			return 0
		}
		return -3
	})
	f(func(i int) int { return []int{0, 0, 0, 5}[i%4] })
	f(func(i int) int { return []int{-4, 2}[i&1] })
	b := mc.Pattern(77, 74*64)
	for k := 0; len(out) < n; k++ {
		f(func(i int) int { return int(b[(k*74+i)%len(b)])%11 - 5 })
	}
	return out[:n]
}

func c01(r *mc.Run) {
	r.Group("commuting-pairs", "every pair of primes (i<j) and both relative signs: a then b, b then a and the key a+b reach the same curve", func(emit mc.Emit) {
		for d := 1; d < 74; d++ {
			for i := 0; i+d < 74; i++ {
				for _, s := range []int{1, -1} {
					if !r.Thorough() && d > 12 && (i+d)%4 != 0 {
						continue
					}
					a, b := unit(i, 1), unit(i+d, s)
					emit(fmt.Sprintf("%d*%+d", ref.CPrimes[i], s*int(ref.CPrimes[i+d])), func(t *mc.T) {
						rng := env.New(1)
						pa, pb := gen(t, a, rng), gen(t, b, rng)
						ab, ba := derive(t, pb, a, rng), derive(t, pa, b, rng)
						t.Eq("secret of the two parties", ab, ba)
						t.Eq("key with both exponents", gen(t, add(a, b), rng), ab)
						t.State(name(a))
						t.State(name(b))
						t.State(name(add(a, b)))
					})
				}
			}
		}
	})
	r.Group("inverse", "every prime, exponent 1..5 and sign, and dense keys: the key and then its negation return to the start", func(emit mc.Emit) {
		var ks []vec
		for i := 0; i < 74; i++ {
			for n := 1; n <= 5; n++ {
				if !r.Thorough() && n != 1 && (n+i)%4 != 1 {
					continue
				}
				ks = append(ks, unit(i, n), unit(i, -n))
			}
		}
		ks = append(ks, dense(r.Pick(12, 60))...)
		for _, e := range ks {
			e := e
			emit(name(e), func(t *mc.T) {
				rng := env.New(2)
				t.Eq("back at the start", derive(t, gen(t, e, rng), neg(e), rng), zero64)
				t.State(name(e))
			})
		}
	})
	r.Group("words", "every word of steps over an alphabet of six one-prime keys up to the depth: the curve depends only on the exponent sum", func(emit mc.Emit) {
		al := []vec{unit(0, 1), unit(0, -1), unit(1, 1), unit(36, -1), unit(73, 1), unit(73, -1)}
		var mu sync.Mutex
		seen := map[string][]byte{}
		mc.Seqs(len(al), r.Pick(3, 5), func(s []int) bool {
			return emit(fmt.Sprint(s), func(t *mc.T) {
				rng := env.New(3)
				sum := make(vec, 74)
				cur := zero64
				for _, k := range s {
					cur = derive(t, cur, al[k], rng)
					sum = add(sum, al[k])
				}
				t.State(name(sum))
				mu.Lock()
				w := seen[name(sum)]
				mu.Unlock()
				if w == nil {
					w = gen(t, sum, rng) // the sum as one key
					mu.Lock()
					seen[name(sum)] = w
					mu.Unlock()
				}
				t.Eq("word against exponent sum", cur, w)
			})
		})
	})
	r.Group("dense-agreement", "every pair of structured dense keys, public keys passing through export and import", func(emit mc.Emit) {
		ks := dense(r.Pick(12, 40))
		for i := range ks {
			for j := 0; j <= i; j++ {
				a, b := ks[i], ks[j]
				if !r.Thorough() && (i+j)%2 == 0 && i > 4 {
					continue
				}
				emit(fmt.Sprintf("%d,%d", i, j), func(t *mc.T) {
					rng := env.New(4)
					pa, pb := gen(t, a, rng), gen(t, b, rng)
					ab := derive(t, pb, a, rng)
					t.Eq("secret of the two parties", derive(t, pa, b, rng), ab)
					if ref.CInRange(add(a, b)) {
						t.Eq("sum", gen(t, add(a, b), rng), ab)
					}
				})
			}
		}
	})
	r.Group("generated-keys", "keys generated from every enumerated stream: agreement and additivity of one further step", func(emit mc.Emit) {
		for i := 0; i < r.Pick(12, 200); i++ {
			i := i
			emit(fmt.Sprint(i), func(t *mc.T) {
				rng := env.New(100 + i)
				ka, kb, pa, pb := usedPrv(t), usedPrv(t), usedPub(t), usedPub(t)
				if csidh.GeneratePrivateKey(ka, rng) != nil || csidh.GeneratePrivateKey(kb, rng) != nil {
					t.Fail("generation failed")
				}
				csidh.GeneratePublicKey(pa, ka, rng)
				csidh.GeneratePublicKey(pb, kb, rng)
				var s1, s2 [64]byte
				if !csidh.DeriveSecret(&s1, pa, kb, rng) || !csidh.DeriveSecret(&s2, pb, ka, rng) {
					t.Fail("valid key refused")
				}
				t.Eq("secrets", s1[:], s2[:])
				st := unit(i%74, 1)
				t.Eq("step commutes", derive(t, derive(t, export(t, pa), st, rng), ref.CUnkey(exportPrv(t, kb)), rng),
					derive(t, s1[:], st, rng))
			})
		}
	})
}

var (
	memoMu sync.Mutex
	memo   = map[string]*big.Int{}
)

// action is ref.CAction memoized on single exponent growth.
func action(a *big.Int, e vec) *big.Int {
	key := a.String() + name(e) + fmt.Sprintf("%x", ref.CKey(e))
	memoMu.Lock()
	v := memo[key]
	memoMu.Unlock()
	if v != nil {
		return v
	}
	v = ref.CAction(a, e)
	memoMu.Lock()
	memo[key] = v
	memoMu.Unlock()
	return v
}

var e0 = new(big.Int)

// walked is a curve with no structure.
func walked() *big.Int {
	e := make(vec, 74)
	for i := range e {
		e[i] = (i*i)%3 - 1
	}
	return action(e0, e)
}

// letters are the adversarial answers to a request for a random field element, for the curve a.
func letters(a *big.Int) (names []string, vals [][]byte) {
	put := func(n string, b []byte) { names = append(names, n); vals = append(vals, b) }
	raw := func(n string, v *big.Int) { put(n, ref.PutLE(v, 64)) }
	p := ref.CP
	one := big.NewInt(1)
	raw("ones", new(big.Int).Sub(new(big.Int).Lsh(one, 512), one))
	raw("p", p)
	raw("p-1", new(big.Int).Sub(p, one))
	raw("0", e0)
	raw("top|0", new(big.Int).Lsh(one, 511))
	put("x=1", ref.CEnc(one))
	put("x=-1", ref.CEnc(new(big.Int).Sub(p, one)))
	put("x=-A", ref.CEnc(new(big.Int).Mod(new(big.Int).Neg(a), p)))
	for _, s := range []int{1, -1} {
		for _, i := range []int{0, 1, 73} {
			put(fmt.Sprintf("order%d%+d", ref.CPrimes[i], s), ref.CEnc(ref.CTorsion(a, big.NewInt(ref.CPrimes[i]), nil, s, 0)))
		}
		put(fmt.Sprintf("order15%+d", s), ref.CEnc(ref.CTorsion(a, big.NewInt(15), []int64{3, 5}, s, 0)))
		// a point without its part of order 3, and one without that of order 587
		for _, l := range []int64{3, 587} {
			n := new(big.Int).Add(p, one)
			n.Div(n, big.NewInt(l))
			put(fmt.Sprintf("no%d%+d", l, s), ref.CEnc(ref.CTorsion(a, n, nil, s, 1)))
		}
	}
	return
}

func actionRng(r *mc.Run, who string, depth int) {
	keys := []vec{make(vec, 74), unit(0, 1), unit(73, -1), unit(0, -2), add(unit(0, 1), unit(1, -1)),
		add(add(unit(0, 1), unit(1, 1)), add(unit(73, 1), unit(4, -1)))}
	r.Group("rng-"+who, fmt.Sprintf("every sequence of up to %d adversarial answers followed by a healthy stream, for each key and start curve, against the model", depth), func(emit mc.Emit) {
		for ci, a := range []*big.Int{e0, walked()} {
			ns, vs := letters(a)
			for ki, e := range keys {
				if who == "two" && ki != 1 && ki != 4 {
					continue
				}
				a, e, ci := a, e, ci
				f := func(s []int) bool {
					key := fmt.Sprintf("curve%d %s:", ci, name(e))
					var pre []byte
					for _, k := range s {
						key += " " + ns[k]
						pre = append(pre, vs[k]...)
					}
					return emit(key, func(t *mc.T) {
						want := ref.CEnc(action(a, e))
						rng := env.With(5, pre)
						rng.Horizon = 1 << 18
						if ci == 0 {
							t.Eq("public key", gen(t, e, rng), want)
							rng = env.With(5, pre)
						}
						t.Eq("secret", derive(t, ref.CEnc(a), e, rng), want)
						t.State(fmt.Sprintf("%d %s", ci, name(e)))
					})
				}
				if who == "two" {
					mc.SeqsN(len(ns), depth, f)
				} else {
					mc.Seqs(len(ns), depth, f)
				}
				// the answer right after validation has consumed one healthy element
				for k := range ns {
					k := k
					emit(fmt.Sprintf("curve%d %s: healthy %s", ci, name(e), ns[k]), func(t *mc.T) {
						h := env.New(6).Bytes(64)
						h[63] = 0x2a
						pre := append(append(append([]byte{}, h...), vs[k]...), vs[k]...)
						t.Eq("secret", derive(t, ref.CEnc(a), e, env.With(7, pre)), ref.CEnc(action(a, e)))
					})
				}
			}
		}
	})
}

func c02(r *mc.Run) {
	r.Group("steps", "every prime and sign from the start curve and from an unstructured curve, against the model", func(emit mc.Emit) {
		for i := 0; i < 74; i++ {
			for _, s := range []int{1, -1} {
				e := unit(i, s)
				emit("E0 "+name(e), func(t *mc.T) {
					t.Eq("public key", gen(t, e, env.New(8)), ref.CEnc(action(e0, e)))
					t.State(name(e))
				})
				emit("E1 "+name(e), func(t *mc.T) {
					t.Eq("secret", derive(t, ref.CEnc(walked()), e, env.New(9)), ref.CEnc(action(walked(), e)))
					t.State("E1" + name(e))
				})
			}
		}
	})
	r.Group("powers", "every prime with exponents +-2..5", func(emit mc.Emit) {
		for i := 0; i < 74; i++ {
			for n := 2; n <= 5; n++ {
				for _, s := range []int{1, -1} {
					if !r.Thorough() && (n+i)%2 == 0 {
						continue
					}
					e := unit(i, n*s)
					emit(name(e), func(t *mc.T) {
						t.Eq("public key", gen(t, e, env.New(10)), ref.CEnc(ref.CAction(e0, e)))
						t.State(name(e))
					})
				}
			}
		}
	})
	r.Group("pairs", "pairs of primes in one key, four sign combinations", func(emit mc.Emit) {
		for d := 1; d < 74; d++ {
			if !r.Thorough() && d > 2 && d != 73 && d != 37 {
				continue
			}
			for i := 0; i+d < 74; i++ {
				for s := 0; s < 4; s++ {
					e := add(unit(i, 1-2*(s&1)), unit(i+d, 1-(s&2)))
					emit(name(e), func(t *mc.T) {
						t.Eq("public key", gen(t, e, env.New(11)), ref.CEnc(ref.CAction(e0, e)))
						t.State(name(e))
					})
				}
			}
		}
	})
	r.Group("dense", "structured keys using every prime", func(emit mc.Emit) {
		for i, e := range dense(r.Pick(16, 60)) {
			e := e
			emit(fmt.Sprint(i), func(t *mc.T) {
				w := ref.CAction(e0, e)
				got := gen(t, e, env.New(12))
				t.Eq("public key", got, ref.CEnc(w))
				t.State(name(e))
				for k := 0; k < 3; k++ {
					t.Eq("independent of the stream", gen(t, e, env.New(13+k)), got)
				}
			})
		}
	})
	r.Group("published", "published vectors, by the code and (the first ones) by the model", func(emit mc.Emit) {
		for i, v := range ref.CKATs() {
			emit(fmt.Sprint(i), func(t *mc.T) {
				e := ref.CUnkey(v[0])
				t.Eq("public key", gen(t, e, env.New(12+i)), v[1])
				t.Eq("secret", derive(t, v[2], e, env.New(30+i)), v[3])
				if i < r.Pick(2, 10) {
					t.Eq("model's public key", ref.CEnc(ref.CAction(e0, e)), v[1])
					t.Eq("model's secret", ref.CEnc(ref.CAction(ref.CDec(v[2]), e)), v[3])
				}
				t.State(name(e))
			})
		}
	})
	actionRng(r, "all", 1)
	actionRng(r, "two", r.Pick(2, 3))
	keys := []vec{make(vec, 74), unit(0, 1), unit(73, -1), add(unit(2, 2), unit(5, -1))}
	r.Group("short-reads", "every read-size pattern of the alphabet", func(emit mc.Emit) {
		for _, c := range [][]int{{1}, {2}, {7}, {63}, {64}, {65}, {1, 63}, {63, 1}, {0, 64}, {0, 1}, {0, 0, 5}, {32}, {33, 31}, {31, 32, 1}} {
			for _, e := range keys {
				c, e := c, e
				emit(fmt.Sprint(c, name(e)), func(t *mc.T) {
					rng := env.New(20)
					rng.Chunks = c
					w := ref.CEnc(action(e0, e))
					t.Eq("public key", gen(t, e, rng), w)
					t.Eq("secret", derive(t, zero64, e, rng), w)
				})
			}
		}
	})
	r.Group("faults", "the source fails at every enumerated byte position of a run, with and without the last bytes: no result may come out", func(emit mc.Emit) {
		ks := append(keys, dense(1)...)
		for ki, e := range ks {
			for _, op := range []string{"public", "secret"} {
				e, op := e, op
				do := func(rng *env.Rand) (out []byte, ok bool, p string) {
					k := new(csidh.PrivateKey)
					k.Import(ref.CKey(e))
					var o [64]byte
					copy(o[:], mc.Pattern(9, 64))
					if op == "public" {
						var pk csidh.PublicKey
						p = mc.Panics(func() { csidh.GeneratePublicKey(&pk, k, rng) })
						pk.Export(o[:])
						return o[:], p == "", p
					}
					var pk csidh.PublicKey
					pk.Import(zero64)
					p = mc.Panics(func() { ok = csidh.DeriveSecret(&o, &pk, k, rng) })
					return o[:], ok, p
				}
				probe := env.New(21)
				do(probe)
				n := probe.Pos
				for blk := 0; blk < n/64+1; blk++ {
					if ki == len(ks)-1 && blk > 3 && blk < n/64-3 && !r.Thorough() {
						continue
					}
					for _, off := range []int{0, 1, 32, 63} {
						for _, we := range []bool{false, true} {
							at := blk*64 + off
							if at >= n {
								continue
							}
							we := we
							for _, er := range []error{env.ErrSource, io.EOF, io.ErrUnexpectedEOF} {
								er := er
								emit(fmt.Sprintf("%s %s at=%d with=%v %v", op, name(e), at, we, er), func(t *mc.T) {
									rng := env.New(21)
									rng.FailAt, rng.WithErr, rng.Err = at, we, er
									out, ok, p := do(rng)
									t.Step(1)
									t.Outcome("%s %v", p, ok)
									if ok {
										t.Fail("a result was produced although the random source failed at byte %d of %d", at, n)
									}
									if op == "secret" && !bytes.Equal(out, mc.Pattern(9, 64)) {
										t.Fail("output written although the random source failed")
									}
								})
							}
						}
					}
				}
			}
		}
	})
	uses := r.Pick(270, 1100)
	if r.Long() {
		r.Group("endurance", fmt.Sprintf("one private key and public key object used %d times in each of four ways, against the model", uses), func(emit mc.Emit) {
			e := unit(73, 1)
			for way := 0; way < 4; way++ {
				way := way
				emit([]string{"walk", "same secret", "public key", "validate"}[way], func(t *mc.T) {
					rng := env.New(23)
					k := prv(t, e)
					var pk csidh.PublicKey
					pk.Import(zero64)
					cur := e0
					var out [64]byte
					n := uses
					if way == 0 && !r.Thorough() {
						n = 80 // each step has its own model value
					}
					for i := 0; i < n; i++ {
						switch way {
						case 0:
							if !csidh.DeriveSecret(&out, &pk, k, rng) || !pk.Import(out[:]) {
								t.Fail("use %d refused", i)
							}
							cur = action(cur, e)
							t.Eq("curve", out[:], ref.CEnc(cur))
						case 1:
							if !csidh.DeriveSecret(&out, &pk, k, rng) {
								t.Fail("use %d refused", i)
							}
							t.Eq("secret", out[:], ref.CEnc(action(e0, e)))
						case 2:
							csidh.GeneratePublicKey(&pk, k, rng)
							t.Eq("public key", export(t, &pk), ref.CEnc(action(e0, e)))
						case 3:
							if !csidh.Validate(&pk, rng) {
								t.Fail("use %d refused", i)
							}
						}
						t.Step(1)
					}
					t.Eq("private key object", exportPrv(t, k), ref.CKey(e))
				})
			}
		})
	}
	r.Group("objects", "every history of operations on shared key objects up to the depth: results follow the model, inputs stay unchanged", func(emit mc.Emit) {
		ea, eb := add(unit(0, 1), unit(3, -1)), unit(73, 1)
		mc.Seqs(6, r.Pick(3, 5), func(s []int) bool {
			return emit(fmt.Sprint(s), func(t *mc.T) {
				rng := env.New(22)
				ks := [2]*csidh.PrivateKey{prv(t, ea), prv(t, eb)}
				es := [2]vec{ea, eb}
				var pubs [2]csidh.PublicKey
				cur := [2]*big.Int{e0, e0}
				for _, op := range s {
					k, o := op&1, op&1
					switch op >> 1 {
					case 0: // regenerate public key o
						csidh.GeneratePublicKey(&pubs[o], ks[k], rng)
						cur[o] = action(e0, es[k])
					case 1: // secret from the other's public key
						var out [64]byte
						if !csidh.DeriveSecret(&out, &pubs[1-o], ks[k], rng) {
							t.Fail("refused")
						}
						t.Eq("secret", out[:], ref.CEnc(action(cur[1-o], es[k])))
					case 2: // the secret becomes the other's key
						var out [64]byte
						if !csidh.DeriveSecret(&out, &pubs[o], ks[k], rng) || !pubs[1-o].Import(out[:]) {
							t.Fail("refused")
						}
						cur[1-o] = action(cur[o], es[k])
					}
					for i := range pubs {
						t.Eq("public key object", export(t, &pubs[i]), ref.CEnc(cur[i]))
						t.Eq("private key object", exportPrv(t, ks[i]), ref.CKey(es[i]))
					}
					t.State(cur[0].String() + cur[1].String())
				}
			})
		})
	})
}

func c03(r *mc.Run) {
	verdict := func(t *mc.T, enc []byte, rng func() *env.Rand) {
		v := ref.LE(enc)
		want := v.Cmp(ref.CP) < 0 && ref.CSupersingular(ref.CDec(enc))
		pk := pubOf(t, enc)
		got := csidh.Validate(pk, rng())
		t.Step(1)
		t.Outcome("%v %x", got, enc)
		if got != want {
			t.Fail("Validate(%x) = %v, want %v", enc, got, want)
		}
		t.Eq("validated key", export(t, pk), enc)
		out := [64]byte{}
		copy(out[:], mc.Pattern(5, 64))
		k := prv(t, unit(0, 1))
		ok := csidh.DeriveSecret(&out, pk, k, rng())
		t.Step(1)
		if ok != want {
			t.Fail("DeriveSecret from %x = %v, want %v", enc, ok, want)
		}
		if !want && !bytes.Equal(out[:], mc.Pattern(5, 64)) {
			t.Fail("output written for an invalid public key")
		}
		if want {
			t.Eq("secret", out[:], ref.CEnc(action(ref.CDec(enc), unit(0, 1))))
		}
	}
	healthy := func() *env.Rand { return env.New(30) }
	var valid []*big.Int
	valid = append(valid, e0, walked())
	for _, e := range []vec{unit(0, 1), unit(73, -1), unit(36, 2), dense(1)[0]} {
		valid = append(valid, action(e0, e))
	}
	r.Group("bit-flips", "every one-bit change of the encodings of valid keys", func(emit mc.Emit) {
		for i, a := range valid[:r.Pick(3, len(valid))] {
			for b := 0; b < 512; b++ {
				enc := ref.CEnc(a)
				enc[b/8] ^= 1 << uint(b%8)
				emit(fmt.Sprintf("key%d bit%d", i, b), func(t *mc.T) { verdict(t, enc, healthy) })
			}
		}
	})
	r.Group("boundary", "encodings around 0, p, 2^511 and 2^512, the coefficients -64..64 and their raw forms, one-bit values, p minus one-bit values, and valid keys negated or shifted by p", func(emit mc.Emit) {
		p := ref.CP
		top := new(big.Int).Lsh(big.NewInt(1), 512)
		put := func(n string, v *big.Int) {
			if v.Sign() < 0 || v.Cmp(top) >= 0 {
				return
			}
			enc := ref.PutLE(v, 64)
			emit(n, func(t *mc.T) { verdict(t, enc, healthy) })
		}
		h := r.Pick(24, 300)
		for d := -h; d <= h; d++ {
			bd := big.NewInt(int64(d))
			put(fmt.Sprintf("raw%+d", d), bd)
			put(fmt.Sprintf("p%+d", d), new(big.Int).Add(p, bd))
			put(fmt.Sprintf("2^512%+d", d), new(big.Int).Add(top, bd))
			put(fmt.Sprintf("2^511%+d", d), new(big.Int).Add(new(big.Int).Rsh(top, 1), bd))
			put(fmt.Sprintf("A=%+d", d), ref.LE(ref.CEnc(new(big.Int).Mod(bd, p))))
			put(fmt.Sprintf("2p%+d", d), new(big.Int).Add(new(big.Int).Lsh(p, 1), bd))
		}
		for i := uint(0); i < 512; i++ {
			b := new(big.Int).Lsh(big.NewInt(1), i)
			if r.Thorough() || i%4 == 0 || i%64 == 63 {
				put(fmt.Sprintf("2^%d", i), b)
				put(fmt.Sprintf("p-2^%d", i), new(big.Int).Sub(p, b))
				put(fmt.Sprintf("p+2^%d", i), new(big.Int).Add(p, b))
			}
		}
		for i, a := range valid {
			na := new(big.Int).Mod(new(big.Int).Neg(a), p)
			for n, v := range map[string]*big.Int{"key": a, "twist": na} {
				m := ref.LE(ref.CEnc(v))
				put(fmt.Sprintf("%s%d", n, i), m)
				put(fmt.Sprintf("%s%d+p", n, i), new(big.Int).Add(m, p))
				put(fmt.Sprintf("%s%d-raw", n, i), v)
				put(fmt.Sprintf("%s%d+1", n, i), new(big.Int).Add(m, big.NewInt(1)))
				put(fmt.Sprintf("%s%d*2", n, i), new(big.Int).Lsh(m, 1))
			}
		}
		for limb := 0; limb < 8; limb++ { // one limb of p replaced
			for _, w := range []uint64{0, 1, ^uint64(0), 1 << 63} {
				b := ref.PutLE(p, 64)
				for k := 0; k < 8; k++ {
					b[limb*8+k] = byte(w >> uint(8*k))
				}
				emit(fmt.Sprintf("p-limb%d=%x", limb, w), func(t *mc.T) { verdict(t, b, healthy) })
				c := append([]byte{}, b...)
				if c[0]++; c[0] != 0 {
					emit(fmt.Sprintf("p-limb%d=%x+1", limb, w), func(t *mc.T) { verdict(t, c, healthy) })
				}
			}
		}
	})
	r.Group("walks", "the curve reached by every single step is accepted, its neighbour encodings are not", func(emit mc.Emit) {
		for i := 0; i < 74; i++ {
			for _, s := range []int{1, -1} {
				e := unit(i, s)
				emit(name(e), func(t *mc.T) {
					enc := ref.CEnc(action(e0, e))
					verdict(t, enc, healthy)
				})
			}
		}
	})
	// ordinary curves with an x-coordinate of order 3 chosen: A=(1-6x^2-3x^4)/(4x^3)
	ord3 := func(x int64) (*big.Int, *big.Int) {
		p := ref.CP
		bx := big.NewInt(x)
		x2 := new(big.Int).Mul(bx, bx)
		n := new(big.Int).Sub(big.NewInt(1), new(big.Int).Mul(big.NewInt(6), x2))
		n.Sub(n, new(big.Int).Mul(big.NewInt(3), new(big.Int).Mul(x2, x2)))
		d := new(big.Int).Mul(big.NewInt(4), new(big.Int).Mul(x2, bx))
		n.Mul(n, d.ModInverse(d, p))
		return n.Mod(n, p), bx
	}
	r.Group("rng", "every sequence of adversarial answers up to the depth while validating valid and invalid curves (including ordinary curves with points of order 3 and 4)", func(emit mc.Emit) {
		depth := r.Pick(1, 2)
		type cv struct {
			n string
			a *big.Int
			x *big.Int
		}
		var cs []cv
		for i, a := range valid[:3] {
			cs = append(cs, cv{fmt.Sprint("valid", i), a, nil})
		}
		for _, x := range []int64{2, 3, 5, 7} {
			a, bx := ord3(x)
			cs = append(cs, cv{fmt.Sprint("ord3-", x), a, bx})
		}
		for _, a := range []int64{1, 3, 6, -1, 17} {
			cs = append(cs, cv{fmt.Sprint("A=", a), new(big.Int).Mod(big.NewInt(a), ref.CP), nil})
		}
		for _, c := range cs {
			c := c
			var ns []string
			var vs [][]byte
			if c.n[0] == 'v' {
				ns, vs = letters(c.a)
			} else {
				ns0, vs0 := letters(e0)
				ns, vs = ns0[:8], vs0[:8]
				if c.x != nil {
					ns = append(ns, "order3")
					vs = append(vs, ref.CEnc(c.x))
					ix := new(big.Int).ModInverse(c.x, ref.CP)
					ns = append(ns, "1/order3")
					vs = append(vs, ref.CEnc(ix))
				}
			}
			mc.Seqs(len(ns), depth+1, func(s []int) bool {
				if len(s) == depth+1 && s[0] < 5 {
					return true // the rejected answers are covered at the smaller depth
				}
				key := c.n + ":"
				var pre []byte
				for _, k := range s {
					key += " " + ns[k]
					pre = append(pre, vs[k]...)
				}
				return emit(key, func(t *mc.T) {
					verdict(t, ref.CEnc(c.a), func() *env.Rand { q := env.With(31, pre); q.Horizon = 1 << 17; return q })
				})
			})
		}
	})
	r.Group("faults", "the source fails at every enumerated byte: no verdict of validity and no secret", func(emit mc.Emit) {
		for i, a := range valid[:3] {
			for _, at := range []int{0, 1, 31, 63} {
				a, at := a, at
				emit(fmt.Sprintf("key%d at=%d", i, at), func(t *mc.T) {
					rng := env.New(32)
					rng.FailAt = at
					var ok bool
					p := mc.Panics(func() { ok = csidh.Validate(pubOf(t, ref.CEnc(a)), rng) })
					t.Step(1)
					t.Outcome("%s %v", p, ok)
					if p == "" && ok {
						t.Fail("accepted without randomness")
					}
				})
			}
		}
	})
}

// model of private key generation: bytes in [-5,5] accepted in order.
func keyModel(stream func(i int) byte) (key []byte, used int) {
	key = make([]byte, 37)
	n := 0
	for i := 0; n < 74; i++ {
		if i > 1<<20 {
			return nil, i
		}
		if v := int8(stream(i)); v >= -5 && v <= 5 {
			key[n>>1] |= (byte(v) & 15) << uint(4*(n&1))
			n++
		}
		used = i + 1
	}
	return
}

func c04(r *mc.Run) {
	genKey := func(t *mc.T, k *csidh.PrivateKey, rng *env.Rand) {
		need := env.With(rng.Seed, rng.Prefix)
		buf := need.Bytes(1 << 14)
		want, used := keyModel(func(i int) byte { return buf[i] })
		err := csidh.GeneratePrivateKey(k, rng)
		t.Step(1)
		if rng.FailAt >= 0 && rng.FailAt < used {
			t.Outcome("%v", err)
			if err == nil {
				t.Fail("no error although the source failed at byte %d of %d needed", rng.FailAt, used)
			}
			return
		}
		if err != nil {
			if rng.FailAt >= 0 { // more than needed was requested at once
				return
			}
			t.Fail("error %v from a healthy source", err)
		}
		got := exportPrv(t, k)
		t.Eq("private key", got, want)
		if !ref.CInRange(ref.CUnkey(got)) {
			t.Fail("exponent out of range")
		}
	}
	r.Group("slots", "every byte value in every one of the first 74 stream positions (rejected or becoming the exponent)", func(emit mc.Emit) {
		for slot := 0; slot < 74; slot++ {
			slot := slot
			emit(fmt.Sprint(slot), func(t *mc.T) {
				for v := 0; v < 256; v++ {
					pre := make([]byte, 160)
					for i := range pre {
						pre[i] = byte(int8(i%11 - 5))
					}
					pre[slot] = byte(v)
					var k csidh.PrivateKey
					genKey(t, &k, env.With(40, pre))
				}
			})
		}
	})
	r.Group("streams", "runs of rejected bytes of every length up to 200 before, between and after accepted ones; reused objects", func(emit mc.Emit) {
		for n := 0; n <= 200; n++ {
			for pos := 0; pos <= 74; pos += 37 {
				n, pos := n, pos
				emit(fmt.Sprint(n, pos), func(t *mc.T) {
					var k csidh.PrivateKey
					for _, junk := range []byte{6, 0xfa, 0x80, 0x7f, 0xff - 5 - 1} {
						pre := bytes.Repeat([]byte{0xfd}, pos)
						pre = append(pre, bytes.Repeat([]byte{junk}, n)...)
						pre = append(pre, bytes.Repeat([]byte{2}, 74-pos)...)
						genKey(t, &k, env.With(41, pre)) // the object keeps the previous key
					}
				})
			}
		}
		for i := 0; i < r.Pick(200, 5000); i++ {
			i := i
			emit(fmt.Sprint("filler", i), func(t *mc.T) {
				var k csidh.PrivateKey
				genKey(t, &k, env.New(1000+i))
			})
		}
	})
	if r.Long() {
		uses := r.Pick(1<<16+300, 1<<20)
		r.Group("endurance", fmt.Sprintf("one private and one public key object used %d times: generated from one source, imported and exported", uses), func(emit mc.Emit) {
			emit("generate", func(t *mc.T) {
				var k csidh.PrivateKey
				all := mc.Pattern(43, 1<<20)
				src := env.With(0, all)
				for i := 0; i < uses/8; i++ {
					at := src.Pos
					if at > 1<<19 {
						src, at = env.With(0, all), 0
					}
					genKey(t, &k, env.With(0, all[at:]))
					got := exportPrv(t, &k)
					if err := csidh.GeneratePrivateKey(&k, src); err != nil {
						t.Fail("%v", err)
					}
					t.Eq("key from the long stream", exportPrv(t, &k), got)
				}
			})
			emit("import and export", func(t *mc.T) {
				var k csidh.PrivateKey
				var p csidh.PublicKey
				buf := mc.Pattern(44, 1<<12)
				for i := 0; i < uses; i++ {
					b := buf[i*5%4000:]
					if !k.Import(b[:37]) || !p.Import(b[:64]) {
						t.Fail("use %d refused", i)
					}
					if i%7 == 0 {
						t.Eq("private key", exportPrv(t, &k), b[:37])
						t.Eq("public key", export(t, &p), b[:64])
					}
				}
			})
		})
	}
	r.Group("short-reads", "every pattern of two read sizes out of the alphabet", func(emit mc.Emit) {
		al := []int{0, 1, 2, 31, 37, 63, 64, 65}
		mc.Seqs(len(al), r.Pick(2, 4), func(s []int) bool {
			var c []int
			sum := 0
			for _, k := range s {
				c = append(c, al[k])
				sum += al[k]
			}
			if sum == 0 {
				return true
			}
			return emit(fmt.Sprint(c), func(t *mc.T) {
				rng := env.New(42)
				rng.Chunks = c
				var k csidh.PrivateKey
				genKey(t, &k, rng)
			})
		})
	})
	r.Group("faults", "the source fails at every byte position of every stream, three error values, with and without the last bytes, fresh and reused objects", func(emit mc.Emit) {
		for _, seed := range []int{43, 44} {
			for at := 0; at < 2200; at++ {
				seed, at := seed, at
				if at > 320 && at%16 > 2 && !r.Thorough() {
					continue
				}
				emit(fmt.Sprint(seed, at), func(t *mc.T) {
					for _, we := range []bool{false, true} {
						for _, er := range []error{env.ErrSource, io.EOF, io.ErrUnexpectedEOF} {
							for _, c := range [][]int{nil, {1}, {63}} {
								rng := env.New(seed)
								rng.FailAt, rng.WithErr, rng.Err, rng.Chunks = at, we, er, c
								var k csidh.PrivateKey
								genKey(t, &k, rng)
								if er != env.ErrSource || len(c) > 0 {
									continue
								}
								rng = env.New(seed) // a source which answers again after the error
								rng.FailAt, rng.WithErr, rng.Err, rng.Once = at, we, er, true
								genKey(t, &k, rng)
							}
						}
					}
				})
			}
		}
	})
	r.Group("private-roundtrip", "every value of every byte of a private key through import and export, into every kind of object", func(emit mc.Emit) {
		for pos := 0; pos < 37; pos++ {
			for v := 0; v < 256; v++ {
				pos, v := pos, v
				emit(fmt.Sprint(pos, v), func(t *mc.T) {
					for fill := 0; fill < 3; fill++ {
						b := mc.Pattern(50, 37)
						b[pos] = byte(v)
						var k csidh.PrivateKey
						switch fill {
						case 1:
							k.Import(bytes.Repeat([]byte{0xff}, 37))
						case 2:
							k.Import(bytes.Repeat([]byte{0x55}, 37))
						}
						in := append([]byte{}, b...)
						if !k.Import(in) {
							t.Fail("refused")
						}
						t.Eq("exported", exportPrv(t, &k), b)
						t.Eq("argument", in, b)
						in[pos] ^= 0xff // the object must not alias the argument
						t.Eq("exported later", exportPrv(t, &k), b)
					}
				})
			}
		}
	})
	r.Group("public-roundtrip", "every one-bit value, complement and filler of a public key through import and export, into every kind of object", func(emit mc.Emit) {
		var vs [][]byte
		for i := 0; i < 512; i++ {
			b := make([]byte, 64)
			b[i/8] = 1 << uint(i%8)
			c := bytes.Repeat([]byte{0xff}, 64)
			c[i/8] ^= b[i/8]
			vs = append(vs, b, c)
		}
		vs = append(vs, make([]byte, 64), bytes.Repeat([]byte{0xff}, 64), mc.Pattern(51, 64), ref.PutLE(ref.CP, 64))
		for i := range vs {
			i := i
			emit(fmt.Sprint(i), func(t *mc.T) {
				for fill := 0; fill < 4; fill++ {
					var k csidh.PublicKey
					switch fill {
					case 1:
						k.Import(bytes.Repeat([]byte{0xff}, 64))
					case 2:
						k.Import(mc.Pattern(52, 64))
					case 3:
						csidh.GeneratePublicKey(&k, prv(t, unit(0, 1)), env.New(53))
					}
					in := append([]byte{}, vs[i]...)
					if !k.Import(in) {
						t.Fail("refused")
					}
					t.Eq("exported", export(t, &k), vs[i])
					t.Eq("argument", in, vs[i])
					in[0] ^= 0xff
					t.Eq("exported later", export(t, &k), vs[i])
				}
			})
		}
	})
	r.Group("sizes", "every buffer length 0..200 for import and export of both kinds of key", func(emit mc.Emit) {
		for n := 0; n <= 200; n++ {
			n := n
			emit(fmt.Sprint(n), func(t *mc.T) {
				base := mc.Pattern(54, 64)
				in := mc.Pattern(55, n)
				in = in[:n:n]
				canary := func(f func(b []byte) bool, exact int, strict bool, want []byte) {
					full := mc.Pattern(56, n+64)
					b := full[:n:n]
					var ok bool
					if p := mc.Panics(func() { ok = f(b) }); p != "" {
						t.Fail("panic on a buffer of %d bytes: %s", n, p)
					}
					t.Step(1)
					t.Outcome("%v", ok)
					if n == exact && !ok {
						t.Fail("buffer of the right size refused")
					}
					if (n < exact || (strict && n != exact)) && ok {
						t.Fail("buffer of %d bytes accepted", n)
					}
					w := mc.Pattern(56, n+64)
					if ok {
						copy(w[:exact], want)
					}
					t.Eq("buffer", full, w)
				}
				var pk csidh.PublicKey
				var sk csidh.PrivateKey
				pk.Import(base)
				sk.Import(base[:37])
				canary(func(b []byte) bool { return pk.Export(b) }, 64, true, base)
				canary(func(b []byte) bool { return sk.Export(b) }, 37, false, base[:37])
				for _, b := range [][]byte{in, nil} {
					if b == nil && n != 0 {
						continue
					}
					var ok bool
					if p := mc.Panics(func() { ok = pk.Import(b) }); p != "" {
						t.Fail("panic when importing a public key of %d bytes: %s", n, p)
					}
					if ok != (n == 64) {
						t.Fail("public key of %d bytes: %v", n, ok)
					}
					if !ok {
						t.Eq("refused public key", export(t, &pk), base)
					} else {
						t.Eq("imported public key", export(t, &pk), in)
					}
					if p := mc.Panics(func() { ok = sk.Import(b) }); p != "" {
						t.Fail("panic when importing a private key of %d bytes: %s", n, p)
					}
					if n < 37 && ok || n == 37 && !ok {
						t.Fail("private key of %d bytes: %v", n, ok)
					}
					if !ok {
						t.Eq("refused private key", exportPrv(t, &sk), base[:37])
					} else {
						t.Eq("imported private key", exportPrv(t, &sk), in[:37])
					}
				}
			})
		}
	})
	r.Group("histories", "every history of import, refused import, generation, failing generation, export and use on one private and one public key object up to the depth", func(emit mc.Emit) {
		mc.Seqs(8, r.Pick(4, 6), func(s []int) bool {
			return emit(fmt.Sprint(s), func(t *mc.T) {
				var sk csidh.PrivateKey
				var pk csidh.PublicKey
				ms, mp := make([]byte, 37), make([]byte, 64)
				known := true
				for n, op := range s {
					switch op {
					case 0, 1:
						b := ref.CKey(unit(op, 1-2*op))
						if !sk.Import(b) {
							t.Fail("refused")
						}
						ms, known = b, true
					case 2:
						if sk.Import(mc.Pattern(60, 36)) || pk.Import(mc.Pattern(60, 63)) || pk.Import(mc.Pattern(60, 65)) {
							t.Fail("accepted")
						}
					case 3:
						rng := env.New(61 + n)
						genKey(t, &sk, rng)
						buf := env.New(61 + n).Bytes(1 << 13)
						ms, _ = keyModel(func(i int) byte { return buf[i] })
						known = true
					case 4:
						rng := env.New(62)
						rng.FailAt = 70
						genKey(t, &sk, rng)
						known = false // an error leaves the key unspecified
					case 5:
						mp = mc.Pattern(63+n, 64)
						if !pk.Import(mp) {
							t.Fail("refused")
						}
					case 6:
						if err := csidh.GeneratePrivateKey(&sk, env.With(0, bytes.Repeat([]byte{0}, 128))); err != nil {
							t.Fail("%v", err)
						}
						ms, known = make([]byte, 37), true
						csidh.GeneratePublicKey(&pk, &sk, env.New(64))
						mp = make([]byte, 64)
					case 7:
						if pk.Export(make([]byte, 63)) || sk.Export(make([]byte, 36)) {
							t.Fail("exported into a short buffer")
						}
					}
					t.Eq("public key", export(t, &pk), mp)
					if known {
						t.Eq("private key", exportPrv(t, &sk), ms)
					}
					t.State(fmt.Sprintf("%x %x %v", ms, mp, known))
				}
			})
		})
	})
}

// c05 reaches the arithmetic through the exported functions only.
func c05(r *mc.Run) {
	r.Group("reach", "validation with boundary elements as the random x, for valid curves: the verdict and one step follow the model", func(emit mc.Emit) {
		for ci, a := range []*big.Int{e0, walked()} {
			for b := 0; b < 511; b++ {
				for k := 0; k < 2; k++ {
					a := a
					x := new(big.Int).Lsh(big.NewInt(1), uint(b))
					if k == 1 {
						x.Sub(ref.CP, x)
						if x.Sign() < 0 {
							continue
						}
					}
					pre := ref.PutLE(x, 64)
					emit(fmt.Sprintf("curve%d bit%d %d", ci, b, k), func(t *mc.T) {
						if !csidh.Validate(pubOf(t, ref.CEnc(a)), env.With(70, pre)) {
							t.Fail("valid key refused with x=%x", pre)
						}
						e := unit(b%74, 1-2*k)
						t.Eq("secret", derive(t, ref.CEnc(a), e, env.With(70, append(append([]byte{}, pre...), pre...))), ref.CEnc(action(a, e)))
					})
				}
			}
		}
	})
}
