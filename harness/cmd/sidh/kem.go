package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"

	"github.com/henrydcase/nobs/dh/sidh"

	"vh/env"
	"vh/mc"
	"vh/ref"
)

func rnd(seed int) *env.Rand { return env.New(seed) }

// tape is a random source whose next answers the history decides.
type tape struct{ src io.Reader }

func (p *tape) Read(b []byte) (int, error) { return p.src.Read(b) }

// next returns the source for a re-allocated object; the old one gives wrong bytes from now on.
func (p *tape) next() *tape {
	p.src = rnd(999)
	return &tape{rnd(998)}
}

func newKEM(f *field, r io.Reader) *sidh.KEM {
	k := new(sidh.KEM)
	k.Allocate(f.id, r)
	return k
}

// pair is one SIKE key pair of the model.
type pair struct {
	s, scalar, pk []byte
}

func (f *field) pair(i int) pair {
	k := ref.LE(mc.Pattern(600+i, f.nbytes(false)))
	k.Mod(k, f.top(false))
	sc := f.scalar(false, k)
	return pair{mc.Pattern(650+i, f.MsgLen), sc, f.refPub(false, sc)}
}

func (f *field) keys(t *mc.T, p pair) (*sidh.PrivateKey, *sidh.PublicKey) {
	return f.priv(t, vS, p.s, p.scalar), f.pub(t, vS, p.pk)
}

const canary = 0xc5

func filled(n int) []byte { return bytes.Repeat([]byte{canary}, n) }

func allCanary(b []byte) bool {
	for _, x := range b {
		if x != canary {
			return false
		}
	}
	return true
}

// encap runs Encapsulate with extra bytes behind both buffers and returns its output.
func encap(t *mc.T, f *field, k *sidh.KEM, pub *sidh.PublicKey, extraC, extraS int) (ct, ss []byte) {
	ct = t.SpaceFor("ciphertext", f.CtLen, extraC, func(c []byte) {
		ss = t.SpaceFor("secret", f.KemSize, extraS, func(s []byte) {
			if err := k.Encapsulate(c, s, pub); err != nil {
				t.Fail("Encapsulate: %v", err)
			}
		})
	})
	t.Step(1)
	return
}

func decap(t *mc.T, f *field, k *sidh.KEM, prv *sidh.PrivateKey, pub *sidh.PublicKey, ct []byte, extra int) []byte {
	t.Step(1)
	return t.SpaceFor("secret", f.KemSize, extra, func(s []byte) {
		t.Lend("ciphertext", ct, func(in []byte) {
			if err := k.Decapsulate(s, prv, pub, in); err != nil {
				t.Fail("Decapsulate: %v", err)
			}
		})
	})
}

func i03(r *mc.Run) {
	for _, f := range fields {
		f := f
		ps := []pair{f.pair(0), f.pair(1)}
		msgs := [][]byte{mc.Pattern(660, f.MsgLen), mc.Pattern(661, f.MsgLen), make([]byte, f.MsgLen)}
		hist(r, f, ps, msgs)

		// messages and keys
		step := r.Pick(map[string]int{"P434": 1, "P503": 2, "P751": 8}[f.Name], 1)
		r.Group("messages-"+f.Name, fmt.Sprintf("encapsulation of every %d. one-bit message and constant messages, then decapsulation, against the model", step), func(emit mc.Emit) {
			var ms [][]byte
			for _, c := range []byte{0, 0xff, 0x80, 1, 0x55} {
				ms = append(ms, bytes.Repeat([]byte{c}, f.MsgLen))
			}
			for i := 0; i < 8*f.MsgLen; i += step {
				m := make([]byte, f.MsgLen)
				m[i/8] = 1 << uint(i%8)
				ms = append(ms, m)
			}
			for _, m := range ms {
				m := m
				if !emit(fmt.Sprintf("m=%x", m), func(t *mc.T) {
					prv, pub := f.keys(t, ps[0])
					ct, ss := encap(t, f, newKEM(f, env.With(1, m)), pub, 0, 0)
					wc, ws := f.refEncap(m, ps[0].pk)
					t.Eq("ciphertext", ct, wc)
					t.Eq("secret", ss, ws)
					t.Eq("decapsulated", decap(t, f, newKEM(f, nil), prv, pub, ct, 0), ws)
				}) {
					return
				}
			}
		})
		r.Group("keys-"+f.Name, "key pairs of every boundary scalar, also generated and re-imported ones, encapsulated to and decapsulated with", func(emit mc.Emit) {
			ks := f.edges(false)
			if !r.Thorough() {
				ks = pickSome(ks, map[string]int{"P434": 34, "P503": 16, "P751": 8}[f.Name])
			}
			for i, k := range ks {
				i, k := i, k
				if !emit("scalar "+hexk(k), func(t *mc.T) {
					sc := f.scalar(false, k)
					s := mc.Pattern(670+i, f.MsgLen)
					prv := f.priv(t, vS, s, sc)
					pub := pubOf(t, prv)
					ct, ss := encap(t, f, newKEM(f, env.With(1, msgs[i%3])), pub, 0, 0)
					wc, ws := f.refEncap(msgs[i%3], f.refPub(false, sc))
					t.Eq("ciphertext", ct, wc)
					t.Eq("secret", ss, ws)
					t.Eq("decapsulated", decap(t, f, newKEM(f, nil), prv, pub, ct, 0), ws)
					bad := append([]byte{}, ct...)
					bad[i] ^= 4
					t.Eq("rejected", decap(t, f, newKEM(f, nil), prv, pub, bad, 0), f.Reject(s, bad))
				}) {
					return
				}
			}
			for i := 0; i < r.Pick(8, 60); i++ {
				i := i
				if !emit(fmt.Sprintf("generated %d", i), func(t *mc.T) {
					prv := sidh.NewPrivateKey(f.id, vS)
					if err := prv.Generate(rnd(1500 + i)); err != nil {
						t.Fail("%v", err)
					}
					pub := pubOf(t, prv)
					k := newKEM(f, rnd(1600+i))
					for n := 0; n < 3; n++ {
						ct, ss := encap(t, f, k, pub, n, n)
						m := rnd(1600 + i).Bytes(3 * f.MsgLen)[n*f.MsgLen : (n+1)*f.MsgLen]
						wc, ws := f.refEncap(m, export(t, pub))
						t.Eq("ciphertext", ct, wc)
						t.Eq("secret", ss, ws)
						t.Eq("decapsulated", decap(t, f, k, prv, pub, ct, n), ws)
					}
				}) {
					return
				}
			}
		})
		r.Group("rng-"+f.Name, "every failure position of the random source, with and without data handed over beside the error, every chunk pattern, and the call after it", func(emit mc.Emit) {
			for at := 0; at <= f.MsgLen+1; at++ {
				for _, we := range []bool{false, true} {
					at, we := at, we
					for _, e := range []error{nil, io.EOF, io.ErrUnexpectedEOF, env.ErrOnce} {
						e := e
						if !emit(fmt.Sprintf("fail at %d withdata=%v %v", at, we, e), func(t *mc.T) {
							src := env.With(3, msgs[0])
							src.FailAt, src.WithErr, src.Err = at, we, e
							src.Once = e == env.ErrOnce
							tp := &tape{src}
							k := newKEM(f, tp)
							prv, pub := f.keys(t, ps[0])
							ct, ss := filled(f.CtLen), filled(f.KemSize)
							err := k.Encapsulate(ct, ss, pub)
							t.Step(1)
							if at < f.MsgLen && err == nil {
								t.Fail("random source failed after %d of %d bytes and no error was returned", at, f.MsgLen)
							}
							if err != nil {
								if at > f.MsgLen || at == f.MsgLen && !we {
									t.Fail("error %v although the source answered", err)
								}
								if !allCanary(ct) || !allCanary(ss) {
									t.Fail("output written although an error was returned")
								}
							}
							t.Outcome("%v", err != nil)
							tp.src = env.With(3, msgs[1]) // and the object still works
							ct, ss = encap(t, f, k, pub, 0, 0)
							wc, ws := f.refEncap(msgs[1], ps[0].pk)
							t.Eq("next ciphertext", ct, wc)
							t.Eq("next secret", ss, ws)
							t.Eq("decapsulated", decap(t, f, k, prv, pub, ct, 0), ws)
						}) {
							return
						}
					}
				}
			}
			for _, ch := range [][]int{{1}, {0, 1}, {3, 5}, {f.MsgLen - 1, 1}, {7, 0, 0, 2}, {1, 100}} {
				ch := ch
				if !emit(fmt.Sprintf("chunks %v", ch), func(t *mc.T) {
					src := env.With(3, msgs[0])
					src.Chunks = ch
					_, pub := f.keys(t, ps[0])
					ct, ss := encap(t, f, newKEM(f, src), pub, 0, 0)
					wc, ws := f.refEncap(msgs[0], ps[0].pk)
					t.Eq("ciphertext", ct, wc)
					t.Eq("secret", ss, ws)
				}) {
					return
				}
			}
		})
		r.Group("buffers-"+f.Name, "output buffers longer than needed by every amount of the alphabet", func(emit mc.Emit) {
			for _, ec := range []int{0, 1, 2, 7, 8, 63, 64, 136, 1000} {
				for _, es := range []int{0, 1, 8, 64, 500} {
					ec, es := ec, es
					if !emit(fmt.Sprintf("ct+%d ss+%d", ec, es), func(t *mc.T) {
						prv, pub := f.keys(t, ps[1])
						k := newKEM(f, env.With(3, msgs[1]))
						ct, ss := encap(t, f, k, pub, ec, es)
						wc, ws := f.refEncap(msgs[1], ps[1].pk)
						t.Eq("ciphertext", ct, wc)
						t.Eq("secret", ss, ws)
						t.Eq("decapsulated", decap(t, f, k, prv, pub, ct, es), ws)
					}) {
						return
					}
				}
			}
		})
	}
}

// hist explores every sequence of operations on one KEM object.
func hist(r *mc.Run, f *field, ps []pair, msgs [][]byte) {
	other := fields[0]
	if f == other {
		other = fields[1]
	}
	type world struct {
		k    *sidh.KEM
		tp   *tape
		cur  *field
		prv  map[string]*sidh.PrivateKey
		pub  map[string]*sidh.PublicKey
		last map[string][]byte
	}
	pairs := map[*field][]pair{f: ps, other: {other.pair(0), other.pair(1)}}
	msg := func(g *field, i int) []byte {
		if g == f {
			return msgs[i]
		}
		return mc.Pattern(660+i, g.MsgLen)
	}
	get := func(t *mc.T, w *world, i int) (*sidh.PrivateKey, *sidh.PublicKey) {
		n := fmt.Sprint(w.cur.Name, i)
		if w.prv[n] == nil {
			w.prv[n], w.pub[n] = w.cur.keys(t, pairs[w.cur][i])
		}
		return w.prv[n], w.pub[n]
	}
	enc := func(p, m, ec, es int) func(*mc.T, *world) {
		return func(t *mc.T, w *world) {
			_, pub := get(t, w, p)
			w.tp.src = env.With(2, msg(w.cur, m))
			ct, ss := encap(t, w.cur, w.k, pub, ec, es)
			wc, ws := w.cur.refEncap(msg(w.cur, m), pairs[w.cur][p].pk)
			t.Eq("ciphertext", ct, wc)
			t.Eq("secret", ss, ws)
			w.last[w.cur.Name] = ct
		}
	}
	dec := func(p, m int) func(*mc.T, *world) {
		return func(t *mc.T, w *world) {
			prv, pub := get(t, w, p)
			ct, ss := w.cur.refEncap(msg(w.cur, m), pairs[w.cur][p].pk)
			t.Eq("decapsulated", decap(t, w.cur, w.k, prv, pub, ct, p), ss)
		}
	}
	type op struct {
		name string
		fn   func(*mc.T, *world)
	}
	ops := []op{
		{"enc(k0,m0)", enc(0, 0, 0, 0)},
		{"enc(k1,m1,long)", enc(1, 1, 5, 9)},
		{"dec(k0,m1)", dec(0, 1)},
		{"dec(k1,m0)", dec(1, 0)},
		{"dec(k0,altered)", func(t *mc.T, w *world) {
			prv, pub := get(t, w, 0)
			ct, _ := w.cur.refEncap(msg(w.cur, 0), pairs[w.cur][0].pk)
			ct = append([]byte{}, ct...)
			ct[len(ct)-1] ^= 1
			t.Eq("rejected", decap(t, w.cur, w.k, prv, pub, ct, 0), w.cur.Reject(pairs[w.cur][0].s, ct))
		}},
		{"dec(k1,ct for k0)", func(t *mc.T, w *world) {
			prv, pub := get(t, w, 1)
			ct, _ := w.cur.refEncap(msg(w.cur, 0), pairs[w.cur][0].pk)
			t.Eq("rejected", decap(t, w.cur, w.k, prv, pub, ct, 0), w.cur.Reject(pairs[w.cur][1].s, ct))
		}},
		{"enc(fault)", func(t *mc.T, w *world) {
			_, pub := get(t, w, 0)
			src := env.With(2, msg(w.cur, 0))
			src.FailAt = 3
			w.tp.src = src
			ct, ss := filled(w.cur.CtLen), filled(w.cur.KemSize)
			if w.k.Encapsulate(ct, ss, pub) == nil {
				t.Fail("no error although the random source failed")
			}
			if !allCanary(ct) || !allCanary(ss) {
				t.Fail("output written although an error was returned")
			}
			t.Step(1)
		}},
		{"reset", func(t *mc.T, w *world) { w.k.Reset(); t.Step(1) }},
		{"allocate", func(t *mc.T, w *world) {
			w.tp = w.tp.next()
			w.k.Allocate(w.cur.id, w.tp)
			t.Step(1)
		}},
		{"allocate(other)", func(t *mc.T, w *world) {
			if w.cur == f {
				w.cur = other
			} else {
				w.cur = f
			}
			w.tp = w.tp.next()
			w.k.Allocate(w.cur.id, w.tp)
			t.Step(1)
		}},
	}
	depth := r.Pick(3, 4)
	if f.Name == "P751" {
		depth = r.Pick(2, 3)
	}
	r.Group("histories-"+f.Name, fmt.Sprintf("every sequence of up to %d of %d operations on one KEM object, re-allocations to another field included; every output against the model", depth, len(ops)), func(emit mc.Emit) {
		mc.Seqs(len(ops), depth, func(s []int) bool {
			name := ""
			for _, i := range s {
				name += ops[i].name + " "
			}
			return emit(name, func(t *mc.T) {
				w := &world{tp: &tape{rnd(1)}, cur: f, prv: map[string]*sidh.PrivateKey{}, pub: map[string]*sidh.PublicKey{}, last: map[string][]byte{}}
				w.k = newKEM(f, w.tp)
				for n, i := range s {
					ops[i].fn(t, w)
					t.State(fmt.Sprint(w.cur.Name, i, n))
				}
			})
		})
	})
	uses := r.Pick(map[string]int{"P434": 300, "P503": 270, "P751": 260}[f.Name], 1100)
	if r.Long() {
		r.Group("endurance-"+f.Name, fmt.Sprintf("one KEM object through %d operations: each operation alone, alternating pairs, all in turn; every output against the model", uses), func(emit mc.Emit) {
			for _, c := range mc.Cycles(len(ops)) {
				c := c
				emit(fmt.Sprint(c), func(t *mc.T) {
					w := &world{tp: &tape{rnd(1)}, cur: f, prv: map[string]*sidh.PrivateKey{}, pub: map[string]*sidh.PublicKey{}, last: map[string][]byte{}}
					w.k = newKEM(f, w.tp)
					for i := 0; i < uses; i++ {
						ops[c[i%len(c)]].fn(t, w)
					}
					ops[0].fn(t, w)
					ops[2].fn(t, w)
				})
			}
		})
	}
	r.Group("constructors-"+f.Name, "the constructor of the field and a double allocation", func(emit mc.Emit) {
		emit("new", func(t *mc.T) {
			c := map[string]func(io.Reader) *sidh.KEM{"P434": sidh.NewSike434, "P503": sidh.NewSike503, "P751": sidh.NewSike751}[f.Name]
			tp := &tape{rnd(1)}
			w := &world{tp: tp, cur: f, k: c(tp), prv: map[string]*sidh.PrivateKey{}, pub: map[string]*sidh.PublicKey{}, last: map[string][]byte{}}
			for _, o := range []int{0, 2, 4, 8, 8, 1, 3} {
				ops[o].fn(t, w)
			}
		})
	})
}

// ---------------------------------------------------------------- I04

func i04(r *mc.Run) {
	for _, f := range fields {
		f := f
		ps := []pair{f.pair(0), f.pair(1)}
		m0, m1 := mc.Pattern(660, f.MsgLen), mc.Pattern(661, f.MsgLen)
		ct0, ss0 := f.refEncap(m0, ps[0].pk)
		ct1, _ := f.refEncap(m1, ps[0].pk)
		// reject checks one altered ciphertext, twice on the same object and with two values of S
		reject := func(t *mc.T, ct []byte, again bool) {
			prv, pub := f.keys(t, ps[0])
			k := newKEM(f, nil)
			got := decap(t, f, k, prv, pub, ct, 0)
			if bytes.Equal(got, ss0) {
				t.Fail("altered ciphertext gives the encapsulated secret")
			}
			t.Eq("rejection value", got, f.Reject(ps[0].s, ct))
			if again {
				t.Eq("repeated", decap(t, f, k, prv, pub, ct, 3), got)
				t.Eq("unaltered", decap(t, f, k, prv, pub, ct0, 0), ss0)
				t.Eq("after reset", func() []byte { k.Reset(); return decap(t, f, k, prv, pub, ct, 0) }(), got)
				for _, s := range [][]byte{make([]byte, f.MsgLen), bytes.Repeat([]byte{0xff}, f.MsgLen), m0, xor(m0, []byte{1})} {
					t.Eq("with another S", decap(t, f, k, f.priv(t, vS, s, ps[0].scalar), pub, ct, 0), f.Reject(s, ct))
				}
			}
		}
		step := r.Pick(map[string]int{"P434": 1, "P503": 1, "P751": 2}[f.Name], 1)
		r.Group("bits-"+f.Name, fmt.Sprintf("every bit of an honest ciphertext flipped alone (every %d. bit of the first part)", step), func(emit mc.Emit) {
			for i := 0; i < 8*f.CtLen; i++ {
				if i < 8*f.PublicKeySize && i%step != 0 {
					continue
				}
				i := i
				if !emit(fmt.Sprintf("bit %d", i), func(t *mc.T) {
					ct := append([]byte{}, ct0...)
					ct[i/8] ^= 1 << uint(i%8)
					reject(t, ct, i%128 == 0)
				}) {
					return
				}
			}
		})
		alter := func(name string, emit mc.Emit, ct []byte) bool {
			if bytes.Equal(ct, ct0) {
				return true
			}
			return emit(name, func(t *mc.T) { reject(t, ct, true) })
		}
		r.Group("reencoded-"+f.Name, "the same point with p (or the largest fitting multiple of p) added to every subset of single coordinates, and other values of each coordinate", func(emit mc.Emit) {
			lim := new(big.Int).Lsh(big.NewInt(1), uint(8*f.Bytes))
			for c := 0; c < 6; c++ {
				v := ref.LE(ct0[c*f.Bytes : (c+1)*f.Bytes])
				room := new(big.Int).Sub(lim, big.NewInt(1))
				max := new(big.Int).Div(room.Sub(room, v), f.P)
				for _, k := range []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(3), max} {
					if k.Sign() == 0 || k.Cmp(max) > 0 {
						continue
					}
					w := new(big.Int).Add(v, new(big.Int).Mul(k, f.P))
					if !alter(fmt.Sprintf("coordinate %d plus %v p", c, k), emit, with(ct0, c*f.Bytes, ref.PutLE(w, f.Bytes))) {
						return
					}
				}
				for n, w := range []*big.Int{new(big.Int), big.NewInt(1), new(big.Int).Set(f.P), new(big.Int).Sub(f.P, big.NewInt(1)), new(big.Int).Sub(f.P, v), new(big.Int).Sub(lim, big.NewInt(1))} {
					if !alter(fmt.Sprintf("coordinate %d value %d", c, n), emit, with(ct0, c*f.Bytes, ref.PutLE(w, f.Bytes))) {
						return
					}
				}
			}
			if f.Bytes*8 > f.P.BitLen()+1 {
				for set := 1; set < 64; set++ {
					ct := ct0
					for c := 0; c < 6; c++ {
						if set>>uint(c)&1 == 1 {
							ct = with(ct, c*f.Bytes, ref.PutLE(new(big.Int).Add(f.P, ref.LE(ct0[c*f.Bytes:(c+1)*f.Bytes])), f.Bytes))
						}
					}
					if !alter(fmt.Sprintf("p added to set %06b", set), emit, ct) {
						return
					}
				}
			}
		})
		r.Group("mixed-"+f.Name, "parts exchanged between ciphertexts, coordinates permuted, constant parts, all byte values at the ends of both parts", func(emit mc.Emit) {
			n := f.PublicKeySize
			s := f.SecretSize
			ok := alter("c0 of another", emit, with(ct0, 0, ct1[:n])) && alter("c1 of another", emit, with(ct0, n, ct1[n:])) &&
				alter("zero c0", emit, with(ct0, 0, make([]byte, n))) && alter("zero c1", emit, with(ct0, n, make([]byte, f.MsgLen))) &&
				alter("zero", emit, make([]byte, f.CtLen)) && alter("ones", emit, bytes.Repeat([]byte{0xff}, f.CtLen)) &&
				alter("ones c0", emit, with(ct0, 0, bytes.Repeat([]byte{0xff}, n))) && alter("plain message as c1", emit, with(ct0, n, m0)) &&
				alter("own public key as c0", emit, with(ct0, 0, ps[0].pk)) && alter("base points as c0", emit, with(ct0, 0, cat(f.Enc(f.PB), f.Enc(f.QB), f.Enc(f.RB)))) &&
				alter("P,Q exchanged", emit, with(ct0, 0, cat(ct0[s:2*s], ct0[:s]))) && alter("Q,R exchanged", emit, with(ct0, s, cat(ct0[2*s:3*s], ct0[s:2*s]))) &&
				alter("P,R exchanged", emit, with(ct0, 0, cat(ct0[2*s:3*s], ct0[s:2*s], ct0[:s]))) && alter("all equal", emit, with(ct0, 0, cat(ct0[:s], ct0[:s], ct0[:s]))) &&
				alter("conjugate", emit, with(ct0, 0, func() (o []byte) {
					for i := 0; i < 3; i++ {
						x := f.Dec(ct0[i*s:])
						x.B = new(big.Int).Mod(new(big.Int).Neg(x.B), f.P)
						o = append(o, f.Enc(x)...)
					}
					return
				}()))
			if !ok {
				return
			}
			for _, pos := range []int{0, 1, n - 1, n, n + 1, f.CtLen - 2, f.CtLen - 1} {
				for v := 1; v < 256; v++ {
					if !r.Thorough() && v%8 != 1 && v&(v-1) != 0 && v != 255 {
						continue
					}
					if !alter(fmt.Sprintf("byte %d xor %02x", pos, v), emit, xor(ct0, append(make([]byte, pos), byte(v)))) {
						return
					}
				}
			}
			for i := 0; i < f.MsgLen; i++ { // same difference in two bytes of c1
				for j := 0; j < i; j++ {
					if f.Name == "P751" && !r.Thorough() && (i+j)%4 != 0 {
						continue
					}
					d := make([]byte, f.CtLen)
					d[n+i], d[n+j] = 0x40, 0x40
					if !alter(fmt.Sprintf("bytes %d,%d of c1", i, j), emit, xor(ct0, d)) {
						return
					}
				}
			}
			for i := 0; i < n; i++ { // the same difference in a byte of c0 and of c1
				if f.Name != "P434" && !r.Thorough() && i%4 != 0 {
					continue
				}
				d := make([]byte, f.CtLen)
				d[i], d[n+i%f.MsgLen] = 0x10, 0x10
				if !emit(fmt.Sprintf("byte %d and c1", i), func(t *mc.T) { reject(t, xor(ct0, d), false) }) {
					return
				}
			}
		})
		r.Group("keys-"+f.Name, "mixtures of the two key pairs: ciphertexts for the other key, private key of one pair with the public key of the other", func(emit mc.Emit) {
			for c := 0; c < 2; c++ {
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						c, i, j := c, i, j
						if !emit(fmt.Sprintf("ct for %d, private %d, public %d", c, i, j), func(t *mc.T) {
							ct, ss := f.refEncap(m0, ps[c].pk)
							want := f.Reject(ps[i].s, ct)
							if c == i && i == j {
								want = ss
							}
							prv, _ := f.keys(t, ps[i])
							_, pub := f.keys(t, ps[j])
							t.Eq("secret", decap(t, f, newKEM(f, nil), prv, pub, ct, 0), want)
						}) {
							return
						}
					}
				}
			}
		})
	}
}

func with(b []byte, at int, repl []byte) []byte {
	o := append([]byte{}, b...)
	copy(o[at:], repl)
	return o
}

func xor(a, b []byte) []byte {
	o := append([]byte{}, a...)
	for i := range b {
		o[i] ^= b[i]
	}
	return o
}

func cat(bs ...[]byte) (o []byte) {
	for _, b := range bs {
		o = append(o, b...)
	}
	return
}
