// Checks K01 to K03 on the exported API of kem/mkem.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"sort"
	"sync"

	"mkem"

	"github.com/henrydcase/nobs/dh/sidh"

	"vh/env"
	"vh/mc"
	"vh/ref"
)

func main() {
	mc.Main(map[string]func(*mc.Run){"K01": k01, "K02": k02, "K03": k03})
}

type field struct {
	*ref.SField
	id uint8
}

var fields = []*field{{ref.S434, sidh.Fp434}, {ref.S503, sidh.Fp503}, {ref.S751, sidh.Fp751}}

var memoMap sync.Map

type memoVal struct {
	once sync.Once
	v    [][]byte
}

func memo(key string, fn func() [][]byte) [][]byte {
	x, _ := memoMap.LoadOrStore(key, new(memoVal))
	m := x.(*memoVal)
	m.once.Do(func() { m.v = fn() })
	return m.v
}

// pair is one SIKE key pair of the model.
type pair struct{ s, scalar, pk []byte }

func (f *field) pair(i int) pair {
	k := ref.LE(mc.Pattern(700+i, int(f.BBytes)))
	k.Mod(k, new(big.Int).Lsh(big.NewInt(1), f.BBits))
	sc := ref.PutLE(k, int(f.BBytes))
	pk := memo(fmt.Sprintf("pub %s %x", f.Name, sc), func() [][]byte { return [][]byte{f.Public(false, sc)} })[0]
	return pair{mc.Pattern(750+i, f.MsgLen), sc, pk}
}

func (f *field) pairs(n int) (o []pair) {
	for i := 0; i < n; i++ {
		o = append(o, f.pair(i))
	}
	return
}

func (f *field) keys(t *mc.T, p pair) (*sidh.PrivateKey, *sidh.PublicKey) {
	k, q := sidh.NewPrivateKey(f.id, sidh.KeyVariantSike), sidh.NewPublicKey(f.id, sidh.KeyVariantSike)
	t.Lend("private key import", append(append([]byte{}, p.s...), p.scalar...), func(b []byte) {
		if err := k.Import(b); err != nil {
			t.Fail("private key: %v", err)
		}
	})
	t.Lend("public key import", p.pk, func(b []byte) {
		if err := q.Import(b); err != nil {
			t.Fail("public key: %v", err)
		}
	})
	return k, q
}

// refMulti is the model of multi-recipient encapsulation to the listed pairs.
func (f *field) refMulti(m []byte, ps []pair) (ct0 []byte, cts [][]byte, ss []byte) {
	eph := memo(fmt.Sprintf("meph %s %x", f.Name, m), func() [][]byte {
		c, _, s := f.MultiEncap(m, nil)
		return [][]byte{c, s}
	})
	for _, p := range ps {
		p := p
		cts = append(cts, memo(fmt.Sprintf("mct %s %x %x", f.Name, m, p.pk), func() [][]byte {
			_, c, _ := f.MultiEncap(m, [][]byte{p.pk})
			return c
		})[0])
	}
	return eph[0], cts, eph[1]
}

func (f *field) refEncap(m, pk []byte) (ct, ss []byte) {
	o := memo(fmt.Sprintf("enc %s %x %x", f.Name, m, pk), func() [][]byte {
		c, s := f.Encap(m, pk)
		return [][]byte{c, s}
	})
	return o[0], o[1]
}

// tape is a random source whose next answers the history decides.
type tape struct{ src io.Reader }

func (p *tape) Read(b []byte) (int, error) { return p.src.Read(b) }

// next returns the source for a re-allocated object; the old one gives wrong bytes from now on.
func (p *tape) next() *tape {
	p.src = env.New(999)
	return &tape{env.New(998)}
}

const canary = 0xc5

func filled(n int) []byte { return bytes.Repeat([]byte{canary}, n) }

func allCanary(b []byte) bool {
	for _, x := range b {
		if x != canary {
			return false
		}
	}
	return true
}

// stored reaches what the object keeps.
func stored(t *mc.T, k *mkem.MultiKEM, need int) (ct0 []byte, cts [][]byte) {
	ct0, cts, ok := env.Stored(k, need)
	if !ok {
		t.Leave("the object does not hold a common part and ciphertexts")
	}
	return
}

func pick(ps []pair, idx []int) (o []pair) {
	for _, i := range idx {
		o = append(o, ps[i])
	}
	return
}

func newMulti(f *field, n int, r io.Reader) *mkem.MultiKEM {
	k := new(mkem.MultiKEM)
	k.Allocate(f.id, uint(n), r)
	return k
}

// mencap encapsulates to the pairs and compares everything with the model.
func mencap(t *mc.T, f *field, k *mkem.MultiKEM, tp *tape, m []byte, ps []pair, extra int) {
	var pubs []*sidh.PublicKey
	for _, p := range ps {
		_, q := f.keys(t, p)
		pubs = append(pubs, q)
	}
	mencapTo(t, f, k, tp, m, ps, pubs, extra)
}

func mencapTo(t *mc.T, f *field, k *mkem.MultiKEM, tp *tape, m []byte, ps []pair, pubs []*sidh.PublicKey, extra int) {
	tp.src = env.With(4, m)
	ss := t.SpaceFor("secret", f.KemSize, extra, func(ss []byte) {
		if err := k.Encapsulate(ss, pubs); err != nil {
			t.Fail("Encapsulate: %v", err)
		}
	})
	w0, ws, wss := f.refMulti(m, ps)
	t.Eq("secret", ss, wss)
	c0, cs := stored(t, k, f.PublicKeySize)
	t.Eq("common part", c0[:f.PublicKeySize], w0)
	for i := range ps {
		t.Eq(fmt.Sprintf("ciphertext %d", i), cs[i][:f.MsgLen], ws[i])
		b := make([]byte, pubs[i].Size())
		pubs[i].Export(b)
		t.Eq("public key after use", b, ps[i].pk)
	}
}

// mdecap decapsulates ct with pair p and the common part the object holds.
func mdecap(t *mc.T, f *field, k *mkem.MultiKEM, p pair, ct []byte, extra int) []byte {
	prv, pub := f.keys(t, p)
	c0, _ := stored(t, k, f.PublicKeySize)
	before := append([]byte{}, c0...)
	ss := t.SpaceFor("secret", f.KemSize, extra, func(ss []byte) {
		t.Lend("ciphertext", ct, func(in []byte) {
			if err := k.Decapsulate(ss, prv, pub, in); err != nil {
				t.Fail("Decapsulate: %v", err)
			}
		})
	})
	t.Step(1)
	c0, _ = stored(t, k, f.PublicKeySize)
	if !bytes.Equal(before[:f.PublicKeySize], c0[:f.PublicKeySize]) {
		t.Fail("Decapsulate changed the ciphertext")
	}
	b := make([]byte, prv.Size())
	prv.Export(b)
	t.Eq("private key after use", b, append(append([]byte{}, p.s...), p.scalar...))
	return ss[:f.KemSize]
}

func xor(a, b []byte) []byte {
	o := append([]byte{}, a...)
	for i := range b {
		o[i] ^= b[i]
	}
	return o
}

func bitAt(n, i int) []byte {
	o := make([]byte, n)
	o[i/8] = 1 << uint(i%8)
	return o
}

// ---------------------------------------------------------------- K01

func k01(r *mc.Run) {
	for _, f := range fields {
		f := f
		msgs := [][]byte{mc.Pattern(760, f.MsgLen), mc.Pattern(761, f.MsgLen), make([]byte, f.MsgLen), bytes.Repeat([]byte{0xff}, f.MsgLen)}
		small := f.Name == "P434"
		max := r.Pick(map[string]int{"P434": 8, "P503": 5, "P751": 4}[f.Name], 20)
		ps := f.pairs(max)
		r.Group("recipients-"+f.Name, fmt.Sprintf("every number of recipients from 0 to %d, allocated exactly or with room, several messages; every recipient decapsulates on the same and on a fresh object", max), func(emit mc.Emit) {
			for n := 0; n <= max; n++ {
				for mi := range msgs {
					for _, room := range []int{0, 2} {
						n, mi, room := n, mi, room
						if !small && (mi+room+n)%3 != 0 && !r.Thorough() {
							continue
						}
						emit(fmt.Sprintf("n=%d message %d room %d", n, mi, room), func(t *mc.T) {
							tp := new(tape)
							k := newMulti(f, n+room, tp)
							mencap(t, f, k, tp, msgs[mi], ps[:n], room)
							c0, cs, ss := f.refMulti(msgs[mi], ps[:n])
							for i := 0; i < n; i++ {
								t.Eq("secret of the recipient", mdecap(t, f, k, ps[i], cs[i], i), ss)
								g := newMulti(f, 1, nil)
								h0, _ := stored(t, g, f.PublicKeySize)
								copy(h0, c0)
								t.Eq("secret on another object", mdecap(t, f, g, ps[i], cs[i], 0), ss)
							}
						})
					}
				}
			}
			for _, ix := range [][]int{{0, 0}, {1, 0}, {2, 1, 0}, {0, 1, 0}, {1, 1, 1}, {3, 0, 3, 2}} {
				for _, shared := range []bool{false, true} {
					ix, shared := ix, shared
					emit(fmt.Sprintf("keys %v shared=%v", ix, shared), func(t *mc.T) {
						tp := new(tape)
						k := newMulti(f, len(ix), tp)
						if shared { // a repeated recipient is the same object each time
							var pubs []*sidh.PublicKey
							seen := map[int]*sidh.PublicKey{}
							for _, i := range ix {
								if seen[i] == nil {
									_, seen[i] = f.keys(t, ps[i])
								}
								pubs = append(pubs, seen[i])
							}
							mencapTo(t, f, k, tp, msgs[0], pick(ps, ix), pubs, 0)
						} else {
							mencap(t, f, k, tp, msgs[0], pick(ps, ix), 0)
						}
						_, cs, ss := f.refMulti(msgs[0], pick(ps, ix))
						for i, j := range ix {
							t.Eq("secret of the recipient", mdecap(t, f, k, ps[j], cs[i], 0), ss)
						}
					})
				}
			}
		})
		many := []int{9, 16, 17, 33}
		if small || r.Thorough() {
			many = append(many, 65, 129, 257, 300)
		}
		if r.Long() {
			r.Group("many-"+f.Name, fmt.Sprintf("recipient numbers %v, several keys in turn; common part, every ciphertext and secret against the model, recipients around powers of two decapsulate", many), func(emit mc.Emit) {
				for _, n := range many {
					n := n
					emit(fmt.Sprintf("n=%d", n), func(t *mc.T) {
						var ix []int
						for i := 0; i < n; i++ {
							ix = append(ix, (i*i/3+i/7)%len(ps))
						}
						tp := new(tape)
						k := newMulti(f, n, tp)
						mencap(t, f, k, tp, msgs[n%2], pick(ps, ix), 0)
						_, cs, ss := f.refMulti(msgs[n%2], pick(ps, ix))
						for i, j := range ix {
							if i < 2 || i&(i-1) == 0 || i&(i+1) == 0 || i == n-1 {
								t.Eq("secret of the recipient", mdecap(t, f, k, ps[j], cs[i], 0), ss)
							}
						}
					})
				}
			})
		}
		r.Group("pairings-"+f.Name, "every recipient with every ciphertext, every mixture of private and public keys", func(emit mc.Emit) {
			n := 4
			for c := 0; c < n; c++ {
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						if !small && !r.Thorough() && c != 0 && i != j {
							continue
						}
						c, i, j := c, i, j
						emit(fmt.Sprintf("ciphertext %d private %d public %d", c, i, j), func(t *mc.T) {
							tp := new(tape)
							k := newMulti(f, n, tp)
							mencap(t, f, k, tp, msgs[1], ps[:n], 0)
							_, cs, ss := f.refMulti(msgs[1], ps[:n])
							want := f.MultiReject(ps[i].s)
							if c == i && i == j {
								want = ss
							}
							p := pair{ps[i].s, ps[i].scalar, ps[j].pk}
							t.Eq("secret", mdecap(t, f, k, p, cs[c], 0), want)
							t.Eq("then the right one", mdecap(t, f, k, ps[c], cs[c], 0), ss)
						})
					}
				}
			}
		})
		step := r.Pick(map[string]int{"P434": 1, "P503": 8, "P751": 48}[f.Name], 1)
		r.Group("altered-"+f.Name, fmt.Sprintf("every bit of a ciphertext and every %d. bit of the common part flipped alone, byte and pair patterns, exchanged parts, re-encodings by p", step), func(emit mc.Emit) {
			c0, cs, ss := f.refMulti(msgs[0], ps[:2])
			d0, ds, _ := f.refMulti(msgs[1], ps[:2])
			bad := func(name string, a0, ac []byte) {
				emit(name, func(t *mc.T) {
					k := newMulti(f, 1, nil)
					h0, _ := stored(t, k, f.PublicKeySize)
					copy(h0, a0)
					got := mdecap(t, f, k, ps[0], ac, 0)
					if bytes.Equal(got, ss) {
						t.Fail("altered ciphertext gives the encapsulated secret")
					}
					t.Eq("rejection value", got, f.MultiReject(ps[0].s))
					h0, _ = stored(t, k, f.PublicKeySize)
					copy(h0, c0)
					t.Eq("unaltered", mdecap(t, f, k, ps[0], cs[0], 0), ss)
				})
			}
			for i := 0; i < 8*f.MsgLen; i++ {
				bad(fmt.Sprintf("ciphertext bit %d", i), c0, xor(cs[0], bitAt(f.MsgLen, i)))
			}
			for i := 0; i < 8*f.PublicKeySize; i++ {
				if i%step == 0 || i%(8*f.Bytes) == 0 || i%(8*f.Bytes) == 8*f.Bytes-1 {
					bad(fmt.Sprintf("common part bit %d", i), xor(c0, bitAt(f.PublicKeySize, i)), cs[0])
				}
			}
			for i := 0; i < f.MsgLen; i++ {
				for j := 0; j < i; j++ {
					if small || r.Thorough() || (i+j)%5 == 0 {
						d := make([]byte, f.MsgLen)
						d[i], d[j] = 0x81, 0x81
						bad(fmt.Sprintf("ciphertext bytes %d %d", i, j), c0, xor(cs[0], d))
					}
				}
			}
			bad("ciphertext of another message", c0, ds[0])
			bad("common part of another message", d0, cs[0])
			bad("ciphertext of another recipient", c0, cs[1])
			bad("zero ciphertext", c0, make([]byte, f.MsgLen))
			bad("ones ciphertext", c0, bytes.Repeat([]byte{255}, f.MsgLen))
			bad("zero common part", make([]byte, len(c0)), cs[0])
			bad("plain message", c0, msgs[0])
			bad("own key as common part", ps[0].pk, cs[0])
			for c := 0; c < 6; c++ {
				w := new(big.Int).Add(ref.LE(c0[c*f.Bytes:(c+1)*f.Bytes]), f.P)
				if w.BitLen() <= 8*f.Bytes {
					a := append([]byte{}, c0...)
					copy(a[c*f.Bytes:], ref.PutLE(w, f.Bytes))
					bad(fmt.Sprintf("p added to coordinate %d", c), a, cs[0])
				}
			}
		})
		mhist(r, f, ps, msgs)
		r.Group("rng-"+f.Name, "every failure position of the random source, with and without data beside the error, chunked answers, and the call after it", func(emit mc.Emit) {
			for at := 0; at <= f.MsgLen+1; at++ {
				for _, we := range []bool{false, true} {
					for _, e := range []error{nil, io.EOF, io.ErrUnexpectedEOF, env.ErrOnce} {
						at, we, e := at, we, e
						emit(fmt.Sprintf("fail at %d withdata=%v %v", at, we, e), func(t *mc.T) {
							src := env.With(3, msgs[0])
							src.FailAt, src.WithErr, src.Err = at, we, e
							src.Once = e == env.ErrOnce
							tp := &tape{src}
							k := newMulti(f, 2, tp)
							_, pub := f.keys(t, ps[0])
							ss := filled(f.KemSize)
							err := k.Encapsulate(ss, []*sidh.PublicKey{pub})
							t.Step(1)
							if at < f.MsgLen && err == nil {
								t.Fail("random source failed after %d of %d bytes and no error was returned", at, f.MsgLen)
							}
							if err != nil && (at > f.MsgLen || at == f.MsgLen && !we) {
								t.Fail("error %v although the source answered", err)
							}
							if err != nil && !allCanary(ss) {
								t.Fail("secret written although an error was returned")
							}
							t.Outcome("%v", err != nil)
							mencap(t, f, k, tp, msgs[1], ps[:2], 0)
							_, cs, wss := f.refMulti(msgs[1], ps[:2])
							t.Eq("secret of the recipient", mdecap(t, f, k, ps[1], cs[1], 0), wss)
						})
					}
				}
			}
			for _, ch := range [][]int{{1}, {0, 1}, {3, 5}, {f.MsgLen - 1, 1}, {7, 0, 0, 2}} {
				ch := ch
				emit(fmt.Sprintf("chunks %v", ch), func(t *mc.T) {
					src := env.With(3, msgs[0])
					src.Chunks = ch
					k := newMulti(f, 1, src)
					_, pub := f.keys(t, ps[0])
					ss := make([]byte, f.KemSize)
					if err := k.Encapsulate(ss, []*sidh.PublicKey{pub}); err != nil {
						t.Fail("%v", err)
					}
					_, _, wss := f.refMulti(msgs[0], nil)
					t.Eq("secret", ss, wss)
				})
			}
		})
	}
}

type op[W any] struct {
	name string
	fn   func(*mc.T, W)
}

// mhist explores every sequence of operations on one multi-recipient object.
func mhist(r *mc.Run, f *field, ps []pair, msgs [][]byte) {
	other := fields[0]
	if f == other {
		other = fields[1]
	}
	ops2 := other.pairs(3)
	type world struct {
		k    *mkem.MultiKEM
		tp   *tape
		cur  *field
		ps   []pair
		m    []byte // message of the last encapsulation, nil if none
		to   []pair
		last string
	}
	msg := func(w *world, i int) []byte { return append(msgs[i], mc.Pattern(780+i, 64)...)[:w.cur.MsgLen] }
	enc := func(m int, ix ...int) func(*mc.T, *world) {
		return func(t *mc.T, w *world) {
			w.m, w.to = append([]byte{}, msg(w, m)...), pick(w.ps, ix)
			mencap(t, w.cur, w.k, w.tp, w.m, w.to, m)
		}
	}
	// inject puts the common part of a model ciphertext into the object, as if received.
	inject := func(t *mc.T, w *world, c0 []byte) {
		h0, _ := stored(t, w.k, w.cur.PublicKeySize)
		copy(h0, c0)
	}
	dec := func(who int) func(*mc.T, *world) {
		return func(t *mc.T, w *world) {
			if w.m == nil {
				w.m, w.to = append([]byte{}, msg(w, 3)...), w.ps[:2]
			}
			c0, cs, ss := w.cur.refMulti(w.m, w.to)
			h0, _ := stored(t, w.k, w.cur.PublicKeySize)
			if !bytes.Equal(h0[:w.cur.PublicKeySize], c0) {
				inject(t, w, c0)
			}
			want := w.cur.MultiReject(w.ps[who].s)
			i := 0
			for j, p := range w.to {
				if bytes.Equal(p.pk, w.ps[who].pk) {
					i, want = j, ss
				}
			}
			if len(cs) == 0 {
				return
			}
			t.Eq("decapsulated", mdecap(t, w.cur, w.k, w.ps[who], cs[i], who), want)
		}
	}
	ops := []op[*world]{
		{"enc(m0;0,1)", enc(0, 0, 1)},
		{"enc(m1;1)", enc(1, 1)},
		{"enc(m3;2,0,1)", enc(3, 2, 0, 1)},
		{"dec(0)", dec(0)},
		{"dec(1)", dec(1)},
		{"dec(1,other ciphertext)", func(t *mc.T, w *world) {
			c0, cs, ss := w.cur.refMulti(msg(w, 2), w.ps[1:3])
			inject(t, w, c0)
			t.Eq("decapsulated", mdecap(t, w.cur, w.k, w.ps[1], cs[0], 0), ss)
			w.m, w.to = append([]byte{}, msg(w, 2)...), w.ps[1:3]
		}},
		{"dec(0,altered)", func(t *mc.T, w *world) {
			c0, cs, _ := w.cur.refMulti(msg(w, 0), w.ps[:1])
			inject(t, w, c0)
			t.Eq("rejected", mdecap(t, w.cur, w.k, w.ps[0], xor(cs[0], []byte{1}), 0), w.cur.MultiReject(w.ps[0].s))
			w.m, w.to = append([]byte{}, msg(w, 0)...), w.ps[:1]
		}},
		{"enc(fault)", func(t *mc.T, w *world) {
			src := env.With(2, msg(w, 0))
			src.FailAt = 3
			w.tp.src = src
			_, pub := w.cur.keys(t, w.ps[0])
			if w.k.Encapsulate(make([]byte, w.cur.KemSize), []*sidh.PublicKey{pub}) == nil {
				t.Fail("no error although the random source failed")
			}
			w.m = nil
		}},
		{"single enc and dec", func(t *mc.T, w *world) {
			w.tp.src = env.With(2, msg(w, 1))
			prv, pub := w.cur.keys(t, w.ps[2])
			ct, ss := make([]byte, w.cur.CtLen), make([]byte, w.cur.KemSize)
			if err := w.k.KEM.Encapsulate(ct, ss, pub); err != nil {
				t.Fail("%v", err)
			}
			wc, ws := w.cur.refEncap(msg(w, 1), w.ps[2].pk)
			t.Eq("single ciphertext", ct, wc)
			t.Eq("single secret", ss, ws)
			if err := w.k.KEM.Decapsulate(ss, prv, pub, xor(ct, []byte{2})); err != nil {
				t.Fail("%v", err)
			}
			t.Eq("single rejection", ss, w.cur.Reject(w.ps[2].s, xor(ct, []byte{2})))
		}},
		{"reset", func(t *mc.T, w *world) { w.k.Reset(); t.Step(1) }},
		{"allocate", func(t *mc.T, w *world) {
			w.tp = w.tp.next()
			w.k.Allocate(w.cur.id, 3, w.tp)
			t.Step(1)
		}},
		{"allocate(other)", func(t *mc.T, w *world) {
			if w.cur == f {
				w.cur, w.ps = other, ops2
			} else {
				w.cur, w.ps = f, ps
			}
			w.m = nil
			w.tp = w.tp.next()
			w.k.Allocate(w.cur.id, 3, w.tp)
			t.Step(1)
		}},
	}
	uses := r.Pick(260, 1100)
	if r.Long() {
		r.Group("endurance-"+f.Name, fmt.Sprintf("one multi-recipient object through %d operations: each operation alone, alternating pairs, all in turn; every output against the model", uses), func(emit mc.Emit) {
			for _, c := range mc.Cycles(len(ops)) {
				c := c
				emit(fmt.Sprint(c), func(t *mc.T) {
					w := &world{tp: &tape{env.New(1)}, cur: f, ps: ps}
					w.k = newMulti(f, 3, w.tp)
					for i := 0; i < uses; i++ {
						ops[c[i%len(c)]].fn(t, w)
					}
					ops[0].fn(t, w)
					t.Outcome("%v", c)
				})
			}
		})
	}
	depth := r.Pick(map[string]int{"P434": 3, "P503": 2, "P751": 2}[f.Name], 3)
	if r.Thorough() && f.Name == "P434" {
		depth = 4
	}
	r.Group("histories-"+f.Name, fmt.Sprintf("every sequence of up to %d of %d operations on one multi-recipient object; every output against the model", depth, len(ops)), func(emit mc.Emit) {
		mc.Seqs(len(ops), depth, func(s []int) bool {
			name := ""
			for _, i := range s {
				name += ops[i].name + " "
			}
			return emit(name, func(t *mc.T) {
				w := &world{tp: &tape{env.New(1)}, cur: f, ps: ps}
				w.k = newMulti(f, 3, w.tp)
				for n, i := range s {
					ops[i].fn(t, w)
					t.State(fmt.Sprint(w.cur.Name, i, n))
				}
				t.Outcome("%v %v", s, w.cur.Name)
			})
		})
	})
}

// ---------------------------------------------------------------- K03

type kem interface {
	Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
	Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.PublicKey, ciphertext []byte) error
	Reset()
	Allocate(id uint8, rng io.Reader)
	CiphertextSize() int
	SharedSecretSize() int
}

func k03(r *mc.Run) {
	for _, f := range fields {
		f := f
		ps := f.pairs(3)
		msgs := [][]byte{mc.Pattern(760, f.MsgLen), mc.Pattern(761, f.MsgLen), make([]byte, f.MsgLen)}
		two := func(tp ...*tape) [2]kem {
			k := [2]kem{new(mkem.KEM), new(sidh.KEM)}
			for i := range k {
				k[i].Allocate(f.id, tp[i])
			}
			return k
		}
		enc := func(t *mc.T, k kem, tp *tape, m []byte, p pair, extra int) []byte {
			tp.src = env.With(2, m)
			_, pub := f.keys(t, p)
			var ss []byte
			ct := t.SpaceFor("ciphertext", f.CtLen, extra, func(c []byte) {
				ss = t.SpaceFor("secret", f.KemSize, extra, func(s []byte) {
					if err := k.Encapsulate(c, s, pub); err != nil {
						t.Fail("Encapsulate: %v", err)
					}
				})
			})
			wc, ws := f.refEncap(m, p.pk)
			t.Eq("ciphertext", ct[:f.CtLen], wc)
			t.Eq("secret", ss[:f.KemSize], ws)
			return ct[:f.CtLen]
		}
		dec := func(t *mc.T, k kem, p pair, ct []byte) []byte {
			prv, pub := f.keys(t, p)
			t.Step(1)
			return t.SpaceFor("secret", f.KemSize, 0, func(ss []byte) {
				t.Lend("ciphertext", ct, func(in []byte) {
					if err := k.Decapsulate(ss, prv, pub, in); err != nil {
						t.Fail("Decapsulate: %v", err)
					}
				})
			})
		}
		names := []string{"mkem", "sidh"}
		type world struct {
			k    [2]kem
			tp   [2]*tape
			last [2][]byte // ciphertext by either
			m    [2]int
		}
		var ops []op[*world]
		for i := 0; i < 2; i++ {
			i := i
			for m := 0; m < 2; m++ {
				m := m
				ops = append(ops, op[*world]{fmt.Sprintf("%s.enc(m%d)", names[i], m), func(t *mc.T, w *world) {
					w.last[i], w.m[i] = enc(t, w.k[i], w.tp[i], msgs[m], ps[m], m*7), m
				}})
			}
			ops = append(ops, op[*world]{names[i] + ".dec(from the other)", func(t *mc.T, w *world) {
				ct, m := w.last[1-i], w.m[1-i]
				if ct == nil {
					ct, _ = f.refEncap(msgs[m], ps[m].pk)
				}
				_, ws := f.refEncap(msgs[m], ps[m].pk)
				t.Eq("secret", dec(t, w.k[i], ps[m], ct), ws)
			}}, op[*world]{names[i] + ".dec(altered)", func(t *mc.T, w *world) {
				ct, _ := f.refEncap(msgs[1], ps[0].pk)
				bad := xor(ct, bitAt(f.CtLen, 8*f.CtLen-3))
				t.Eq("rejected", dec(t, w.k[i], ps[0], bad), f.Reject(ps[0].s, bad))
			}}, op[*world]{names[i] + ".reset", func(t *mc.T, w *world) { w.k[i].Reset(); t.Step(1) }},
				op[*world]{names[i] + ".allocate", func(t *mc.T, w *world) {
					w.tp[i] = w.tp[i].next()
					w.k[i].Allocate(f.id, w.tp[i])
					t.Step(1)
				}})
		}
		uses := r.Pick(260, 1100)
		if r.Long() {
			r.Group("endurance-"+f.Name, fmt.Sprintf("one object of each implementation through %d operations: each operation alone, alternating pairs, all in turn", uses), func(emit mc.Emit) {
				for _, c := range mc.Cycles(len(ops)) {
					c := c
					emit(fmt.Sprint(c), func(t *mc.T) {
						w := &world{tp: [2]*tape{{env.New(1)}, {env.New(1)}}}
						w.k = two(w.tp[0], w.tp[1])
						for i := 0; i < uses; i++ {
							ops[c[i%len(c)]].fn(t, w)
						}
						t.Outcome("%v", c)
					})
				}
			})
		}
		depth := r.Pick(map[string]int{"P434": 3, "P503": 2, "P751": 2}[f.Name], 3)
		if r.Thorough() && f.Name == "P434" {
			depth = 4
		}
		r.Group("histories-"+f.Name, fmt.Sprintf("every sequence of up to %d of %d operations over one object of each implementation", depth, len(ops)), func(emit mc.Emit) {
			mc.Seqs(len(ops), depth, func(s []int) bool {
				name := ""
				for _, i := range s {
					name += ops[i].name + " "
				}
				return emit(name, func(t *mc.T) {
					w := &world{tp: [2]*tape{{env.New(1)}, {env.New(1)}}}
					w.k = two(w.tp[0], w.tp[1])
					for n, i := range s {
						ops[i].fn(t, w)
						t.State(fmt.Sprint(i, n))
					}
					t.Outcome("%v", s)
				})
			})
		})
		step := r.Pick(map[string]int{"P434": 1, "P503": 4, "P751": 16}[f.Name], 1)
		r.Group("altered-"+f.Name, fmt.Sprintf("every %d. byte of the first part and every byte of the second altered in three ways, re-encodings by p, parts of other ciphertexts, other keys; both implementations answer alike and as the model", step), func(emit mc.Emit) {
			ct, _ := f.refEncap(msgs[0], ps[0].pk)
			for i := 0; i < f.CtLen; i++ {
				if i%step != 0 && i < f.PublicKeySize && i%f.Bytes != f.Bytes-1 && i%f.Bytes != 0 {
					continue
				}
				for _, d := range []byte{1, 0x80, 0xff} {
					i, d := i, d
					emit(fmt.Sprintf("byte %d xor %02x", i, d), func(t *mc.T) {
						bad := append([]byte{}, ct...)
						bad[i] ^= d
						k := two(new(tape), new(tape))
						x, y := dec(t, k[0], ps[0], bad), dec(t, k[1], ps[0], bad)
						t.Eq("the two implementations", x, y)
						t.Eq("rejection value", x, f.Reject(ps[0].s, bad))
					})
				}
			}
			other, _ := f.refEncap(msgs[1], ps[0].pk)
			foreign, _ := f.refEncap(msgs[0], ps[1].pk)
			join := func(a, b []byte) []byte {
				return append(append([]byte{}, a[:f.PublicKeySize]...), b[f.PublicKeySize:]...)
			}
			bads := map[string][]byte{"parts exchanged 1": join(ct, other), "parts exchanged 2": join(other, ct), "other key": foreign,
				"other key, same first part": join(ct, foreign), "zero": make([]byte, f.CtLen), "ones": bytes.Repeat([]byte{255}, f.CtLen),
				"zero first": join(make([]byte, f.CtLen), ct), "own key": append(append([]byte{}, ps[0].pk...), ct[f.PublicKeySize:]...)}
			for c := 0; c < 6; c++ {
				for mul := int64(1); mul <= 3; mul++ {
					w := new(big.Int).Mul(f.P, big.NewInt(mul))
					w.Add(w, ref.LE(ct[c*f.Bytes:(c+1)*f.Bytes]))
					if w.BitLen() <= 8*f.Bytes {
						a := append([]byte{}, ct...)
						copy(a[c*f.Bytes:], ref.PutLE(w, f.Bytes))
						bads[fmt.Sprintf("%d p added to coordinate %d", mul, c)] = a
						if c > 0 {
							b := append([]byte{}, a...)
							v := new(big.Int).Add(f.P, ref.LE(ct[:f.Bytes]))
							if v.BitLen() <= 8*f.Bytes {
								copy(b, ref.PutLE(v, f.Bytes))
								bads[fmt.Sprintf("%d p added to coordinate %d and p to coordinate 0", mul, c)] = b
							}
						}
					}
				}
			}
			var names []string
			for n := range bads {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				n, bad := n, bads[n]
				emit(n, func(t *mc.T) {
					k := two(new(tape), new(tape))
					x, y := dec(t, k[0], ps[0], bad), dec(t, k[1], ps[0], bad)
					t.Eq("the two implementations", x, y)
					t.Eq("rejection value", x, f.Reject(ps[0].s, bad))
				})
			}
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					for c := 0; c < 3; c++ {
						i, j, c := i, j, c
						emit(fmt.Sprintf("private %d public %d ciphertext to %d", i, j, c), func(t *mc.T) {
							p := pair{ps[i].s, ps[i].scalar, ps[j].pk}
							w, ss := f.refEncap(msgs[1], ps[c].pk)
							if i != j || j != c {
								ss = f.Reject(p.s, w)
							}
							k := two(new(tape), new(tape))
							x, y := dec(t, k[0], p, w), dec(t, k[1], p, w)
							t.Eq("the two implementations", x, y)
							t.Eq("secret", x, ss)
						})
					}
				}
			}
		})
		r.Group("messages-"+f.Name, "one-bit and constant messages encapsulated by both and decapsulated by the other, with several key pairs", func(emit mc.Emit) {
			st := r.Pick(map[string]int{"P434": 2, "P503": 8, "P751": 32}[f.Name], 1)
			var ms [][]byte
			for _, c := range []byte{0, 0xff, 0x80, 0x55} {
				ms = append(ms, bytes.Repeat([]byte{c}, f.MsgLen))
			}
			for i := 0; i < 8*f.MsgLen; i += st {
				ms = append(ms, bitAt(f.MsgLen, i))
			}
			for n, m := range ms {
				n, m := n, m
				emit(fmt.Sprintf("%x", m), func(t *mc.T) {
					tp := []*tape{{}, {}}
					k := two(tp...)
					p := f.pair(n % 3)
					x, y := enc(t, k[0], tp[0], m, p, 0), enc(t, k[1], tp[1], m, p, 0)
					t.Eq("ciphertexts", x, y)
					_, ws := f.refEncap(m, p.pk)
					t.Eq("sidh decapsulates mkem", dec(t, k[1], p, x), ws)
					t.Eq("mkem decapsulates sidh", dec(t, k[0], p, y), ws)
				})
			}
		})
		r.Group("rng-"+f.Name, "every failure position of the random source: both implementations report it", func(emit mc.Emit) {
			for at := 0; at <= f.MsgLen+1; at++ {
				for way := 0; way < 4; way++ {
					at, we, once := at, way&1 != 0, way&2 != 0
					emit(fmt.Sprintf("fail at %d withdata=%v once=%v", at, we, once), func(t *mc.T) {
						tp := []*tape{{}, {}}
						k := two(tp...)
						_, pub := f.keys(t, ps[0])
						var errs [2]bool
						for i := range k {
							src := env.With(3, msgs[0])
							src.FailAt, src.WithErr, src.Once = at, we, once
							tp[i].src = src
							ct, ss := filled(f.CtLen), filled(f.KemSize)
							errs[i] = k[i].Encapsulate(ct, ss, pub) != nil
							if errs[i] && (!allCanary(ct) || !allCanary(ss)) {
								t.Fail("%s: output written although an error was returned", names[i])
							}
							if at < f.MsgLen && !errs[i] {
								t.Fail("%s: no error", names[i])
							}
							enc(t, k[i], tp[i], msgs[1], ps[0], 0)
						}
						if errs[0] != errs[1] {
							t.Fail("mkem error %v, sidh error %v", errs[0], errs[1])
						}
						t.Outcome("%v", errs)
					})
				}
			}
		})
	}
}
