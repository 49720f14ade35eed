package main

import (
	"bytes"
	"fmt"
	"math/big"

	"mkem"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/drbg"

	"vh/env"
	"vh/mc"
	"vh/ref"
)

func newRng(t *mc.T, i int) *drbg.CtrDrbg {
	g := drbg.NewCtrDrbg()
	if !g.Init(mc.Pattern(800+i, 48), nil) {
		t.Fail("generator")
	}
	return g
}

// cpair is one CSIDH key pair of the model.
type cpair struct {
	e  []int
	pk []byte
}

func cpairOf(i int) cpair {
	e := make([]int, 74)
	for j, b := range mc.Pattern(820+i, 74) {
		e[j] = int(b)%11 - 5
	}
	if i == 1 { // a sparse key
		e = make([]int, 74)
		e[0], e[10], e[73] = 1, -2, 1
	}
	return cpair{e, act(ref.CEnc(new(big.Int)), e)}
}

// act is the group action of the model on an encoded curve.
func act(pub []byte, e []int) []byte {
	return memo(fmt.Sprintf("act %x %v", pub, e), func() [][]byte { return [][]byte{ref.CEnc(ref.CAction(ref.CDec(pub), e))} })[0]
}

// ephemeral is the key pair the construction draws first from generator i.
func ephemeral(t *mc.T, i int) (e []int, pk []byte) {
	b := memo(fmt.Sprintf("eph %d", i), func() [][]byte {
		var k csidh.PrivateKey
		if err := csidh.GeneratePrivateKey(&k, newRng(t, i)); err != nil {
			t.Fail("%v", err)
		}
		out := make([]byte, 37)
		k.Export(out)
		return [][]byte{out}
	})[0]
	e = ref.CUnkey(b)
	return e, act(ref.CEnc(new(big.Int)), e)
}

func mask(ss []byte) []byte { return ref.SHAKE(128, ss, 16) }

func cprv(t *mc.T, p cpair) *csidh.PrivateKey {
	k := new(csidh.PrivateKey)
	t.Lend("private key import", ref.CKey(p.e), func(b []byte) {
		if !k.Import(b) {
			t.Fail("private key refused")
		}
	})
	return k
}

func cpub(t *mc.T, b []byte) (k csidh.PublicKey) {
	t.Lend("public key import", b, func(b []byte) {
		if !k.Import(b) {
			t.Fail("public key refused")
		}
	})
	return
}

// zero is an empty ciphertext of the unexported type.
func zero[T any](func(*csidh.PublicKey, *[16]byte) T) (z T) { return }

var invalid = func() (out [][]byte) {
	one := big.NewInt(1)
	out = append(out, ref.CEnc(big.NewInt(2)), ref.CEnc(new(big.Int).Sub(ref.CP, big.NewInt(2))), ref.PutLE(ref.CP, 64),
		bytes.Repeat([]byte{0xff}, 64), ref.PutLE(new(big.Int).Add(ref.CP, one), 64))
	for _, v := range []int64{1, 3, 7} {
		if !ref.CSupersingular(big.NewInt(v)) {
			out = append(out, ref.CEnc(big.NewInt(v)))
		}
	}
	return
}()

type pke struct {
	m    *mkem.MultiPKE
	ps   []cpair
	n    int
	mcts []mct
}

type mct struct {
	who int
	pt  []byte
	u   []byte
	v   []byte
}

// menc encrypts to keys (index -1-n: invalid key n) and checks every ciphertext. seed<0 continues
// with the generator the object has.
func (w *pke) menc(t *mc.T, seed int, pt [16]byte, ix ...int) {
	if seed >= 0 {
		w.m.Rng = newRng(t, seed)
	}
	var keys []csidh.PublicKey
	for _, i := range ix {
		if i < 0 {
			keys = append(keys, cpub(t, invalid[-1-i]))
		} else {
			keys = append(keys, cpub(t, w.ps[i].pk))
		}
	}
	p := pt
	w.m.Encrypt(keys, &p)
	if p != pt {
		t.Fail("plaintext changed")
	}
	w.mcts = nil
	u := append([]byte{}, w.m.Ct0[:]...)
	if seed >= 0 {
		_, want := ephemeral(t, seed)
		t.Eq("ephemeral public key", u, want)
	}
	for n, i := range ix {
		v := append([]byte{}, w.m.Cts[n][:16]...)
		if i >= 0 {
			t.Eq(fmt.Sprintf("ciphertext of recipient %d", n), v, xor(pt[:], mask(w.secret(t, seed, u, i))))
			w.mcts = append(w.mcts, mct{i, pt[:], u, v})
			continue
		}
		w.leak(t, v, pt, ix, u, seed)
	}
}

// secret is what recipient i shares with ephemeral key u.
func (w *pke) secret(t *mc.T, seed int, u []byte, i int) []byte {
	if seed >= 0 {
		return act(u, w.ps[i].e)
	}
	var out [64]byte
	k := cpub(t, u)
	if !csidh.DeriveSecret(&out, &k, cprv(t, w.ps[i]), env.New(77)) {
		t.Fail("the ephemeral public key %x is not valid", u)
	}
	return out[:]
}

// leak fails when the ciphertext for an invalid key is the plaintext under a mask known to others.
func (w *pke) leak(t *mc.T, v []byte, pt [16]byte, ix []int, u []byte, seed int) {
	t.Step(1)
	cand := [][]byte{make([]byte, 16), mask(make([]byte, 64)), mask(nil), mask(u)}
	for _, k := range invalid {
		cand = append(cand, mask(k))
	}
	for _, i := range ix {
		if i >= 0 {
			ss := w.secret(t, seed, u, i)
			st := append([]byte{}, ss...)
			copy(st, mask(ss))
			cand = append(cand, mask(ss), mask(st), mask(w.ps[i].pk))
		}
	}
	for _, m := range cand {
		if bytes.Equal(xor(pt[:], m), v) && pt != [16]byte{} {
			t.FailSig("K02/known-mask", "plaintext for an invalid public key masked with a value others can compute")
		}
	}
}

func (w *pke) enc(t *mc.T, seed int, pt [16]byte, i int) {
	if seed >= 0 {
		w.m.Rng = newRng(t, seed)
	}
	key := invalid[0]
	if i >= 0 {
		key = w.ps[i].pk
	} else {
		key = invalid[-1-i]
	}
	k := cpub(t, key)
	p := pt
	ct := w.m.Enc(&k, &p)
	if p != pt {
		t.Fail("plaintext changed")
	}
	if i < 0 {
		w.leak(t, ct.V[:16], pt, nil, ct.U[:], seed)
		return
	}
	if seed >= 0 {
		_, want := ephemeral(t, seed)
		t.Eq("ephemeral public key", ct.U[:], want)
	}
	t.Eq("ciphertext", ct.V[:16], xor(pt[:], mask(w.secret(t, seed, ct.U[:], i))))
	got := w.m.Dec(cprv(t, w.ps[i]), &ct)
	t.Eq("decrypted", got[:], pt[:])
}

// dec decrypts a model ciphertext from generator seed with key i (of the recipient j).
func (w *pke) dec(t *mc.T, p *mkem.PKE, seed int, pt [16]byte, j, i int) {
	ct := zero(p.Enc)
	_, u := ephemeral(t, seed)
	copy(ct.U[:], u)
	copy(ct.V[:], xor(pt[:], mask(act(u, w.ps[j].e))))
	c := ct
	got := p.Dec(cprv(t, w.ps[i]), &ct)
	if ct != c {
		t.Fail("ciphertext changed")
	}
	if i == j {
		t.Eq("decrypted", got[:], pt[:])
		return
	}
	if got == pt {
		t.Fail("a non-recipient decrypts")
	}
	t.Eq("decrypted by another", got[:], xor(xor(pt[:], mask(act(u, w.ps[j].e))), mask(act(u, w.ps[i].e))))
}

func k02(r *mc.Run) {
	const np = 4
	var ps []cpair
	for i := 0; i < np; i++ {
		ps = append(ps, cpairOf(i))
	}
	pts := [][16]byte{{}, {}, {}}
	copy(pts[0][:], mc.Pattern(840, 16))
	copy(pts[1][:], bytes.Repeat([]byte{0xff}, 16))
	pts[2][7] = 0x10
	fresh := func(t *mc.T, n int) *pke {
		w := &pke{m: new(mkem.MultiPKE), ps: ps, n: n}
		w.m.Allocate(uint(n), newRng(t, 50))
		return w
	}
	r.Group("recipients", "every number of recipients, orders and repetitions, with exact and larger allocation; every recipient decrypts on the same, on another multi-recipient and on a plain object; others do not", func(emit mc.Emit) {
		sets := [][]int{{}, {0}, {1}, {0, 1}, {1, 0}, {2, 2}, {0, 1, 2}, {2, 1, 0}, {0, 1, 2, 3}, {3, 3, 0, 0}}
		if r.Thorough() {
			sets = append(sets, []int{0, 1, 2, 3, 0, 1, 2, 3}, []int{1, 2, 3}, []int{3, 2, 1, 0}, []int{0, 0, 0, 1})
		}
		for si, s := range sets {
			for _, room := range []int{0, 3} {
				s, room, pt := s, room, pts[si%3]
				emit(fmt.Sprintf("recipients %v room %d", s, room), func(t *mc.T) {
					w := fresh(t, len(s)+room)
					w.menc(t, si%2, pt, s...)
					single := new(mkem.PKE)
					single.Allocate(newRng(t, 9))
					for n, c := range w.mcts {
						ct := zero(single.Enc)
						copy(ct.U[:], c.u)
						copy(ct.V[:], c.v)
						for who := range ps {
							p := single
							if n%2 == 0 {
								p = &w.m.PKE
							}
							got := p.Dec(cprv(t, ps[who]), &ct)
							t.Step(1)
							if (got == pt) != (who == c.who) {
								t.Fail("key %d decrypting the ciphertext of key %d: %x, plaintext %x", who, c.who, got, pt)
							}
						}
					}
					t.Outcome("%v %d", s, room)
				})
			}
		}
	})
	many := []int{9, 17, 33}
	if r.Thorough() {
		many = append(many, 65, 129, 257, 300)
	}
	if r.Long() {
		r.Group("many", fmt.Sprintf("recipient numbers %v, an invalid key among them, several keys in turn; every ciphertext against the model", many), func(emit mc.Emit) {
			for _, n := range many {
				n := n
				emit(fmt.Sprintf("n=%d", n), func(t *mc.T) {
					var ix []int
					for i := 0; i < n; i++ {
						ix = append(ix, (i*i/3+i/7)%np)
					}
					ix[n/2] = -1
					w := fresh(t, n)
					w.menc(t, n%2, pts[0], ix...)
					last := w.mcts[len(w.mcts)-1]
					single := new(mkem.PKE)
					single.Allocate(newRng(t, 9))
					ct := zero(single.Enc)
					copy(ct.U[:], last.u)
					copy(ct.V[:], last.v)
					got := single.Dec(cprv(t, ps[last.who]), &ct)
					t.Eq("decrypted by the last", got[:], pts[0][:])
				})
			}
		})
	}
	r.Group("plaintexts", "one-bit and constant plaintexts, several generators and keys, single-recipient form", func(emit mc.Emit) {
		for i := 0; i < 128; i += r.Pick(8, 1) {
			i := i
			emit(fmt.Sprintf("bit %d", i), func(t *mc.T) {
				var pt [16]byte
				pt[i/8] = 1 << uint(i%8)
				w := fresh(t, 1)
				w.enc(t, i%3, pt, i/8%np)
				w.dec(t, &w.m.PKE, (i+1)%3, pt, i/8%np, i/8%np)
				t.Outcome("%d", i)
			})
		}
		for n, pt := range pts {
			n, pt := n, pt
			emit(fmt.Sprintf("constant %d", n), func(t *mc.T) {
				w := fresh(t, 1)
				w.enc(t, n, pt, 0)
				w.menc(t, n, pt, 1)
			})
		}
	})
	r.Group("invalid", "every invalid public key alone, at every position of a recipient list, and pairs of them: neighbours are served and the plaintext does not show under a known mask; two generators and two plaintexts compared", func(emit mc.Emit) {
		for k := range invalid {
			k := k
			emit(fmt.Sprintf("single, key %d", k), func(t *mc.T) {
				// the ciphertext must not be a function of plaintext alone that reveals it
				var v [2][2][]byte
				for s := 0; s < 2; s++ {
					for q := 0; q < 2; q++ {
						w := fresh(t, 1)
						w.m.Rng = newRng(t, 30+s)
						key := cpub(t, invalid[k])
						pt := pts[q]
						ct := w.m.Enc(&key, &pt)
						t.Step(1)
						v[s][q] = append([]byte{}, ct.V[:16]...)
						w.leak(t, v[s][q], pts[q], nil, ct.U[:], 30+s)
						if q == 1 {
							w.enc(t, s, pts[0], 1)
						}
					}
				}
				if bytes.Equal(v[0][0], v[1][0]) && bytes.Equal(xor(v[0][0], v[0][1]), xor(pts[0][:], pts[1][:])) {
					t.FailSig("K02/known-mask", "encryption to an invalid key uses a fixed mask")
				}
			})
			for pos := 0; pos < 3; pos++ {
				k, pos := k, pos
				emit(fmt.Sprintf("multi, key %d at %d", k, pos), func(t *mc.T) {
					w := fresh(t, 3)
					ix := []int{0, 1, 2}
					ix[pos] = -1 - k
					w.menc(t, 1, pts[0], 3, 3, 3) // leftovers of an earlier call
					w.menc(t, 0, pts[1], ix...)
					w.menc(t, 2, pts[0], 0, 1)
				})
			}
		}
		emit("multi, several", func(t *mc.T) {
			w := fresh(t, 5)
			w.menc(t, 1, pts[0], -1, -2, 0, -3, 1)
		})
	})
	ops := []op[*pke]{
		{"menc(0,1)", func(t *mc.T, w *pke) { w.menc(t, 0, pts[0], 0, 1) }},
		{"menc(2)", func(t *mc.T, w *pke) { w.menc(t, 1, pts[1], 2) }},
		{"menc(1,0) same generator", func(t *mc.T, w *pke) { w.menc(t, -1, pts[0], 1, 0) }},
		{"menc(0,invalid,1)", func(t *mc.T, w *pke) { w.menc(t, 2, pts[2], 0, -1, 1) }},
		{"menc()", func(t *mc.T, w *pke) { w.menc(t, 1, pts[1]) }},
		{"enc(0)", func(t *mc.T, w *pke) { w.enc(t, 1, pts[2], 0) }},
		{"enc(1) same generator", func(t *mc.T, w *pke) { w.enc(t, -1, pts[0], 1) }},
		{"enc(invalid)", func(t *mc.T, w *pke) { w.enc(t, 0, pts[0], -6) }},
		{"dec(own)", func(t *mc.T, w *pke) { w.dec(t, &w.m.PKE, 2, pts[0], 1, 1) }},
		{"dec(foreign)", func(t *mc.T, w *pke) { w.dec(t, &w.m.PKE, 2, pts[1], 0, 1) }},
		{"dec(stored)", func(t *mc.T, w *pke) {
			for _, c := range w.mcts {
				ct := zero(w.m.Enc)
				copy(ct.U[:], w.m.Ct0[:])
				copy(ct.V[:], c.v)
				got := w.m.Dec(cprv(t, w.ps[c.who]), &ct)
				t.Eq("decrypted", got[:], c.pt)
			}
		}},
		{"use of H", func(t *mc.T, w *pke) {
			w.m.H.Write([]byte("left over"))
			if w.n%2 == 0 {
				w.m.H.Read(make([]byte, 5))
			}
			t.Step(1)
		}},
		{"allocate", func(t *mc.T, w *pke) {
			g := newRng(t, 51)
			w.m.Allocate(3, g)
			if w.m.Rng != g {
				t.Fail("Allocate did not take over the generator")
			}
			w.mcts = nil
			t.Step(1)
		}},
	}
	run := func(name string, set []int, depth int) {
		r.Group(name, fmt.Sprintf("every sequence of up to %d of %d operations on one object; every ciphertext and plaintext against the model", depth, len(set)), func(emit mc.Emit) {
			mc.Seqs(len(set), depth, func(s []int) bool {
				n := ""
				for _, i := range s {
					n += ops[set[i]].name + " "
				}
				return emit(n, func(t *mc.T) {
					w := fresh(t, 3)
					for at, i := range s {
						ops[set[i]].fn(t, w)
						t.State(fmt.Sprint(set[i], at))
					}
					t.Outcome("%v", s)
				})
			})
		})
	}
	var all []int
	for i := range ops {
		all = append(all, i)
	}
	uses := r.Pick(60, 600)
	if r.Long() {
		r.Group("endurance", fmt.Sprintf("one object through %d operations: each operation alone, alternating pairs, all in turn", uses), func(emit mc.Emit) {
			for _, c := range mc.Cycles(len(ops)) {
				c := c
				if len(c) == 1 && !r.Thorough() {
					continue
				}
				emit(fmt.Sprint(c), func(t *mc.T) {
					w := fresh(t, 3)
					for i := 0; i < uses; i++ {
						ops[c[i%len(c)]].fn(t, w)
					}
					t.Outcome("%v", c)
				})
			}
		})
	}
	run("histories", all, r.Pick(2, 3))
	run("histories-deep", []int{0, 3, 5, 8, 11}, r.Pick(3, 5))
}
