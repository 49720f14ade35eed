package main

import (
	"bytes"
	"fmt"
	"io"
	"math/big"

	"github.com/henrydcase/nobs/dh/sidh"

	"vh/env"
	"vh/mc"
	"vh/ref"
)

// ---------------------------------------------------------------- I05

// reduced is the canonical encoding of public key bytes.
func (f *field) reduced(b []byte) (o []byte) {
	for i := 0; i < 6; i++ {
		v := ref.LE(b[i*f.Bytes : (i+1)*f.Bytes])
		o = append(o, ref.PutLE(v.Mod(v, f.P), f.Bytes)...)
	}
	return
}

// coords lists boundary values of one coordinate encoding.
func (f *field) coords() (out []*big.Int) {
	lim := new(big.Int).Lsh(big.NewInt(1), uint(8*f.Bytes))
	for k := int64(0); k < 80; k++ {
		m := new(big.Int).Mul(f.P, big.NewInt(k))
		for _, d := range []int64{-1, 0, 1} {
			v := new(big.Int).Add(m, big.NewInt(d))
			if v.Sign() >= 0 && v.Cmp(lim) < 0 {
				out = append(out, v)
			}
		}
	}
	for _, d := range []int64{1, 2} {
		out = append(out, new(big.Int).Sub(lim, big.NewInt(d)))
	}
	return out
}

func (f *field) randPub(i int) []byte { return f.reduced(mc.Pattern(700+i, f.PublicKeySize)) }

func i05(r *mc.Run) {
	for _, f := range fields {
		f := f
		r.Group("coordinates-"+f.Name, "every one-bit value and boundary value (multiples of p and neighbours, largest encodings) in every coordinate, imported into fresh and used objects", func(emit mc.Emit) {
			vals := f.coords()
			for i := 0; i < 8*f.Bytes; i++ {
				b := new(big.Int).Lsh(big.NewInt(1), uint(i))
				vals = append(vals, b, new(big.Int).Sub(b, big.NewInt(1)))
				m := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*f.Bytes)), big.NewInt(1))
				vals = append(vals, m.Sub(m, b))
			}
			used := f.randPub(9)
			for vi, v := range vals {
				vi, v := vi, v
				if !emit("value "+hexk(v), func(t *mc.T) {
					enc := ref.PutLE(v, f.Bytes)
					for c := 0; c < 6; c++ {
						for _, va := range variantList {
							if va != variantList[(vi+c)%3] {
								continue
							}
							b := with(make([]byte, f.PublicKeySize), c*f.Bytes, enc)
							in := append([]byte{}, b...)
							k := sidh.NewPublicKey(f.id, va)
							if c%2 == 1 {
								if k.Import(used) != nil {
									t.Fail("import refused")
								}
							}
							if err := k.Import(in); err != nil {
								t.Fail("import refused: %v", err)
							}
							if !bytes.Equal(in, b) {
								t.Fail("import modified its input")
							}
							t.Eq("exported", export(t, k), f.reduced(b))
							t.Eq("exported again", export(t, k), f.reduced(b))
						}
					}
				}) {
					return
				}
			}
		})
		r.Group("dense-"+f.Name, "whole public keys of filler bytes, of boundary values in all coordinates at once, and of real keys", func(emit mc.Emit) {
			var bs [][]byte
			for i := 0; i < r.Pick(64, 1000); i++ {
				bs = append(bs, mc.Pattern(3000+i, f.PublicKeySize))
			}
			for _, v := range f.coords() {
				bs = append(bs, bytes.Repeat(ref.PutLE(v, f.Bytes), 6))
			}
			for i := 0; i < 4; i++ {
				bs = append(bs, f.refPub(i%2 == 0, f.scalar(i%2 == 0, big.NewInt(int64(i)))))
			}
			for i, b := range bs {
				b := b
				if !emit(fmt.Sprint(i), func(t *mc.T) {
					for _, va := range variantList {
						k := f.pub(t, va, b)
						t.Eq("exported", export(t, k), f.reduced(b))
						k2 := f.pub(t, va, export(t, k))
						t.Eq("exported again", export(t, k2), f.reduced(b))
					}
				}) {
					return
				}
			}
		})
		// histories
		pubHist(r, f)
		prvHist(r, f)
		r.Group("sizes-"+f.Name, "every input length from 0 to twice the size for every variant: refused and unchanged unless exact", func(emit mc.Emit) {
			for _, va := range variantList {
				va := va
				for n := 0; n <= 2*f.PublicKeySize+2; n++ {
					n := n
					if !emit(fmt.Sprintf("%s public %d", variantNames[va], n), func(t *mc.T) {
						k := f.pub(t, va, f.randPub(1))
						b := mc.Pattern(7, n)
						err := k.Import(b)
						t.Step(1)
						if (err == nil) != (n == f.PublicKeySize) {
							t.Fail("import of %d bytes: error %v", n, err)
						}
						if n != f.PublicKeySize {
							t.Eq("key after refused import", export(t, k), f.randPub(1))
						} else {
							t.Eq("imported", export(t, k), f.reduced(b))
						}
					}) {
						return
					}
				}
				size := f.nbytes(isA(va))
				if va == vS {
					size += f.MsgLen
				}
				for n := 0; n <= 2*size+2; n++ {
					n := n
					if !emit(fmt.Sprintf("%s private %d", variantNames[va], n), func(t *mc.T) {
						k := sidh.NewPrivateKey(f.id, va)
						old := mc.Pattern(8, size)
						if err := k.Import(old); err != nil {
							t.Fail("%v", err)
						}
						b := mc.Pattern(7, n)
						err := k.Import(b)
						t.Step(1)
						if (err == nil) != (n == size) {
							t.Fail("import of %d bytes: error %v", n, err)
						}
						if n != size {
							t.Eq("key after refused import", exportPrv(t, k), old)
						} else {
							t.Eq("imported", exportPrv(t, k), b)
						}
					}) {
						return
					}
				}
			}
		})
		uses := r.Pick(1<<13, 1<<18)
		r.Group("endurance-"+f.Name, fmt.Sprintf("one public and one private key object imported and exported %d times", uses), func(emit mc.Emit) {
			for _, va := range variantList {
				va := va
				emit(variantNames[va], func(t *mc.T) {
					q, k := sidh.NewPublicKey(f.id, va), sidh.NewPrivateKey(f.id, va)
					var pubs, prvs [3][]byte
					for i := range pubs {
						pubs[i], prvs[i] = f.randPub(i), mc.Pattern(9+i, k.Size())
					}
					a, b := make([]byte, q.Size()), make([]byte, k.Size())
					for i := 0; i < uses; i++ {
						if q.Import(pubs[i%3]) != nil || k.Import(prvs[i%3]) != nil {
							t.Fail("use %d refused", i)
						}
						q.Export(a)
						k.Export(b)
						if !bytes.Equal(a, pubs[i%3]) || !bytes.Equal(b, prvs[i%3]) {
							t.Fail("use %d: public key %x private key %x", i, a, b)
						}
					}
					t.Outcome("%x %x", a, b)
				})
			}
		})
		r.Group("private-"+f.Name, "one-bit and filler private keys of every variant round-trip and export into longer buffers", func(emit mc.Emit) {
			for _, va := range variantList {
				va := va
				size := sidh.NewPrivateKey(f.id, va).Size()
				for i := -2; i < 8*size; i++ {
					i := i
					if !emit(fmt.Sprintf("%s bit %d", variantNames[va], i), func(t *mc.T) {
						b := make([]byte, size)
						switch {
						case i == -2:
							b = bytes.Repeat([]byte{0xff}, size)
						case i == -1:
							b = mc.Pattern(11, size)
						default:
							b[i/8] = 1 << uint(i%8)
						}
						in := append([]byte{}, b...)
						k := sidh.NewPrivateKey(f.id, va)
						if err := k.Import(in); err != nil {
							t.Fail("%v", err)
						}
						for j := range in { // the key owns its bytes
							in[j] ^= 0xff
						}
						out := filled(size + 9)
						k.Export(out)
						if !allCanary(out[size:]) {
							t.Fail("export wrote past the documented size")
						}
						t.Eq("exported", out[:size], b)
						out[0] ^= 0xff
						t.Eq("exported again", exportPrv(t, k), b)
					}) {
						return
					}
				}
			}
		})
		n := map[string]int{"P434": 24, "P503": 12, "P751": 6}[f.Name] * r.Pick(1, 4)
		r.Group("behaviour-"+f.Name, "keys behave the same before and after export/import: public keys and secrets derived, also from non-canonical encodings of the peer's key", func(emit mc.Emit) {
			lim := new(big.Int).Lsh(big.NewInt(1), uint(8*f.Bytes))
			for i := 0; i < n; i++ {
				for _, va := range variantList {
					i, va := i, va
					if !emit(fmt.Sprintf("%s %d", variantNames[va], i), func(t *mc.T) {
						a := isA(va)
						es := f.edges(a)
						sc := f.scalar(a, es[(5*i)%len(es)])
						s := mc.Pattern(i, f.MsgLen)
						if va != vS {
							s = nil
						}
						k := f.priv(t, va, s, sc)
						k2 := sidh.NewPrivateKey(f.id, va)
						if err := k2.Generate(rnd(i)); err != nil {
							t.Fail("%v", err)
						}
						if err := k2.Import(exportPrv(t, k)); err != nil {
							t.Fail("%v", err)
						}
						t.Eq("public key", export(t, pubOf(t, k2)), export(t, pubOf(t, k)))
						po := sidh.KeyVariant(vB)
						if !a {
							po = vA
						}
						peer := f.refPub(!a, f.scalar(!a, big.NewInt(int64(i))))
						want := derive(t, k, f.pub(t, po, peer))
						t.Eq("secret", derive(t, k2, f.pub(t, po, peer)), want)
						nc := append([]byte{}, peer...)
						for c := 0; c < 6; c++ {
							v := ref.LE(peer[c*f.Bytes : (c+1)*f.Bytes])
							v.Add(v, f.P)
							if v.Cmp(lim) < 0 {
								copy(nc[c*f.Bytes:], ref.PutLE(v, f.Bytes))
							}
						}
						t.Eq("secret from the non-canonical encoding", derive(t, k2, f.pub(t, po, nc)), want)
						p3 := f.pub(t, po, f.randPub(i))
						if p3.Import(nc) != nil {
							t.Fail("import refused")
						}
						t.Eq("secret from an overwritten object", derive(t, k, p3), want)
					}) {
						return
					}
				}
			}
		})
	}
}

func pubHist(r *mc.Run, f *field) {
	type world struct {
		k     *sidh.PublicKey
		va    sidh.KeyVariant
		model []byte
	}
	type op struct {
		name string
		fn   func(*mc.T, *world)
	}
	imp := func(b []byte) func(*mc.T, *world) {
		return func(t *mc.T, w *world) {
			err := w.k.Import(b)
			t.Step(1)
			if len(b) == f.PublicKeySize {
				if err != nil {
					t.Fail("refused: %v", err)
				}
				w.model = f.reduced(b)
			} else if err == nil {
				t.Fail("import of %d bytes accepted", len(b))
			}
		}
	}
	nc := bytes.Repeat(ref.PutLE(new(big.Int).Add(f.P, big.NewInt(1)), f.Bytes), 6)
	ops := []op{
		{"import k0", imp(f.randPub(0))},
		{"import k1", imp(f.randPub(1))},
		{"import zero", imp(make([]byte, f.PublicKeySize))},
		{"import p+1", imp(nc)},
		{"import ones", imp(bytes.Repeat([]byte{0xff}, f.PublicKeySize))},
		{"import short", imp(f.randPub(2)[:f.PublicKeySize-1])},
		{"import long", imp(append(f.randPub(2), 0))},
		{"generate", func(t *mc.T, w *world) {
			a := isA(w.va)
			sc := f.scalar(a, big.NewInt(5))
			s := make([]byte, f.MsgLen)
			if w.va != vS {
				s = nil
			}
			f.priv(t, w.va, s, sc).GeneratePublicKey(w.k)
			t.Step(1)
			w.model = f.refPub(a, sc)
		}},
		{"derive", func(t *mc.T, w *world) { // using the key leaves it alone
			v := vA
			if isA(w.va) {
				v = vB
			}
			ss := make([]byte, f.SecretSize)
			f.priv(t, v, nil, f.scalar(isA(v), big.NewInt(9))).DeriveSecret(ss, w.k)
			t.Step(1)
		}},
	}
	depth := r.Pick(3, 4)
	if f.Name == "P751" {
		depth = r.Pick(2, 3)
	}
	r.Group("public-histories-"+f.Name, fmt.Sprintf("every sequence of up to %d of %d operations on one public key object per variant, exported after every step", depth, len(ops)), func(emit mc.Emit) {
		for vi, va := range variantList {
			va, vi := va, vi
			mc.Seqs(len(ops), depth, func(s []int) bool {
				name := variantNames[va]
				for _, i := range s {
					name += " " + ops[i].name
				}
				if vi > 0 && len(s) == depth && !r.Thorough() { // full depth for one variant only
					return true
				}
				return emit(name, func(t *mc.T) {
					w := &world{k: sidh.NewPublicKey(f.id, va), va: va, model: make([]byte, f.PublicKeySize)}
					for _, i := range s {
						ops[i].fn(t, w)
						t.Eq("exported", export(t, w.k), w.model)
						t.State(fmt.Sprintf("%x", w.model[:8]))
					}
				})
			})
		}
	})
}

func prvHist(r *mc.Run, f *field) {
	type world struct {
		k     *sidh.PrivateKey
		f     *field
		va    sidh.KeyVariant
		model []byte
	}
	other := fields[2]
	if f == other {
		other = fields[1]
	}
	size := func(w *world) int {
		n := w.f.nbytes(isA(w.va))
		if w.va == vS {
			n += w.f.MsgLen
		}
		return n
	}
	type op struct {
		name string
		fn   func(*mc.T, *world)
	}
	init := func(g *field, v sidh.KeyVariant) op {
		return op{"init " + g.Name + variantNames[v], func(t *mc.T, w *world) {
			w.f, w.va = g, v
			w.k.Init(g.id, v)
			w.model = make([]byte, size(w))
			t.Step(1)
		}}
	}
	ops := []op{
		{"import", func(t *mc.T, w *world) {
			w.model = mc.Pattern(20, size(w))
			if err := w.k.Import(w.model); err != nil {
				t.Fail("%v", err)
			}
			t.Step(1)
		}},
		{"import ones", func(t *mc.T, w *world) {
			w.model = bytes.Repeat([]byte{0xff}, size(w))
			if err := w.k.Import(w.model); err != nil {
				t.Fail("%v", err)
			}
			t.Step(1)
		}},
		{"import short", func(t *mc.T, w *world) {
			if w.k.Import(mc.Pattern(21, size(w)-1)) == nil {
				t.Fail("short key accepted")
			}
			t.Step(1)
		}},
		{"import long", func(t *mc.T, w *world) {
			if w.k.Import(mc.Pattern(21, size(w)+1)) == nil {
				t.Fail("long key accepted")
			}
			t.Step(1)
		}},
		{"generate", func(t *mc.T, w *world) {
			if err := w.k.Generate(rnd(22)); err != nil {
				t.Fail("%v", err)
			}
			w.model = genModel(w.f, w.va, rnd(22).Bytes(size(w)))
			t.Step(1)
		}},
		init(f, vA), init(f, vB), init(f, vS), init(other, vS), init(other, vA),
	}
	depth := r.Pick(4, 5)
	r.Group("private-histories-"+f.Name, fmt.Sprintf("every sequence of up to %d of %d operations on one private key object, re-initialisations to other variants and fields included, exported after every step", depth, len(ops)), func(emit mc.Emit) {
		mc.Seqs(len(ops), depth, func(s []int) bool {
			name := ""
			for _, i := range s {
				name += ops[i].name + ", "
			}
			return emit(name, func(t *mc.T) {
				w := &world{k: sidh.NewPrivateKey(f.id, vS), f: f, va: vS}
				w.model = make([]byte, size(w))
				for _, i := range s {
					ops[i].fn(t, w)
					if w.k.Size() != size(w) {
						t.Fail("Size %d, want %d", w.k.Size(), size(w))
					}
					t.Eq("exported", exportPrv(t, w.k), w.model)
					t.State(w.f.Name + variantNames[w.va] + fmt.Sprintf("%x", w.model))
				}
			})
		})
	})
}

// ---------------------------------------------------------------- I06

// genModel is the exported private key the random bytes give.
func genModel(f *field, v sidh.KeyVariant, stream []byte) []byte {
	a := isA(v)
	n := f.nbytes(a)
	var s []byte
	if v == vS {
		s, stream = stream[:f.MsgLen], stream[f.MsgLen:]
	}
	k := ref.LE(stream[:n])
	k.Mod(k, f.top(a))
	k.SetBit(k, int(f.bits(a))-1, 1)
	return cat(s, f.scalar(a, k))
}

func i06(r *mc.Run) {
	for _, f := range fields {
		f := f
		for _, v := range variantList {
			v := v
			need := f.nbytes(isA(v))
			if v == vS {
				need += f.MsgLen
			}
			gen := func(t *mc.T, src io.Reader, used bool, viaFunc bool) ([]byte, error) {
				k := sidh.NewPrivateKey(f.id, v)
				if used {
					if err := k.Import(bytes.Repeat([]byte{0xff}, k.Size())); err != nil {
						t.Fail("%v", err)
					}
				}
				var err error
				if viaFunc {
					err = sidh.GeneratePrivateKey(k, src)
				} else {
					err = k.Generate(src)
				}
				t.Step(1)
				return exportPrv(t, k), err
			}
			check := func(t *mc.T, stream []byte) {
				for i := 0; i < 4; i++ {
					got, err := gen(t, env.With(0, stream), i&1 == 1, i&2 == 2)
					if err != nil {
						t.Fail("%v", err)
					}
					t.Eq("generated key", got, genModel(f, v, stream))
				}
			}
			name := f.Name + "-" + variantNames[v]
			r.Group("bits-"+name, "every bit of the random stream set alone, cleared alone, all pairs of adjacent bits and constant streams, in fresh and used keys", func(emit mc.Emit) {
				for _, c := range []byte{0, 0xff, 0x55, 0xaa} {
					c := c
					if !emit(fmt.Sprintf("all %02x", c), func(t *mc.T) { check(t, bytes.Repeat([]byte{c}, need)) }) {
						return
					}
				}
				for i := 0; i < 8*need; i++ {
					i := i
					if !emit(fmt.Sprintf("bit %d", i), func(t *mc.T) {
						a, b, c := make([]byte, need), bytes.Repeat([]byte{0xff}, need), make([]byte, need)
						a[i/8] |= 1 << uint(i%8)
						b[i/8] &^= 1 << uint(i%8)
						c[i/8] |= 1 << uint(i%8)
						if i > 0 {
							c[(i-1)/8] |= 1 << uint((i-1)%8)
						}
						check(t, a)
						check(t, b)
						check(t, c)
					}) {
						return
					}
				}
				for i := 0; i < 256; i++ { // every value of the last bytes
					i := i
					if !emit(fmt.Sprintf("last byte %02x", i), func(t *mc.T) {
						s := mc.Pattern(30, need)
						s[need-1] = byte(i)
						check(t, s)
						s[need-2], s[need-1] = byte(i), 0
						check(t, s)
					}) {
						return
					}
				}
			})
			r.Group("streams-"+name, "filler streams: model value, documented interval, and consecutive keys from one source", func(emit mc.Emit) {
				for i := 0; i < r.Pick(64, 512); i++ {
					i := i
					if !emit(fmt.Sprint(i), func(t *mc.T) {
						src := rnd(4000 + i)
						all := src.Bytes(3 * need)
						for n := 0; n < 3; n++ {
							got, err := gen(t, src, n == 1, n == 2)
							if err != nil {
								t.Fail("%v", err)
							}
							t.Eq("generated key", got, genModel(f, v, all[n*need:(n+1)*need]))
							sc := ref.LE(got[len(got)-f.nbytes(isA(v)):])
							if sc.BitLen() != int(f.bits(isA(v))) {
								t.Fail("key of %d bits, documented %d", sc.BitLen(), f.bits(isA(v)))
							}
						}
					}) {
						return
					}
				}
			})
			uses := r.Pick(1<<16+300, 1<<20)
			r.Group("endurance-"+name, fmt.Sprintf("one key object generated %d times from one source", uses), func(emit mc.Emit) {
				emit("all", func(t *mc.T) {
					k := sidh.NewPrivateKey(f.id, v)
					src := rnd(6)
					all := src.Bytes(257 * need)
					var want [257][]byte
					for i := range want {
						want[i] = genModel(f, v, all[i*need:(i+1)*need])
					}
					var in *env.Rand
					out := make([]byte, k.Size())
					for i := 0; i < uses; i++ {
						if i%257 == 0 {
							in = env.With(0, all)
						}
						if err := k.Generate(in); err != nil {
							t.Fail("use %d: %v", i, err)
						}
						k.Export(out)
						if !bytes.Equal(out, want[i%257]) {
							t.Fail("use %d: key %x, want %x", i, out, want[i%257])
						}
					}
					t.Outcome("%x", out)
				})
			})
			r.Group("faults-"+name, "every failure position of the random source with every error value, and every chunk size", func(emit mc.Emit) {
				for at := 0; at <= need+1; at++ {
					for _, we := range []bool{false, true} {
						for _, e := range []error{nil, io.EOF, io.ErrUnexpectedEOF, io.ErrNoProgress} {
							at, we, e := at, we, e
							if !emit(fmt.Sprintf("at %d data=%v %v", at, we, e), func(t *mc.T) {
								for way := 0; way < 4; way++ {
									fn := way&1 != 0
									src := rnd(5)
									src.FailAt, src.WithErr, src.Err = at, we, e
									src.Once = way&2 != 0 // answers again after the error
									got, err := gen(t, src, true, fn)
									if at < need && err == nil {
										t.Fail("random source failed after %d of %d bytes and no error was returned", at, need)
									}
									if err != nil && (at > need || at == need && !we) {
										t.Fail("error %v although the source answered all %d bytes", err, need)
									}
									if err == nil {
										t.Eq("generated key", got, genModel(f, v, rnd(5).Bytes(need)))
									}
									t.Outcome("%d %v %v", at, err != nil, fn)
								}
							}) {
								return
							}
						}
					}
				}
				for c := 0; c <= need; c++ {
					for d := 0; d <= 3; d++ {
						if c == 0 && d == 0 {
							continue
						}
						c, d := c, d
						if !emit(fmt.Sprintf("chunks %d,%d", c, d), func(t *mc.T) {
							src := rnd(5)
							src.Chunks = []int{c, d}
							got, err := gen(t, src, true, false)
							if err != nil {
								t.Fail("%v", err)
							}
							t.Eq("generated key", got, genModel(f, v, rnd(5).Bytes(need)))
						}) {
							return
						}
					}
				}
			})
		}
	}
}

// i07 decides field arithmetic from outside: conversions and whole protocol values.
func i07(r *mc.Run) {
	for _, f := range fields {
		f := f
		r.Group("conversion-"+f.Name, "conversion to and from the internal representation of every one-bit and boundary value", func(emit mc.Emit) {
			vals := f.coords()
			for i := 0; i < 8*f.Bytes; i++ {
				vals = append(vals, new(big.Int).Lsh(big.NewInt(1), uint(i)))
			}
			for _, v := range vals {
				v := v
				if !emit(hexk(v), func(t *mc.T) {
					b := bytes.Repeat(ref.PutLE(v, f.Bytes), 6)
					t.Eq("converted", export(t, f.pub(t, vA, b)), f.reduced(b))
				}) {
					return
				}
			}
		})
		n := r.Pick(map[string]int{"P434": 24, "P503": 12, "P751": 6}[f.Name], 30)
		r.Group("protocol-"+f.Name, "public keys and secrets of boundary scalars against the textbook model", func(emit mc.Emit) {
			for _, a := range []bool{true, false} {
				for _, k := range pickSome(f.edges(a), n) {
					a, k := a, k
					v, o := vA, vB
					if !a {
						v, o = vB, vA
					}
					if !emit(fmt.Sprintf("%v %s", a, hexk(k)), func(t *mc.T) {
						sc := f.scalar(a, k)
						prv := f.priv(t, v, nil, sc)
						t.Eq("public key", export(t, pubOf(t, prv)), f.refPub(a, sc))
						peer := f.refPub(!a, f.scalar(!a, big.NewInt(3)))
						t.Eq("secret", derive(t, prv, f.pub(t, o, peer)), f.refSecret(t, a, sc, peer))
					}) {
						return
					}
				}
			}
		})
	}
}
