package main

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/henrydcase/nobs/dh/sidh"

	"vh/env"
	"vh/mc"
)

// refused runs fn, which must panic or return an error, and nothing of outs may have been written past lens.
func refused(t *mc.T, what string, fn func() error) {
	var err error
	p := mc.Panics(func() { err = fn() })
	t.Step(1)
	if p == "" && err == nil {
		t.Fail("%s was accepted", what)
	}
	t.Outcome("%s %v %v", what, p != "", err != nil)
}

func i08(r *mc.Run) {
	type kk struct {
		f *field
		v sidh.KeyVariant
	}
	var all []kk
	for _, f := range fields {
		for _, v := range variantList {
			all = append(all, kk{f, v})
		}
	}
	name := func(k kk) string { return k.f.Name + variantNames[k.v] }
	mkPrv := func(t *mc.T, k kk) *sidh.PrivateKey {
		s := mc.Pattern(40, k.f.MsgLen)
		if k.v != vS {
			s = nil
		}
		return k.f.priv(t, k.v, s, k.f.scalar(isA(k.v), big.NewInt(77)))
	}
	mkPub := func(t *mc.T, k kk) *sidh.PublicKey {
		return k.f.pub(t, k.v, k.f.refPub(isA(k.v), k.f.scalar(isA(k.v), big.NewInt(78))))
	}
	r.Group("derive", "every combination of private and public key field and variant: a result exactly for two torsion sides of one field", func(emit mc.Emit) {
		for _, a := range all {
			for _, b := range all {
				for fn := 0; fn < 2; fn++ {
					a, b, fn := a, b, fn
					if !emit(fmt.Sprintf("%s with %s fn%d", name(a), name(b), fn), func(t *mc.T) {
						prv, pub := mkPrv(t, a), mkPub(t, b)
						pe, ve := export(t, pub), exportPrv(t, prv)
						ss := filled(400)
						call := func() error {
							if fn == 0 {
								prv.DeriveSecret(ss, pub)
							} else {
								sidh.DeriveSecret(ss, pub, prv)
							}
							return nil
						}
						if a.f == b.f && isA(a.v) != isA(b.v) {
							call()
							t.Eq("secret", ss[:a.f.SecretSize], a.f.refSecret(t, isA(a.v), a.f.scalar(isA(a.v), big.NewInt(77)), pe))
							if !allCanary(ss[a.f.SecretSize:]) {
								t.Fail("wrote past the documented size")
							}
						} else {
							refused(t, "deriving with mismatched keys", call)
							if !allCanary(ss) {
								t.Fail("output written although refused")
							}
						}
						t.Eq("public key after the call", export(t, pub), pe)
						t.Eq("private key after the call", exportPrv(t, prv), ve)
					}) {
						return
					}
				}
			}
		}
	})
	r.Group("generate", "every combination of private key and receiving public key field and variant", func(emit mc.Emit) {
		for _, a := range all {
			for _, b := range all {
				for fn := 0; fn < 2; fn++ {
					a, b, fn := a, b, fn
					if !emit(fmt.Sprintf("%s into %s fn%d", name(a), name(b), fn), func(t *mc.T) {
						prv, pub := mkPrv(t, a), mkPub(t, b)
						pe, ve := export(t, pub), exportPrv(t, prv)
						call := func() error {
							if fn == 0 {
								prv.GeneratePublicKey(pub)
							} else {
								sidh.GeneratePublicKey(pub, prv)
							}
							return nil
						}
						if a == b {
							call()
							pe = a.f.refPub(isA(a.v), a.f.scalar(isA(a.v), big.NewInt(77)))
						} else {
							refused(t, "generating into a mismatched key", call)
						}
						t.Eq("public key after the call", export(t, pub), pe)
						t.Eq("private key after the call", exportPrv(t, prv), ve)
					}) {
						return
					}
				}
			}
		}
	})
	r.Group("encapsulate", "every combination of KEM field and public key field and variant; unallocated KEM", func(emit mc.Emit) {
		for _, f := range fields {
			for _, b := range all {
				f, b := f, b
				if !emit(fmt.Sprintf("%s KEM to %s", f.Name, name(b)), func(t *mc.T) {
					pub := mkPub(t, b)
					pe := export(t, pub)
					k := newKEM(f, rnd(6))
					ct, ss := filled(f.CtLen+300), filled(f.KemSize+40)
					if b.f == f && b.v == vS {
						if err := k.Encapsulate(ct, ss, pub); err != nil {
							t.Fail("%v", err)
						}
						wc, ws := f.refEncap(rnd(6).Bytes(f.MsgLen), pe)
						t.Eq("ciphertext", ct[:f.CtLen], wc)
						t.Eq("secret", ss[:f.KemSize], ws)
						if !allCanary(ct[f.CtLen:]) || !allCanary(ss[f.KemSize:]) {
							t.Fail("wrote past the documented size")
						}
					} else {
						refused(t, "encapsulating to a mismatched key", func() error { return k.Encapsulate(ct, ss, pub) })
						if !allCanary(ss) {
							t.Fail("secret written although refused")
						}
					}
					t.Eq("public key after the call", export(t, pub), pe)
					var zero sidh.KEM
					refused(t, "unallocated KEM", func() error { return zero.Encapsulate(filled(f.CtLen), filled(f.KemSize), pub) })
				}) {
					return
				}
			}
		}
	})
	r.Group("decapsulate", "every combination of KEM field, private and public key field and variant and ciphertext size; exact and spare capacity", func(emit mc.Emit) {
		for _, f := range fields {
			for _, a := range all {
				for _, b := range all {
					for _, g := range fields {
						for _, spare := range []int{0, 600} {
							f, a, b, g, spare := f, a, b, g, spare
							if a.f == f && b.f == f && a.v == vS && b.v == vS && g == f {
								continue
							}
							if !emit(fmt.Sprintf("%s KEM, private %s, public %s, ct of %s, spare %d", f.Name, name(a), name(b), g.Name, spare), func(t *mc.T) {
								prv, pub := mkPrv(t, a), mkPub(t, b)
								pe, ve := export(t, pub), exportPrv(t, prv)
								ct := make([]byte, g.CtLen, g.CtLen+spare)
								hc, _ := g.refEncap(mc.Pattern(660, g.MsgLen), g.refPub(false, g.scalar(false, big.NewInt(77))))
								copy(ct, hc)
								ss := filled(64)
								k := newKEM(f, rnd(6))
								refused(t, "decapsulating with mismatched parts", func() error { return k.Decapsulate(ss, prv, pub, ct) })
								if !allCanary(ss) {
									t.Fail("secret written although refused")
								}
								t.Eq("public key after the call", export(t, pub), pe)
								t.Eq("private key after the call", exportPrv(t, prv), ve)
								if !bytes.Equal(ct, hc) {
									t.Fail("ciphertext modified")
								}
							}) {
								return
							}
						}
					}
				}
			}
		}
	})
	for _, f := range fields {
		f := f
		p := f.pair(0)
		m := mc.Pattern(660, f.MsgLen)
		r.Group("sizes-"+f.Name, "every too small output buffer (with and without spare capacity) and every wrong ciphertext size", func(emit mc.Emit) {
			small := func(size int, run func(t *mc.T, n int, b []byte)) func(n, spare int) func(t *mc.T) {
				return func(n, spare int) func(t *mc.T) {
					return func(t *mc.T) {
						b := filled(n + spare)
						run(t, n, b[:n:n+spare])
						if !allCanary(b[n:]) {
							t.Fail("wrote past the length of the buffer")
						}
					}
				}
			}
			each := func(what string, size, max int, run func(t *mc.T, n int, b []byte)) bool {
				fn := small(size, run)
				for n := 0; n <= max; n++ {
					if n == size {
						continue
					}
					for _, spare := range []int{0, 700} {
						if !emit(fmt.Sprintf("%s %d spare %d", what, n, spare), fn(n, spare)) {
							return false
						}
					}
				}
				return true
			}
			_ = each("encapsulate ciphertext", f.CtLen, f.CtLen-1, func(t *mc.T, n int, b []byte) {
				_, pub := f.keys(t, p)
				ss := filled(f.KemSize)
				refused(t, "short ciphertext buffer", func() error { return newKEM(f, env.With(1, m)).Encapsulate(b, ss, pub) })
			}) && each("encapsulate secret", f.KemSize, f.KemSize-1, func(t *mc.T, n int, b []byte) {
				_, pub := f.keys(t, p)
				refused(t, "short secret buffer", func() error { return newKEM(f, env.With(1, m)).Encapsulate(filled(f.CtLen), b, pub) })
				if !allCanary(b) {
					t.Fail("secret written although refused")
				}
			}) && each("decapsulate secret", f.KemSize, f.KemSize-1, func(t *mc.T, n int, b []byte) {
				prv, pub := f.keys(t, p)
				ct, _ := f.refEncap(m, p.pk)
				refused(t, "short secret buffer", func() error { return newKEM(f, nil).Decapsulate(b, prv, pub, ct) })
				if !allCanary(b) {
					t.Fail("secret written although refused")
				}
			}) && each("decapsulate ciphertext", f.CtLen, f.CtLen+200, func(t *mc.T, n int, b []byte) {
				prv, pub := f.keys(t, p)
				ct, _ := f.refEncap(m, p.pk)
				copy(b, ct)
				ss := filled(f.KemSize)
				refused(t, "wrong ciphertext size", func() error { return newKEM(f, nil).Decapsulate(ss, prv, pub, b) })
				if !allCanary(ss) {
					t.Fail("secret written although refused")
				}
			}) && each("derive secret", f.SecretSize, f.SecretSize-1, func(t *mc.T, n int, b []byte) {
				if n%8 > 1 && n < f.SecretSize-4 && !r.Thorough() {
					return
				}
				refused(t, "short secret buffer", func() error {
					f.priv(t, vA, nil, f.scalar(true, big.NewInt(3))).DeriveSecret(b, f.pub(t, vB, p.pk))
					return nil
				})
			}) && each("export public", f.PublicKeySize, f.PublicKeySize-1, func(t *mc.T, n int, b []byte) {
				refused(t, "short buffer", func() error { f.pub(t, vB, p.pk).Export(b); return nil })
			}) && each("export private", f.nbytes(false)+f.MsgLen, f.nbytes(false)+f.MsgLen-1, func(t *mc.T, n int, b []byte) {
				refused(t, "short buffer", func() error { f.priv(t, vS, p.s, p.scalar).Export(b); return nil })
			})
		})
		r.Group("inputs-"+f.Name, "small, large and one-bit scalars of both sides and of KEM keys, with ordinary and unusual peer keys: deriving twice gives the same secret and neither key changes; generating a public key does not change the private key", func(emit mc.Emit) {
			for _, v := range variantList {
				n := f.bits(isA(v))
				var ks []*big.Int
				for k := int64(0); k < int64(r.Pick(9, 33)); k++ {
					top := new(big.Int).Lsh(big.NewInt(1), n)
					ks = append(ks, big.NewInt(k), top.Sub(top, big.NewInt(k+1)))
				}
				for i := uint(5); i < n; i += uint(r.Pick(29, 5)) {
					ks = append(ks, new(big.Int).Lsh(big.NewInt(1), i))
				}
				peers := [][]byte{f.refPub(!isA(v), f.scalar(!isA(v), big.NewInt(78))), make([]byte, f.PublicKeySize), mc.Pattern(90, f.PublicKeySize)}
				for pi, peer := range peers {
					for ki, k := range ks {
						v, pi, peer, k := v, pi, peer, k
						if pi > 0 && ki > 4 && !r.Thorough() {
							continue
						}
						if !emit(fmt.Sprintf("%s %x peer%d", variantNames[v], k, pi), func(t *mc.T) {
							pv := vB
							if !isA(v) {
								pv = vA
							}
							var s []byte
							if v == vS {
								s = mc.Pattern(40, f.MsgLen)
							}
							pub := f.pub(t, pv, peer)
							prv := f.priv(t, v, s, f.scalar(isA(v), k))
							pe, ve := export(t, pub), exportPrv(t, prv)
							var first []byte
							for i := 0; i < 2; i++ {
								ss := filled(f.SecretSize)
								prv.DeriveSecret(ss, pub)
								t.Step(1)
								if i == 1 {
									t.Eq("secret derived again", ss, first)
								}
								first = ss
								t.Eq("public key after", export(t, pub), pe)
								t.Eq("private key after", exportPrv(t, prv), ve)
							}
							own := sidh.NewPublicKey(f.id, v)
							prv.GeneratePublicKey(own)
							t.Eq("private key after", exportPrv(t, prv), ve)
							t.Outcome("%x", first[:4])
						}) {
							return
						}
					}
				}
			}
		})
		r.Group("long-"+f.Name, "every valid call with longer outputs leaves the tail and all inputs alone", func(emit mc.Emit) {
			for _, extra := range []int{0, 1, 7, 8, 9, 64, 500} {
				extra := extra
				if !emit(fmt.Sprint(extra), func(t *mc.T) {
					prv, pub := f.keys(t, p)
					out := filled(f.PublicKeySize + extra)
					pub.Export(out)
					t.Eq("public key", out[:f.PublicKeySize], p.pk)
					tail(t, out[f.PublicKeySize:])
					n := prv.Size()
					out = filled(n + extra)
					prv.Export(out)
					t.Eq("private key", out[:n], cat(p.s, p.scalar))
					tail(t, out[n:])
					out = filled(f.SecretSize + extra)
					ka := f.priv(t, vA, nil, f.scalar(true, big.NewInt(3)))
					pe, ve := export(t, pub), exportPrv(t, ka)
					ka.DeriveSecret(out, pub)
					t.Eq("secret", out[:f.SecretSize], f.refSecret(t, true, ve, pe))
					tail(t, out[f.SecretSize:])
					t.Eq("public key after", export(t, pub), pe)
					t.Eq("private key after", exportPrv(t, ka), ve)
					k := newKEM(f, env.With(1, m))
					ct, ss := encap(t, f, k, pub, extra, extra)
					wc, ws := f.refEncap(m, p.pk)
					t.Eq("ciphertext", ct, wc)
					t.Eq("secret", ss, ws)
					t.Eq("public key after", export(t, pub), pe)
					t.Eq("decapsulated", decap(t, f, k, prv, pub, ct, extra), ws)
					t.Eq("public key after", export(t, pub), pe)
					t.Eq("private key after", exportPrv(t, prv), cat(p.s, p.scalar))
				}) {
					return
				}
			}
		})
	}
}

func tail(t *mc.T, b []byte) {
	if !allCanary(b) {
		t.Fail("wrote past the documented size")
	}
}
