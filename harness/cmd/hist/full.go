//go:build !appengine

package main

import (
	"fmt"

	"mkem"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/drbg"

	"vh/env"
	"vh/mc"
)

func init() { extra = append(extra, generators, instantiations, multi) }

func generators(r *mc.Run) {
	sizes := []int{0, 1, 15, 16, 17, 48, 100}
	r.Group("drbg", "every sequence of at most four calls out of reads with and without additional input, reseeding and re-instantiation", func(emit mc.Emit) {
		mc.Seqs(len(sizes)+3, r.Pick(4, 5), func(s []int) bool {
			s = append([]int{}, s...)
			return emit(fmt.Sprint(s), func(t *mc.T) {
				g := drbg.NewCtrDrbg()
				t.Outcome("%v", g.Init(mc.Pattern(1000, 48), mc.Pattern(1001, len(s)*9)))
				for i, x := range s {
					switch {
					case x < len(sizes):
						o := make([]byte, sizes[x])
						n, err := g.Read(o)
						t.Outcome("%d %v", n, err)
						t.Observe(o)
					case x == len(sizes):
						o := make([]byte, 20)
						n, err := g.ReadWithAdditionalData(o, mc.Pattern(1002, 11*i))
						t.Outcome("%d %v", n, err)
						t.Observe(o)
					case x == len(sizes)+1:
						g.Reseed(mc.Pattern(1003, 48), mc.Pattern(1004, i))
					default:
						t.Outcome("%v", g.Init(mc.Pattern(1005+i, 48), nil))
					}
				}
				o := make([]byte, 32)
				g.Read(o)
				t.Observe(o)
				t.Step(len(s) + 2)
				t.Publish()
			})
		})
	})
}

func instantiations(r *mc.Run) {
	sizes := []int{0, 1, 15, 16, 24, 31, 32, 33, 47, 48, 49, 64, 100}
	r.Group("drbg-init", "two instantiations of one generator with every pair of entropy and personalization lengths from the boundary values, accepted or refused, then reseeding", func(emit mc.Emit) {
		for _, e1 := range sizes {
			for _, p1 := range sizes {
				for _, e2 := range sizes {
					e1, p1, e2 := e1, p1, e2
					if !emit(fmt.Sprint(e1, p1, e2), func(t *mc.T) {
						g := drbg.NewCtrDrbg()
						read := func() {
							o := make([]byte, 40)
							n, err := g.Read(o)
							t.Outcome("%d %v", n, err)
							t.Observe(o)
						}
						t.Outcome("%v", g.Init(mc.Pattern(1100, e1), mc.Pattern(1101, p1)))
						read()
						t.Outcome("%v", g.Init(mc.Pattern(1102, e2), mc.Pattern(1103, p1)))
						read()
						g.Reseed(mc.Pattern(1104, e2), mc.Pattern(1105, e1))
						read()
						t.Step(6)
						t.Publish()
					}) {
						return
					}
				}
			}
		}
	})
}

func multi(r *mc.Run) {
	r.Group("mkem", "multi-recipient KEM and public-key encryption with two recipients", func(emit mc.Emit) {
		for fi, f := range fields {
			for i := 0; i < r.Pick(6, 60); i++ {
				fi, f, i := fi, f, i
				emit(fmt.Sprintf("%s %d", f.Name, i), func(t *mc.T) {
					var ks []*sidh.PrivateKey
					var qs []*sidh.PublicKey
					for n := 0; n < 2; n++ {
						k, q := sidh.NewPrivateKey(ids[fi], vS), sidh.NewPublicKey(ids[fi], vS)
						if err := k.Generate(env.New(1010 + 2*i + n)); err != nil {
							t.Fail("%v", err)
						}
						k.GeneratePublicKey(q)
						ks, qs = append(ks, k), append(qs, q)
					}
					c := new(mkem.MultiKEM)
					c.Allocate(ids[fi], 2, env.New(1020+i))
					ss := make([]byte, c.SharedSecretSize())
					t.Outcome("%v", c.Encapsulate(ss, qs))
					t.Observe(ss)
					t.Outcome("%v", c.Decapsulate(ss, ks[0], qs[0], mc.Pattern(i, c.SharedSecretSize())))
					t.Observe(ss)
					k := new(mkem.KEM)
					k.Allocate(ids[fi], env.New(1030+i))
					ct := make([]byte, k.CiphertextSize())
					t.Outcome("%v", k.Encapsulate(ct, ss, qs[1]))
					t.Observe(ct, ss)
					t.Outcome("%v", k.Decapsulate(ss, ks[1], qs[1], ct))
					t.Observe(ss)
					t.Step(4)
					t.Publish()
				})
			}
		}
		for i := 0; i < r.Pick(5, 10); i++ {
			i := i
			emit(fmt.Sprintf("pke %d", i), func(t *mc.T) {
				g := drbg.NewCtrDrbg()
				g.Init(mc.Pattern(1040+i, 48), nil)
				var k csidh.PrivateKey
				b := make([]byte, 37)
				b[i], b[20], b[36-i] = 0x1f, 0x02, 0xf0
				k.Import(b)
				q := make([]csidh.PublicKey, 1)
				csidh.GeneratePublicKey(&q[0], &k, env.New(i))
				c := new(mkem.MultiPKE)
				c.Allocate(1, g)
				pt := [16]byte{1, byte(i)}
				c.Encrypt(q, &pt)
				t.Observe(c.Ct0[:], c.Cts[0][:16])
				ct := c.Enc(&q[0], &pt)
				t.Observe(ct.U[:], ct.V[:16])
				d := c.Dec(&k, &ct)
				t.Observe(d[:])
				t.Step(3)
				t.Publish()
			})
		}
	})
}
