//go:build go1.22

package p434

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/henrydcase/nobs/dh/sidh/common"
	"vh/mc"
	"vh/ref"
)

func TestVerifHarness(t *testing.T) { mc.MainEnv(map[string]func(*mc.Run){"I07": vhI07}) }

var (
	f       = ref.S434
	vhR     = new(big.Int).Lsh(big.NewInt(1), uint(64*FpWords))
	vhRinv  = new(big.Int).ModInverse(vhR, f.P)
	vh2p    = new(big.Int).Lsh(f.P, 1)
	vhOne   = f.N(1)
	vhZero  = f.N(0)
	vhImagI = ref.F2{A: new(big.Int), B: big.NewInt(1)}
)

func vhLimbs(v *big.Int) (o common.Fp) {
	for i, b := range ref.PutLE(v, 8*len(o)) {
		o[i/8] |= uint64(b) << uint(8*(i%8))
	}
	return
}

// vhIn stores an element; lift adds p to the stored form where it is allowed to be there.
func vhIn(x ref.F2, lift bool) common.Fp2 {
	c := func(v *big.Int) common.Fp {
		w := new(big.Int).Mul(v, vhR)
		w.Mod(w, f.P)
		if lift {
			w.Add(w, f.P)
		}
		return vhLimbs(w)
	}
	return common.Fp2{A: c(x.A), B: c(x.B)}
}

func vhOut(t *mc.T, what string, v *common.Fp2) ref.F2 {
	c := func(w common.Fp) *big.Int {
		b := make([]byte, 8*len(w))
		for i := range b {
			b[i] = byte(w[i/8] >> uint(8*(i%8)))
		}
		x := ref.LE(b)
		if x.Cmp(vh2p) >= 0 {
			t.Fail("%s: stored value %x not below 2p", what, x)
		}
		x.Mul(x, vhRinv)
		return x.Mod(x, f.P)
	}
	return ref.F2{A: c(v.A), B: c(v.B)}
}

func vhEq(t *mc.T, what string, v *common.Fp2, want ref.F2) {
	t.Step(1)
	if g := vhOut(t, what, v); !f.Eq(g, want) {
		t.Fail("%s: got %x want %x", what, g, want)
	}
}

// vhProp compares (x:z) with (X:Z) projectively.
func vhProp(t *mc.T, what string, x, z *common.Fp2, X, Z ref.F2) {
	t.Step(1)
	a, b := vhOut(t, what, x), vhOut(t, what, z)
	if !f.Eq(f.Mul(a, Z), f.Mul(b, X)) || (f.IsZero(a) && f.IsZero(b)) != (f.IsZero(X) && f.IsZero(Z)) {
		t.Fail("%s: got (%x:%x) want (%x:%x)", what, a, b, X, Z)
	}
}

func vhVals(n int) (out []ref.F2) {
	raw := func(v *big.Int) *big.Int {
		w := new(big.Int).Mul(v, vhRinv)
		return w.Mod(w, f.P)
	}
	one := big.NewInt(1)
	bits := uint(f.P.BitLen())
	cs := []*big.Int{big.NewInt(0), one, new(big.Int).Sub(f.P, one), raw(one), raw(new(big.Int).Sub(f.P, one)), raw(new(big.Int).Lsh(one, bits-1)),
		raw(new(big.Int).Sub(f.P, new(big.Int).Lsh(one, 64))), big.NewInt(2), big.NewInt(6), new(big.Int).Sub(f.P, big.NewInt(2)), ref.LE(mc.Pattern(5, f.Bytes-1)), raw(new(big.Int).Rsh(f.P, 1))}
	for i, a := range cs {
		for j, b := range cs {
			if i == 0 || j == 0 || i == j || (i*5+j*3)%7 == 0 {
				out = append(out, ref.F2{A: a, B: b})
			}
		}
	}
	if len(out) > n {
		var o []ref.F2
		for i := 0; i < n; i++ {
			o = append(o, out[i*len(out)/n])
		}
		return o
	}
	return
}

// vhSpecial lists curve coefficients and coordinates with special roles: j = 0 and 1728, roots of
// small division polynomials on the starting curve, and the constants in the formulas.
func vhSpecial() (out []ref.F2) {
	add := func(x ref.F2) { out = append(out, x, f.Neg(x)) }
	out = append(out, vhZero)
	for _, v := range []int64{1, 2, 3, 6} {
		add(f.N(v))
	}
	root := func(v int64) ref.F2 {
		x, ok := f.Sqrt(f.N(v))
		if !ok {
			panic("no square root")
		}
		return x
	}
	add(root(3))                               // j = 0
	add(f.Mul(f.N(3), f.Inv(root(2))))         // j = 1728
	add(f.Sub(f.Mul(f.N(2), root(2)), f.N(3))) // order 2 on the curve A = 6
	add(vhImagI)
	// orders 3 and 4 on the curve A = 6
	x, z := f.PB, vhOne
	for i := 0; i < int(f.E3)-1; i++ {
		p := vhTriple(f.N(6), vhXZ{x, z})
		x, z = p.X, p.Z
	}
	add(f.Affine(x, z))
	x, z = f.PA, vhOne
	for i := 0; i < int(f.E2)-2; i++ {
		x, z = f.Double(f.N(6), x, z)
	}
	add(f.Affine(x, z))
	return
}

type vhXZ struct{ X, Z ref.F2 }

func vhTriple(A ref.F2, p vhXZ) vhXZ {
	x2, z2 := f.Sqr(p.X), f.Sqr(p.Z)
	d := f.Sqr(f.Sub(x2, z2))
	c := f.Small(4, f.Add(f.Add(x2, f.Mul(A, f.Mul(p.X, p.Z))), z2))
	return vhXZ{f.Mul(p.X, f.Sqr(f.Sub(d, f.Mul(z2, c)))), f.Mul(p.Z, f.Sqr(f.Sub(d, f.Mul(x2, c))))}
}

func vhI07(r *mc.Run) {
	vals := vhVals(r.Pick(24, 64))
	scal := []ref.F2{vhOne, vhImagI, vals[len(vals)-1]}
	pt := func(p vhXZ, l bool) common.ProjectivePoint {
		return common.ProjectivePoint{X: vhIn(p.X, l), Z: vhIn(p.Z, l)}
	}
	r.Group("points", "doubling and tripling (0 to 4 times) and the combined doubling and differential addition over tuples of boundary coordinates, coefficients and scalings", func(emit mc.Emit) {
		for ai := 0; ai < len(vals); ai += 3 {
			for xi := range vals {
				ai, xi := ai, xi
				emit(fmt.Sprintf("a%d x%d", ai, xi), func(t *mc.T) {
					A, X := vals[ai], vals[xi]
					for zi, Z := range vals {
						C := scal[zi%3]
						l := zi%2 == 1
						cp := common.ProjectiveCurveParameters{A: vhIn(f.Mul(A, C), l), C: vhIn(C, l)}
						c3, c4 := CalcCurveParamsEquiv3(&cp), CalcCurveParamsEquiv4(&cp)
						w := vhXZ{X, Z}
						v := w
						for k := uint32(0); k <= 4; k++ {
							p, q := pt(vhXZ{X, Z}, l), pt(vhXZ{X, Z}, l)
							if k < 3 || zi%4 == 0 {
								Pow2k(&p, &c4, k)
								vhProp(t, fmt.Sprintf("Pow2k(%x:%x, A=%x, %d)", X, Z, A, k), &p.X, &p.Z, w.X, w.Z)
								Pow3k(&q, &c3, k)
								vhProp(t, fmt.Sprintf("Pow3k(%x:%x, A=%x, %d)", X, Z, A, k), &q.X, &q.Z, v.X, v.Z)
							}
							w.X, w.Z = f.Double(A, w.X, w.Z)
							v = vhTriple(A, v)
						}
						a24 := f.Mul(f.Add(A, f.N(2)), f.Inv(f.N(4)))
						got := CalcAplus2Over4(&cp)
						vhEq(t, "CalcAplus2Over4", &got, a24)
						dx, dz := f.Double(A, X, Z)
						for n := 0; n < len(vals); n += 5 {
							Q := vhXZ{vals[n], vals[(n*5+zi)%len(vals)]}
							D := vhXZ{vals[(n+zi+1)%len(vals)], vals[(n*3+xi)%len(vals)]}
							p, q, d := pt(vhXZ{X, Z}, l), pt(Q, !l), pt(D, l)
							p0, q0, d0 := p, q, d
							ga := vhIn(a24, l)
							db, ad := xDbladd(&p, &q, &d, &ga)
							vhProp(t, "xDbladd double", &db.X, &db.Z, dx, dz)
							sx, sz := f.DAdd(X, Z, Q.X, Q.Z, D.X, D.Z)
							vhProp(t, "xDbladd sum", &ad.X, &ad.Z, sx, sz)
							if p != p0 || q != q0 || d != d0 {
								t.Fail("xDbladd changed an argument")
							}
						}
					}
					t.Outcome("%x %x", A, X)
				})
			}
		}
	})
	r.Group("invariants", "coefficient conversions, j-invariant, coefficient recovery and simultaneous inversion over tuples of boundary elements", func(emit mc.Emit) {
		for i := range vals {
			i := i
			emit(fmt.Sprint(i), func(t *mc.T) {
				A := vals[i]
				for j, C := range vals {
					l := (i+j)%2 == 1
					cp := common.ProjectiveCurveParameters{A: vhIn(A, l), C: vhIn(C, l)}
					p2, m2 := f.Add(A, f.Small(2, C)), f.Sub(A, f.Small(2, C))
					c3, c4 := CalcCurveParamsEquiv3(&cp), CalcCurveParamsEquiv4(&cp)
					vhProp(t, "CalcCurveParamsEquiv3", &c3.A, &c3.C, p2, m2)
					vhProp(t, "CalcCurveParamsEquiv4", &c4.A, &c4.C, p2, f.Small(4, C))
					var b3, b4 common.ProjectiveCurveParameters
					RecoverCurveCoefficients3(&b3, &c3)
					vhProp(t, "RecoverCurveCoefficients3", &b3.A, &b3.C, A, C)
					RecoverCurveCoefficients4(&b4, &c4)
					vhProp(t, "RecoverCurveCoefficients4", &b4.A, &b4.C, A, C)
					if !f.IsZero(C) {
						a := f.Mul(A, f.Inv(C))
						var got common.Fp2
						if d := f.Sub(f.Sqr(a), f.N(4)); !f.IsZero(d) {
							// j = 256 (a^2-3)^3/(a^2-4)
							n := f.Sub(f.Sqr(a), f.N(3))
							Jinvariant(&cp, &got)
							vhEq(t, fmt.Sprintf("Jinvariant(%x:%x)", A, C), &got, f.Mul(f.Small(256, f.Mul(n, f.Sqr(n))), f.Inv(d)))
						}
						got = CalcAplus2Over4(&cp)
						vhEq(t, fmt.Sprintf("CalcAplus2Over4(%x:%x)", A, C), &got, f.Mul(f.Add(a, f.N(2)), f.Inv(f.N(4))))
					}
					for k := range vals {
						R := vals[(k+j)%len(vals)]
						if f.IsZero(A) || f.IsZero(C) || f.IsZero(R) {
							continue
						}
						xp, xq, xr := vhIn(A, l), vhIn(C, l), vhIn(R, !l)
						if k%4 == 0 {
							// A = (1-PQ-PR-QR)^2/(4PQR) - P - Q - R
							n := f.Sub(f.Sub(f.Sub(f.N(1), f.Mul(A, C)), f.Mul(A, R)), f.Mul(C, R))
							want := f.Mul(f.Sqr(n), f.Inv(f.Small(4, f.Mul(A, f.Mul(C, R)))))
							want = f.Sub(want, f.Add(A, f.Add(C, R)))
							cp := common.ProjectiveCurveParameters{A: vhIn(f.N(6), false), C: vhIn(vhOne, false)}
							RecoverCoordinateA(&cp, &xp, &xq, &xr)
							vhEq(t, "RecoverCoordinateA", &cp.A, want)
							vhEq(t, "RecoverCoordinateA, C", &cp.C, vhOne)
						} else if k%4 == 1 {
							var y1, y2, y3 common.Fp2
							Fp2Batch3Inv(&xp, &xq, &xr, &y1, &y2, &y3)
							vhEq(t, "Fp2Batch3Inv 1", &y1, f.Inv(A))
							vhEq(t, "Fp2Batch3Inv 2", &y2, f.Inv(C))
							vhEq(t, "Fp2Batch3Inv 3", &y3, f.Inv(R))
						}
					}
				}
				t.Outcome("%x", A)
			})
		}
	})
	sp := vhSpecial()
	r.Group("special", "curves with extra automorphisms or small invariants and points of order 2, 3 and 4, in every combination and scaling", func(emit mc.Emit) {
		for ai := range sp {
			for ci := range scal {
				ai, ci := ai, ci
				emit(fmt.Sprintf("a%d c%d", ai, ci), func(t *mc.T) {
					a, C := sp[ai], scal[ci]
					for _, l := range []bool{false, true} {
						cp := common.ProjectiveCurveParameters{A: vhIn(f.Mul(a, C), l), C: vhIn(C, l)}
						c3, c4 := CalcCurveParamsEquiv3(&cp), CalcCurveParamsEquiv4(&cp)
						vhProp(t, "CalcCurveParamsEquiv3", &c3.A, &c3.C, f.Add(a, f.N(2)), f.Sub(a, f.N(2)))
						vhProp(t, "CalcCurveParamsEquiv4", &c4.A, &c4.C, f.Add(a, f.N(2)), f.N(4))
						got := CalcAplus2Over4(&cp)
						vhEq(t, "CalcAplus2Over4", &got, f.Mul(f.Add(a, f.N(2)), f.Inv(f.N(4))))
						if d := f.Sub(f.Sqr(a), f.N(4)); !f.IsZero(d) {
							n := f.Sub(f.Sqr(a), f.N(3))
							Jinvariant(&cp, &got)
							vhEq(t, fmt.Sprintf("Jinvariant(%x)", a), &got, f.Mul(f.Small(256, f.Mul(n, f.Sqr(n))), f.Inv(d)))
						}
						for xi, X := range sp {
							for _, Z := range scal {
								w := vhXZ{f.Mul(X, Z), Z}
								v := w
								for k := uint32(0); k <= 3; k++ {
									p, q := pt(vhXZ{f.Mul(X, Z), Z}, l), pt(vhXZ{f.Mul(X, Z), Z}, !l)
									Pow2k(&p, &c4, k)
									vhProp(t, fmt.Sprintf("Pow2k(%x, A=%x, %d)", X, a, k), &p.X, &p.Z, w.X, w.Z)
									Pow3k(&q, &c3, k)
									vhProp(t, fmt.Sprintf("Pow3k(%x, A=%x, %d)", X, a, k), &q.X, &q.Z, v.X, v.Z)
									w.X, w.Z = f.Double(a, w.X, w.Z)
									v = vhTriple(a, v)
								}
							}
							// recover a curve through its points: R from A, P and Q is a root of a quadratic
							for _, Q := range sp[xi:] {
								if f.IsZero(X) || f.IsZero(Q) {
									continue
								}
								// (1-PQ-R(P+Q))^2 = 4PQR(A+P+Q+R) in R
								s, m := f.Add(X, Q), f.Mul(X, Q)
								qa := f.Sub(f.Sqr(s), f.Small(4, m))
								h := f.Add(f.Mul(f.Sub(f.N(1), m), s), f.Small(2, f.Mul(m, f.Add(a, s))))
								qc := f.Sqr(f.Sub(f.N(1), m))
								if f.IsZero(qa) {
									continue
								}
								rt, ok := f.Sqrt(f.Sub(f.Sqr(h), f.Mul(qa, qc)))
								if !ok {
									continue
								}
								for _, R := range []ref.F2{f.Mul(f.Add(h, rt), f.Inv(qa)), f.Mul(f.Sub(h, rt), f.Inv(qa))} {
									if f.IsZero(R) {
										continue
									}
									xp, xq, xr := vhIn(X, l), vhIn(Q, !l), vhIn(R, l)
									cp := common.ProjectiveCurveParameters{A: vhIn(f.N(6), false), C: vhIn(vhOne, false)}
									RecoverCoordinateA(&cp, &xp, &xq, &xr)
									vhEq(t, fmt.Sprintf("RecoverCoordinateA(%x,%x,%x)", X, Q, R), &cp.A, a)
								}
							}
						}
					}
					t.Outcome("%x", a)
				})
			}
		}
	})
	r.Group("isogeny-formulas", "codomains and images of 3- and 4-isogenies over tuples of boundary kernel and point coordinates, as rational maps", func(emit mc.Emit) {
		for ki := range vals {
			for si := range scal {
				ki, si := ki, si
				emit(fmt.Sprintf("k%d scaling%d", ki, si), func(t *mc.T) {
					K, S := vals[ki], scal[si]
					kx, kz := f.Mul(K, S), S
					kp := pt(vhXZ{kx, kz}, ki%2 == 1)
					k0 := kp
					var i3 isogeny3
					var i4 isogeny4
					c3, c4 := i3.GenerateCurve(&kp), i4.GenerateCurve(&kp)
					if kp != k0 {
						t.Fail("kernel changed")
					}
					k2 := f.Sqr(K)
					if !f.IsZero(K) {
						// x3 of order 3 lies on A=(1-6x^2-3x^4)/(4x^3)
						A := f.Mul(f.Sub(f.Sub(f.N(1), f.Small(6, k2)), f.Small(3, f.Sqr(k2))), f.Inv(f.Small(4, f.Mul(K, k2))))
						cod, _, _ := f.Map3(A, K, vhOne)
						vhProp(t, fmt.Sprintf("3-isogeny codomain of %x", K), &c3.A, &c3.C, f.Add(cod, f.N(2)), f.Sub(cod, f.N(2)))
					}
					vhProp(t, fmt.Sprintf("4-isogeny codomain of %x", K), &c4.A, &c4.C, f.Small(4, f.Sqr(k2)), f.N(4))
					for xi, X := range vals {
						Z := vals[(xi*7+ki)%len(vals)]
						p := pt(vhXZ{X, Z}, xi%2 == 0)
						p0 := p
						q := i3.EvaluatePoint(&p)
						u, v := f.Sub(f.Mul(X, K), Z), f.Sub(X, f.Mul(Z, K))
						vhProp(t, fmt.Sprintf("3-isogeny image of (%x:%x) for %x", X, Z, K), &q.X, &q.Z, f.Mul(X, f.Sqr(u)), f.Mul(Z, f.Sqr(v)))
						q = i4.EvaluatePoint(&p)
						s := f.Add(k2, vhOne)
						a := f.Mul(f.Sub(f.Small(2, f.Mul(K, Z)), f.Mul(s, X)), f.Mul(f.Sqr(u), X))
						b := f.Mul(f.Sub(f.Small(2, f.Mul(K, X)), f.Mul(s, Z)), f.Mul(f.Sqr(v), Z))
						vhProp(t, fmt.Sprintf("4-isogeny image of (%x:%x) for %x", X, Z, K), &q.X, &q.Z, a, b)
						if p != p0 {
							t.Fail("argument changed")
						}
					}
					t.Outcome("%x %d", K, si)
				})
			}
		}
	})
	r.SerialGroup("isogeny-chain", "real kernels along chains of 3- and 4-isogenies from several starting points, against affine two-step isogenies", func(emit mc.Emit) {
		for _, three := range []bool{false, true} {
			for sc := int64(0); sc < int64(r.Pick(6, 40)); sc++ {
				three, sc := three, sc
				emit(fmt.Sprintf("three=%v start=%d", three, sc), func(t *mc.T) {
					A := f.N(6)
					xp, xq, xr := f.PA, f.QA, f.RA
					ox := []ref.F2{f.PB, f.QB, f.RB}
					if three {
						xp, xq, xr, ox = f.PB, f.QB, f.RB, []ref.F2{f.PA, f.QA, f.RA}
					}
					g, inf, ok := f.Ladder3(A, xp, xq, xr, big.NewInt(sc))
					if inf || !ok {
						t.Fail("reference starting point")
					}
					for step := 0; step < 3; step++ {
						n := int(f.E3)
						if !three {
							n = int(f.E2) / 2
						}
						K := vhXZ{g, vhOne}
						for i := 0; i < n-1-step; i++ {
							if three {
								K = vhTriple(A, K)
							} else {
								K.X, K.Z = f.Double(A, K.X, K.Z)
								K.X, K.Z = f.Double(A, K.X, K.Z)
							}
						}
						k := f.Affine(K.X, K.Z)
						kp := pt(K, sc%2 == 0)
						var cod ref.F2
						var img vhXZ
						for oi, x := range append([]ref.F2{g}, ox...) {
							var c common.CurveCoefficientsEquiv
							var q common.ProjectivePoint
							p := pt(vhXZ{x, vhOne}, oi%2 == 0)
							if three {
								var phi isogeny3
								cod, img.X, img.Z = f.Map3(A, k, x)
								c = phi.GenerateCurve(&kp)
								q = phi.EvaluatePoint(&p)
								vhProp(t, "codomain", &c.A, &c.C, f.Add(cod, f.N(2)), f.Sub(cod, f.N(2)))
							} else {
								var phi isogeny4
								cod, img.X, img.Z = f.Map4(A, k, x)
								c = phi.GenerateCurve(&kp)
								q = phi.EvaluatePoint(&p)
								vhProp(t, "codomain", &c.A, &c.C, f.Add(cod, f.N(2)), f.N(4))
							}
							vhProp(t, "image", &q.X, &q.Z, img.X, img.Z)
							if oi == 0 {
								g = f.Affine(img.X, img.Z)
							} else {
								ox[oi-1] = f.Affine(img.X, img.Z)
							}
						}
						A = cod
					}
					t.Outcome("%x", A)
				})
			}
		}
	})
	r.Group("ladder", "three-point multiplication for every 4-bit scalar at every length to 8 bits, one-bit, boundary and patterned scalars at full length, on both torsion bases", func(emit mc.Emit) {
		type job struct {
			n uint
			k *big.Int
		}
		for _, b := range []struct {
			n          string
			bits       uint
			xp, xq, xr ref.F2
		}{{"A", f.ABits, f.PA, f.QA, f.RA}, {"B", f.BBits, f.PB, f.QB, f.RB}} {
			b := b
			var js []job
			for n := uint(1); n <= 8; n++ {
				for v := int64(0); v < 16 && v < 1<<n; v++ {
					js = append(js, job{n, big.NewInt(v)})
				}
			}
			top := new(big.Int).Lsh(big.NewInt(1), b.bits)
			for i := uint(0); i < b.bits; i++ {
				if i%32 < 1 || i%64 == 63 || r.Thorough() {
					js = append(js, job{b.bits, new(big.Int).Lsh(big.NewInt(1), i)})
				}
			}
			for d := int64(1); d < 4; d++ {
				js = append(js, job{b.bits, new(big.Int).Sub(top, big.NewInt(d))})
			}
			for n := 0; n < r.Pick(4, 40); n++ {
				v := ref.LE(mc.Pattern(n+20, int(b.bits+7)/8))
				js = append(js, job{b.bits, v.Mod(v, top)})
			}
			for _, j := range js {
				j := j
				emit(fmt.Sprintf("%s %d %x", b.n, j.n, j.k), func(t *mc.T) {
					want, inf, ok := f.Ladder3(f.N(6), b.xp, b.xq, b.xr, j.k)
					if inf || !ok {
						t.Fail("reference")
					}
					for _, C := range scal {
						cp := common.ProjectiveCurveParameters{A: vhIn(f.Small(6, C), false), C: vhIn(C, false)}
						P, Q, D := pt(vhXZ{b.xp, vhOne}, false), pt(vhXZ{b.xq, vhOne}, false), pt(vhXZ{b.xr, vhOne}, false)
						s := ref.PutLE(j.k, int(b.bits+7)/8)
						got := ScalarMul3Pt(&cp, &P, &Q, &D, j.n, s)
						vhProp(t, fmt.Sprintf("ScalarMul3Pt(%d bits, %x)", j.n, j.k), &got.X, &got.Z, want, vhOne)
					}
					t.Outcome("%d %x", j.n, j.k)
				})
			}
		}
	})
}
