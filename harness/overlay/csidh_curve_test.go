//go:build go1.22

package csidh

import (
	"fmt"
	"math/big"
	"runtime"
	"strings"
	"testing"

	"vh/mc"
	"vh/ref"
)

func TestVerifHarness(t *testing.T) { mc.MainEnv(map[string]func(*mc.Run){"C05": vhC05}) }

func vhDec(v *fp) *big.Int {
	b := make([]byte, 64)
	for i := range b {
		b[i] = byte(v[i/8] >> uint(8*(i%8)))
	}
	return ref.CDec(b)
}

func vhEnc(v *big.Int) (o fp) {
	for i, b := range ref.CEnc(new(big.Int).Mod(v, ref.CP)) {
		o[i/8] |= uint64(b) << uint(8*(i%8))
	}
	return
}

func vhMul(a, b *big.Int) *big.Int { v := new(big.Int).Mul(a, b); return v.Mod(v, ref.CP) }

func vhPt(q ref.XZ) point { return point{vhEnc(q.X), vhEnc(q.Z)} }

// vhSame compares projective points.
func vhSame(t *mc.T, what string, got *point, want ref.XZ) {
	t.Step(1)
	gx, gz := vhDec(&got.x), vhDec(&got.z)
	for _, v := range []*fp{&got.x, &got.z} {
		if !isLess(v, &p) {
			t.Fail("%s: coordinate %x not reduced", what, *v)
		}
	}
	if gx.Sign() == 0 && gz.Sign() == 0 && (want.X.Sign() != 0 || want.Z.Sign() != 0) ||
		(gx.Sign() != 0 || gz.Sign() != 0) && want.X.Sign() == 0 && want.Z.Sign() == 0 ||
		vhMul(gx, want.Z).Cmp(vhMul(gz, want.X)) != 0 {
		t.Fail("%s: got (%x:%x) want (%x:%x)", what, gx, gz, want.X, want.Z)
	}
}

func vhVals() (out []*big.Int) {
	for _, v := range []int64{0, 1, 2, 3, 4, 7, -1, -2, -3, -4} {
		out = append(out, new(big.Int).Mod(big.NewInt(v), ref.CP))
	}
	raw := func(v *big.Int) { out = append(out, ref.CDec(ref.PutLE(v, 64))) } // boundary in the stored form
	raw(big.NewInt(1))
	raw(new(big.Int).Sub(ref.CP, big.NewInt(1)))
	raw(new(big.Int).Lsh(big.NewInt(1), 510))
	raw(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 448), big.NewInt(1)))
	raw(new(big.Int).Sub(ref.CP, new(big.Int).Lsh(big.NewInt(1), 448)))
	out = append(out, new(big.Int).Mod(ref.LE(mc.Pattern(1, 64)), ref.CP))
	return
}

func vhC05(r *mc.Run) {
	oa, ob := hasADXandBMI2, hasBMI2
	for _, pa := range []string{"plain", "bmi2", "adx"} {
		if pa != "plain" && (strings.Contains(r.Label(), "noasm") || runtime.GOARCH != "amd64" || !ob || pa == "adx" && !oa) {
			continue
		}
		hasBMI2, hasADXandBMI2 = pa != "plain", pa == "adx"
		vhCurve(r, pa)
	}
	hasADXandBMI2, hasBMI2 = oa, ob
}

func vhCurve(r *mc.Run, path string) {
	vals := vhVals()
	as := []*big.Int{new(big.Int), big.NewInt(6), new(big.Int).Sub(ref.CP, big.NewInt(3)), vals[len(vals)-1], vals[10], vals[11]}
	scal := []*big.Int{big.NewInt(1), vals[len(vals)-1], new(big.Int).Sub(ref.CP, big.NewInt(1))}
	r.Group(path+"-curve-ops", "doubling, differential addition, combined step and curve evaluation over all tuples of boundary coordinates, scaled coefficients and aliased outputs", func(emit mc.Emit) {
		for ai, a := range as {
			for ci, c := range scal {
				for xi, x := range vals {
					a, c, x := a, c, x
					emit(fmt.Sprintf("a%d c%d x%d", ai, ci, xi), func(t *mc.T) {
						ac := coeff{vhEnc(vhMul(a, c)), vhEnc(c)}
						A := point{ac.a, ac.c}
						var a24 coeff
						a24.a = vhEnc(new(big.Int).Add(vhMul(a, c), vhMul(big.NewInt(2), c)))
						a24.c = vhEnc(vhMul(big.NewInt(4), c))
						var ev, xf fp
						xf = vhEnc(x)
						af := vhEnc(a)
						montEval(&ev, &af, &xf)
						if vhDec(&ev).Cmp(ref.CRHS(a, x)) != 0 {
							t.Fail("montEval(%x,%x)", a, x)
						}
						for zi, z := range vals {
							P := ref.XZ{X: x, Z: z}
							pp := vhPt(P)
							var q point
							xDbl(&q, &pp, &A)
							dbl := ref.CDbl(P, a)
							vhSame(t, fmt.Sprintf("xDbl((%x:%x), %x)", x, z, a), &q, dbl)
							q = pp
							xDbl(&q, &q, &A)
							vhSame(t, "xDbl in place", &q, dbl)
							for k := 0; k < len(vals); k += 1 + ci*3 {
								Q := ref.XZ{X: vals[k], Z: vals[(k*5+zi)%len(vals)]}
								D := ref.XZ{X: vals[(k+zi+1)%len(vals)], Z: vals[(k*3+xi)%len(vals)]}
								qq, dd := vhPt(Q), vhPt(D)
								want := ref.CAdd(P, Q, D)
								var s point
								if ci == 0 {
									xAdd(&s, &pp, &qq, &dd)
									vhSame(t, "xAdd", &s, want)
								}
								u, v := pp, qq
								xDblAdd(&u, &v, &u, &v, &dd, &a24)
								vhSame(t, "xDblAdd double", &u, dbl)
								vhSame(t, "xDblAdd sum", &v, want)
								if dd != vhPt(D) || A != (point{ac.a, ac.c}) {
									t.Fail("an input changed")
								}
							}
						}
						t.Outcome("%x %x %x", a, c, x)
					})
				}
			}
		}
	})
	e1 := ref.CAction(new(big.Int), func() []int {
		e := make([]int, 74)
		e[0], e[5], e[20] = 1, -1, 2
		return e
	}())
	r.Group(path+"-ladder", "scalar multiplication: every small scalar, one-bit and boundary 512-bit scalars, primes and group-order factors, on points of both curve and twist and of small order", func(emit mc.Emit) {
		p1 := new(big.Int).Add(ref.CP, big.NewInt(1))
		var ks []*big.Int
		for i := int64(1); i <= 40; i++ {
			ks = append(ks, big.NewInt(i))
		}
		for i := uint(1); i < 512; i++ {
			if i%16 == 0 || i%64 == 63 || i%64 == 1 || r.Thorough() {
				b := new(big.Int).Lsh(big.NewInt(1), i)
				ks = append(ks, b, new(big.Int).Sub(b, big.NewInt(1)), new(big.Int).Add(b, big.NewInt(1)))
			}
		}
		ks = append(ks, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 512), big.NewInt(1)), p1, new(big.Int).Sub(p1, big.NewInt(1)), new(big.Int).Add(p1, big.NewInt(1)))
		for _, l := range ref.CPrimes {
			ks = append(ks, big.NewInt(l), new(big.Int).Div(p1, big.NewInt(l)))
		}
		var xs []*big.Int
		for _, x := range []int64{1, 2, 3, 5, -1} {
			xs = append(xs, new(big.Int).Mod(big.NewInt(x), ref.CP))
		}
		for ci, a := range []*big.Int{new(big.Int), e1, big.NewInt(6)} {
			pts := xs
			if ci < 2 {
				pts = append(append([]*big.Int{}, xs...), ref.CTorsion(a, big.NewInt(3), nil, 1, 0), ref.CTorsion(a, big.NewInt(587), nil, -1, 0))
			}
			for ki, k := range ks {
				if ki%3 != ci && !r.Thorough() {
					continue
				}
				a, k, pts := a, k, pts
				emit(fmt.Sprintf("curve%d k=%x", ci, k), func(t *mc.T) {
					var kf fp
					for i, b := range ref.PutLE(k, 64) {
						kf[i/8] |= uint64(b) << uint(8*(i%8))
					}
					k0 := kf
					for n, x := range pts {
						c := scal[n%3]
						P := ref.XZ{X: vhMul(x, c), Z: c}
						pp := vhPt(P)
						co := coeff{vhEnc(vhMul(a, c)), vhEnc(c)}
						want := ref.CMul(ref.XZ{X: x, Z: big.NewInt(1)}, a, k)
						var got point
						xMul(&got, &pp, &co, &kf)
						vhInf(t, fmt.Sprintf("[%x](%x) on %x", k, x, a), &got, want)
						xMul(&pp, &pp, &co, &kf)
						vhInf(t, "in place", &pp, want)
						if kf != k0 {
							t.Fail("scalar changed")
						}
					}
					t.Outcome("%x", k)
				})
			}
		}
	})
	r.Group(path+"-isogeny", "every prime degree: codomain and image of points for kernels on curve and twist, in several projective scalings", func(emit mc.Emit) {
		for i, l := range ref.CPrimes {
			for ci, a := range []*big.Int{new(big.Int), e1} {
				for _, s := range []int{1, -1} {
					i, l, a, s := i, l, a, s
					emit(fmt.Sprintf("curve%d degree %d sign %d", ci, l, s), func(t *mc.T) {
						k := ref.CTorsion(a, big.NewInt(l), nil, s, 0)
						cod := ref.CCodomain(a, k, l)
						j := (i + 1) % len(ref.CPrimes)
						tor := ref.CTorsion(a, big.NewInt(ref.CPrimes[j]), nil, -s, 0)
						for n, x := range []*big.Int{big.NewInt(2), big.NewInt(9), new(big.Int).Sub(ref.CP, big.NewInt(5)), tor, vhVals()[10]} {
							c, d := scal[n%3], scal[(n+1)%3]
							img := vhPt(ref.XZ{X: vhMul(x, c), Z: c})
							kern := vhPt(ref.XZ{X: vhMul(k, d), Z: d})
							co := coeff{vhEnc(vhMul(a, c)), vhEnc(c)}
							k0 := kern
							xIso(&img, &co, &kern, uint64(l))
							if kern != k0 {
								t.Fail("kernel changed")
							}
							vhSame(t, "codomain", &point{co.a, co.c}, ref.XZ{X: cod, Z: big.NewInt(1)})
							im, ok := ref.CImage(a, k, x, l)
							if !ok {
								vhSame(t, "image", &img, ref.XZ{X: big.NewInt(1), Z: new(big.Int)})
							} else {
								vhSame(t, "image", &img, ref.XZ{X: im, Z: big.NewInt(1)})
							}
						}
						t.Outcome("%d %d %x", l, s, cod)
					})
				}
			}
		}
	})
}

// vhInf is vhSame with infinity decided by Z alone.
func vhInf(t *mc.T, what string, got *point, want ref.XZ) {
	if (vhDec(&got.z).Sign() == 0) != (want.Z.Sign() == 0) {
		t.Fail("%s: got (%x:%x) want (%x:%x)", what, vhDec(&got.x), vhDec(&got.z), want.X, want.Z)
	}
	if want.Z.Sign() != 0 {
		vhSame(t, what, got, want)
	}
}
