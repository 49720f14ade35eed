//go:build go1.22

package csidh

import (
	"fmt"
	"math/big"
	"runtime"
	"sort"
	"strings"
	"testing"

	"vh/mc"
	"vh/ref"
)

func TestVerifHarness(t *testing.T) { mc.MainEnv(map[string]func(*mc.Run){"C05": vhC05}) }

func vhB(v *fp) *big.Int {
	b := make([]byte, 64)
	for i := range b {
		b[i] = byte(v[i/8] >> uint(8*(i%8)))
	}
	return ref.LE(b)
}

func vhF(v *big.Int) (o fp) {
	b := ref.PutLE(v, 64)
	for i := range b {
		o[i/8] |= uint64(b[i]) << uint(8*(i%8))
	}
	return
}

var (
	vhTop  = new(big.Int).Lsh(big.NewInt(1), 512)
	vhR    = new(big.Int).Mod(vhTop, ref.CP)
	vhRinv = new(big.Int).ModInverse(vhR, ref.CP)
)

// vhSet lists boundary values below limit: powers of two and neighbours, runs of full limbs,
// the prime with one limb replaced, and everything subtracted from the prime.
func vhSet(limit *big.Int, every int) (out []fp) {
	m := map[string]*big.Int{}
	put := func(v *big.Int) {
		if v.Sign() >= 0 && v.Cmp(limit) < 0 {
			m[v.String()] = v
		}
	}
	one := big.NewInt(1)
	var base []*big.Int
	for i := 0; i <= 512; i++ {
		if k := i % 64; i%every == 0 || k == 1 && every < 32 || k == 63 || k == 0 {
			base = append(base, new(big.Int).Lsh(one, uint(i)))
		}
	}
	for i := 0; i < 8; i++ {
		for j := i + 1; j <= 8; j++ {
			v := new(big.Int).Lsh(one, uint(64*j))
			base = append(base, v.Sub(v, new(big.Int).Lsh(one, uint(64*i))))
		}
	}
	pl := vhF(ref.CP)
	for i := 0; i < 8; i++ {
		for _, w := range []uint64{0, 1, ^uint64(0), pl[i] - 1, pl[i] + 1} {
			q := pl
			q[i] = w
			base = append(base, vhB(&q))
		}
	}
	base = append(base, vhR, new(big.Int).Mod(new(big.Int).Mul(vhR, vhR), ref.CP), vhRinv, new(big.Int).Rsh(ref.CP, 1))
	for _, b := range base {
		for d := int64(-1); d <= 1; d++ {
			v := new(big.Int).Add(b, big.NewInt(d))
			put(v)
			put(new(big.Int).Sub(ref.CP, v))
		}
	}
	for d := int64(0); d < 6; d++ {
		put(big.NewInt(d))
		put(new(big.Int).Sub(ref.CP, big.NewInt(d)))
		put(new(big.Int).Sub(limit, big.NewInt(d)))
	}
	var vs []*big.Int
	for _, v := range m {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Cmp(vs[j]) < 0 })
	for _, v := range vs {
		out = append(out, vhF(v))
	}
	return
}

type vhPath struct {
	name     string
	adx, bmi bool
}

func vhPaths(r *mc.Run) []vhPath {
	ps := []vhPath{{"plain", false, false}}
	if runtime.GOARCH == "amd64" && hasBMI2 && !strings.Contains(r.Label(), "noasm") {
		ps = append(ps, vhPath{"bmi2", false, true})
		if hasADXandBMI2 {
			ps = append(ps, vhPath{"adx", true, true})
		}
	}
	return ps
}

func vhExpect(t *mc.T, what string, got *fp, want *big.Int) {
	t.Step(1)
	if w := vhF(want); *got != w {
		t.Fail("%s: got %x want %x", what, *got, w)
	}
}

func vhC05(r *mc.Run) {
	paths := vhPaths(r)
	oadx, obmi := hasADXandBMI2, hasBMI2
	p := ref.CP
	for _, pa := range paths {
		hasADXandBMI2, hasBMI2 = pa.adx, pa.bmi
		vhField(r, pa.name, p)
	}
	hasADXandBMI2, hasBMI2 = oadx, obmi
}

type vhOp struct {
	n  string
	f  func(r, x, y *fp)
	do func(x, y *big.Int) *big.Int
}

func vhField(r *mc.Run, path string, p *big.Int) {
	full := vhSet(p, r.Pick(8, 1))
	small := vhSet(p, 64)
	mod := func(v *big.Int) *big.Int { return v.Mod(v, p) }
	ops := []vhOp{
		{"mul", mulRdc, func(x, y *big.Int) *big.Int {
			v := new(big.Int).Mul(x, y)
			v.Mul(mod(v), vhRinv)
			return mod(v)
		}},
		{"add", addRdc, func(x, y *big.Int) *big.Int { return mod(new(big.Int).Add(x, y)) }},
		{"sub", subRdc, func(x, y *big.Int) *big.Int { return mod(new(big.Int).Sub(x, y)) }},
	}
	bigs := func(s []fp) (o []*big.Int) {
		for i := range s {
			o = append(o, vhB(&s[i]))
		}
		return
	}
	fullB, smallB := bigs(full), bigs(small)
	r.Group(path+"-pairs", fmt.Sprintf("mul, add, sub and comparison of every pair out of %d boundary elements", len(full)), func(emit mc.Emit) {
		for i := range full {
			i := i
			emit(fmt.Sprintf("%x", full[i]), func(t *mc.T) {
				for j := range full {
					for _, o := range ops {
						var got fp
						x, y := full[i], full[j]
						o.f(&got, &x, &y)
						vhExpect(t, fmt.Sprintf("%s(%x,%x)", o.n, x, y), &got, o.do(fullB[i], fullB[j]))
						if x != full[i] || y != full[j] {
							t.Fail("%s changed its operands %x %x", o.n, full[i], full[j])
						}
					}
					if isLess(&full[i], &full[j]) != (fullB[i].Cmp(fullB[j]) < 0) {
						t.Fail("isLess(%x,%x)", full[i], full[j])
					}
					if full[i].equal(&full[j]) != (i == j) {
						t.Fail("equal(%x,%x)", full[i], full[j])
					}
				}
				t.Outcome("%x", full[i])
			})
		}
	})
	r.Group(path+"-alias", fmt.Sprintf("every aliasing pattern of result and operands over pairs out of %d elements", len(small)), func(emit mc.Emit) {
		for i := range small {
			i := i
			emit(fmt.Sprintf("%x", small[i]), func(t *mc.T) {
				for j := range small {
					for _, o := range ops {
						x, y := small[i], small[j]
						o.f(&x, &x, &y)
						vhExpect(t, fmt.Sprintf("x=%s(x=%x,%x)", o.n, small[i], y), &x, o.do(smallB[i], smallB[j]))
						x = small[i]
						o.f(&y, &x, &y)
						vhExpect(t, fmt.Sprintf("y=%s(%x,y=%x)", o.n, x, small[j]), &y, o.do(smallB[i], smallB[j]))
					}
				}
				for _, o := range ops {
					x := small[i]
					var z fp
					o.f(&z, &x, &x)
					vhExpect(t, fmt.Sprintf("%s(x,x=%x)", o.n, x), &z, o.do(smallB[i], smallB[i]))
					o.f(&x, &x, &x)
					vhExpect(t, fmt.Sprintf("x=%s(x,x=%x)", o.n, small[i]), &x, o.do(smallB[i], smallB[i]))
				}
				t.Outcome("%x", small[i])
			})
		}
	})
	r.Group(path+"-product-boundary", "products whose exact result is each boundary element: y = result*R/x for every x", func(emit mc.Emit) {
		for i := range small {
			i := i
			if smallB[i].Sign() == 0 {
				continue
			}
			emit(fmt.Sprintf("%x", small[i]), func(t *mc.T) {
				inv := new(big.Int).ModInverse(smallB[i], p)
				inv.Mul(inv, vhR)
				inv.Mod(inv, p)
				for j := range full {
					yb := new(big.Int).Mul(fullB[j], inv)
					y := vhF(yb.Mod(yb, p))
					var got fp
					mulRdc(&got, &small[i], &y)
					vhExpect(t, fmt.Sprintf("mul(%x,%x)", small[i], y), &got, fullB[j])
					mulRdc(&got, &y, &small[i])
					vhExpect(t, fmt.Sprintf("mul(%x,%x)", y, small[i]), &got, fullB[j])
				}
				t.Outcome("%x", small[i])
			})
		}
	})
	wide := vhSet(vhTop, r.Pick(16, 2))
	words := []uint64{0, 1, 2, 3, 0x24b, 1 << 32, 1<<32 - 1, 1 << 63, 1<<63 - 1, ^uint64(0), ^uint64(0) - 1}
	for i := 0; i < 64; i += r.Pick(9, 1) {
		words = append(words, 1<<uint(i), ^uint64(0)<<uint(i), ^uint64(0)>>uint(i))
	}
	for _, l := range ref.CPrimes {
		words = append(words, uint64(l))
	}
	r.Group(path+"-words", "multiplication by a word, subtraction, swap, zero test over all 512-bit boundary values", func(emit mc.Emit) {
		for i := range wide {
			i := i
			emit(fmt.Sprintf("%x", wide[i]), func(t *mc.T) {
				xb := vhB(&wide[i])
				for _, w := range words {
					want := new(big.Int).Mul(xb, new(big.Int).SetUint64(w))
					var r9 [9]uint64
					x := wide[i]
					mul576(&r9, &x, w)
					lo := *(*fp)(r9[:8])
					vhExpect(t, fmt.Sprintf("mul576(%x,%x) low", x, w), &lo, new(big.Int).Mod(want, vhTop))
					if hi := new(big.Int).Rsh(want, 512); hi.Uint64() != r9[8] {
						t.Fail("mul576(%x,%x) high: %x want %x", x, w, r9[8], hi)
					}
					want.Mod(want, vhTop)
					var z fp
					mul512(&z, &x, w)
					vhExpect(t, fmt.Sprintf("mul512(%x,%x)", x, w), &z, want)
					if x != wide[i] {
						t.Fail("operand changed")
					}
					mul512(&x, &x, w)
					vhExpect(t, fmt.Sprintf("x=mul512(x=%x,%x)", wide[i], w), &x, want)
				}
				for j := range wide {
					var z fp
					c := sub512(&z, &wide[i], &wide[j])
					d := new(big.Int).Sub(xb, vhB(&wide[j]))
					b := uint64(0)
					if d.Sign() < 0 {
						d.Add(d, vhTop)
						b = 1
					}
					vhExpect(t, fmt.Sprintf("sub512(%x,%x)", wide[i], wide[j]), &z, d)
					if c != b {
						t.Fail("sub512(%x,%x) borrow %d", wide[i], wide[j], c)
					}
					x, y := wide[i], wide[j]
					cswap512(&x, &y, 0)
					if x != wide[i] || y != wide[j] {
						t.Fail("cswap512(%x,%x,0)", wide[i], wide[j])
					}
					cswap512(&x, &y, 1)
					if y != wide[i] || x != wide[j] {
						t.Fail("cswap512(%x,%x,1)", wide[i], wide[j])
					}
					if isLess(&wide[i], &wide[j]) != (i < j) {
						t.Fail("isLess(%x,%x)", wide[i], wide[j])
					}
				}
				if wide[i].isZero() != (xb.Sign() == 0) {
					t.Fail("isZero(%x)", wide[i])
				}
				t.Outcome("%x", wide[i])
			})
		}
	})
	r.Group(path+"-exp", "every value of every 4-bit digit and the 512-bit boundary values as exponents, for three bases; 64-bit exponents", func(emit mc.Emit) {
		bases := []fp{small[1], full[len(full)/2], vhF(new(big.Int).Mod(new(big.Int).Mul(big.NewInt(7), vhR), p)), full[len(full)-1], full[0]}
		for bi := range bases {
			bi := bi
			plain := new(big.Int).Mod(new(big.Int).Mul(vhB(&bases[bi]), vhRinv), p)
			chk := func(t *mc.T, e *big.Int) {
				x, ef := bases[bi], vhF(e)
				want := new(big.Int).Mul(new(big.Int).Exp(plain, e, p), vhR)
				want.Mod(want, p)
				var z fp
				modExpRdc512(&z, &x, &ef)
				vhExpect(t, fmt.Sprintf("exp512(%x,%x)", x, ef), &z, want)
				if e.BitLen() <= 64 {
					modExpRdc64(&z, &x, e.Uint64())
					vhExpect(t, fmt.Sprintf("exp64(%x,%x)", x, ef), &z, want)
					modExpRdc64(&x, &x, e.Uint64())
					vhExpect(t, fmt.Sprintf("x=exp64(x,%x)", ef), &x, want)
					return
				}
				modExpRdc512(&x, &x, &ef)
				vhExpect(t, fmt.Sprintf("x=exp512(x,%x)", ef), &x, want)
			}
			for d := 0; d < 128; d++ {
				d := d
				if bi > 0 && !r.Thorough() && d%8 > 1 {
					continue
				}
				emit(fmt.Sprintf("base%d digit%d", bi, d), func(t *mc.T) {
					for v := int64(1); v < 16; v++ {
						chk(t, new(big.Int).Lsh(big.NewInt(v), uint(4*d)))
					}
					t.Outcome("%d %d", bi, d)
				})
			}
			for k := range wide {
				k := k
				if k%5 != bi && !r.Thorough() {
					continue
				}
				emit(fmt.Sprintf("base%d exponent%d", bi, k), func(t *mc.T) {
					chk(t, vhB(&wide[k]))
					t.Outcome("%d %d", bi, k)
				})
			}
			for _, w := range words {
				w := w
				emit(fmt.Sprintf("base%d word%x", bi, w), func(t *mc.T) {
					chk(t, new(big.Int).SetUint64(w))
					t.Outcome("%d %x", bi, w)
				})
			}
		}
	})
	r.Group(path+"-residue", "quadratic residue test of every boundary element, its square and the negation of its square", func(emit mc.Emit) {
		for i := range full {
			i := i
			if fullB[i].Sign() == 0 {
				continue
			}
			emit(fmt.Sprintf("%x", full[i]), func(t *mc.T) {
				sq := new(big.Int).Mod(new(big.Int).Mul(fullB[i], fullB[i]), p)
				sq.Mul(sq, vhRinv) // the square in the Montgomery domain
				sq.Mod(sq, p)
				for _, v := range []*big.Int{fullB[i], sq, new(big.Int).Sub(p, sq)} {
					x := vhF(v)
					plain := new(big.Int).Mod(new(big.Int).Mul(v, vhRinv), p)
					want := (1 - big.Jacobi(plain, p)) / 2
					if got := x.isNonQuadRes(); got != want {
						t.Fail("isNonQuadRes(%x) = %d", x, got)
					}
					if x != vhF(v) {
						t.Fail("argument changed")
					}
					t.Step(1)
				}
				t.Outcome("%x", full[i])
			})
		}
	})
}
