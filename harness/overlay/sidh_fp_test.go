//go:build go1.22

package p434

import (
	"fmt"
	"math/big"
	"sort"
	"testing"

	"github.com/henrydcase/nobs/dh/sidh/common"
	"vh/mc"
	"vh/ref"
)

func TestVerifHarness(t *testing.T) { mc.MainEnv(map[string]func(*mc.Run){"I07": vhI07}) }

// vhPath is a CPU path; vhFlags is filled in by a second file when the part forces the flags.
type vhPath struct {
	name string
	set  func()
}

var (
	vhFlags []vhPath
	vhF     = ref.S434
	vhW     = FpWords
	vhR     = new(big.Int).Lsh(big.NewInt(1), uint(64*FpWords))
	vhRinv  = new(big.Int).ModInverse(vhR, vhF.P)
	vh2p    = new(big.Int).Lsh(vhF.P, 1)
	vhRp    = new(big.Int).Mul(vhR, vhF.P)
)

func vhB(v []uint64) *big.Int {
	b := make([]byte, 8*len(v))
	for i := range b {
		b[i] = byte(v[i/8] >> uint(8*(i%8)))
	}
	return ref.LE(b)
}

func vhPut(o []uint64, v *big.Int) {
	for i, b := range ref.PutLE(v, 8*len(o)) {
		if i%8 == 0 {
			o[i/8] = 0
		}
		o[i/8] |= uint64(b) << uint(8*(i%8))
	}
}

func vhFp(v *big.Int) (o common.Fp)   { vhPut(o[:], v); return }
func vhX2(v *big.Int) (o common.FpX2) { vhPut(o[:], v); return }

// vhSet lists boundary values below limit over the given number of limbs.
func vhSet(limit *big.Int, limbs, every int) (out []*big.Int) {
	m := map[string]*big.Int{}
	put := func(v *big.Int) {
		if v.Sign() >= 0 && v.Cmp(limit) < 0 {
			m[v.String()] = v
		}
	}
	one := big.NewInt(1)
	p := vhF.P
	mult := []*big.Int{p, vh2p}
	if limbs > vhW {
		mult = []*big.Int{new(big.Int).Mul(p, p), new(big.Int).Mul(vh2p, vh2p), vhRp, limit}
	}
	var base []*big.Int
	for i := 0; i <= 64*limbs; i++ {
		if k := i % 64; k == 0 || k == 63 && every <= 32 || i%every == 0 && every < 64 || k == 1 && every < 32 {
			base = append(base, new(big.Int).Lsh(one, uint(i)))
		}
	}
	for i := 0; i < limbs; i++ {
		for j := i + 1; j <= limbs; j++ {
			if every < 64 || j == limbs || j == i+1 {
				v := new(big.Int).Lsh(one, uint(64*j))
				base = append(base, v.Sub(v, new(big.Int).Lsh(one, uint(64*i))))
			}
		}
	}
	for _, q := range mult {
		w := make([]uint64, limbs)
		vhPut(w, new(big.Int).Mod(q, new(big.Int).Lsh(one, uint(64*limbs))))
		for i := range w {
			old := w[i]
			for n, d := range []uint64{0, ^uint64(0), old - 1, old + 1} {
				if n > 1 && every >= 64 {
					continue
				}
				w[i] = d
				base = append(base, vhB(w))
			}
			w[i] = old
		}
		base = append(base, new(big.Int).Rsh(q, 1))
	}
	base = append(base, new(big.Int).Mod(vhR, p), new(big.Int).Mod(new(big.Int).Mul(vhR, vhR), p), vhRinv)
	for _, b := range base {
		for d := int64(-1); d <= 1; d++ {
			if d != 0 && every >= 64 {
				continue
			}
			v := new(big.Int).Add(b, big.NewInt(d))
			put(v)
			for _, q := range mult {
				put(new(big.Int).Sub(q, v))
			}
		}
	}
	for d := int64(-3); d < 4; d++ {
		put(big.NewInt(d))
		put(new(big.Int).Add(limit, big.NewInt(d)))
		for _, q := range mult {
			put(new(big.Int).Add(q, big.NewInt(d)))
		}
	}
	for _, v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Cmp(out[j]) < 0 })
	return
}

// vhCong checks got < bound and got = want mod p.
func vhCong(t *mc.T, got []uint64, want, bound *big.Int, what string, args ...interface{}) {
	t.Step(1)
	g := vhB(got)
	if g.Cmp(bound) >= 0 || new(big.Int).Mod(new(big.Int).Sub(g, want), vhF.P).Sign() != 0 {
		t.Fail(what+": got %x want %x mod p, below %x", append(args, g, new(big.Int).Mod(want, vhF.P), bound)...)
	}
}

func vhExact(t *mc.T, got []uint64, want *big.Int, what string, args ...interface{}) {
	t.Step(1)
	if vhB(got).Cmp(want) != 0 {
		t.Fail(what+": got %x want %x", append(args, vhB(got), want)...)
	}
}

func vhI07(r *mc.Run) {
	if len(vhFlags) == 0 {
		vhField(r, "cpu")
	}
	for _, p := range vhFlags {
		p.set()
		vhField(r, p.name)
	}
}

func vhField(r *mc.Run, path string) {
	p := vhF.P
	full := vhSet(vh2p, vhW, r.Pick(4*vhW, 2))
	small := vhSet(vh2p, vhW, 64)
	fps := make([]common.Fp, len(full))
	for i := range full {
		fps[i] = vhFp(full[i])
	}
	r.Group(path+"-pairs", fmt.Sprintf("product, sum, difference, swap of every pair out of %d boundary elements below 2p, and reduction of the product", len(full)), func(emit mc.Emit) {
		for i := range full {
			i := i
			emit(fmt.Sprintf("%x", full[i]), func(t *mc.T) {
				for j := range full {
					x, y := fps[i], fps[j]
					var z common.Fp
					addP434(&z, &x, &y)
					vhCong(t, z[:], new(big.Int).Add(full[i], full[j]), vh2p, "add(%x,%x)", full[i], full[j])
					z = common.Fp{}
					subP434(&z, &x, &y)
					vhCong(t, z[:], new(big.Int).Sub(full[i], full[j]), vh2p, "sub(%x,%x)", full[i], full[j])
					var w common.FpX2
					mulP434(&w, &x, &y)
					pr := new(big.Int).Mul(full[i], full[j])
					vhExact(t, w[:], pr, "mul(%x,%x)", full[i], full[j])
					z = common.Fp{}
					rdcP434(&z, &w)
					vhCong(t, z[:], pr.Mul(pr, vhRinv), vh2p, "rdc(mul(%x,%x))", full[i], full[j])
					cswapP434(&x, &y, 0)
					if x != fps[i] || y != fps[j] {
						t.Fail("operands changed, or cswap(%x,%x,0) swapped", full[i], full[j])
					}
					cswapP434(&x, &y, 1)
					if y != fps[i] || x != fps[j] {
						t.Fail("cswap(%x,%x,1)", full[i], full[j])
					}
				}
				m := fps[i]
				modP434(&m)
				vhExact(t, m[:], new(big.Int).Mod(full[i], p), "mod(%x)", full[i])
				t.Outcome("%x", full[i])
			})
		}
	})
	r.Group(path+"-alias", fmt.Sprintf("every aliasing pattern of sum and difference over pairs out of %d elements", len(small)), func(emit mc.Emit) {
		ops := []struct {
			n  string
			f  func(z, x, y *common.Fp)
			do func(z, x, y *big.Int) *big.Int
		}{{"add", addP434, (*big.Int).Add}, {"sub", subP434, (*big.Int).Sub}}
		for i := range small {
			i := i
			emit(fmt.Sprintf("%x", small[i]), func(t *mc.T) {
				for j := range small {
					for _, o := range ops {
						want := o.do(new(big.Int), small[i], small[j])
						x, y := vhFp(small[i]), vhFp(small[j])
						o.f(&x, &x, &y)
						vhCong(t, x[:], want, vh2p, "x=%s(x=%x,%x)", o.n, small[i], small[j])
						x = vhFp(small[i])
						o.f(&y, &x, &y)
						vhCong(t, y[:], want, vh2p, "y=%s(%x,y=%x)", o.n, small[i], small[j])
					}
				}
				for _, o := range ops {
					want := o.do(new(big.Int), small[i], small[i])
					x := vhFp(small[i])
					var z common.Fp
					o.f(&z, &x, &x)
					vhCong(t, z[:], want, vh2p, "%s(x,x=%x)", o.n, small[i])
					o.f(&x, &x, &x)
					vhCong(t, x[:], want, vh2p, "x=%s(x,x=%x)", o.n, small[i])
				}
				x := vhFp(small[i])
				var w common.FpX2
				mulP434(&w, &x, &x)
				vhExact(t, w[:], new(big.Int).Mul(small[i], small[i]), "mul(x,x=%x)", small[i])
				t.Outcome("%x", small[i])
			})
		}
	})
	wide := vhSet(vhRp, 2*vhW, r.Pick(32, 4))
	r.Group(path+"-reduce", fmt.Sprintf("Montgomery reduction of %d boundary values below R*p, and of every value below R*p whose reduction is a boundary element", len(wide)), func(emit mc.Emit) {
		for i := range wide {
			i := i
			emit(fmt.Sprintf("%x", wide[i]), func(t *mc.T) {
				w := vhX2(wide[i])
				var z common.Fp
				rdcP434(&z, &w)
				vhCong(t, z[:], new(big.Int).Mul(wide[i], vhRinv), vh2p, "rdc(%x)", wide[i])
				t.Outcome("%x", wide[i])
			})
		}
		for i := range full {
			i := i
			emit(fmt.Sprintf("to %x", full[i]), func(t *mc.T) {
				for _, m := range small { // T = full*R mod p, plus multiples of p
					v := new(big.Int).Mul(full[i], vhR)
					v.Mod(v, p)
					v.Add(v, new(big.Int).Mul(p, m))
					w := vhX2(v)
					var z common.Fp
					rdcP434(&z, &w)
					vhCong(t, z[:], full[i], vh2p, "rdc(%x)", v)
				}
				t.Outcome("%x", full[i])
			})
		}
	})
	lim := new(big.Int).Mul(vh2p, vh2p)
	lim.Lsh(lim, 2)
	prods := vhSet(lim, 2*vhW, r.Pick(64, 16))
	for k := 0; k < 2*vhW; k++ { // full runs for carries across the words
		for _, d := range []int64{-1, 0, 1} {
			v := new(big.Int).Lsh(big.NewInt(1), uint(64*k))
			if v.Add(v, big.NewInt(d)); v.Sign() >= 0 && v.Cmp(lim) < 0 {
				prods = append(prods, v)
			}
		}
	}
	r.Group(path+"-double-width", fmt.Sprintf("sum and difference of every pair out of %d double-width boundary values below 16p^2, with aliasing", len(prods)), func(emit mc.Emit) {
		for i := range prods {
			i := i
			emit(fmt.Sprintf("%d %x", i, prods[i]), func(t *mc.T) {
				for j := range prods {
					x, y := vhX2(prods[i]), vhX2(prods[j])
					x0, y0 := x, y
					var z common.FpX2
					sum := new(big.Int).Add(prods[i], prods[j])
					dif := new(big.Int).Sub(prods[i], prods[j])
					adlP434(&z, &x, &y)
					vhExact(t, z[:], sum, "adl(%x,%x)", prods[i], prods[j])
					z = common.FpX2{}
					sulP434(&z, &x, &y)
					vhCong(t, z[:], dif, vhRp, "sul(%x,%x)", prods[i], prods[j])
					if x != x0 || y != y0 {
						t.Fail("an operand changed")
					}
					if (i+j)%4 == 0 || r.Thorough() {
						adlP434(&x, &x, &y)
						vhExact(t, x[:], sum, "x=adl(x=%x,%x)", prods[i], prods[j])
						x = x0
						adlP434(&y, &x, &y)
						vhExact(t, y[:], sum, "y=adl(%x,y=%x)", prods[i], prods[j])
						y = y0
						sulP434(&x, &x, &y)
						vhCong(t, x[:], dif, vhRp, "x=sul(x=%x,%x)", prods[i], prods[j])
						x = x0
						sulP434(&y, &x, &y)
						vhCong(t, y[:], dif, vhRp, "y=sul(%x,y=%x)", prods[i], prods[j])
					}
				}
				t.Outcome("%x", prods[i])
			})
		}
	})
	vhExt(r, path, small)
}

type vhRaw struct{ a, b *big.Int }

func (v vhRaw) fp2() common.Fp2 { return common.Fp2{A: vhFp(v.a), B: vhFp(v.b)} }

// f2 is the element a stored value stands for.
func (v vhRaw) f2() ref.F2 {
	a := new(big.Int).Mul(v.a, vhRinv)
	b := new(big.Int).Mul(v.b, vhRinv)
	return ref.F2{A: a.Mod(a, vhF.P), B: b.Mod(b, vhF.P)}
}

func vhF2(t *mc.T, got *common.Fp2, want ref.F2, what string, args ...interface{}) {
	w := func(v *big.Int) *big.Int { return new(big.Int).Mul(v, vhR) }
	vhCong(t, got.A[:], w(want.A), vh2p, what+" real part", args...)
	vhCong(t, got.B[:], w(want.B), vh2p, what+" imaginary part", args...)
}

// vhExt covers the quadratic extension.
func vhExt(r *mc.Run, path string, small []*big.Int) {
	p := vhF.P
	step := len(small)/r.Pick(9, 20) + 1
	var cs []*big.Int
	for i := 0; i < len(small); i += step {
		cs = append(cs, small[i])
	}
	cs = append(cs, new(big.Int).Sub(p, big.NewInt(1)), p, new(big.Int).Add(p, big.NewInt(1)), new(big.Int).Sub(vh2p, big.NewInt(1)))
	var els []vhRaw
	for _, a := range cs {
		for _, b := range cs {
			els = append(els, vhRaw{a, b})
		}
	}
	ops := []struct {
		n  string
		f  func(z, x, y *common.Fp2)
		do func(x, y ref.F2) ref.F2
	}{{"add", add, vhF.Add}, {"sub", sub, vhF.Sub}, {"mul", mul, vhF.Mul}}
	r.Group(path+"-fp2-pairs", fmt.Sprintf("extension-field sum, difference, product of every pair out of %d elements, with aliasing", len(els)), func(emit mc.Emit) {
		for i := range els {
			i := i
			emit(fmt.Sprintf("%x %x", els[i].a, els[i].b), func(t *mc.T) {
				xf := els[i].f2()
				for j := range els {
					yf := els[j].f2()
					for _, o := range ops {
						want := o.do(xf, yf)
						x, y := els[i].fp2(), els[j].fp2()
						var z common.Fp2
						o.f(&z, &x, &y)
						vhF2(t, &z, want, "%s(%x,%x)", o.n, els[i], els[j])
						if x != els[i].fp2() || y != els[j].fp2() {
							t.Fail("an operand of %s changed", o.n)
						}
						switch (i + j) % 3 {
						case 0:
							o.f(&x, &x, &y)
							vhF2(t, &x, want, "x=%s(x=%x,%x)", o.n, els[i], els[j])
						case 1:
							o.f(&y, &x, &y)
							vhF2(t, &y, want, "y=%s(%x,y=%x)", o.n, els[i], els[j])
						}
						if i == j {
							x = els[i].fp2()
							o.f(&x, &x, &x)
							vhF2(t, &x, want, "x=%s(x,x=%x)", o.n, els[i])
						}
					}
				}
				t.Outcome("%x", els[i])
			})
		}
	})
	r.Group(path+"-fp2-unary", "square, inverse, conversions of pairs of boundary elements, in place and not; swap of point pairs", func(emit mc.Emit) {
		for i := 0; i < len(small); i++ {
			i := i
			emit(fmt.Sprintf("%x", small[i]), func(t *mc.T) {
				var vs []vhRaw
				for _, c := range cs {
					vs = append(vs, vhRaw{small[i], c}, vhRaw{c, small[i]})
				}
				for n, v := range vs {
					x, f := v.fp2(), v.f2()
					var z common.Fp2
					sqr(&z, &x)
					vhF2(t, &z, vhF.Sqr(f), "sqr(%x)", v)
					sqr(&x, &x)
					vhF2(t, &x, vhF.Sqr(f), "x=sqr(x=%x)", v)
					x, z = v.fp2(), common.Fp2{}
					inv(&z, &x)
					vhF2(t, &z, vhF.Inv(f), "inv(%x)", v)
					inv(&x, &x)
					vhF2(t, &x, vhF.Inv(f), "x=inv(x=%x)", v)
					x, z = v.fp2(), common.Fp2{}
					ToMontgomery(&z, &x)
					vhF2(t, &z, ref.F2{A: new(big.Int).Mod(v.a, p), B: new(big.Int).Mod(v.b, p)}, "ToMontgomery(%x)", v)
					FromMontgomery(&z, &z)
					vhExact(t, z.A[:], new(big.Int).Mod(v.a, p), "From(To(%x))", v)
					vhExact(t, z.B[:], new(big.Int).Mod(v.b, p), "From(To(%x))", v)
					FromMontgomery(&z, &x)
					vhExact(t, z.A[:], f.A, "FromMontgomery(%x)", v)
					vhExact(t, z.B[:], f.B, "FromMontgomery(%x)", v)
					if x != v.fp2() {
						t.Fail("argument changed")
					}
					ToMontgomery(&x, &x)
					vhF2(t, &x, ref.F2{A: new(big.Int).Mod(v.a, p), B: new(big.Int).Mod(v.b, p)}, "x=ToMontgomery(x=%x)", v)
					q := [4]common.Fp2{v.fp2(), vs[(n+1)%len(vs)].fp2(), vs[(n+3)%len(vs)].fp2(), vs[(n+6)%len(vs)].fp2()}
					q0 := q
					cswap(&q[0], &q[1], &q[2], &q[3], 0)
					if q != q0 {
						t.Fail("cswap 0 swapped")
					}
					cswap(&q[0], &q[1], &q[2], &q[3], 1)
					if q[0] != q0[2] || q[1] != q0[3] || q[2] != q0[0] || q[3] != q0[1] {
						t.Fail("cswap 1 did not swap")
					}
				}
				t.Outcome("%x", small[i])
			})
		}
	})
}
