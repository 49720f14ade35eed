//go:build go1.22

package p434

import (
	"testing"
	"unsafe"

	"github.com/henrydcase/nobs/dh/sidh/common"

	"vh/mc"
	"vh/ref"
	"vh/trace"
)

type vhPath = trace.Path

var vhFlags []vhPath

// vh is what the operations work on.
var vh struct {
	a, b, c      common.Fp
	x, y, z      common.FpX2
	e, g, h, i   common.Fp2
	m            uint8
	p, q, r, out common.ProjectivePoint
	curve        common.ProjectiveCurveParameters
	scalar       [2]byte
}

// vhVal is a field element, below twice the prime or, for two=false, below the prime.
func vhVal(o []uint64, i int, two bool) {
	limit := ref.S434.P
	v := ref.LE(mc.Pattern(i, 8*len(o)))
	switch i % 8 {
	case 0:
		v.SetInt64(0)
	case 1:
		v.SetInt64(1)
	case 2:
		v.Set(limit)
		if !two {
			v.SetInt64(2)
		}
	case 3:
		v.Sub(limit, ref.LE([]byte{1}))
	case 4:
		v.Lsh(limit, 1)
		v.Sub(v, ref.LE([]byte{1}))
		if !two {
			v.Rsh(v, 2)
		}
	}
	if two {
		limit = ref.LE(nil).Lsh(limit, 1)
	}
	v.Mod(v, limit)
	for j, b := range ref.PutLE(v, 8*len(o)) {
		if j%8 == 0 {
			o[j/8] = 0
		}
		o[j/8] |= uint64(b) << uint(8*(j%8))
	}
}

func vhVal2(o []uint64, i int) {
	for j, b := range mc.Pattern(i, 8*len(o)) {
		if j%8 == 0 {
			o[j/8] = 0
		}
		o[j/8] |= uint64(b) << uint(8*(j%8))
	}
	switch i % 5 {
	case 0:
		for j := range o {
			o[j] = 0
		}
	case 1:
		for j := range o[:len(o)/2] {
			o[j] = ^uint64(0)
		}
	}
	for j := 2*FpWords - 1; j < len(o); j++ {
		o[j] = 0
	}
	o[2*FpWords-1] >>= 40 // small enough to reduce
}

func vhBytes(v ...[]uint64) (out []byte) {
	for _, x := range v {
		for _, w := range x {
			for i := 0; i < 8; i++ {
				out = append(out, byte(w>>uint(8*i)))
			}
		}
	}
	return
}

func vhOps(n int) (ops []trace.Op) {
	fp := func(i int) {
		vhVal(vh.a[:FpWords], i%n, true)
		vhVal(vh.b[:FpWords], i/8+3*i, true)
		vh.m = uint8(i & 1)
		vhVal2(vh.x[:], i)
		vhVal2(vh.y[:], 3*i+i/5)
		for k, e := range []*common.Fp2{&vh.e, &vh.g, &vh.h, &vh.i} {
			vhVal(e.A[:FpWords], i+k, true)
			vhVal(e.B[:FpWords], i/4+5*k, true)
		}
	}
	add := func(name string, m int, run func(), out func() []byte) {
		ops = append(ops, trace.Op{Name: name, N: m, Set: fp, Run: run, Out: out})
	}
	c := func() []byte { return vhBytes(vh.c[:]) }
	z := func() []byte { return vhBytes(vh.z[:]) }
	h := func() []byte { return vhBytes(vh.h.A[:], vh.h.B[:]) }
	add("cswapP434", n, func() { cswapP434(&vh.a, &vh.b, vh.m) }, func() []byte { return vhBytes(vh.a[:], vh.b[:]) })
	add("addP434", n, func() { addP434(&vh.c, &vh.a, &vh.b) }, c)
	add("subP434", n, func() { subP434(&vh.c, &vh.a, &vh.b) }, c)
	add("adlP434", n, func() { adlP434(&vh.z, &vh.x, &vh.y) }, z)
	add("sulP434", n, func() { sulP434(&vh.z, &vh.x, &vh.y) }, z)
	add("modP434", n, func() { modP434(&vh.a) }, func() []byte { return vhBytes(vh.a[:]) })
	add("mulP434", n, func() { mulP434(&vh.z, &vh.a, &vh.b) }, z)
	add("rdcP434", n, func() { rdcP434(&vh.c, &vh.x) }, c)
	add("cswap", n, func() { cswap(&vh.e, &vh.g, &vh.h, &vh.i, vh.m) }, h)
	add("add", n, func() { add2(&vh.h, &vh.e, &vh.g) }, h)
	add("sub", n, func() { sub(&vh.h, &vh.e, &vh.g) }, h)
	add("mul", n, func() { mul(&vh.h, &vh.e, &vh.g) }, h)
	add("sqr", n, func() { sqr(&vh.h, &vh.e) }, h)
	add("ToMontgomery", n, func() { ToMontgomery(&vh.h, &vh.e) }, h)
	add("FromMontgomery", n, func() { FromMontgomery(&vh.h, &vh.e) }, h)
	add("inv", 3, func() { inv(&vh.h, &vh.e) }, h)
	if len(vhFlags) < 2 && n < 40 { // the portable code is slow, and explored in whole operations elsewhere
		return ops[:len(ops)-1]
	}
	m := 6
	if n > 40 {
		m = 64
	}
	ops = append(ops, trace.Op{Name: "ScalarMul3Pt", N: m, Set: func(i int) {
		for k, e := range []*common.Fp2{&vh.p.X, &vh.p.Z, &vh.q.X, &vh.q.Z, &vh.r.X, &vh.r.Z, &vh.curve.A, &vh.curve.C} {
			vhVal(e.A[:FpWords], 5+k+8*k, true)
			vhVal(e.B[:FpWords], 6+8*k, true)
		}
		vh.scalar = [2]byte{byte(i), byte(i >> 4)}
	}, Run: func() { vh.out = ScalarMul3Pt(&vh.curve, &vh.p, &vh.q, &vh.r, 10, vh.scalar[:]) },
		Out: func() []byte { return vhBytes(vh.out.X.A[:], vh.out.X.B[:]) }})
	return
}

// add2 is the addition of the package, whose name is taken above.
func add2(dest, lhs, rhs *common.Fp2) { add(dest, lhs, rhs) }

func TestVerifHarness(t *testing.T) {
	if len(vhFlags) == 0 {
		vhFlags = []vhPath{{Name: "portable", Set: func() {}}}
	}
	n := 24
	if len(vhFlags) < 2 {
		n = 16
	}
	if trace.Thorough() {
		n = 300
	}
	state := unsafe.Slice((*byte)(unsafe.Pointer(&vh)), unsafe.Sizeof(vh))
	trace.Child(vhFlags, vhOps(n), state)
	mc.MainEnv(map[string]func(*mc.Run){"T01": func(r *mc.Run) { trace.Stepped(r, "p434", vhFlags, vhOps(n), state) }})
}
