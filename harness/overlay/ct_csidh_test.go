//go:build go1.22

package csidh

import (
	"testing"
	"unsafe"

	"vh/mc"
	"vh/ref"
	"vh/trace"
)

// vh is what the operations work on.
var vh struct {
	a, b, c fp
	p, q    point
	w       uint64
	n       int
	y       bool
}

func vhVal(o *fp, i int) {
	v := ref.LE(mc.Pattern(i, 64))
	one := ref.LE([]byte{1})
	switch i % 6 {
	case 0:
		v.SetInt64(0)
	case 1:
		v.SetInt64(1)
	case 2:
		v.Sub(ref.CP, one)
	}
	v.Mod(v, ref.CP)
	*o = fp{}
	for j, b := range ref.PutLE(v, 64) {
		o[j/8] |= uint64(b) << uint(8*(j%8))
	}
}

func vhBytes(v ...[]uint64) (out []byte) {
	for _, x := range v {
		for _, w := range x {
			for i := 0; i < 8; i++ {
				out = append(out, byte(w>>uint(8*i)))
			}
		}
	}
	return
}

func vhOps(n int) (ops []trace.Op) {
	set := func(i int) {
		vhVal(&vh.a, i)
		vhVal(&vh.b, i/6+4*i)
		if i%5 == 4 {
			vh.b = vh.a
		}
		for k, e := range []*fp{&vh.p.x, &vh.p.z, &vh.q.x, &vh.q.z} {
			vhVal(e, 3+i+k)
		}
		vh.w = vh.a[i%8]
	}
	add := func(name string, m int, run func(), out func() []byte) {
		ops = append(ops, trace.Op{Name: name, N: m, Set: set, Run: run, Out: out})
	}
	c := func() []byte { return vhBytes(vh.c[:]) }
	pq := func() []byte { return vhBytes(vh.p.x[:], vh.p.z[:], vh.q.x[:], vh.q.z[:]) }
	add("cswap512", n, func() { cswap512(&vh.a, &vh.b, uint8(vh.p.x[0]&1)) }, func() []byte { return vhBytes(vh.a[:], vh.b[:]) })
	add("cswappoint", n, func() { cswappoint(&vh.p, &vh.q, uint8(vh.a[0]&1)) }, pq)
	add("ctIsNonZero64", n, func() { vh.n = ctIsNonZero64(vh.w) }, func() []byte { return []byte{byte(vh.n)} })
	add("ctPick64", n, func() { vh.w = ctPick64(-(vh.a[0] & 1), vh.a[1], vh.b[1]) }, func() []byte { return vhBytes([]uint64{vh.w}) })
	add("addRdc", n, func() { addRdc(&vh.c, &vh.a, &vh.b) }, c)
	add("subRdc", n, func() { subRdc(&vh.c, &vh.a, &vh.b) }, c)
	add("mulRdc", n, func() { mulRdc(&vh.c, &vh.a, &vh.b) }, c)
	add("isZero", n, func() { vh.y = vh.a.isZero() }, func() []byte {
		if vh.y {
			return []byte{1}
		}
		return []byte{0}
	})
	add("equal", n, func() { vh.y = vh.a.equal(&vh.b) }, func() []byte {
		if vh.y {
			return []byte{1}
		}
		return []byte{0}
	})
	add("isNonQuadRes", 3+n/100, func() { vh.n = vh.a.isNonQuadRes() }, func() []byte { return []byte{byte(vh.n)} })
	add("modExpRdc64", n/4, func() { modExpRdc64(&vh.c, &vh.a, 0x1d) }, c)
	return
}

// vhPaths is filled in by a second file when the part forces the processor capabilities.
var vhPaths []trace.Path

func TestVerifHarness(t *testing.T) {
	if len(vhPaths) == 0 {
		vhPaths = []trace.Path{{Name: "portable", Set: func() {}}}
	}
	n := 24
	if trace.Thorough() {
		n = 300
	}
	state := unsafe.Slice((*byte)(unsafe.Pointer(&vh)), unsafe.Sizeof(vh))
	trace.Child(vhPaths, vhOps(n), state)
	mc.MainEnv(map[string]func(*mc.Run){"T01": func(r *mc.Run) { trace.Stepped(r, "csidh", vhPaths, vhOps(n), state) }})
}
