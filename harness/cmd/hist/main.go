// Check X02: the same enumerated histories in every build and on every CPU
// path; the outcomes are published and compared between the processes.
package main

import (
	"bytes"
	"fmt"
	"hash"
	"math/big"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/hash/sm3"

	"vh/env"
	"vh/mc"
	"vh/ref"
)

func main() {
	mc.Main(map[string]func(*mc.Run){"X02": func(r *mc.Run) {
		hashes(r)
		for _, f := range extra {
			f(r)
		}
		groupActions(r)
		for i := range fields {
			isogenies(r, i)
		}
	}})
}

// extra holds the histories of packages that do not build everywhere.
var extra []func(*mc.Run)

// caught publishes what fn observes, or its panic.
func caught(t *mc.T, fn func()) {
	if m := mc.Panics(fn); m != "" {
		t.Outcome("panic")
	}
}

func hashes(r *mc.Run) {
	type alg struct {
		name string
		new  func() hash.Hash
		rate int
	}
	algs := []alg{{"sha3-224", sha3.New224, 144}, {"sha3-256", sha3.New256, 136}, {"sha3-384", sha3.New384, 104}, {"sha3-512", sha3.New512, 72}, {"sm3", sm3.New, 64}}
	data := mc.Pattern(900, 4096)
	depth := r.Pick(3, 4)
	r.Group("hashes", fmt.Sprintf("every sequence of at most %d writes of boundary sizes, at two alignments, with a digest in between", depth), func(emit mc.Emit) {
		for _, a := range algs {
			sizes := []int{0, 1, 7, 8, a.rate - 1, a.rate, a.rate + 9, 3 * a.rate}
			mc.Seqs(len(sizes), depth, func(s []int) bool {
				a, s := a, append([]int{}, s...)
				return emit(fmt.Sprint(a.name, s), func(t *mc.T) {
					for off := 0; off < 2; off++ {
						h := a.new()
						p := data[off:]
						for i, x := range s {
							n, err := h.Write(p[:sizes[x]])
							p = p[sizes[x]:]
							t.Outcome("%d %v", n, err)
							t.Step(1)
							if i == len(s)/2 {
								t.Observe(h.Sum(nil))
							}
						}
						t.Observe(h.Sum(nil))
						h.Reset()
						h.Write(p[:20])
						t.Observe(h.Sum(nil))
					}
					t.Publish()
				})
			})
		}
	})
	type xof struct {
		name string
		new  func() sha3.ShakeHash
		rate int
	}
	var xs []xof
	xs = append(xs, xof{"shake128", sha3.NewShake128, 168}, xof{"shake256", sha3.NewShake256, 136})
	for _, n := range []int{0, 1, 32, 163, 164, 165, 300} {
		n := n
		xs = append(xs, xof{fmt.Sprintf("cshake128-%d", n), func() sha3.ShakeHash { return sha3.NewCShake128(data[:n], data[:5]) }, 168},
			xof{fmt.Sprintf("cshake256-%d", n), func() sha3.ShakeHash { return sha3.NewCShake256(data[:3], data[:n]) }, 136})
	}
	r.Group("xofs", "every pair of writes and pair of reads of boundary sizes, with a clone and a reset", func(emit mc.Emit) {
		for _, x := range xs {
			sizes := []int{0, 1, 8, x.rate - 1, x.rate, x.rate + 9, 2*x.rate + 1}
			mc.SeqsN(len(sizes), 3, func(s []int) bool {
				x, s := x, append([]int{}, s...)
				return emit(fmt.Sprint(x.name, s), func(t *mc.T) {
					h := x.new()
					h.Write(data[1 : 1+sizes[s[0]]])
					c := h.Clone()
					h.Write(data[3 : 3+sizes[s[1]]])
					o := make([]byte, 2*sizes[s[2]]+50)
					h.Read(o[:sizes[s[2]]])
					h.Read(o[sizes[s[2]]:])
					t.Observe(o)
					c.Read(o)
					t.Observe(o)
					h.Reset()
					h.Write(data[:sizes[s[1]]])
					h.Read(o[:33])
					t.Observe(o[:33])
					t.Step(7)
					t.Publish()
				})
			})
		}
	})
}

func groupActions(r *mc.Run) {
	key := func(e []int) *csidh.PrivateKey {
		k := new(csidh.PrivateKey)
		k.Import(ref.CKey(e))
		return k
	}
	var keys [][]int
	for i := 0; i < 74; i++ {
		for _, v := range []int{1, -1} {
			if r.Label() != "386" || r.Thorough() || (i+v)%4 == 0 {
				e := make([]int, 74)
				e[i] = v
				keys = append(keys, e)
			}
		}
	}
	for n := 0; n < r.Pick(12, 60); n++ {
		e := make([]int, 74)
		for j, b := range mc.Pattern(910+n, 74) {
			if n%3 == 0 || j%5 == n%5 {
				e[j] = int(b)%11 - 5
			}
		}
		keys = append(keys, e)
	}
	keys = append(keys, make([]int, 74))
	r.Group("csidh", "single steps, patterned keys: key generation, validation, derivation with each other and with invalid keys", func(emit mc.Emit) {
		for _, e := range keys {
			e := e
			emit(fmt.Sprintf("key %v", e), func(t *mc.T) {
				n := 0
				for i, x := range e {
					n += (i + 1) * (x + 5)
				}
				var p csidh.PublicKey
				csidh.GeneratePublicKey(&p, key(e), env.New(n))
				b := make([]byte, 64)
				t.Outcome("%v", p.Export(b))
				t.Observe(b)
				t.Outcome("%v", csidh.Validate(&p, env.New(n+1)))
				var ss [64]byte
				other := make([]int, 74)
				other[n%74], other[(n+30)%74] = 1, -2
				t.Outcome("%v", csidh.DeriveSecret(&ss, &p, key(other), env.New(n+2)))
				t.Observe(ss[:])
				t.Step(3)
				t.Publish()
			})
		}
		for i, v := range []*big.Int{big.NewInt(1), big.NewInt(2), big.NewInt(5), new(big.Int).Sub(ref.CP, big.NewInt(2)), new(big.Int).Sub(ref.CP, big.NewInt(1))} {
			v := v
			emit(fmt.Sprintf("coefficient %d", i), func(t *mc.T) {
				var p csidh.PublicKey
				t.Outcome("%v", p.Import(ref.CEnc(v)))
				t.Outcome("%v", csidh.Validate(&p, env.New(3)))
				t.Step(1)
				t.Publish()
			})
		}
		for i, b := range [][]byte{ref.PutLE(ref.CP, 64), bytes.Repeat([]byte{255}, 64), ref.PutLE(new(big.Int).Sub(ref.CP, big.NewInt(1)), 64)} {
			b := b
			emit(fmt.Sprintf("encoding %d", i), func(t *mc.T) {
				var p csidh.PublicKey
				t.Outcome("%v", p.Import(b))
				t.Outcome("%v", csidh.Validate(&p, env.New(3)))
				t.Step(1)
				t.Publish()
			})
		}
		for i := 0; i < 30; i++ {
			i := i
			emit(fmt.Sprintf("generate %d", i), func(t *mc.T) {
				var k csidh.PrivateKey
				t.Outcome("%v", csidh.GeneratePrivateKey(&k, env.New(i)))
				b := make([]byte, 37)
				k.Export(b)
				t.Observe(b)
				t.Publish()
			})
		}
	})
}

var fields = []*ref.SField{ref.S434, ref.S503, ref.S751}
var ids = []uint8{sidh.Fp434, sidh.Fp503, sidh.Fp751}

const (
	vA = sidh.KeyVariantSidhA
	vB = sidh.KeyVariant(sidh.KeyVariantSidhB)
	vS = sidh.KeyVariant(sidh.KeyVariantSike)
)

func isogenies(r *mc.Run, fi int) {
	f, id := fields[fi], ids[fi]
	scalar := func(a bool, n int) []byte {
		bits, nb := f.BBits, f.BBytes
		if a {
			bits, nb = f.ABits, f.ABytes
		}
		top := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		k := ref.LE(mc.Pattern(920+n, int(nb)))
		switch n {
		case 0:
			k = big.NewInt(0)
		case 1:
			k = new(big.Int).Sub(top, big.NewInt(1))
		case 2:
			k = big.NewInt(1)
		}
		return ref.PutLE(k.Mod(k, top), int(nb))
	}
	pub := func(v sidh.KeyVariant, n int) (*sidh.PrivateKey, *sidh.PublicKey) {
		k, q := sidh.NewPrivateKey(id, v), sidh.NewPublicKey(id, v)
		b := scalar(v == vA, n)
		if v == vS {
			b = append(mc.Pattern(990+n, f.MsgLen), b...)
		}
		if err := k.Import(b); err != nil {
			panic(err)
		}
		k.GeneratePublicKey(q)
		return k, q
	}
	n := r.Pick([]int{100, 60, 36}[fi], 500)
	if r.Label() == "386" {
		n = (n + 2) / 3
	}
	exp := func(t *mc.T, q *sidh.PublicKey) []byte {
		b := make([]byte, q.Size())
		q.Export(b)
		t.Observe(b)
		return b
	}
	r.Group("sidh-"+f.Name, "boundary and patterned scalars on both sides: public keys, both secrets, generated keys", func(emit mc.Emit) {
		for i := 0; i < n; i++ {
			i := i
			emit(fmt.Sprintf("scalar %d", i), func(t *mc.T) {
				caught(t, func() {
					a, pa := pub(vA, i)
					b, pb := pub(vB, i*3+1)
					exp(t, pa)
					exp(t, pb)
					s := make([]byte, a.SharedSecretSize())
					a.DeriveSecret(s, pb)
					t.Observe(s)
					b.DeriveSecret(s, pa)
					t.Observe(s)
				})
				for _, v := range []sidh.KeyVariant{vA, vB, vS} {
					k := sidh.NewPrivateKey(id, v)
					t.Outcome("%v", k.Generate(env.New(i)))
					o := make([]byte, k.Size())
					k.Export(o)
					t.Observe(o)
				}
				t.Step(7)
				t.Publish()
			})
		}
	})
	r.Group("sike-"+f.Name, "encapsulation, decapsulation of the ciphertext, of altered ones and of re-encodings, unusual public keys", func(emit mc.Emit) {
		for i := 0; i < n; i++ {
			i := i
			emit(fmt.Sprintf("key %d", i), func(t *mc.T) {
				k, q := pub(vS, i)
				c := new(sidh.KEM)
				c.Allocate(id, env.New(950+i))
				ct, ss := make([]byte, c.CiphertextSize()), make([]byte, c.SharedSecretSize())
				t.Outcome("%v", c.Encapsulate(ct, ss, q))
				t.Observe(ct, ss)
				t.Outcome("%v", c.Decapsulate(ss, k, q, ct))
				t.Observe(ss)
				bad := append([]byte{}, ct...)
				bad[(i*37)%len(bad)] ^= 0x10
				t.Outcome("%v", c.Decapsulate(ss, k, q, bad))
				t.Observe(ss)
				w := new(big.Int).Add(ref.LE(ct[:f.Bytes]), f.P)
				if w.BitLen() <= 8*f.Bytes {
					copy(bad, ct)
					copy(bad, ref.PutLE(w, f.Bytes))
					t.Outcome("%v", c.Decapsulate(ss, k, q, bad))
					t.Observe(ss)
				}
				t.Step(4)
				t.Publish()
			})
		}
		one := bytes.Repeat([]byte{255}, f.PublicKeySize)
		for i, b := range [][]byte{make([]byte, f.PublicKeySize), one, mc.Pattern(970, f.PublicKeySize), bytes.Repeat(ref.PutLE(f.P, f.Bytes), 6), bytes.Repeat(ref.PutLE(big.NewInt(1), f.Bytes), 6)} {
			i, b := i, b
			emit(fmt.Sprintf("public key %d", i), func(t *mc.T) {
				caught(t, func() {
					k, _ := pub(vA, 5)
					q := sidh.NewPublicKey(id, vB)
					t.Outcome("%v", q.Import(b))
					if i != 1 && i != 2 { // values below 2p have one meaning only
						exp(t, q)
					}
					s := make([]byte, k.SharedSecretSize())
					if i == 4 {
						k.DeriveSecret(s, q)
						t.Observe(s)
					}
					t.Step(1)
				})
				t.Publish()
			})
		}
	})
}
