// Checks I01 to I08 on the exported API of dh/sidh.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"

	"vh/mc"
	"vh/ref"
)

func main() {
	mc.Main(map[string]func(*mc.Run){"I01": i01, "I02": i02, "I03": i03, "I04": i04, "I05": i05, "I06": i06, "I07": i07, "I08": i08})
}

type field struct {
	*ref.SField
	id uint8
	nw uint // limbs of the Montgomery representation
}

var fields = []*field{{ref.S434, sidh.Fp434, 7}, {ref.S503, sidh.Fp503, 8}, {ref.S751, sidh.Fp751, 12}}

var variantNames = map[sidh.KeyVariant]string{sidh.KeyVariantSidhA: "A", sidh.KeyVariantSidhB: "B", sidh.KeyVariantSike: "SIKE"}

const (
	vA = sidh.KeyVariantSidhA
	vB = sidh.KeyVariant(sidh.KeyVariantSidhB)
	vS = sidh.KeyVariant(sidh.KeyVariantSike)
)

var variantList = []sidh.KeyVariant{vA, vB, vS}

func isA(v sidh.KeyVariant) bool { return v == vA }

func (f *field) bits(a bool) uint {
	if a {
		return f.ABits
	}
	return f.BBits
}

func (f *field) nbytes(a bool) int {
	if a {
		return int(f.ABytes)
	}
	return int(f.BBytes)
}

// scalar is the key encoding of v.
func (f *field) scalar(a bool, v *big.Int) []byte { return ref.PutLE(v, f.nbytes(a)) }

func (f *field) top(a bool) *big.Int { return new(big.Int).Lsh(big.NewInt(1), f.bits(a)) }

// oneHot lists scalars with a single bit set on top of nothing, of the documented leading bit, or
// cleared from the largest scalar, for every step-th bit.
func (f *field) oneHot(a bool, step int) (out []*big.Int) {
	n := int(f.bits(a))
	max := new(big.Int).Sub(f.top(a), big.NewInt(1))
	lead := new(big.Int).Rsh(f.top(a), 1)
	for i := 0; i < n; i++ {
		if i%step != 0 && i != n-1 && i != n-2 && i != 1 {
			continue
		}
		b := new(big.Int).Lsh(big.NewInt(1), uint(i))
		out = append(out, b, new(big.Int).Or(lead, b), new(big.Int).Xor(max, b))
	}
	return
}

// edges lists boundary scalars.
func (f *field) edges(a bool) (out []*big.Int) {
	top := f.top(a)
	lead := new(big.Int).Rsh(top, 1)
	for _, d := range []int64{0, 1, 2, 3, 4, 5, 7, 8, 9, 27} {
		out = append(out, big.NewInt(d), new(big.Int).Add(lead, big.NewInt(d)))
	}
	for _, d := range []int64{1, 2, 3, 4, 9} {
		out = append(out, new(big.Int).Sub(top, big.NewInt(d)), new(big.Int).Sub(lead, big.NewInt(d)))
	}
	for _, s := range []byte{0x55, 0xaa, 0x0f, 0xf0} {
		v := ref.LE(bytes.Repeat([]byte{s}, f.nbytes(a)))
		out = append(out, v.Mod(v, top))
	}
	for i := 0; i < 4; i++ {
		v := ref.LE(mc.Pattern(500+i, f.nbytes(a)))
		out = append(out, v.Mod(v, top))
	}
	return
}

// priv imports a private key; for SIKE s is prepended.
func (f *field) priv(t *mc.T, v sidh.KeyVariant, s, scalar []byte) *sidh.PrivateKey {
	k := sidh.NewPrivateKey(f.id, v)
	if t.Used() {
		if err := k.Import(bytes.Repeat([]byte{0x5B}, k.Size())); err != nil {
			t.Fail("private key of documented size refused: %v", err)
		}
	}
	t.Lend("private key import", append(append([]byte{}, s...), scalar...), func(b []byte) {
		if err := k.Import(b); err != nil {
			t.Fail("private key of documented size refused: %v", err)
		}
	})
	return k
}

func (f *field) pub(t *mc.T, v sidh.KeyVariant, b []byte) *sidh.PublicKey {
	k := sidh.NewPublicKey(f.id, v)
	if t.Used() {
		if err := k.Import(f.randPub(7)); err != nil {
			t.Fail("public key of documented size refused: %v", err)
		}
	}
	t.Lend("public key import", b, func(b []byte) {
		if err := k.Import(b); err != nil {
			t.Fail("public key of documented size refused: %v", err)
		}
	})
	return k
}

func pubOf(t *mc.T, prv *sidh.PrivateKey) *sidh.PublicKey {
	k := &sidh.PublicKey{Key: prv.Key}
	if t.Used() {
		if err := k.Import(mc.Pattern(41, k.Size())); err != nil {
			t.Fail("public key of documented size refused: %v", err)
		}
	}
	prv.GeneratePublicKey(k)
	return k
}

func export(t *mc.T, k *sidh.PublicKey) []byte {
	return t.Space("public key export", k.Size(), k.Export)
}

func exportPrv(t *mc.T, k *sidh.PrivateKey) []byte {
	return t.Space("private key export", k.Size(), k.Export)
}

func derive(t *mc.T, prv *sidh.PrivateKey, pub *sidh.PublicKey) []byte {
	return t.Space("shared secret", prv.SharedSecretSize(), func(out []byte) { prv.DeriveSecret(out, pub) })
}

var memoMap sync.Map

type memoVal struct {
	once sync.Once
	v    []byte
}

func memo(key string, fn func() []byte) []byte {
	x, _ := memoMap.LoadOrStore(key, new(memoVal))
	m := x.(*memoVal)
	m.once.Do(func() { m.v = fn() })
	return m.v
}

func (f *field) refPub(a bool, scalar []byte) []byte {
	return memo(fmt.Sprintf("pub %s %v %x", f.Name, a, scalar), func() []byte { return f.Public(a, scalar) })
}

func (f *field) refSecret(t *mc.T, a bool, scalar, pub []byte) []byte {
	o := memo(fmt.Sprintf("sec %s %v %x %x", f.Name, a, scalar, pub), func() []byte {
		o, _ := f.Secret(a, scalar, pub)
		return o
	})
	if o == nil {
		t.Fail("model: inconsistent public key %x", pub)
	}
	return o
}

// refEncap returns ct and secret of the model.
func (f *field) refEncap(m, pk []byte) (ct, ss []byte) {
	o := memo(fmt.Sprintf("enc %s %x %x", f.Name, m, pk), func() []byte {
		c, s := f.Encap(m, pk)
		return append(c, s...)
	})
	return o[:f.CtLen:f.CtLen], o[f.CtLen:]
}

func hexk(v *big.Int) string { return v.Text(16) }

// ---------------------------------------------------------------- I01

func i01(r *mc.Run) {
	for _, f := range fields {
		f := f
		agree := func(t *mc.T, a, b *big.Int) {
			ka := f.priv(t, vA, nil, f.scalar(true, a))
			kb := f.priv(t, vB, nil, f.scalar(false, b))
			pa, pb := pubOf(t, ka), pubOf(t, kb)
			x, y := derive(t, ka, pb), derive(t, kb, pa)
			if len(x) != f.SecretSize {
				t.Fail("shared secret size %d, documented %d", len(x), f.SecretSize)
			}
			t.Step(3)
			t.Eq("secrets of the two parties", x, y)
			if bytes.Equal(x, make([]byte, len(x))) {
				t.Fail("all-zero secret")
			}
			// the same with everything exported and imported
			ka2 := f.priv(t, vA, nil, exportPrv(t, ka))
			kb2 := f.priv(t, vB, nil, exportPrv(t, kb))
			t.Eq("secret of A after export and import", derive(t, ka2, f.pub(t, vB, export(t, pb))), x)
			t.Eq("secret of B after export and import", derive(t, kb2, f.pub(t, vA, export(t, pa))), x)
			t.State(fmt.Sprintf("%s %x", f.Name, x))
		}
		step := r.Pick(map[string]int{"P434": 1, "P503": 1, "P751": 2}[f.Name], 1)
		peers := []*big.Int{big.NewInt(0), ref.LE(mc.Pattern(510, f.nbytes(false)))}
		peers[1].Mod(peers[1], new(big.Int).Rsh(f.top(true), 8))
		r.Group("bits-"+f.Name, fmt.Sprintf("every %d. bit of either scalar alone, with the leading bit, and cleared from the largest scalar; two fixed peers; with export and import", step),
			func(emit mc.Emit) {
				for pi, p := range peers {
					p := p
					if pi == 0 && !r.Thorough() {
						continue
					}
					for _, k := range f.oneHot(true, step) {
						k := k
						if !emit(fmt.Sprintf("A=%s B=%s", hexk(k), hexk(p)), func(t *mc.T) { agree(t, k, p) }) {
							return
						}
					}
					for _, k := range f.oneHot(false, step) {
						k := k
						if !emit(fmt.Sprintf("A=%s B=%s", hexk(p), hexk(k)), func(t *mc.T) { agree(t, p, k) }) {
							return
						}
					}
				}
			})
		r.Group("edges-"+f.Name, "all pairs of boundary scalars of the two sides", func(emit mc.Emit) {
			for _, a := range f.edges(true) {
				for _, b := range f.edges(false) {
					a, b := a, b
					if !emit(fmt.Sprintf("A=%s B=%s", hexk(a), hexk(b)), func(t *mc.T) { agree(t, a, b) }) {
						return
					}
				}
			}
		})
		n := r.Pick(256, 4096)
		if f.Name == "P751" {
			n = r.Pick(96, 2048)
		}
		r.Group("small-"+f.Name, fmt.Sprintf("scalar pairs (k, k) and (2^n-1-k, 2^m-1-k) for all k below %d", n), func(emit mc.Emit) {
			for k := 0; k < n; k++ {
				k := big.NewInt(int64(k))
				ok := emit(fmt.Sprintf("k=%v", k), func(t *mc.T) { agree(t, k, k) }) &&
					emit(fmt.Sprintf("max-%v", k), func(t *mc.T) {
						m := new(big.Int).Add(k, big.NewInt(1))
						agree(t, new(big.Int).Sub(f.top(true), m), new(big.Int).Sub(f.top(false), m))
					})
				if !ok {
					return
				}
			}
		})
		gen := r.Pick(24, 200)
		r.Group("generated-"+f.Name, "freshly generated keys of all variant combinations; package-level functions", func(emit mc.Emit) {
			for i := 0; i < gen; i++ {
				i := i
				for _, vb := range []sidh.KeyVariant{vB, vS} {
					vb := vb
					if !emit(fmt.Sprintf("stream %d A-%s", i, variantNames[vb]), func(t *mc.T) {
						var ka, kb sidh.PrivateKey
						var pa, pb sidh.PublicKey
						ka.Init(f.id, vA)
						pa.Init(f.id, vA)
						kb.Init(f.id, vb)
						pb.Init(f.id, vb)
						if sidh.GeneratePrivateKey(&ka, rnd(900+i)) != nil || sidh.GeneratePrivateKey(&kb, rnd(1200+i)) != nil {
							t.Fail("generation failed")
						}
						sidh.GeneratePublicKey(&pa, &ka)
						sidh.GeneratePublicKey(&pb, &kb)
						x, y := make([]byte, f.SecretSize), make([]byte, f.SecretSize)
						sidh.DeriveSecret(x, &pb, &ka)
						sidh.DeriveSecret(y, &pa, &kb)
						t.Step(6)
						t.Eq("secrets of the two parties", x, y)
						// keys that come back from their exported form derive the same
						kb2 := sidh.NewPrivateKey(f.id, vb)
						if kb2.Import(exportPrv(t, &kb)) != nil {
							t.Fail("import refused")
						}
						t.Eq("secret after export and import", derive(t, kb2, f.pub(t, vA, export(t, &pa))), x)
					}) {
						return
					}
				}
			}
		})
		uses := r.Pick(300, 1100)
		if r.Long() {
			r.Group("endurance-"+f.Name, fmt.Sprintf("one set of key objects used %d times in each of five ways", uses), func(emit mc.Emit) {
				for way := 0; way < 5; way++ {
					way := way
					emit([]string{"derive", "public key", "import", "export", "generate"}[way], func(t *mc.T) {
						ka, kb := f.priv(t, vA, nil, f.scalar(true, f.edges(true)[3])), f.priv(t, vB, nil, f.scalar(false, f.edges(false)[3]))
						pa, pb := sidh.NewPublicKey(f.id, vA), sidh.NewPublicKey(f.id, vB)
						src := rnd(77)
						for i := 0; i < uses; i++ {
							if i == 0 || way == 1 || way == 4 {
								if way == 4 && (ka.Generate(src) != nil || kb.Generate(src) != nil) {
									t.Fail("generation failed")
								}
								ka.GeneratePublicKey(pa)
								kb.GeneratePublicKey(pb)
							}
							switch way {
							case 2:
								if pa.Import(export(t, pa)) != nil || kb.Import(exportPrv(t, kb)) != nil {
									t.Fail("import refused")
								}
							case 3:
								export(t, pa)
								exportPrv(t, kb)
							}
							if way == 0 || i%16 == 0 || i > uses-3 {
								t.Eq("secrets", derive(t, ka, pb), derive(t, kb, pa))
							}
						}
					})
				}
			})
		}
		// reuse: one key object through a history of imports keeps agreeing
		r.Group("reuse-"+f.Name, "the same key and key-pair objects re-imported with every ordered triple of boundary keys", func(emit mc.Emit) {
			ks := f.edges(true)[:r.Pick(4, 7)]
			mc.SeqsN(len(ks), 3, func(s []int) bool {
				return emit(fmt.Sprint(s), func(t *mc.T) {
					ka, kb := sidh.NewPrivateKey(f.id, vA), sidh.NewPrivateKey(f.id, vB)
					pa, pb := sidh.NewPublicKey(f.id, vA), sidh.NewPublicKey(f.id, vB)
					for i, j := range s {
						if ka.Import(f.scalar(true, ks[j])) != nil || kb.Import(f.scalar(false, ks[s[(i+1)%3]])) != nil {
							t.Fail("import refused")
						}
						ka.GeneratePublicKey(pa)
						kb.GeneratePublicKey(pb)
						t.Eq("secrets", derive(t, ka, pb), derive(t, kb, pa))
					}
				})
			})
		})
	}
}

// ---------------------------------------------------------------- I02

func i02(r *mc.Run) {
	for _, f := range fields {
		f := f
		r.Group("params-"+f.Name, "every built-in constant against the specification's values, whose orders, independence and differences the model verifies", func(emit mc.Emit) {
			emit("all", func(t *mc.T) { checkParams(t, f) })
			for i, k := range f.KATs() {
				k := k
				emit(fmt.Sprintf("kat%d", i), func(t *mc.T) {
					s, sc := k[1][:f.MsgLen], k[1][f.MsgLen:len(k[1])-f.PublicKeySize]
					t.Eq("model: public key", f.Public(false, sc), k[0])
					prv := f.priv(t, vS, s, sc)
					t.Eq("public key", export(t, pubOf(t, prv)), k[0])
					kem := newKEM(f, nil)
					ss := make([]byte, f.KemSize)
					if err := kem.Decapsulate(ss, prv, f.pub(t, vS, k[0]), k[2]); err != nil {
						t.Fail("%v", err)
					}
					t.Eq("secret", ss, k[3])
				})
			}
		})
		run := func(t *mc.T, a bool, k *big.Int, withSecret bool) {
			v := vB
			if a {
				v = vA
			}
			sc := f.scalar(a, k)
			prv := f.priv(t, v, nil, sc)
			t.Eq("public key", export(t, pubOf(t, prv)), f.refPub(a, sc))
			if withSecret {
				peer := f.refPub(!a, f.scalar(!a, new(big.Int).Mod(ref.LE(mc.Pattern(520, 47)), f.top(!a))))
				o := vA
				if a {
					o = vB
				}
				t.Eq("shared secret", derive(t, prv, f.pub(t, o, peer)), f.refSecret(t, a, sc, peer))
			}
			t.State(fmt.Sprintf("%s %v %s", f.Name, a, hexk(k)))
		}
		step := r.Pick(map[string]int{"P434": 1, "P503": 2, "P751": 8}[f.Name], 1)
		r.Group("scalars-"+f.Name, fmt.Sprintf("every %d. bit of the scalar alone, with the leading bit, and cleared from the largest scalar, plus boundary scalars, against the textbook model", step),
			func(emit mc.Emit) {
				for _, a := range []bool{true, false} {
					for i, k := range append(f.edges(a), f.oneHot(a, step)...) {
						a, k, sec := a, k, i < len(f.edges(a)) || i%r.Pick(4, 1) == 0
						if !emit(fmt.Sprintf("A=%v %s", a, hexk(k)), func(t *mc.T) { run(t, a, k, sec) }) {
							return
						}
					}
				}
			})
		n := r.Pick(map[string]int{"P434": 64, "P503": 48, "P751": 16}[f.Name], 1024)
		r.Group("small-"+f.Name, fmt.Sprintf("all scalars below %d on both sides", n), func(emit mc.Emit) {
			for k := 0; k < n; k++ {
				for _, a := range []bool{true, false} {
					k, a := big.NewInt(int64(k)), a
					if !emit(fmt.Sprintf("A=%v %v", a, k), func(t *mc.T) { run(t, a, k, false) }) {
						return
					}
				}
			}
		})
		r.Group("pairs-"+f.Name, "shared secrets of all pairs of boundary scalars against the model", func(emit mc.Emit) {
			ea, eb := f.edges(true), f.edges(false)
			if !r.Thorough() {
				ea, eb = pickSome(ea, map[string]int{"P434": 12, "P503": 8, "P751": 4}[f.Name]), pickSome(eb, 6)
			}
			for _, a := range ea {
				for _, b := range eb {
					a, b := a, b
					if !emit(fmt.Sprintf("A=%s B=%s", hexk(a), hexk(b)), func(t *mc.T) {
						sa, sb := f.scalar(true, a), f.scalar(false, b)
						pa, pb := f.refPub(true, sa), f.refPub(false, sb)
						want := f.refSecret(t, true, sa, pb)
						t.Eq("A", derive(t, f.priv(t, vA, nil, sa), f.pub(t, vB, pb)), want)
						t.Eq("B", derive(t, f.priv(t, vB, nil, sb), f.pub(t, vA, pa)), want)
						t.Eq("B by SIKE key", derive(t, f.priv(t, vS, make([]byte, f.MsgLen), sb), f.pub(t, vA, pa)), want)
					}) {
						return
					}
				}
			}
		})
	}
}

func pickSome(v []*big.Int, n int) (o []*big.Int) {
	for i := 0; i < n && i < len(v); i++ {
		o = append(o, v[i*len(v)/n])
	}
	return
}

// checkParams compares the registered parameters (in Montgomery representation) with the model's.
func checkParams(t *mc.T, f *field) {
	if s := f.CheckParams(); s != "" {
		t.Fail("model parameters: %s", s)
	}
	p := common.Params(f.id)
	ri := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 64*f.nw), f.P)
	val := func(x common.Fp) *big.Int {
		v := new(big.Int)
		for i := len(x) - 1; i >= 0; i-- {
			v.Or(v.Lsh(v, 64), new(big.Int).SetUint64(x[i]))
		}
		if v.Cmp(new(big.Int).Lsh(f.P, 1)) >= 0 {
			t.Fail("constant out of range")
		}
		return v.Mod(v.Mul(v, ri), f.P)
	}
	eq := func(what string, x common.Fp2, a, b *big.Int) {
		t.Step(1)
		if val(x.A).Cmp(a) != 0 || val(x.B).Cmp(b) != 0 {
			t.Fail("%s is %s+%si, want %s+%si", what, val(x.A).Text(16), val(x.B).Text(16), a.Text(16), b.Text(16))
		}
	}
	z := new(big.Int)
	eq("xPA", p.A.AffineP, f.PA.A, f.PA.B)
	eq("xQA", p.A.AffineQ, f.QA.A, f.QA.B)
	eq("xRA", p.A.AffineR, f.RA.A, f.RA.B)
	eq("xPB", p.B.AffineP, f.PB.A, f.PB.B)
	eq("xQB", p.B.AffineQ, f.QB.A, f.QB.B)
	eq("xRB", p.B.AffineR, f.RB.A, f.RB.B)
	eq("1", p.OneFp2, big.NewInt(1), z)
	eq("1/2", p.HalfFp2, new(big.Int).ModInverse(big.NewInt(2), f.P), z)
	c := val(p.InitCurve.C.A)
	if val(p.InitCurve.C.B).Sign() != 0 || val(p.InitCurve.A.B).Sign() != 0 || c.Sign() == 0 ||
		new(big.Int).Mod(new(big.Int).Mul(big.NewInt(6), c), f.P).Cmp(val(p.InitCurve.A.A)) != 0 {
		t.Fail("starting curve is not A=6")
	}
	n := func(what string, got, want int) {
		t.Step(1)
		if got != want {
			t.Fail("%s is %d, want %d", what, got, want)
		}
	}
	n("Bytelen", p.Bytelen, f.Bytes)
	n("PublicKeySize", p.PublicKeySize, f.PublicKeySize)
	n("SharedSecretSize", p.SharedSecretSize, f.SecretSize)
	n("MsgLen", p.MsgLen, f.MsgLen)
	n("KemSize", p.KemSize, f.KemSize)
	n("CiphertextSize", p.CiphertextSize, f.CtLen)
	n("A.SecretBitLen", int(p.A.SecretBitLen), int(f.ABits))
	n("B.SecretBitLen", int(p.B.SecretBitLen), int(f.BBits))
	n("A.SecretByteLen", int(p.A.SecretByteLen), int(f.ABytes))
	n("B.SecretByteLen", int(p.B.SecretByteLen), int(f.BBytes))
	n("public key Size", sidh.NewPublicKey(f.id, vA).Size(), f.PublicKeySize)
	n("shared secret size", sidh.NewPrivateKey(f.id, vA).SharedSecretSize(), f.SecretSize)
	n("size of A key", sidh.NewPrivateKey(f.id, vA).Size(), int(f.ABytes))
	n("size of B key", sidh.NewPrivateKey(f.id, vB).Size(), int(f.BBytes))
	n("size of SIKE key", sidh.NewPrivateKey(f.id, vS).Size(), int(f.BBytes)+f.MsgLen)
	k := newKEM(f, nil)
	n("ciphertext size", k.CiphertextSize(), f.CtLen)
	n("KEM secret size", k.SharedSecretSize(), f.KemSize)
}
