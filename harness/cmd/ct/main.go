// ct decides T01: under the tracing interpreter, the operations on SIDH and SIKE secrets execute the same instructions
// and touch the same addresses whatever the secrets are.
package main

import (
	"fmt"
	"io"
	"time"

	"github.com/henrydcase/nobs/dh/sidh"
	"mkem"

	"vh/env"
	"vh/mc"
	"vh/trace"
)

func main() { mc.Main(map[string]func(*mc.Run){"T01": t01}) }

type field struct {
	name string
	id   uint8
	bits [2]int // of scalars, side A and side B
	kem  func(io.Reader) *sidh.KEM
	kem2 func(io.Reader) *mkem.KEM
}

var fields = []field{
	{"p434", sidh.Fp434, [2]int{216, 217}, sidh.NewSike434, mkem.NewSike434},
	{"p503", sidh.Fp503, [2]int{250, 252}, sidh.NewSike503, mkem.NewSike503},
	{"p751", sidh.Fp751, [2]int{372, 378}, sidh.NewSike751, mkem.NewSike751},
}

// scalars are the secrets of one side: extremes, fillers, and every value of the lowest and highest bits.
func scalars(bits, size, n, fill int) (out [][]byte) {
	mask := byte(0xff)
	if bits%8 != 0 {
		mask = 1<<(bits%8) - 1
	}
	add := func(b []byte) {
		for i := (bits + 7) / 8; i < size; i++ {
			b[i] = 0
		}
		b[(bits+7)/8-1] &= mask
		out = append(out, b)
	}
	rep := func(x byte) []byte {
		b := make([]byte, size)
		for i := range b {
			b[i] = x
		}
		return b
	}
	for i := 0; i < fill; i++ {
		add(mc.Pattern(100+i, size))
	}
	for _, x := range []byte{0, 0xff, 0x55, 0xaa} {
		if len(out) < n {
			add(rep(x))
		}
	}
	for k := 0; k < 4 && len(out)+4 < n; k++ { // zero bytes at the ends, a single one
		b := mc.Pattern(100+k, size)
		last := (bits+7)/8 - 1
		switch k {
		case 0:
			b[0] = 0
		case 1:
			b[last] = 0
		case 2:
			b[last], b[last-1] = 0, 0
		case 3:
			b = rep(0)
			b[0] = 1
		}
		add(b)
	}
	for i := 0; len(out) < n; i++ { // one-bit changes of a filler, from both ends inwards
		if i >= bits {
			break
		}
		k := i / 2
		if i%2 == 1 {
			k = bits - 1 - i/2
		}
		b := mc.Pattern(100, size)
		b[k/8] ^= 1 << (k % 8)
		add(b)
	}
	return out
}

// reader hands out the bytes of a buffer.
type reader struct {
	b  []byte
	at int
}

func (r *reader) Read(p []byte) (int, error) {
	n := copy(p, r.b[r.at:])
	r.at += n
	return n, nil
}

var sides = []struct {
	name  string
	v, o  sidh.KeyVariant
	index int
}{{"A", sidh.KeyVariantSidhA, sidh.KeyVariantSidhB, 0}, {"B", sidh.KeyVariantSidhB, sidh.KeyVariantSidhA, 1}}

func must(t *mc.T, err error) {
	if err != nil {
		t.Fail("%v", err)
	}
}

func cat(bs ...[]byte) (out []byte) {
	for _, b := range bs {
		out = append(out, b...)
	}
	return
}

func t01(r *mc.Run) {
	if !trace.Available() {
		panic("needs the tracing interpreter")
	}
	r.HangLimit = time.Hour
	for _, f := range fields {
		f := f
		if f.name == "p434" && !r.Long() { // the same code in both builds
			continue
		}
		cost := map[string]int{"p434": 1, "p503": 1, "p751": 2}[f.name]
		nkeys := r.Pick(16, 200) / cost
		r.Group("keys-"+f.name, fmt.Sprintf("public key generation and shared secret derivation for %d secret scalars of each side", nkeys), func(emit mc.Emit) {
			for _, s := range sides {
				s := s
				in := scalars(f.bits[s.index], sidh.NewPrivateKey(f.id, s.v).Size(), nkeys, 4)
				emit("public key "+s.name, func(t *mc.T) {
					k, p := sidh.NewPrivateKey(f.id, s.v), sidh.NewPublicKey(f.id, s.v)
					buf, out := make([]byte, k.Size()), make([]byte, p.Size())
					trace.Same(t, "public key generation", buf, in, nkeys/2, func() []byte {
						if k.Import(buf) != nil {
							panic("import")
						}
						k.GeneratePublicKey(p)
						p.Export(out)
						return out
					})
				})
				emit("shared secret "+s.name, func(t *mc.T) {
					k, k2, p := sidh.NewPrivateKey(f.id, s.v), sidh.NewPrivateKey(f.id, s.o), sidh.NewPublicKey(f.id, s.o)
					must(t, k2.Generate(env.New(5)))
					k2.GeneratePublicKey(p)
					buf, out := make([]byte, k.Size()), make([]byte, k.SharedSecretSize())
					trace.Same(t, "shared secret derivation", buf, in, nkeys/2, func() []byte {
						if k.Import(buf) != nil {
							panic("import")
						}
						k.DeriveSecret(out, p)
						return out
					})
				})
			}
		})
		r.Group("generate-"+f.name, "generation of private keys from every random string of the alphabet, with export", func(emit mc.Emit) {
			for _, v := range []sidh.KeyVariant{sidh.KeyVariantSidhA, sidh.KeyVariantSidhB, sidh.KeyVariantSike} {
				v := v
				emit(fmt.Sprint(v), func(t *mc.T) {
					k := sidh.NewPrivateKey(f.id, v)
					buf, out := make([]byte, k.Size()), make([]byte, k.Size())
					trace.Same(t, "private key generation", buf, scalars(8*k.Size(), k.Size(), r.Pick(300, 1000), 4), 8, func() []byte {
						if k.Generate(&reader{b: buf}) != nil {
							panic("generate")
						}
						k.Export(out)
						return out
					})
				})
			}
		})
		nmsg := r.Pick(8, 80) / cost
		type kem interface {
			Encapsulate(ct, ss []byte, pub *sidh.PublicKey) error
			Decapsulate(ss []byte, prv *sidh.PrivateKey, pub *sidh.PublicKey, ct []byte) error
			CiphertextSize() int
			SharedSecretSize() int
			Reset()
		}
		pair := func(t *mc.T, i int) (*sidh.PrivateKey, *sidh.PublicKey) {
			k, p := sidh.NewPrivateKey(f.id, sidh.KeyVariantSike), sidh.NewPublicKey(f.id, sidh.KeyVariantSike)
			must(t, k.Generate(env.New(i)))
			k.GeneratePublicKey(p)
			return k, p
		}
		for _, impl := range []string{"sidh", "mkem"} {
			if impl == "mkem" && !r.Long() { // without assembly only the fields differ
				continue
			}
			mk := func(rng io.Reader) kem { return f.kem(rng) }
			n := nmsg
			if impl == "mkem" {
				mk = func(rng io.Reader) kem { return f.kem2(rng) }
				n = (nmsg + 1) / 2
			}
			r.Group(impl+"-kem-"+f.name, fmt.Sprintf("encapsulation of %d messages; decapsulation with every kind of valid and altered ciphertext and key", n), func(emit mc.Emit) {
				emit("encapsulate", func(t *mc.T) {
					_, p := pair(t, 7)
					rng := &reader{}
					k := mk(rng)
					ml := p.Params.MsgLen
					buf := make([]byte, ml)
					ct, ss := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize())
					trace.Same(t, "encapsulation", buf, scalars(8*ml, ml, n, 4), n, func() []byte {
						rng.b, rng.at = buf, 0
						if k.Encapsulate(ct, ss, p) != nil {
							panic("encapsulate")
						}
						k.Reset()
						return ss
					})
				})
				emit("decapsulate", func(t *mc.T) {
					k := mk(nil)
					var in [][]byte
					out := make([]byte, k.SharedSecretSize())
					key := func(prv *sidh.PrivateKey, pub *sidh.PublicKey, ct []byte) {
						a, b := make([]byte, prv.Size()), make([]byte, pub.Size())
						prv.Export(a)
						pub.Export(b)
						in = append(in, cat(a, b, ct))
					}
					for i := 0; i < 2; i++ {
						prv, pub := pair(t, 8+i)
						other, opub := pair(t, 18+i)
						ct, ss := make([]byte, k.CiphertextSize()), make([]byte, k.SharedSecretSize())
						must(t, mk(env.New(9+i)).Encapsulate(ct, ss, pub))
						flip := func(at int) []byte {
							c := append([]byte(nil), ct...)
							c[at] ^= 1
							return c
						}
						key(prv, pub, ct)              // right
						key(prv, pub, flip(0))         // another first coordinate
						key(prv, pub, flip(len(ct)-1)) // another masked message
						if len(in) < n {
							key(other, opub, ct)              // meant for somebody else
							key(prv, opub, ct)                // keys which do not belong together
							key(prv, pub, flip(pub.Size()-9)) // another last coordinate
							key(prv, pub, flip(pub.Size()))
						}
						prv.S = make([]byte, len(prv.S))
						if len(in) < n {
							key(prv, pub, flip(0))
						}
					}
					prv, pub := sidh.NewPrivateKey(f.id, sidh.KeyVariantSike), sidh.NewPublicKey(f.id, sidh.KeyVariantSike)
					buf := make([]byte, len(in[0]))
					sk, pk, ct := buf[:prv.Size()], buf[prv.Size():prv.Size()+pub.Size()], buf[prv.Size()+pub.Size():]
					trace.Same(t, "decapsulation", buf, in, 6, func() []byte {
						if prv.Import(sk) != nil || pub.Import(pk) != nil || k.Decapsulate(out, prv, pub, ct) != nil {
							panic("decapsulate")
						}
						return out
					})
				})
			})
		}
		if !r.Long() {
			continue
		}
		r.Group("multi-kem-"+f.name, fmt.Sprintf("multi-recipient encapsulation of %d messages to two recipients; decapsulation with valid and altered ciphertexts and keys", nmsg/2), func(emit mc.Emit) {
			alloc := func(rng io.Reader) *mkem.MultiKEM {
				k := new(mkem.MultiKEM)
				k.Allocate(f.id, 2, rng)
				return k
			}
			emit("encapsulate", func(t *mc.T) {
				_, p := pair(t, 7)
				_, q := pair(t, 8)
				rng := &reader{}
				k := alloc(rng)
				ml := p.Params.MsgLen
				buf, ss := make([]byte, ml), make([]byte, k.SharedSecretSize())
				trace.Same(t, "multi-recipient encapsulation", buf, scalars(8*ml, ml, (nmsg+1)/2, 2), (nmsg+1)/2, func() []byte {
					rng.b, rng.at = buf, 0
					if k.Encapsulate(ss, []*sidh.PublicKey{p, q}) != nil {
						panic("encapsulate")
					}
					return ss
				})
			})
			emit("decapsulate", func(t *mc.T) {
				prv, pub := pair(t, 7)
				other, opub := pair(t, 8)
				k := alloc(env.New(9))
				ss := make([]byte, k.SharedSecretSize())
				must(t, k.Encapsulate(ss, []*sidh.PublicKey{pub, opub}))
				ct0, cts, ok := env.Stored(k, pub.Size())
				if !ok {
					t.Leave("the object does not hold a common part and ciphertexts")
				}
				ct0 = ct0[:pub.Size()]
				n := pub.Params.MsgLen
				var in [][]byte
				add := func(prv *sidh.PrivateKey, pub *sidh.PublicKey, ct []byte, at int) {
					a, b := make([]byte, prv.Size()), make([]byte, pub.Size())
					prv.Export(a)
					pub.Export(b)
					v := cat(a, b, ct0, ct[:n])
					if at >= 0 {
						v[len(a)+len(b)+at] ^= 1
					}
					in = append(in, v)
				}
				add(prv, pub, cts[0], -1)
				add(prv, pub, cts[0], 0)
				add(prv, pub, cts[0], len(ct0)+n-1)
				add(prv, pub, cts[0], len(ct0))
				if nmsg > 8 || f.name == "p434" {
					add(other, opub, cts[1], -1)
					add(prv, pub, cts[1], -1)
					add(prv, opub, cts[0], -1)
					add(prv, pub, cts[0], len(ct0)-9)
				}
				prv, pub = sidh.NewPrivateKey(f.id, sidh.KeyVariantSike), sidh.NewPublicKey(f.id, sidh.KeyVariantSike)
				buf := make([]byte, len(in[0]))
				sk, pk, c0, ct := buf[:prv.Size()], buf[prv.Size():prv.Size()+pub.Size()], buf[prv.Size()+pub.Size():len(buf)-n], buf[len(buf)-n:]
				trace.Same(t, "multi-recipient decapsulation", buf, in, 2, func() []byte {
					copy(ct0, c0)
					if prv.Import(sk) != nil || pub.Import(pk) != nil || k.Decapsulate(ss, prv, pub, ct) != nil {
						panic("decapsulate")
					}
					return ss
				})
			})
		})
	}
}
