package main

import (
	"crypto/sha256"
	"fmt"
	"hash"
	"strings"

	"mkem"

	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/hash/sm3"

	"vh/env"
	"vh/mc"
)

// keyset holds the keys an operation reads; two threads get the same one or one each.
type keyset struct {
	csk    *csidh.PrivateKey
	cpk    []csidh.PublicKey
	f      [3]struct{ a, b, s *sidh.PrivateKey }
	p      [3]struct{ a, b, s *sidh.PublicKey }
	ct, ss [3][]byte
	in     []byte // shared message, read only
}

// raw holds the encodings keysets are made of.
type raw struct {
	csk, cpk, cpk2 []byte
	f, p           [3][3][]byte
	ct             [3][]byte
}

var fieldID = [3]uint8{sidh.Fp434, sidh.Fp503, sidh.Fp751}
var fieldName = [3]string{"P434", "P503", "P751"}
var variant = [3]sidh.KeyVariant{sidh.KeyVariantSidhA, sidh.KeyVariantSidhB, sidh.KeyVariantSike}

func must(ok bool, what string) {
	if !ok {
		panic(what)
	}
}

func must2(err error) {
	if err != nil {
		panic(err)
	}
}

func mkRaw(i int) *raw {
	r := new(raw)
	r.csk = make([]byte, 37)
	r.csk[0], r.csk[5+i], r.csk[36] = 0x1f, 0x20, 0x0f
	var k csidh.PrivateKey
	must(k.Import(r.csk), "csidh private key")
	var p csidh.PublicKey
	csidh.GeneratePublicKey(&p, &k, env.New(10+i))
	r.cpk = make([]byte, 64)
	must(p.Export(r.cpk), "csidh export")
	var k2 csidh.PrivateKey
	b := make([]byte, 37)
	b[1], b[20+i] = 0x11, 0xf1
	must(k2.Import(b), "csidh private key")
	csidh.GeneratePublicKey(&p, &k2, env.New(10+i))
	r.cpk2 = make([]byte, 64)
	must(p.Export(r.cpk2), "csidh export")
	for f := range fieldID {
		for v := range variant {
			k, q := sidh.NewPrivateKey(fieldID[f], variant[v]), sidh.NewPublicKey(fieldID[f], variant[v])
			must2(k.Generate(env.New(20 + 10*i + v)))
			k.GeneratePublicKey(q)
			r.f[f][v], r.p[f][v] = make([]byte, k.Size()), make([]byte, q.Size())
			k.Export(r.f[f][v])
			q.Export(r.p[f][v])
			if variant[v] == sidh.KeyVariantSike {
				c := new(sidh.KEM)
				c.Allocate(fieldID[f], env.New(30+i))
				r.ct[f] = make([]byte, c.CiphertextSize())
				must2(c.Encapsulate(r.ct[f], make([]byte, c.SharedSecretSize()), q))
			}
		}
	}
	return r
}

func (r *raw) keys() *keyset {
	k := new(keyset)
	k.csk = new(csidh.PrivateKey)
	must(k.csk.Import(r.csk), "import")
	k.cpk = make([]csidh.PublicKey, 2)
	must(k.cpk[0].Import(r.cpk) && k.cpk[1].Import(r.cpk2), "import")
	for f := range fieldID {
		pr := [3]**sidh.PrivateKey{&k.f[f].a, &k.f[f].b, &k.f[f].s}
		pu := [3]**sidh.PublicKey{&k.p[f].a, &k.p[f].b, &k.p[f].s}
		for v := range variant {
			*pr[v], *pu[v] = sidh.NewPrivateKey(fieldID[f], variant[v]), sidh.NewPublicKey(fieldID[f], variant[v])
			must2((*pr[v]).Import(r.f[f][v]))
			must2((*pu[v]).Import(r.p[f][v]))
		}
		k.ct[f] = append([]byte{}, r.ct[f]...)
	}
	k.in = mc.Pattern(600, 700)
	return k
}

// op is one thread's work on objects of its own.
type op struct {
	name   string
	pkg    string // what it exercises, for choosing partners
	keys   bool   // reads keys, so sharing them matters
	layers []string
	run    func(id int, k *keyset) []byte
}

type acc struct{ b []byte }

func (a *acc) add(b ...[]byte) {
	for _, x := range b {
		h := sha256.Sum256(x)
		a.b = append(a.b, h[:6]...)
	}
}

func (a *acc) ok(v interface{}) { a.add([]byte(fmt.Sprint(v))) }

func hashOp(mk func() hash.Hash) func(int, *keyset) []byte {
	return func(id int, k *keyset) []byte {
		var a acc
		h := mk()
		n, err := h.Write(k.in[id*7 : 50+id*90])
		a.ok(fmt.Sprint(n, err))
		h.Write(k.in[id : 300+id*200])
		a.add(h.Sum(nil))
		h.Write(k.in[:5])
		a.add(h.Sum(make([]byte, 0, 64)))
		h.Reset()
		h.Write(k.in[3+id : 90])
		a.add(h.Sum(nil))
		return a.b
	}
}

func shakeOp(mk func(id int, k *keyset) sha3.ShakeHash) func(int, *keyset) []byte {
	return func(id int, k *keyset) []byte {
		var a acc
		h := mk(id, k)
		h.Write(k.in[id : 200+100*id])
		c := h.Clone()
		o := make([]byte, 350)
		h.Read(o[:10])
		c.Write(k.in[:3])
		c.Read(o[10:40])
		h.Read(o[40:350])
		a.add(o)
		h.Reset()
		h.Write(k.in[id:9])
		h.Read(o)
		a.add(o)
		return a.b
	}
}

func ops() (l []op) {
	add := func(name, pkg string, keys bool, run func(int, *keyset) []byte) {
		var layers []string
		switch {
		case strings.HasPrefix(pkg, "mkem"):
			layers = []string{"kem/"}
		case strings.HasPrefix(pkg, "sidh") && (strings.HasPrefix(name, "encap") || strings.HasPrefix(name, "decap") || strings.HasPrefix(name, "import")):
			layers = []string{"dh/sidh/sidh.go", "dh/sidh/sike.go", "dh/sidh/common/", "hash/"}
		}
		l = append(l, op{name, pkg, keys, layers, run})
	}
	add("sha3-224", "sha3", true, hashOp(sha3.New224))
	add("sha3-256", "sha3", true, hashOp(sha3.New256))
	add("sha3-384", "sha3", true, hashOp(sha3.New384))
	add("sha3-512", "sha3", true, hashOp(sha3.New512))
	add("sm3", "sm3", true, hashOp(sm3.New))
	add("shake128", "sha3", true, shakeOp(func(int, *keyset) sha3.ShakeHash { return sha3.NewShake128() }))
	add("shake256", "sha3", true, shakeOp(func(int, *keyset) sha3.ShakeHash { return sha3.NewShake256() }))
	add("cshake128", "sha3", true, shakeOp(func(id int, k *keyset) sha3.ShakeHash { return sha3.NewCShake128(k.in[:3+id], k.in[:170-id]) }))
	add("cshake256", "sha3", true, shakeOp(func(id int, k *keyset) sha3.ShakeHash { return sha3.NewCShake256(k.in[:140*id], k.in[:20]) }))
	add("shakesum", "sha3", true, func(id int, k *keyset) []byte {
		var a acc
		o := make([]byte, 200)
		sha3.ShakeSum128(o, k.in[:100+id])
		a.add(o)
		sha3.ShakeSum256(o, k.in[id:400])
		a.add(o)
		return a.b
	})
	add("drbg", "drbg", true, func(id int, k *keyset) []byte {
		var a acc
		g := drbg.NewCtrDrbg()
		a.ok(g.Init(k.in[id:48+id], k.in[:20*id]))
		o := make([]byte, 70)
		g.Read(o)
		g.ReadWithAdditionalData(o[:33], k.in[:17])
		a.add(o)
		g.Reseed(k.in[5:53], k.in[:id])
		g.Read(o[:5])
		g.Read(o[5:])
		a.add(o)
		return a.b
	})
	add("csidh-genkey", "csidh", false, func(id int, k *keyset) []byte {
		var a acc
		var p csidh.PrivateKey
		o := make([]byte, 37)
		for i := 0; i < 3; i++ {
			a.ok(csidh.GeneratePrivateKey(&p, env.New(40+10*id+i)))
			a.ok(p.Export(o))
			a.add(o)
		}
		return a.b
	})
	add("csidh-public", "csidh", true, func(id int, k *keyset) []byte {
		var a acc
		var p csidh.PublicKey
		csidh.GeneratePublicKey(&p, k.csk, env.New(50+id))
		o := make([]byte, 64)
		a.ok(p.Export(o))
		a.add(o)
		return a.b
	})
	add("csidh-validate", "csidh", true, func(id int, k *keyset) []byte {
		var a acc
		a.ok(csidh.Validate(&k.cpk[0], env.New(52+id)))
		var bad csidh.PublicKey
		b := make([]byte, 64)
		b[0] = byte(3 + id)
		bad.Import(b)
		a.ok(csidh.Validate(&bad, env.New(54+id)))
		return a.b
	})
	add("csidh-derive", "csidh", true, func(id int, k *keyset) []byte {
		var a acc
		var ss [64]byte
		a.ok(csidh.DeriveSecret(&ss, &k.cpk[0], k.csk, env.New(56+id)))
		a.add(ss[:])
		return a.b
	})
	add("pke", "mkem-csidh", true, func(id int, k *keyset) []byte {
		var a acc
		g := drbg.NewCtrDrbg()
		g.Init(mc.Pattern(60+id, 48), nil)
		c := new(mkem.PKE)
		c.Allocate(g)
		pt := [16]byte{byte(id), 2, 3}
		ct := c.Enc(&k.cpk[0], &pt)
		a.add(ct.U[:], ct.V[:])
		d := c.Dec(k.csk, &ct)
		a.add(d[:])
		return a.b
	})
	add("multi-pke", "mkem-csidh", true, func(id int, k *keyset) []byte {
		var a acc
		g := drbg.NewCtrDrbg()
		g.Init(mc.Pattern(62+id, 48), nil)
		c := new(mkem.MultiPKE)
		c.Allocate(2, g)
		pt := [16]byte{byte(id), 2, 3}
		c.Encrypt(k.cpk, &pt)
		a.add(c.Ct0[:], c.Cts[0][:16], c.Cts[1][:16])
		return a.b
	})
	for f := range fieldID {
		f := f
		n := fieldName[f]
		pkg := "sidh-" + n
		for v := range variant {
			v := v
			add(fmt.Sprintf("keygen-%s-%s", [3]string{"A", "B", "SIKE"}[v], n), pkg, false, func(id int, k *keyset) []byte {
				var a acc
				p, q := sidh.NewPrivateKey(fieldID[f], variant[v]), sidh.NewPublicKey(fieldID[f], variant[v])
				a.ok(p.Generate(env.New(70 + 5*id + v)))
				p.GeneratePublicKey(q)
				o, e := make([]byte, p.Size()), make([]byte, q.Size())
				p.Export(o)
				q.Export(e)
				a.add(o, e)
				return a.b
			})
		}
		add("import-"+n, pkg, true, func(id int, k *keyset) []byte {
			var a acc
			p, q := sidh.NewPrivateKey(fieldID[f], sidh.KeyVariantSike), sidh.NewPublicKey(fieldID[f], sidh.KeyVariantSike)
			o, e := make([]byte, p.Size()), make([]byte, q.Size())
			k.f[f].s.Export(o)
			k.p[f].s.Export(e)
			o[0] ^= byte(id)
			e[0] ^= byte(id)
			a.ok(p.Import(o))
			a.ok(q.Import(e))
			a.ok(p.Import(o[1:]))
			p.Export(o)
			q.Export(e)
			a.add(o, e)
			return a.b
		})
		add("derive-A-"+n, pkg, true, func(id int, k *keyset) []byte {
			var a acc
			s := make([]byte, k.f[f].a.SharedSecretSize())
			k.f[f].a.DeriveSecret(s, k.p[f].b)
			a.add(s)
			return a.b
		})
		add("derive-B-"+n, pkg, true, func(id int, k *keyset) []byte {
			var a acc
			s := make([]byte, k.f[f].b.SharedSecretSize())
			k.f[f].b.DeriveSecret(s, k.p[f].a)
			a.add(s)
			return a.b
		})
		add("encap-"+n, pkg, true, func(id int, k *keyset) []byte {
			var a acc
			c := new(sidh.KEM)
			c.Allocate(fieldID[f], env.New(80+id))
			ct, s := make([]byte, c.CiphertextSize()), make([]byte, c.SharedSecretSize())
			a.ok(c.Encapsulate(ct, s, k.p[f].s))
			a.add(ct, s)
			return a.b
		})
		add("decap-"+n, pkg, true, func(id int, k *keyset) []byte {
			var a acc
			c := new(sidh.KEM)
			c.Allocate(fieldID[f], nil)
			s := make([]byte, c.SharedSecretSize())
			a.ok(c.Decapsulate(s, k.f[f].s, k.p[f].s, k.ct[f]))
			a.add(s)
			bad := append([]byte{}, k.ct[f]...)
			bad[9*(1+id)] ^= 1
			c.Reset()
			a.ok(c.Decapsulate(s, k.f[f].s, k.p[f].s, bad))
			a.add(s)
			return a.b
		})
		add("mkem-"+n, "mkem-"+pkg, true, func(id int, k *keyset) []byte {
			var a acc
			c := new(mkem.KEM)
			c.Allocate(fieldID[f], env.New(84+id))
			ct, s := make([]byte, c.CiphertextSize()), make([]byte, c.SharedSecretSize())
			a.ok(c.Encapsulate(ct, s, k.p[f].s))
			a.add(ct, s)
			a.ok(c.Decapsulate(s, k.f[f].s, k.p[f].s, k.ct[f]))
			a.add(s)
			return a.b
		})
		add("multi-"+n, "mkem-"+pkg, true, func(id int, k *keyset) []byte {
			var a acc
			c := new(mkem.MultiKEM)
			c.Allocate(fieldID[f], 2, env.New(88+id))
			s := make([]byte, c.SharedSecretSize())
			a.ok(c.Encapsulate(s, []*sidh.PublicKey{k.p[f].s, k.p[f].s}))
			a.add(s)
			a.ok(c.Decapsulate(s, k.f[f].s, k.p[f].s, mc.Pattern(id, c.SharedSecretSize())))
			a.add(s)
			return a.b
		})
	}
	return
}

// guarded turns a panic into a result.
func guarded(o op, id int, k *keyset) (out []byte) {
	defer func() {
		if e := recover(); e != nil {
			out = []byte(fmt.Sprintf("panic: %v", e))
		}
	}()
	return o.run(id, k)
}
