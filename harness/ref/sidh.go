package ref

import (
	"embed"
	"encoding/hex"
	"math/big"
	"strings"
	"sync"
)

// Textbook SIDH and SIKE over math/big, written from the definitions: affine curve arithmetic
// with y-coordinates for the kernel point, two 2-isogenies (Vélu) for every 4-isogeny step.

// F2 is a+bi with i^2=-1.
type F2 struct{ A, B *big.Int }

// SField is one SIKE parameter set.
type SField struct {
	Name                             string
	E2, E3                           uint
	P                                *big.Int
	Bytes                            int // of one base field element
	MsgLen, KemSize                  int
	ABits, ABytes, BBits, BBytes     uint
	PA, QA, RA, PB, QB, RB           F2
	once                             sync.Once
	liftA, liftB                     *lift
	PublicKeySize, SecretSize, CtLen int
}

func h2(a, b string) F2 {
	x, ok := new(big.Int).SetString(a, 16)
	y, ok2 := new(big.Int).SetString(b, 16)
	if !ok || !ok2 {
		panic("constant")
	}
	return F2{x, y}
}

func newSField(name string, e2, e3 uint, msg, kem int, pts [12]string) *SField {
	f := &SField{Name: name, E2: e2, E3: e3, MsgLen: msg, KemSize: kem}
	p := new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(e3)), nil)
	f.ABits = e2
	f.BBits = uint(p.BitLen()) - 1
	p.Lsh(p, e2)
	p.Sub(p, big.NewInt(1))
	f.P = p
	f.Bytes = (p.BitLen() + 7) / 8
	f.ABytes = f.BBits/8 + 1 // one key size rule for both sides; P434 has a byte of zeros on side A
	if name != "P434" {
		f.ABytes = (f.ABits + 7) / 8
	}
	f.BBytes = (f.BBits + 7) / 8
	f.SecretSize = 2 * f.Bytes
	f.PublicKeySize = 3 * f.SecretSize
	f.CtLen = f.PublicKeySize + msg
	for i, d := range []*F2{&f.PA, &f.QA, &f.RA, &f.PB, &f.QB, &f.RB} {
		*d = h2(pts[2*i], pts[2*i+1])
	}
	return f
}

// Parameter sets of the SIKE specification (base points in the ordinary domain).
var (
	S434 = newSField("P434", 216, 137, 16, 16, [12]string{
		"3ccfc5e1f050030363e6920a0f7a4c6c71e63de63a0e6475af621995705f7c84500cb2bb61e950e19eab8661d25c4a50ed279646cb48",
		"1ad1c1cae7840edda6d8a924520f60e573d3b9dfac6d189941cb22326d284a8816cc4249410fe80d68047d823c97d705246f869e3ea50",
		"c7461738340efcf09ce388f666eb38f7f3afd42dc0b664d9f461f31aa2edc6b4ab71bd42f4d7c058e13f64b237ef7ddd2abc0deb0c6c",
		"25de37157f50d75d320dd0682ab4a67e471586fbc2d31aa32e6957fa2b2614c4cd40a1e27283eaaf4272ae517847197432e2d61c85f5",
		"f37ab34ba0cead94f43cdc50de06ad19c67ce4928346e829cb92580da84d7c36506a2516696bbe3aeb523ad7172a6d239513c5fd2516",
		"196ca2ed06a657e90a73543f3902c208f410895b49cf84cd89be9ed6e4ee7e8df90b05f3fdb8bdfe489d1b3558e987013f9806036c5ac",
		"8664865ea7d816f03b31e223c26d406a2c6cd0c3d667466056aae85895ec37368bfc009dfafcb3d97e639f65e9e45f46573b0637b7a9", "0",
		"12e84d7652558e694bf84c1fbdaaf99b83b4266c32ec65b10457bcaf94c63eb063681e8b1e7398c0b241c19b9665fdb9e1406da3d3846", "0",
		"1cd28597256d4ffe7e002e87870752a8f8a64a1cc78b5a2122074783f51b4fde90e89c48ed91a8f4a0ccbacbfa7f51a89ce518a52b76c",
		"147073290d78dd0cc8420b1188187d1a49dbfa24f26aad46b2d9bb547dbb6f63a760ecb0c2b20be52fb77bd2776c3d14bcbc404736ae4"})
	S503 = newSField("P503", 250, 159, 24, 24, [12]string{
		"2ed31a03825fa14bc1d92c503c061d843223e611a92d7c5fbec0f2c915ee7eee73374df6a1161ea00cdcb786155e21fd38220c3772ce670bc68274b851678",
		"1ee4e4e9448fbbab4b5baef280a99b7bf86a1ce05d55bd603c3ba9d7c08fd8de7968b49a78851ffbc6d0a17cb2fa1b57f3babef87720dd9a489b5581f915d2",
		"325cf6a8e2c6183a8b9932198039a7f965ba8587b67925d08d809dbf9a69de1b621f7f134fa2dab82ff5a2615f92cc71419fffaaf86a290d604ab167616461",
		"3e7b0494c8e60a8b72308ae09ed34845b34ea0911e356b77a11872cf7feeff745d98d0624097bc1ad7cd2adf7ffc2c1aa5ba3c6684b964fa555a0715e57db1",
		"3d24cf1f347f1da54c1696442e6afc192cee5e320905e0eab3c9d3fb595ca26c154f39427a0416a9f36337354cf1e6e5aedd73df80c710026d49550ac8ce9f",
		"6869ea28e4cee05dcee8b08acd59775d03daa0dc8b094c85156c212c23c72cb2ab2d2d90d46375aa6d66e58e44f8f219431d3006fded7993f51649c029498",
		"32d03fd1e99ed0cb05c0707af74617cbea5ac6b75905b4b54b1b0c2d73697840155e7b1005efb02b5d02797a8b66a5d258c76a3c9ef745cece11e9a178badf", "0",
		"39014a74763076675d24cf3fa28318dac75bcb04e54addc6494693f72ebb7da7dc6a3bbcd188dad5bece9d6bb4abdd05db38c5fbe52d985dcaf74422c24d53", "0",
		"c1465fd048ffb8bf2158ed57f0cfff0c4d5a4397c7542d722567700fdbb8b2825cab4b725764f5f528294b7f95c17d560e25660ad3d07ab011d95b2cb522",
		"288165466888be1e78db339034e2b8c7bdf0483bfa7ab943dfa05b2d1712317916690f5e713740e7c7d4838296e67357dc34e3460a95c330d5169721981758"})
	S751 = newSField("P751", 372, 239, 32, 32, [12]string{
		"4514f8cc94b140f24874f8b87281fa6004ca5b3637c68ac0c0bdb29838051f385fbbcc300bbb24bfbbf6710d7dc8b29acb81e429bd1bd5629ad0ecad7c90622f6bb801d0337ee6bc78a7f12fdcb09decfae8bfd643c89c3bac1d87f8b6fa",
		"158abf500b5914b3a96ced5fdb37d6dd925f2d6e4f7fea3cc16e1085754077737ea6f8cc74938d971da289dcf2435bcac1897d2627693f9bb167dc01be34ac494c60b8a0f65a28d7a31ea0d54640653a8099ce5a84e4f0168d818af02041",
		"1723d2bfa01a78bf4e39e3a333f8a7e0b415a17f208d3419e7591d59d8abdb7ee6d2b2dfcb21ac29a40f837983c0f057fd041ad93237704f1597d87f074f682961a38b5489d1019924f8a0ef5e4f1b2e64a7ba536e219f5090f76276290e",
		"2569d7eafb6c60b244ef49e05b5e23f73c4f44169a7e02405e90ceb680cb0756054ac0e3dce95e2950334262cc973235c2f87d89500bcd465b078bd0debdf322a2f86aedfdcfee65c09377efba0c5384dd837bedb710209fbc8ddb8c35c7",
		"6066e07f3c0d964e8bc963519fac8397df477aea9a067f3be343bc53c883af29ccf008e5a30719a29357a8c33eb3600cd078af1c40ed5792763a4d213ebde44cc623195c387e0201e7231c529a15af5ab743ee9e7c9c37af3051167525bb",
		"50e30c2c06494249bc4a144eb5f31212bd05a2af0cb3064c322fc3604fc5f5fe3a08fb3a02b05a48557e15c992254ffc8910b72b8e1328b4893cdcfbfc003878881ce390d909e39f83c5006e0ae979587775443483d13c65b107fada5165",
		"605d4697a245c394b98024a5554746dc12ff56d0c6f15d2f48123b6d9c498eee98e8f7cd6e216e2f1ff7ce0c969cca29caa2faa57174ef985ac0a504260018760e9fdf67467e20c13982ff5b49b8beab05f6023af873f827400e453432fe", "0",
		"5bf9544781803cbd7e0ea8b96d934c5cbca970f9cc327a0a7e4dad931ec29baa8a854b8a9fde5409af96c5426fa375d99c68e9ae714172d7f04502d45307fa4839f39a28338bbafd54a461a535408367d5132e6aa0d3da6973360f8cd0f1", "0",
		"55e5124a05d4809585f67fe9ea1f02a06cd411f38588bb631bf789c3f98d1c3325843bb53d9b011d8bd1f682c0e4d8a5e723364364e40dad1b7a476716ac7d1ba705ccdd680bfd4fe4739cc21a9a59ed544b82566bf633e8950186a79fe3",
		"5ac57eafd6cc7569e8b53a148721953262c5b404c143380adcc184b6c21f0cafe095b7e9c79ca88791f9a72f1b2f3121829b2622515b694a16875ed637f421b539e66f2fef1ce8dcefc8aea608055e9c44077266ab64611bf851ba06c821"})
)

func (f *SField) n(v int64) F2 {
	return F2{new(big.Int).Mod(big.NewInt(v), f.P), new(big.Int)}
}
func (f *SField) Add(x, y F2) F2 {
	a := new(big.Int).Add(x.A, y.A)
	b := new(big.Int).Add(x.B, y.B)
	if a.Cmp(f.P) >= 0 {
		a.Sub(a, f.P)
	}
	if b.Cmp(f.P) >= 0 {
		b.Sub(b, f.P)
	}
	return F2{a, b}
}
func (f *SField) Sub(x, y F2) F2 {
	a := new(big.Int).Sub(x.A, y.A)
	b := new(big.Int).Sub(x.B, y.B)
	if a.Sign() < 0 {
		a.Add(a, f.P)
	}
	if b.Sign() < 0 {
		b.Add(b, f.P)
	}
	return F2{a, b}
}
func (f *SField) Neg(x F2) F2 { return f.Sub(F2{new(big.Int), new(big.Int)}, x) }
func (f *SField) Mul(x, y F2) F2 {
	a := new(big.Int).Mul(x.A, y.A)
	t := new(big.Int).Mul(x.B, y.B)
	a.Sub(a, t)
	b := new(big.Int).Mul(x.A, y.B)
	t.Mul(x.B, y.A)
	b.Add(b, t)
	return F2{a.Mod(a, f.P), b.Mod(b, f.P)}
}
func (f *SField) Sqr(x F2) F2            { return f.Mul(x, x) }
func (f *SField) Small(k int64, x F2) F2 { return f.Mul(f.n(k), x) }
func (f *SField) IsZero(x F2) bool       { return x.A.Sign() == 0 && x.B.Sign() == 0 }
func (f *SField) Eq(x, y F2) bool        { return x.A.Cmp(y.A) == 0 && x.B.Cmp(y.B) == 0 }

// Inv returns 1/x (0 for 0).
func (f *SField) Inv(x F2) F2 {
	if f.IsZero(x) {
		return f.n(0)
	}
	n := new(big.Int).Mul(x.A, x.A)
	n.Add(n, new(big.Int).Mul(x.B, x.B))
	n.ModInverse(n.Mod(n, f.P), f.P)
	a := new(big.Int).Mul(x.A, n)
	b := new(big.Int).Neg(x.B)
	b.Mul(b, n)
	return F2{a.Mod(a, f.P), b.Mod(b, f.P)}
}

// Sqrt returns a root of x; ok is false when there is none.
func (f *SField) Sqrt(x F2) (F2, bool) {
	check := func(r F2) (F2, bool) { return r, f.Eq(f.Sqr(r), x) }
	e := new(big.Int).Add(f.P, big.NewInt(1))
	e.Rsh(e, 2)
	root := func(v *big.Int) (*big.Int, bool) {
		r := new(big.Int).Exp(v, e, f.P)
		q := new(big.Int).Mul(r, r)
		return r, q.Mod(q, f.P).Cmp(v) == 0
	}
	if x.B.Sign() == 0 {
		if r, ok := root(x.A); ok {
			return check(F2{r, new(big.Int)})
		}
		m := new(big.Int).Sub(f.P, x.A)
		r, _ := root(m.Mod(m, f.P))
		return check(F2{new(big.Int), r})
	}
	n := new(big.Int).Mul(x.A, x.A)
	n.Add(n, new(big.Int).Mul(x.B, x.B))
	d, ok := root(n.Mod(n, f.P))
	if !ok {
		return x, false
	}
	half := new(big.Int).ModInverse(big.NewInt(2), f.P)
	for i := 0; i < 2; i++ {
		t := new(big.Int).Add(x.A, d)
		t.Mul(t, half).Mod(t, f.P)
		if a, ok := root(t); ok && a.Sign() != 0 {
			b := new(big.Int).Add(a, a)
			b.ModInverse(b, f.P)
			b.Mul(b, x.B)
			return check(F2{a, b.Mod(b, f.P)})
		}
		d.Sub(f.P, d)
	}
	return x, false
}

// curve B y^2 = x^3 + A x^2 + x
type scurve struct {
	f    *SField
	A, B F2
}

type spoint struct {
	x, y F2
	inf  bool
}

func (c *scurve) rhs(x F2) F2 { // x^3+Ax^2+x
	f := c.f
	return f.Mul(x, f.Add(f.Mul(x, f.Add(x, c.A)), f.n(1)))
}

func (c *scurve) add(p, q spoint) spoint {
	f := c.f
	if p.inf {
		return q
	}
	if q.inf {
		return p
	}
	var l F2
	if f.Eq(p.x, q.x) {
		if f.IsZero(f.Add(p.y, q.y)) {
			return spoint{inf: true}
		}
		// (3x^2+2Ax+1)/(2By)
		l = f.Add(f.Add(f.Small(3, f.Sqr(p.x)), f.Small(2, f.Mul(c.A, p.x))), f.n(1))
		l = f.Mul(l, f.Inv(f.Small(2, f.Mul(c.B, p.y))))
	} else {
		l = f.Mul(f.Sub(q.y, p.y), f.Inv(f.Sub(q.x, p.x)))
	}
	x := f.Sub(f.Sub(f.Sub(f.Mul(c.B, f.Sqr(l)), c.A), p.x), q.x)
	y := f.Sub(f.Mul(l, f.Sub(p.x, x)), p.y)
	return spoint{x: x, y: y}
}

func (c *scurve) neg(p spoint) spoint { p.y = c.f.Neg(p.y); return p }

func (c *scurve) mul(k *big.Int, p spoint) spoint {
	r := spoint{inf: true}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.add(r, r)
		if k.Bit(i) == 1 {
			r = c.add(r, p)
		}
	}
	return r
}

// lift of the x-coordinates of P, Q, P-Q to points
type lift struct {
	c    scurve
	p, q spoint
	ok   bool
}

func (f *SField) lift(A, xp, xq, xr F2) *lift {
	l := &lift{c: scurve{f: f, A: A, B: f.n(1)}}
	l.c.B = l.c.rhs(xp) // so that yP = 1
	if f.IsZero(l.c.B) {
		return l
	}
	l.p = spoint{x: xp, y: f.n(1)}
	y, ok := f.Sqrt(f.Mul(l.c.rhs(xq), f.Inv(l.c.B)))
	if !ok {
		return l
	}
	l.q = spoint{x: xq, y: y}
	for i := 0; i < 2; i++ {
		if d := l.c.add(l.p, l.c.neg(l.q)); !d.inf && f.Eq(d.x, xr) {
			l.ok = true
			return l
		}
		l.q = l.c.neg(l.q)
	}
	return l
}

// projective x-coordinate
type xz struct{ X, Z F2 }

func (f *SField) dbl(A F2, p xz) xz {
	x2, z2, m := f.Sqr(p.X), f.Sqr(p.Z), f.Mul(p.X, p.Z)
	n := f.Sqr(f.Sub(x2, z2))
	d := f.Mul(f.Small(4, m), f.Add(f.Add(x2, f.Mul(A, m)), z2))
	return xz{n, d}
}

// differential addition p+q given p-q
func (f *SField) dadd(p, q, d xz) xz {
	u := f.Sub(f.Mul(p.X, q.X), f.Mul(p.Z, q.Z))
	v := f.Sub(f.Mul(p.X, q.Z), f.Mul(p.Z, q.X))
	return xz{f.Mul(d.Z, f.Sqr(u)), f.Mul(d.X, f.Sqr(v))}
}

func (f *SField) tpl(A F2, p xz) xz { return f.dadd(f.dbl(A, p), p, p) }

// Triple is x([3]P), Double x([2]P) for affine x given as X/Z.
func (f *SField) Double(A, X, Z F2) (F2, F2) { r := f.dbl(A, xz{X, Z}); return r.X, r.Z }
func (f *SField) Triple(A, X, Z F2) (F2, F2) { r := f.tpl(A, xz{X, Z}); return r.X, r.Z }

// DAdd is x(P+Q) from x(P), x(Q), x(P-Q).
func (f *SField) DAdd(xp, zp, xq, zq, xd, zd F2) (F2, F2) {
	r := f.dadd(xz{xp, zp}, xz{xq, zq}, xz{xd, zd})
	return r.X, r.Z
}

// Map3 and Map4 are the images of affine x under Iso3 and Iso4.
func (f *SField) Map3(A, x3, x F2) (F2, F2, F2) {
	c, ev := f.Iso3(A, x3)
	r := ev(xz{x, f.n(1)})
	return c, r.X, r.Z
}
func (f *SField) Map4(A, x4, x F2) (F2, F2, F2) {
	c, ev := f.Iso4(A, xz{x4, f.n(1)})
	r := ev(xz{x, f.n(1)})
	return c, r.X, r.Z
}

// N is a small integer of the field.
func (f *SField) N(v int64) F2 { return f.n(v) }

// Affine is X/Z.
func (f *SField) Affine(X, Z F2) F2 { return f.affine(xz{X, Z}) }

// Ladder3 is x(P+[k]Q) on the curve with coefficient A; ok false when the triple is inconsistent.
func (f *SField) Ladder3(A, xp, xq, xr F2, k *big.Int) (x F2, inf, ok bool) {
	l := f.lift(A, xp, xq, xr)
	if !l.ok {
		return
	}
	r := l.c.add(l.p, l.c.mul(k, l.q))
	return r.x, r.inf, true
}

func (f *SField) affine(p xz) F2 { return f.Mul(p.X, f.Inv(p.Z)) }

// Iso2 is the 2-isogeny with kernel (x2,0), x2 != 0: its curve coefficient and map.
func (f *SField) Iso2(x2 F2) (A F2, ev func(xz) xz) {
	A = f.Small(2, f.Sub(f.n(1), f.Small(2, f.Sqr(x2))))
	return A, func(p xz) xz { // x (x x2 - 1)/(x - x2)
		return xz{f.Mul(p.X, f.Sub(f.Mul(p.X, x2), p.Z)), f.Mul(p.Z, f.Sub(p.X, f.Mul(p.Z, x2)))}
	}
}

// Iso3 is the 3-isogeny with kernel generated by the point of order 3 at x3.
func (f *SField) Iso3(A, x3 F2) (F2, func(xz) xz) {
	t := f.Add(f.Sub(f.Mul(A, x3), f.Small(6, f.Sqr(x3))), f.n(6))
	return f.Mul(t, x3), func(p xz) xz { // x ((x x3 - 1)/(x - x3))^2
		return xz{f.Mul(p.X, f.Sqr(f.Sub(f.Mul(p.X, x3), p.Z))), f.Mul(p.Z, f.Sqr(f.Sub(p.X, f.Mul(p.Z, x3))))}
	}
}

// Iso4 is the 4-isogeny of SIKE: two 2-isogenies followed by x -> -x.
func (f *SField) Iso4(A F2, p4 xz) (F2, func(xz) xz) {
	_, e1 := f.Iso2(f.affine(f.dbl(A, p4)))
	A2, e2 := f.Iso2(f.affine(e1(p4)))
	return f.Neg(A2), func(p xz) xz {
		q := e2(e1(p))
		q.X = f.Neg(q.X)
		return q
	}
}

// chain walks the isogeny of degree 4^n (two) or 3^n with kernel generated by k, carrying pts along.
func (f *SField) chain(two bool, A F2, k xz, n int, pts []xz) F2 {
	if n == 1 {
		var ev func(xz) xz
		if two {
			A, ev = f.Iso4(A, k)
		} else {
			A, ev = f.Iso3(A, f.affine(k))
		}
		for i := range pts {
			pts[i] = ev(pts[i])
		}
		return A
	}
	m := n / 2 // first 4^(n-m), then 4^m
	q := k
	for i := 0; i < m; i++ {
		if two {
			q = f.dbl(A, f.dbl(A, q))
		} else {
			q = f.tpl(A, q)
		}
	}
	all := append([]xz{k}, pts...)
	A = f.chain(two, A, q, n-m, all)
	copy(pts, all[1:])
	return f.chain(two, A, all[0], m, pts)
}

// Scalar reads the little-endian key bytes, of which the low bits are used.
func (f *SField) Scalar(isA bool, b []byte) *big.Int {
	k := LE(b)
	bits := f.BBits
	if isA {
		bits = f.ABits
	}
	return k.And(k, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1)))
}

func (f *SField) prep() {
	f.once.Do(func() {
		six := f.n(6)
		f.liftA = f.lift(six, f.PA, f.QA, f.RA)
		f.liftB = f.lift(six, f.PB, f.QB, f.RB)
	})
}

// Enc is the encoding of a field element.
func (f *SField) Enc(x F2) []byte {
	return append(PutLE(x.A, f.Bytes), PutLE(x.B, f.Bytes)...)
}

// Dec reads a field element; values are reduced.
func (f *SField) Dec(b []byte) F2 {
	x := F2{LE(b[:f.Bytes]), LE(b[f.Bytes : 2*f.Bytes])}
	x.A.Mod(x.A, f.P)
	x.B.Mod(x.B, f.P)
	return x
}

// Public is the public key for the scalar.
func (f *SField) Public(isA bool, scalar []byte) []byte {
	f.prep()
	l, o := f.liftB, []F2{f.PA, f.QA, f.RA}
	n := int(f.E3)
	if isA {
		l, o, n = f.liftA, []F2{f.PB, f.QB, f.RB}, int(f.E2)/2
	}
	r := l.c.add(l.p, l.c.mul(f.Scalar(isA, scalar), l.q))
	one := f.n(1)
	pts := []xz{{o[0], one}, {o[1], one}, {o[2], one}}
	f.chain(isA, f.n(6), xz{r.x, one}, n, pts)
	var out []byte
	for _, p := range pts {
		out = append(out, f.Enc(f.affine(p))...)
	}
	return out
}

// ACoef recovers the curve coefficient from the three coordinates.
func (f *SField) ACoef(xp, xq, xr F2) F2 {
	one := f.n(1)
	n := f.Sub(f.Sub(f.Sub(one, f.Mul(xp, xq)), f.Mul(xp, xr)), f.Mul(xq, xr))
	d := f.Small(4, f.Mul(f.Mul(xp, xq), xr))
	a := f.Mul(f.Sqr(n), f.Inv(d))
	return f.Sub(f.Sub(f.Sub(a, xp), xq), xr)
}

// JInv is the j-invariant of the curve with coefficient A.
func (f *SField) JInv(A F2) F2 {
	a2 := f.Sqr(A)
	t := f.Sub(a2, f.n(3))
	n := f.Small(256, f.Mul(f.Sqr(t), t))
	return f.Mul(n, f.Inv(f.Sub(a2, f.n(4))))
}

// Secret is the shared secret of the scalar and the other side's public key; ok is false for
// public keys which are not three consistent coordinates.
func (f *SField) Secret(isA bool, scalar, pub []byte) (out []byte, ok bool) {
	s := f.SecretSize
	xp, xq, xr := f.Dec(pub), f.Dec(pub[s:]), f.Dec(pub[2*s:])
	A := f.ACoef(xp, xq, xr)
	l := f.lift(A, xp, xq, xr)
	if !l.ok {
		return nil, false
	}
	r := l.c.add(l.p, l.c.mul(f.Scalar(isA, scalar), l.q))
	if r.inf {
		return nil, false
	}
	n := int(f.E3)
	if isA {
		n = int(f.E2) / 2
	}
	return f.Enc(f.JInv(f.chain(isA, A, xz{r.x, f.n(1)}, n, nil))), true
}

func xorb(a, b []byte) []byte {
	o := make([]byte, len(a))
	for i := range a {
		o[i] = a[i] ^ b[i]
	}
	return o
}

func cat(bs ...[]byte) (o []byte) {
	for _, b := range bs {
		o = append(o, b...)
	}
	return
}

// Eph is the SIKE ephemeral key of message m for public key pk.
func (f *SField) Eph(m, pk []byte) []byte {
	return f.mask(SHAKE(256, cat(m, pk), int(f.ABytes)+f.pad()))
}

// pad: P434 scalars of side A are kept in 28 bytes (the last one is always 0).
func (f *SField) pad() int { return 0 }

func (f *SField) mask(b []byte) []byte { return PutLE(f.Scalar(true, b), len(b)) }

// Encap is SIKE encapsulation of message m.
func (f *SField) Encap(m, pk []byte) (ct, secret []byte) {
	r := f.Eph(m, pk)
	c0 := f.Public(true, r)
	j, ok := f.Secret(true, r, pk)
	if !ok {
		return nil, nil
	}
	ct = append(c0, xorb(m, SHAKE(256, j, f.MsgLen))...)
	return ct, SHAKE(256, cat(m, ct), f.KemSize)
}

// Reject is the implicit rejection value of ciphertext ct for the stored random value s.
func (f *SField) Reject(s, ct []byte) []byte { return SHAKE(256, cat(s, ct), f.KemSize) }

// Decap is SIKE decapsulation; ok is false when the model does not define the shared curve.
func (f *SField) Decap(s, scalar, pk, ct []byte) (secret []byte, ok bool) {
	n := f.PublicKeySize
	j, ok := f.Secret(false, scalar, ct[:n])
	if !ok {
		return nil, false
	}
	m := xorb(ct[n:], SHAKE(256, j, f.MsgLen))
	if string(f.Public(true, f.Eph(m, pk))) != string(ct[:n]) {
		return f.Reject(s, ct), true
	}
	return SHAKE(256, cat(m, ct), f.KemSize), true
}

// MultiEph is the ephemeral key of the multi-recipient KEM.
func (f *SField) MultiEph(m []byte) []byte {
	return f.mask(SHAKE(256, cat([]byte{1}, m), int(f.ABytes)))
}

// MultiEncap is mKEM encapsulation.
func (f *SField) MultiEncap(m []byte, pks [][]byte) (ct0 []byte, cts [][]byte, secret []byte) {
	r := f.MultiEph(m)
	ct0 = f.Public(true, r)
	for _, pk := range pks {
		j, ok := f.Secret(true, r, pk)
		if !ok {
			return nil, nil, nil
		}
		cts = append(cts, xorb(m, SHAKE(256, cat([]byte{2}, j), f.MsgLen)))
	}
	return ct0, cts, SHAKE(256, cat([]byte{3}, m), f.KemSize)
}

// MultiReject is the rejection value of the multi-recipient KEM.
func (f *SField) MultiReject(s []byte) []byte { return SHAKE(256, cat([]byte{3}, s), f.KemSize) }

// AMask returns bytes b with the bits above the A key space cleared.
func (f *SField) AMask(b []byte) []byte { return f.mask(b) }

// CheckParams verifies orders, independence and differences of the base points.
func (f *SField) CheckParams() string {
	f.prep()
	if !f.liftA.ok || !f.liftB.ok {
		return "the third coordinate is not the difference of the first two"
	}
	for i, l := range []*lift{f.liftA, f.liftB} {
		ord, last := new(big.Int).Lsh(big.NewInt(1), f.E2-1), big.NewInt(2)
		if i == 1 {
			ord, last = new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(f.E3-1)), nil), big.NewInt(3)
		}
		p, q := l.c.mul(ord, l.p), l.c.mul(ord, l.q)
		if p.inf || q.inf {
			return "order too small"
		}
		if !l.c.mul(last, p).inf || !l.c.mul(last, q).inf {
			return "order too large"
		}
		if f.Eq(p.x, q.x) {
			return "P and Q are dependent"
		}
		if i == 0 && (f.IsZero(p.x) || !f.IsZero(q.x)) {
			return "2-torsion over (0,0) misplaced"
		}
	}
	return ""
}

//go:embed kat/*.txt
var katFS embed.FS

// CKATs returns (private key, public key, peer's public key, secret) of published CSIDH vectors.
func CKATs() (out [][4][]byte) { return (&SField{Name: "CSIDH"}).KATs() }

// KATs returns (pk, sk, ct, ss) of the SIKE submission's known answers; sk is S, scalar, pk.
func (f *SField) KATs() (out [][4][]byte) {
	data, err := katFS.ReadFile("kat/" + f.Name + ".txt")
	if err != nil {
		panic(err)
	}
	w := strings.Fields(string(data))
	for i := 0; i+4 <= len(w); i += 4 {
		var e [4][]byte
		for j := range e {
			e[j], _ = hex.DecodeString(w[i+j])
		}
		out = append(out, e)
	}
	return
}
