package ref

import "math/big"

// CSIDH-512 over math/big with textbook formulas: Montgomery curves in affine
// x-coordinates, one prime-degree isogeny at a time (Costello-Hisil/Renes).

var (
	CPrimes []int64
	CP      *big.Int // field prime
	cR      *big.Int // 2^512 mod p
	cRInv   *big.Int
	cP1     *big.Int // p+1
	one     = big.NewInt(1)
)

func init() {
	for n := int64(3); len(CPrimes) < 73; n += 2 {
		prime := true
		for _, d := range CPrimes {
			prime = prime && n%d != 0
		}
		if prime {
			CPrimes = append(CPrimes, n)
		}
	}
	CPrimes = append(CPrimes, 587)
	CP = big.NewInt(4)
	for _, l := range CPrimes {
		CP.Mul(CP, big.NewInt(l))
	}
	cP1 = new(big.Int).Set(CP)
	CP = new(big.Int).Sub(CP, one)
	cR = new(big.Int).Lsh(one, 512)
	cR.Mod(cR, CP)
	cRInv = new(big.Int).ModInverse(cR, CP)
}

// LE reads a little-endian integer.
func LE(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

// PutLE writes v as n little-endian bytes (v < 2^(8n)).
func PutLE(v *big.Int, n int) []byte {
	b := v.FillBytes(make([]byte, n))
	for i := 0; i < n/2; i++ {
		b[i], b[n-1-i] = b[n-1-i], b[i]
	}
	return b
}

// CEnc is the exported form of a curve coefficient or the sampled form of an x.
func CEnc(a *big.Int) []byte {
	t := new(big.Int).Mul(a, cR)
	return PutLE(t.Mod(t, CP), 64)
}

// CDec inverts CEnc (no range check).
func CDec(b []byte) *big.Int {
	t := LE(b)
	t.Mul(t, cRInv)
	return t.Mod(t, CP)
}

func cmul(a, b *big.Int) *big.Int { t := new(big.Int).Mul(a, b); return t.Mod(t, CP) }
func cadd(a, b *big.Int) *big.Int {
	t := new(big.Int).Add(a, b)
	if t.Cmp(CP) >= 0 {
		t.Sub(t, CP)
	}
	return t
}
func csub(a, b *big.Int) *big.Int {
	t := new(big.Int).Sub(a, b)
	if t.Sign() < 0 {
		t.Add(t, CP)
	}
	return t
}

// XZ is a projective x-coordinate; Z=0 is the point at infinity.
type XZ struct{ X, Z *big.Int }

// CDbl doubles on y^2=x^3+Ax^2+x: X'=(X^2-Z^2)^2, Z'=4XZ(X^2+AXZ+Z^2).
func CDbl(p XZ, a *big.Int) XZ {
	xx, zz, xz := cmul(p.X, p.X), cmul(p.Z, p.Z), cmul(p.X, p.Z)
	d := csub(xx, zz)
	t := cadd(cadd(xx, zz), cmul(a, xz))
	t = cmul(t, xz)
	t.Lsh(t, 2)
	return XZ{cmul(d, d), t.Mod(t, CP)}
}

// CAdd adds with known difference d: X'=Zd(XpXq-ZpZq)^2, Z'=Xd(XpZq-XqZp)^2.
func CAdd(p, q, d XZ) XZ {
	u := csub(cmul(p.X, q.X), cmul(p.Z, q.Z))
	v := csub(cmul(p.X, q.Z), cmul(q.X, p.Z))
	return XZ{cmul(d.Z, cmul(u, u)), cmul(d.X, cmul(v, v))}
}

// CMul is the Montgomery ladder [k]P for k >= 1; P not of x-coordinate 0 or infinity.
func CMul(p XZ, a, k *big.Int) XZ {
	inf := XZ{big.NewInt(1), new(big.Int)}
	if p.Z.Sign() == 0 {
		return inf
	}
	if p.X.Sign() == 0 { // the point of order two
		if k.Bit(0) == 0 {
			return inf
		}
		return p
	}
	r0, r1 := p, CDbl(p, a)
	for i := k.BitLen() - 2; i >= 0; i-- {
		s := CAdd(r0, r1, p)
		if k.Bit(i) == 0 {
			r0, r1 = CDbl(r0, a), s
		} else {
			r0, r1 = s, CDbl(r1, a)
		}
	}
	return r0
}

// CRHS is x^3+Ax^2+x.
func CRHS(a, x *big.Int) *big.Int {
	t := cadd(cmul(x, x), cmul(a, x))
	return cmul(cadd(t, one), x)
}

func cinv(a *big.Int) *big.Int { return new(big.Int).ModInverse(a, CP) }

// CTorsion returns an affine x of a point of exact order n (n | p+1) on the
// curve (sign>0) or on its twist (sign<0); the curve must be supersingular.
func CTorsion(a *big.Int, n *big.Int, factors []int64, sign int, skip int) *big.Int {
	cof := new(big.Int).Div(cP1, n)
	for x := int64(2 + skip*50); ; x++ {
		bx := big.NewInt(x)
		if big.Jacobi(CRHS(a, bx), CP) != sign {
			continue
		}
		k := CMul(XZ{bx, one}, a, cof)
		if k.Z.Sign() == 0 {
			continue
		}
		ok := true
		for _, f := range factors {
			if CMul(k, a, new(big.Int).Div(n, big.NewInt(f))).Z.Sign() == 0 {
				ok = false
			}
		}
		if !ok {
			continue
		}
		return cmul(k.X, cinv(k.Z))
	}
}

// CStep applies the prime ideal of CPrimes[i] once in direction sign.
func CStep(a *big.Int, i, sign int) *big.Int {
	l := CPrimes[i]
	x := CTorsion(a, big.NewInt(l), nil, sign, 0)
	return CCodomain(a, x, l)
}

// CKernel lists the affine x of K, 2K, .. ((l-1)/2)K.
func CKernel(a, x *big.Int, l int64) []*big.Int {
	d := int(l-1) / 2
	pts := make([]XZ, d+1)
	pts[1] = XZ{x, one}
	if d >= 2 {
		pts[2] = CDbl(pts[1], a)
	}
	for j := 3; j <= d; j++ {
		pts[j] = CAdd(pts[j-1], pts[1], pts[j-2])
	}
	// batch inversion of all Z
	pre := make([]*big.Int, d+1)
	pre[0] = one
	for j := 1; j <= d; j++ {
		pre[j] = cmul(pre[j-1], pts[j].Z)
	}
	inv := cinv(pre[d])
	out := make([]*big.Int, d)
	for j := d; j >= 1; j-- {
		out[j-1] = cmul(pts[j].X, cmul(inv, pre[j-1]))
		inv = cmul(inv, pts[j].Z)
	}
	return out
}

// CCodomain is the coefficient of the curve with the subgroup of order l generated by x removed:
// A' = (6*sum(1/xi - xi) + A) * (prod xi)^2.
func CCodomain(a, x *big.Int, l int64) *big.Int {
	ker := CKernel(a, x, l)
	pi := big.NewInt(1)
	for _, k := range ker {
		pi = cmul(pi, k)
	}
	// sum of inverses through one inversion
	s, prod := new(big.Int), big.NewInt(1)
	for _, k := range ker { // sum 1/k = (s*k + prod)/(prod*k)
		s = cadd(cmul(s, k), prod)
		prod = cmul(prod, k)
	}
	s = cmul(s, cinv(prod))
	for _, k := range ker {
		s = csub(s, k)
	}
	s = cmul(s, big.NewInt(6))
	return cmul(cadd(s, a), cmul(pi, pi))
}

// CImage maps the x-coordinate u through the isogeny with kernel <x>:
// u -> u * prod((u*xi - 1)/(u - xi))^2; ok=false when u is in the kernel.
func CImage(a, x, u *big.Int, l int64) (*big.Int, bool) {
	n, d := big.NewInt(1), big.NewInt(1)
	for _, k := range CKernel(a, x, l) {
		n = cmul(n, csub(cmul(u, k), one))
		d = cmul(d, csub(u, k))
	}
	if d.Sign() == 0 {
		return nil, false
	}
	q := cmul(n, cinv(d))
	return cmul(u, cmul(q, q)), true
}

// CAction applies the exponent vector e to the curve a.
func CAction(a *big.Int, e []int) *big.Int {
	a = new(big.Int).Set(a)
	// Steps commute; grouping by prime keeps this the textbook product of ideals.
	for i := len(CPrimes) - 1; i >= 0; i-- {
		n, s := e[i], 1
		if n < 0 {
			n, s = -n, -1
		}
		for ; n > 0; n-- {
			a = CStep(a, i, s)
		}
	}
	return a
}

// CSupersingular decides whether y^2=x^3+Ax^2+x is a supersingular smooth
// curve: p+1 annihilates points of the curve and of its twist (an ordinary
// curve passes eight points with probability below 2^-1000).
func CSupersingular(a *big.Int) bool {
	two := big.NewInt(2)
	if a.Cmp(two) == 0 || a.Cmp(csub(new(big.Int), two)) == 0 {
		return false
	}
	for x := int64(2); x < 10; x++ {
		if CMul(XZ{big.NewInt(x), one}, a, cP1).Z.Sign() != 0 {
			return false
		}
	}
	return true
}

// CKey packs exponents as a private key: the exponent of an even index is the high nibble.
func CKey(e []int) []byte {
	out := make([]byte, 37)
	for i, v := range e {
		out[i>>1] |= byte(v&15) << uint(4-4*(i&1))
	}
	return out
}

// CUnkey unpacks a private key.
func CUnkey(b []byte) []int {
	e := make([]int, 74)
	for i := range e {
		v := int(b[i>>1]>>uint(4-4*(i&1))) & 15
		if v > 7 {
			v -= 16
		}
		e[i] = v
	}
	return e
}

// CInRange reports whether every exponent lies in [-5,5].
func CInRange(e []int) bool {
	for _, v := range e {
		if v < -5 || v > 5 {
			return false
		}
	}
	return true
}
