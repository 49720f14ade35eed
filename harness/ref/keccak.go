// Package ref holds the reference models: slow, plain restatements of the
// standards, sharing no code with the repository.
package ref

import "math/bits"

// round constants from the LFSR of FIPS 202, section 3.2.5
var keccakRC [24]uint64

// rotation offsets from FIPS 202, section 3.2.2
var keccakRot [5][5]int

func init() {
	lfsr := uint(1) // rc of FIPS 202, algorithm 5: its low bit is the output of the step
	for ir := 0; ir < 24; ir++ {
		for j := 0; j <= 6; j++ {
			keccakRC[ir] |= uint64(lfsr&1) << (1<<uint(j) - 1)
			if lfsr <<= 1; lfsr&0x100 != 0 {
				lfsr ^= 0x171
			}
		}
	}
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		keccakRot[x][y] = ((t + 1) * (t + 2) / 2) % 64
		x, y = y, (2*x+3*y)%5
	}
}

// KeccakF is Keccak-f[1600] on lanes a[x+5y].
func KeccakF(a *[25]uint64) {
	for r := 0; r < 24; r++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				c[x] ^= a[x+5*y]
			}
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
		}
		var b [25]uint64
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y+5*((2*x+3*y)%5)] = bits.RotateLeft64(a[x+5*y]^d[x], keccakRot[x][y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x+5*y] = b[x+5*y] ^ (^b[(x+1)%5+5*y] & b[(x+2)%5+5*y])
			}
		}
		a[0] ^= keccakRC[r]
	}
}

// Sponge is the Keccak sponge, one byte at a time.
type Sponge struct {
	a         [25]uint64
	rate      int
	sfx       byte
	pos       int
	Squeezing bool
}

// NewSponge makes a sponge with the given rate and domain suffix (including the first padding bit).
func NewSponge(rate int, sfx byte) *Sponge { return &Sponge{rate: rate, sfx: sfx} }

// Copy returns an independent copy.
func (s *Sponge) Copy() *Sponge { c := *s; return &c }

func (s *Sponge) xor(i int, b byte) { s.a[i/8] ^= uint64(b) << (8 * uint(i%8)) }

// Absorb adds message bytes.
func (s *Sponge) Absorb(m []byte) {
	if s.Squeezing {
		panic("ref: absorb after squeeze")
	}
	for _, b := range m {
		s.xor(s.pos, b)
		s.pos++
		if s.pos == s.rate {
			KeccakF(&s.a)
			s.pos = 0
		}
	}
}

// Squeeze returns the next n output bytes.
func (s *Sponge) Squeeze(n int) []byte {
	if !s.Squeezing {
		s.xor(s.pos, s.sfx)
		s.xor(s.rate-1, 0x80)
		KeccakF(&s.a)
		s.pos = 0
		s.Squeezing = true
	}
	out := make([]byte, n)
	for i := range out {
		if s.pos == s.rate {
			KeccakF(&s.a)
			s.pos = 0
		}
		out[i] = byte(s.a[s.pos/8] >> (8 * uint(s.pos%8)))
		s.pos++
	}
	return out
}

// SHA3 returns the FIPS 202 digest of the given size in bits.
func SHA3(bitsz int, m []byte) []byte {
	s := NewSponge(200-bitsz/4, 6)
	s.Absorb(m)
	return s.Squeeze(bitsz / 8)
}

// SHAKE returns n bytes of SHAKE128 or SHAKE256.
func SHAKE(strength int, m []byte, n int) []byte {
	s := NewSponge(200-strength/4, 0x1f)
	s.Absorb(m)
	return s.Squeeze(n)
}

func leftEncode(v uint64) []byte {
	n := 1
	for n < 8 && v>>(8*uint(n)) != 0 {
		n++
	}
	out := []byte{byte(n)}
	for i := n - 1; i >= 0; i-- {
		out = append(out, byte(v>>(8*uint(i))))
	}
	return out
}

// CShakePrefix is bytepad(encode_string(N) || encode_string(S), rate) of SP 800-185.
func CShakePrefix(rate int, n, s []byte) []byte {
	out := leftEncode(uint64(rate))
	out = append(out, leftEncode(uint64(len(n))*8)...)
	out = append(out, n...)
	out = append(out, leftEncode(uint64(len(s))*8)...)
	out = append(out, s...)
	for len(out)%rate != 0 {
		out = append(out, 0)
	}
	return out
}

// NewCShake returns the sponge of cSHAKE with N and S absorbed.
func NewCShake(strength int, n, s []byte) *Sponge {
	rate := 200 - strength/4
	if len(n) == 0 && len(s) == 0 {
		return NewSponge(rate, 0x1f)
	}
	sp := NewSponge(rate, 0x04)
	sp.Absorb(CShakePrefix(rate, n, s))
	return sp
}
