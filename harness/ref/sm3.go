package ref

import "math/bits"

// SM3State is the SM3 hash (GB/T 32905-2016), block by block.
type SM3State struct {
	v   [8]uint32
	buf []byte
	n   uint64
}

// NewSM3 returns a fresh state.
func NewSM3() *SM3State {
	return &SM3State{v: [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}}
}

// Write absorbs message bytes.
func (s *SM3State) Write(m []byte) {
	s.n += uint64(len(m))
	b := append(append([]byte(nil), s.buf...), m...)
	for len(b) >= 64 {
		s.block(b[:64])
		b = b[64:]
	}
	s.buf = b
}

// Copy returns an independent copy.
func (s *SM3State) Copy() *SM3State {
	c := *s
	c.buf = append([]byte(nil), s.buf...)
	return &c
}

// Len is the number of bytes written.
func (s *SM3State) Len() uint64 { return s.n }

func (s *SM3State) block(b []byte) {
	p0 := func(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 9) ^ bits.RotateLeft32(x, 17) }
	p1 := func(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23) }
	var w [68]uint32
	for i := 0; i < 16; i++ {
		w[i] = uint32(b[4*i])<<24 | uint32(b[4*i+1])<<16 | uint32(b[4*i+2])<<8 | uint32(b[4*i+3])
	}
	for j := 16; j < 68; j++ {
		w[j] = p1(w[j-16]^w[j-9]^bits.RotateLeft32(w[j-3], 15)) ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
	}
	a := s.v
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := bits.RotateLeft32(bits.RotateLeft32(a[0], 12)+a[4]+bits.RotateLeft32(t, j%32), 7)
		ss2 := ss1 ^ bits.RotateLeft32(a[0], 12)
		var ff, gg uint32
		if j < 16 {
			ff, gg = a[0]^a[1]^a[2], a[4]^a[5]^a[6]
		} else {
			ff, gg = a[0]&a[1]|a[0]&a[2]|a[1]&a[2], a[4]&a[5]|^a[4]&a[6]
		}
		tt1 := ff + a[3] + ss2 + (w[j] ^ w[j+4])
		tt2 := gg + a[7] + ss1 + w[j]
		a[3], a[2], a[1], a[0] = a[2], bits.RotateLeft32(a[1], 9), a[0], tt1
		a[7], a[6], a[5], a[4] = a[6], bits.RotateLeft32(a[5], 19), a[4], p0(tt2)
	}
	for i := range s.v {
		s.v[i] ^= a[i]
	}
}

// Sum returns the digest without changing the state.
func (s *SM3State) Sum() []byte {
	c := s.Copy()
	n := c.n * 8
	pad := []byte{0x80}
	for (len(c.buf)+len(pad))%64 != 56 {
		pad = append(pad, 0)
	}
	for i := 7; i >= 0; i-- {
		pad = append(pad, byte(n>>(8*uint(i))))
	}
	c.Write(pad)
	var out []byte
	for _, x := range c.v {
		out = append(out, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return out
}

// SM3 returns the digest of m.
func SM3(m []byte) []byte {
	s := NewSM3()
	s.Write(m)
	return s.Sum()
}
