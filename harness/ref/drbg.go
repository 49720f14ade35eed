package ref

import (
	"crypto/aes"
	"math/big"
)

// DRBG is CTR_DRBG with AES-256 and no derivation function (SP 800-90A, 10.2.1).
type DRBG struct {
	Key [32]byte
	V   [16]byte
	// Counters lists every counter value enciphered so far in the current call.
	Counters [][16]byte
}

func pad48(b []byte) []byte {
	out := make([]byte, 48)
	copy(out, b)
	return out
}

func (d *DRBG) next() []byte {
	v := new(big.Int).SetBytes(d.V[:])
	v.Add(v, big.NewInt(1))
	v.Mod(v, new(big.Int).Lsh(big.NewInt(1), 128))
	v.FillBytes(d.V[:])
	blk, err := aes.NewCipher(d.Key[:])
	if err != nil {
		panic(err)
	}
	out := make([]byte, 16)
	blk.Encrypt(out, d.V[:])
	d.Counters = append(d.Counters, d.V)
	return out
}

func (d *DRBG) update(data []byte) {
	var t []byte
	for len(t) < 48 {
		t = append(t, d.next()...)
	}
	for i := range t {
		t[i] ^= data[i]
	}
	copy(d.Key[:], t[:32])
	copy(d.V[:], t[32:])
}

func xor48(a, b []byte) []byte {
	x, y := pad48(a), pad48(b)
	for i := range x {
		x[i] ^= y[i]
	}
	return x
}

// Init instantiates.
func (d *DRBG) Init(entropy, pers []byte) {
	d.Key = [32]byte{}
	d.V = [16]byte{}
	d.update(xor48(entropy, pers))
}

// Reseed reseeds with entropy and additional input.
func (d *DRBG) Reseed(entropy, ad []byte) { d.update(xor48(entropy, ad)) }

// Read generates n bytes.
func (d *DRBG) Read(n int, ad []byte) []byte {
	d.Counters = nil
	data := make([]byte, 48)
	if len(ad) > 0 {
		data = pad48(ad)
		d.update(data)
	}
	d.Counters = nil
	var out []byte
	for len(out) < n {
		out = append(out, d.next()...)
	}
	out = out[:n:n]
	d.update(data)
	return out
}

// ForceSeed returns the 48 byte seed which leaves a just zeroed DRBG with the given key and V.
func ForceSeed(key [32]byte, v [16]byte) []byte {
	var d DRBG
	d.update(make([]byte, 48))
	out := append(append([]byte{}, key[:]...), v[:]...)
	for i := 0; i < 32; i++ {
		out[i] ^= d.Key[i]
	}
	for i := 0; i < 16; i++ {
		out[32+i] ^= d.V[i]
	}
	return out
}
