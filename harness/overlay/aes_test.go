//go:build go1.22

package aes

import (
	"bytes"
	"crypto/aes"
	"fmt"
	"runtime"
	"testing"

	"github.com/henrydcase/nobs/utils"

	"vh/mc"
)

type vhCipher struct {
	name  string
	fresh func() IAES
}

func vhCiphers(r *mc.Run) []vhCipher {
	c := []vhCipher{{"portable", func() IAES { return &AES{} }}}
	if utils.X86.HasAES || runtime.GOARCH == "arm64" {
		c = append(c, vhCipher{"aesni", func() IAES { return &AESAsm{} }})
	} else {
		r.Note("no AES instructions on this CPU: only the portable cipher ran")
	}
	return c
}

func TestVerifHarness(t *testing.T) { mc.MainEnv(map[string]func(*mc.Run){"A01": vhA01}) }

// vhBoth checks encryption and decryption of blk under key on c, which must have that key set.
func vhBoth(t *mc.T, c IAES, key, blk []byte) {
	o, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	for dir := 0; dir < 2; dir++ {
		want := make([]byte, 16)
		f := c.Encrypt
		if dir == 0 {
			o.Encrypt(want, blk)
		} else {
			o.Decrypt(want, blk)
			f = c.Decrypt
		}
		got := t.Space("destination", 16, func(dst []byte) {
			t.Lend("source", blk, func(src []byte) { f(dst, src) })
		})
		t.Step(1)
		if !bytes.Equal(got, want) {
			t.Fail("direction %d key %x block %x: got %x want %x", dir, key, blk, got, want)
		}
		t.Observe(want)
	}
}

func vhSet(t *mc.T, c IAES, key []byte) {
	t.Lend("key", key, func(k []byte) {
		if err := c.SetKey(k); err != nil {
			t.Fail("SetKey(%d bytes): %v", len(key), err)
		}
	})
	t.Step(1)
}

func vhA01(r *mc.Run) {
	base := mc.Pattern(30, 64)
	sizes := []int{16, 24, 32}
	cs := vhCiphers(r)
	r.Group("block-bytes", "every value of every byte of the block, for 4 base keys per key size", func(emit mc.Emit) {
		for _, c := range cs {
			for _, n := range sizes {
				for kb := 0; kb < 4; kb++ {
					for pos := 0; pos < 16; pos++ {
						c, n, kb, pos := c, n, kb, pos
						emit(fmt.Sprintf("%s key=%d base=%d pos=%d", c.name, n, kb, pos), func(t *mc.T) {
							key := [][]byte{base[:n], make([]byte, n), bytes.Repeat([]byte{0xff}, n), base[17 : 17+n]}[kb]
							x := c.fresh()
							vhSet(t, x, key)
							for v := 0; v < 256; v++ {
								blk := append([]byte(nil), base[40:56]...)
								blk[pos] = byte(v)
								vhBoth(t, x, key, blk)
								blk = make([]byte, 16)
								blk[pos] = byte(v)
								vhBoth(t, x, key, blk)
							}
						})
					}
				}
			}
		}
	})
	if r.Long() {
		uses := r.Pick(1<<16+300, 1<<22)
		r.Group("endurance", fmt.Sprintf("one object encrypting its own output and re-keyed %d times", uses), func(emit mc.Emit) {
			for _, c := range cs {
				for _, n := range sizes {
					c, n := c, n
					emit(fmt.Sprintf("%s key=%d", c.name, n), func(t *mc.T) {
						x := c.fresh()
						key := append([]byte{}, base[:n]...)
						for rekey := 0; rekey < 2; rekey++ {
							blk, want := make([]byte, 16), make([]byte, 16)
							vhSet(t, x, key)
							std, _ := aes.NewCipher(key)
							for i := 0; i < uses; i++ {
								if rekey == 1 {
									key[i%n] += byte(i + 1)
									if err := x.SetKey(key); err != nil {
										t.Fail("%v", err)
									}
									std, _ = aes.NewCipher(key)
								}
								x.Encrypt(blk, blk)
								std.Encrypt(want, want)
								if i%5 == 0 {
									x.Decrypt(blk, blk)
									std.Decrypt(want, want)
								}
								if i%64 == 0 && !bytes.Equal(blk, want) {
									t.Fail("use %d: got %x want %x", i, blk, want)
								}
							}
							t.Eq("block", blk, want)
						}
					})
				}
			}
		})
	}
	r.Group("key-bytes", "every value of every byte of the key, over a dense and an all-zero base key", func(emit mc.Emit) {
		for _, c := range cs {
			for _, n := range sizes {
				for pos := 0; pos < n; pos++ {
					c, n, pos := c, n, pos
					emit(fmt.Sprintf("%s key=%d pos=%d", c.name, n, pos), func(t *mc.T) {
						for v := 0; v < 256; v++ {
							for z := 0; z < 2; z++ {
								key := make([]byte, n)
								if z == 0 {
									copy(key, base)
								}
								key[pos] = byte(v)
								x := c.fresh()
								vhSet(t, x, key)
								vhBoth(t, x, key, base[40:56])
								vhBoth(t, x, key, make([]byte, 16))
							}
						}
					})
				}
			}
		}
	})
	r.Group("bit-pairs", "every pair of set bits of the block under a fixed key, and every pair of set bits of the key", func(emit mc.Emit) {
		for _, c := range cs {
			for _, n := range sizes {
				for i := 0; i < 8*n; i++ {
					c, n, i := c, n, i
					emit(fmt.Sprintf("%s key=%d bit=%d", c.name, n, i), func(t *mc.T) {
						x := c.fresh()
						for j := i; j < 8*n; j++ {
							key := make([]byte, n)
							key[i/8] |= 1 << uint(i%8)
							key[j/8] |= 1 << uint(j%8)
							vhSet(t, x, key)
							vhBoth(t, x, key, base[:16])
						}
						vhSet(t, x, base[:n])
						for j := i; j < 128; j++ {
							blk := make([]byte, 16)
							blk[i/8] |= 1 << uint(i%8)
							blk[j/8] |= 1 << uint(j%8)
							vhBoth(t, x, base[:n], blk)
						}
					})
				}
			}
		}
	})
	depth := r.Pick(5, 6)
	keys := [][]byte{base[:16], base[1:17], base[2:26], base[3:35], base[:32], nil}
	r.Group("key-history", fmt.Sprintf("every history of up to %d operations {set one of five keys of three sizes, set a key of a wrong size, encrypt and decrypt} on one cipher object", depth), func(emit mc.Emit) {
		for _, c := range cs {
			c := c
			mc.Seqs(7, depth, func(s []int) bool {
				return emit(fmt.Sprintf("%s %v", c.name, s), func(t *mc.T) {
					x := c.fresh()
					var cur []byte
					for i, o := range s {
						switch {
						case o < 5:
							vhSet(t, x, keys[o])
							cur = keys[o]
						case o == 5:
							bad := []int{0, 15, 17, 23, 25, 31, 33, 64}[i%8]
							if x.SetKey(base[:bad:bad]) == nil {
								t.Fail("key of %d bytes accepted", bad)
							}
						case cur != nil:
							vhBoth(t, x, cur, base[40:56])
						}
					}
					if cur != nil {
						vhBoth(t, x, cur, base[41:57])
					}
					t.State(fmt.Sprintf("%s %x", c.name, cur))
				})
			})
		}
	})
	r.Group("key-sizes", "every key length 0..64", func(emit mc.Emit) {
		for _, c := range cs {
			for n := 0; n <= 64; n++ {
				c, n := c, n
				emit(fmt.Sprintf("%s %d", c.name, n), func(t *mc.T) {
					x := c.fresh()
					var err error
					if p := mc.Panics(func() { err = x.SetKey(base[:n:n]) }); p != "" {
						t.Fail("SetKey panicked: %s", p)
					}
					if (err == nil) != (n == 16 || n == 24 || n == 32) {
						t.Fail("SetKey(%d bytes) returned %v", n, err)
					}
					t.Outcome("%s %d %v", c.name, n, err)
				})
			}
		}
	})
	r.Group("buffers", "source and destination at every pair of offsets 0..40 of one array: in place works, any other overlap panics and disjoint works; larger buffers than a block; every short length 0..15 panics", func(emit mc.Emit) {
		for _, c := range cs {
			for _, n := range sizes {
				for a := 0; a <= 40; a++ {
					c, n, a := c, n, a
					emit(fmt.Sprintf("%s key=%d offset=%d", c.name, n, a), func(t *mc.T) {
						o, _ := aes.NewCipher(base[:n])
						x := c.fresh()
						vhSet(t, x, base[:n])
						for b := 0; b <= 40; b++ {
							for dir := 0; dir < 2; dir++ {
								for _, ext := range []int{0, 5} {
									buf := mc.Pattern(31, 64)
									src := append([]byte(nil), buf[a:a+16]...)
									orig := append([]byte(nil), buf...)
									want := make([]byte, 16)
									f := x.Encrypt
									o.Encrypt(want, src)
									if dir == 1 {
										f = x.Decrypt
										o.Decrypt(want, src)
									}
									d, s := buf[b:b+16+ext:b+16+ext], buf[a:a+16:a+16]
									if ext > 0 {
										s = buf[a : a+16+ext : a+16+ext]
									}
									p := mc.Panics(func() { f(d, s) })
									t.Step(1)
									overlap := a != b && a-b < 16 && b-a < 16
									if overlap != (p != "") {
										t.Fail("offsets %d,%d direction %d: panic %q", b, a, dir, p)
									}
									if overlap {
										if !bytes.Equal(buf, orig) {
											t.Fail("refused call wrote")
										}
										continue
									}
									copy(orig[b:], want)
									if !bytes.Equal(buf, orig) {
										t.Fail("offsets %d,%d direction %d: got %x want %x", b, a, dir, buf, orig)
									}
								}
							}
						}
						for l := 0; l < 16; l++ {
							for dir := 0; dir < 2; dir++ {
								f := x.Encrypt
								if dir == 1 {
									f = x.Decrypt
								}
								if mc.Panics(func() { f(make([]byte, 16), make([]byte, l)) }) == "" {
									t.Fail("source of %d bytes accepted", l)
								}
								if mc.Panics(func() { f(make([]byte, l), make([]byte, 16)) }) == "" {
									t.Fail("destination of %d bytes accepted", l)
								}
								// a short slice inside a large array must be refused as well
								big := make([]byte, 64)
								if mc.Panics(func() { f(big[:l], big[32:48]) }) == "" || mc.Panics(func() { f(big[:16], big[32:32+l]) }) == "" {
									t.Fail("short slice of %d bytes of a large array accepted", l)
								}
							}
						}
						t.Outcome("%s %d %d", c.name, n, a)
					})
				}
			}
		}
	})
	r.Group("two-objects", "every interleaving of up to 5 operations {set key a, set key b, cipher} on two objects of each pair of implementations", func(emit mc.Emit) {
		for _, c1 := range cs {
			for _, c2 := range cs {
				c1, c2 := c1, c2
				mc.Seqs(6, 5, func(s []int) bool {
					return emit(fmt.Sprintf("%s+%s %v", c1.name, c2.name, s), func(t *mc.T) {
						x := [2]IAES{c1.fresh(), c2.fresh()}
						cur := [2][]byte{base[5:21], base[6:38]}
						vhSet(t, x[0], cur[0])
						vhSet(t, x[1], cur[1])
						for _, o := range s {
							i := o / 3
							switch o % 3 {
							case 0:
								cur[i] = base[8:32]
								vhSet(t, x[i], cur[i])
							case 1:
								cur[i] = base[9:41]
								vhSet(t, x[i], cur[i])
							case 2:
								vhBoth(t, x[i], cur[i], base[40:56])
							}
						}
						vhBoth(t, x[0], cur[0], base[40:56])
						vhBoth(t, x[1], cur[1], base[40:56])
					})
				})
			}
		}
	})
}
