// cpu decides U01. Built with the identification instruction replaced by a
// table (see overlay/cpuid_stub.*), it starts one process per identification
// answer of the enumerated space and compares the exported flags.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"

	"github.com/henrydcase/nobs/utils"

	"vh/mc"
)

func main() {
	if os.Getenv("VH_CHILD") != "" {
		x := utils.X86
		fmt.Printf("AES=%v BMI2=%v ADX=%v RDSEED=%v\n", x.HasAES, x.HasBMI2, x.HasADX, x.HasRDSEED)
		return
	}
	mc.Main(map[string]func(*mc.Run){"U01": u01})
}

type ans struct {
	max    uint32
	l1, l7 [4]uint32
}

func (a ans) env() string {
	reg := func(r [4]uint32) string { return fmt.Sprintf("%x,%x,%x,%x", r[0], r[1], r[2], r[3]) }
	inv := func(r [4]uint32) (o [4]uint32) {
		for i := range r {
			o[i] = ^r[i]
		}
		return
	}
	// other subleaves and leaves answer with the complement, so that reading a wrong one shows
	s := []string{fmt.Sprintf("0.*=%x,756e6547,6c65746e,49656e69", a.max), "1.*=" + reg(a.l1)}
	if a.max >= 7 {
		s = append(s, "7.0="+reg(a.l7), "7.*="+reg(inv(a.l7)), "beyond="+reg(inv(a.l1)))
	} else {
		// an unimplemented leaf returns the data of the highest leaf, or anything
		s = append(s, "beyond="+reg(a.l7))
	}
	return strings.Join(s, " ")
}

func (a ans) want() string {
	bit := func(r uint32, n uint) bool { return a.max >= 7 && r>>n&1 == 1 }
	return fmt.Sprintf("AES=%v BMI2=%v ADX=%v RDSEED=%v", bit(a.l1[2], 25), bit(a.l7[1], 8), bit(a.l7[1], 19), bit(a.l7[1], 18))
}

func run(t *mc.T, a ans) {
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VH_CHILD=1", "VH_CPUID="+a.env())
	out, err := cmd.Output()
	if err != nil {
		t.Fail("process with identification %s failed: %v", a.env(), err)
	}
	got := strings.TrimSpace(string(out))
	t.Step(1)
	if got != a.want() {
		t.Fail("identification %s: flags %s, want %s", a.env(), got, a.want())
	}
	t.Outcome("%s %d", got, a.max)
	t.State(got + fmt.Sprint(a.max >= 7))
}

func u01(r *mc.Run) {
	all := [4]uint32{^uint32(0), ^uint32(0), ^uint32(0), ^uint32(0)}
	maxes := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 8, 0xb, 0xd, 0x16, 0x1f, 0x20, 0xff, 0x7fffffff, 0x80000000, 0xffffffff}
	r.Group("max-leaf", "every highest leaf of {0..8,0xb,0xd,0x16,0x1f,0x20,0xff,2^31-1,2^31,2^32-1} with all-zero and all-one answers", func(emit mc.Emit) {
		for _, m := range maxes {
			for i := 0; i < 4; i++ {
				a := ans{max: m}
				if i&1 != 0 {
					a.l1 = all
				}
				if i&2 != 0 {
					a.l7 = all
				}
				emit(a.env(), func(t *mc.T) { run(t, a) })
			}
		}
	})
	r.Group("single-bits", "for highest leaf 6, 7 and 0x16: every single set bit and every single clear bit of the four registers of leaf 1 and of leaf 7", func(emit mc.Emit) {
		for _, m := range []uint32{0x16, 7, 6} {
			for leaf := 0; leaf < 2; leaf++ {
				for reg := 0; reg < 4; reg++ {
					for b := 0; b < 32; b++ {
						for inv := 0; inv < 2; inv++ {
							a := ans{max: m}
							if inv == 1 {
								a.l1, a.l7 = all, all
							}
							if leaf == 0 {
								a.l1[reg] ^= 1 << uint(b)
							} else {
								a.l7[reg] ^= 1 << uint(b)
							}
							emit(a.env(), func(t *mc.T) { run(t, a) })
						}
					}
				}
			}
		}
	})
	r.Group("combinations", "every combination of the AES, BMI2, ADX and RDSEED bits together with the AVX2, BMI1, RDRAND, OSXSAVE and PCLMULQDQ bits, highest leaf 6, 7 and 0xd", func(emit mc.Emit) {
		for _, m := range []uint32{6, 7, 0xd} {
			for c := 0; c < 512; c++ {
				a := ans{max: m}
				set := func(i uint, r *uint32, n uint) {
					if c>>i&1 == 1 {
						*r |= 1 << n
					}
				}
				set(0, &a.l1[2], 25)
				set(1, &a.l7[1], 8)
				set(2, &a.l7[1], 19)
				set(3, &a.l7[1], 18)
				set(4, &a.l7[1], 5)
				set(5, &a.l7[1], 3)
				set(6, &a.l1[2], 30)
				set(7, &a.l1[2], 27)
				set(8, &a.l1[2], 1)
				emit(a.env(), func(t *mc.T) { run(t, a) })
			}
		}
	})
}
