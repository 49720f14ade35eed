//go:build go1.22

package utils

import (
	"fmt"
	"testing"

	vhcpu "vh/cpuid"
	"vh/mc"
)

func TestVerifHarness(t *testing.T) {
	mc.MainEnv(map[string]func(*mc.Run){"U01": func(r *mc.Run) {
		r.Group("instruction", "cpuid on every leaf 0..0x20 and 0x80000000..0x80000008, subleaf 0..3, against an independent execution, registers that vary between cores masked", func(emit mc.Emit) {
			var leaves []uint32
			for i := uint32(0); i <= 0x20; i++ {
				leaves = append(leaves, i)
			}
			for i := uint32(0x80000000); i <= 0x80000008; i++ {
				leaves = append(leaves, i)
			}
			for _, l := range leaves {
				for s := uint32(0); s < 4; s++ {
					l, s := l, s
					if l == 0xb || l == 0x1f || l == 0xd || l == 0x12 || l == 0x2 || l == 0x4 || l == 0x1a || l == 0x80000001 {
						continue // identifies the core or follows its extended state
					}
					emit(fmt.Sprintf("%x.%d", l, s), func(t *mc.T) {
						for try := 0; ; try++ {
							var g, w [4]uint32
							g[0], g[1], g[2], g[3] = cpuid_(l, s)
							w[0], w[1], w[2], w[3] = vhcpu.Raw(l, s)
							if l == 1 {
								g[1], w[1] = g[1]&0xffffff, w[1]&0xffffff
							}
							if g == w {
								t.Step(1)
								t.Outcome("%x", g)
								return
							}
							if try == 50 { // the thread may move between unlike cores
								t.Fail("cpuid(%x,%d) = %x, want %x", l, s, g, w)
							}
						}
					})
				}
			}
		})
	}})
}

func cpuid_(a, c uint32) (uint32, uint32, uint32, uint32) { return cpuid(a, c) }
