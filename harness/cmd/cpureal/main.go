// cpureal is the part of U01 that runs the repository's own identification
// instruction on the processor at hand.
package main

import (
	"fmt"

	"github.com/henrydcase/nobs/utils"

	"vh/cpuid"
	"vh/mc"
)

func main() {
	mc.Main(map[string]func(*mc.Run){"U01": func(r *mc.Run) {
		r.Group("this-processor", "flags exported on the processor the check runs on against an independent execution of the identification instruction", func(emit mc.Emit) {
			emit("flags", func(t *mc.T) {
				max, _, _, _ := cpuid.Raw(0, 0)
				_, _, c1, _ := cpuid.Raw(1, 0)
				_, b7, _, _ := cpuid.Raw(7, 0)
				bit := func(r uint32, n uint) bool { return max >= 7 && r>>n&1 == 1 }
				got := fmt.Sprint(utils.X86.HasAES, utils.X86.HasBMI2, utils.X86.HasADX, utils.X86.HasRDSEED)
				want := fmt.Sprint(bit(c1, 25), bit(b7, 8), bit(b7, 19), bit(b7, 18))
				t.Step(1)
				if got != want {
					t.Fail("AES BMI2 ADX RDSEED = %s, want %s", got, want)
				}
				t.Outcome("%s", got)
			})
		})
	}})
}
