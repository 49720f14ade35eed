//go:build go1.22 && amd64 && !noasm

package p434

import (
	"golang.org/x/sys/cpu"

	"vh/trace"
)

func init() {
	vhFlags = append(vhFlags, vhPath{"plain", func() { HasADXandBMI2 = false }})
	if cpu.X86.HasBMI2 && cpu.X86.HasADX || trace.Observed() {
		vhFlags = append(vhFlags, vhPath{"adx", func() { HasADXandBMI2 = true }})
	}
}
