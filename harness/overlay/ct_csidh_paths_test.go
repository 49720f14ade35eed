//go:build go1.22 && amd64 && !noasm

package csidh

import (
	"golang.org/x/sys/cpu"

	"vh/trace"
)

func init() {
	vhPaths = append(vhPaths, trace.Path{Name: "plain", Set: func() { hasBMI2, hasADXandBMI2 = false, false }})
	if cpu.X86.HasBMI2 && cpu.X86.HasADX || trace.Observed() {
		vhPaths = append(vhPaths, trace.Path{Name: "bmi2", Set: func() { hasBMI2, hasADXandBMI2 = true, true }})
	}
}
