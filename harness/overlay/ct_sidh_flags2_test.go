//go:build go1.22 && amd64 && !noasm

package p434

import "vh/trace"

func init() {
	a, b := HasADXandBMI2, HasBMI2
	vhFlags = append(vhFlags, vhPath{"plain", func() { HasADXandBMI2, HasBMI2 = false, false }})
	if b || trace.Observed() {
		vhFlags = append(vhFlags, vhPath{"bmi2", func() { HasADXandBMI2, HasBMI2 = false, true }})
	}
	if a || trace.Observed() {
		vhFlags = append(vhFlags, vhPath{"adx", func() { HasADXandBMI2, HasBMI2 = true, true }})
	}
}
