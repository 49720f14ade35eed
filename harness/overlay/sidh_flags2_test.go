//go:build go1.22 && amd64 && !noasm

package p434

func init() {
	a, b := HasADXandBMI2, HasBMI2
	vhFlags = append(vhFlags, vhPath{"plain", func() { HasADXandBMI2, HasBMI2 = false, false }})
	if b {
		vhFlags = append(vhFlags, vhPath{"bmi2", func() { HasADXandBMI2, HasBMI2 = false, true }})
	}
	if a {
		vhFlags = append(vhFlags, vhPath{"adx", func() { HasADXandBMI2, HasBMI2 = true, true }})
	}
}
