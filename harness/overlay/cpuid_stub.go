package utils

import (
	"os"
	"strconv"
	"strings"
)

// vhCpuid answers like a processor whose leaves are listed in VH_CPUID as
// leaf.subleaf=eax,ebx,ecx,edx in hexadecimal, separated by blanks. A leaf
// beyond the highest one returns the data of the highest one, as Intel
// processors do, or what "beyond" lists.
func vhCpuid(eaxArg, ecxArg uint32) (eax, ebx, ecx, edx uint32) {
	find := func(k string) (r [4]uint32, ok bool) {
		for _, f := range strings.Fields(os.Getenv("VH_CPUID")) {
			if strings.HasPrefix(f, k+"=") {
				for i, x := range strings.Split(f[len(k)+1:], ",") {
					v, _ := strconv.ParseUint(x, 16, 32)
					r[i] = uint32(v)
				}
				return r, true
			}
		}
		return
	}
	key := strconv.FormatUint(uint64(eaxArg), 16) + "." + strconv.FormatUint(uint64(ecxArg), 16)
	if r, ok := find(key); ok {
		return r[0], r[1], r[2], r[3]
	}
	if r, ok := find(strconv.FormatUint(uint64(eaxArg), 16) + ".*"); ok {
		return r[0], r[1], r[2], r[3]
	}
	r, _ := find("beyond")
	return r[0], r[1], r[2], r[3]
}
