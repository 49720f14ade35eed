#include "textflag.h"

// The identification instruction answered by the harness.
TEXT ·cpuid(SB), NOSPLIT, $0-24
	JMP ·vhCpuid(SB)
