// Package cpuid executes the identification instruction, independently of the repository.
package cpuid

// Raw returns EAX, EBX, ECX, EDX for a leaf and subleaf.
func Raw(eax, ecx uint32) (a, b, c, d uint32)
