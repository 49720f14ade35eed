// Package trace talks to the tracing interpreter (a64/trace_sys.h), under which programs of the checks compare the
// instructions executed and the addresses touched on different inputs.
package trace

import (
	"fmt"
	"runtime"
	"syscall"
	"unsafe"

	"vh/mc"
)

// Available reports whether the program runs under the tracing interpreter.
func Available() bool {
	r, _, _ := syscall.RawSyscall(4000, 3, 0, 0)
	return r == 4000
}

func place(pc uint64) string {
	f := runtime.FuncForPC(uintptr(pc))
	if f == nil {
		return fmt.Sprintf("%#x", pc)
	}
	file, line := f.FileLine(uintptr(pc))
	for i := len(file) - 1; i >= 0; i-- {
		if file[i] == '/' {
			file = file[i+1:]
			break
		}
	}
	return fmt.Sprintf("%s (%s:%d)", f.Name(), file, line)
}

func event(kind, v uint64) string {
	switch kind {
	case 0:
		return "goes on at " + place(v)
	case 1:
		return fmt.Sprintf("touches address %#x", v)
	}
	return fmt.Sprintf("divides with operand %#x", v)
}

// Same runs op once for every input, each time from the same state of the whole program and with the input in buf,
// and fails unless all runs execute the same instructions and touch the same addresses. The output of op tells the
// inputs apart: at least distinct different outputs must come up.
func Same(t *mc.T, what string, buf []byte, inputs [][]byte, distinct int, op func() []byte) {
	n := len(buf)
	table := make([]byte, 0, n*len(inputs))
	for _, in := range inputs {
		if len(in) != n {
			t.Fail("%s: input of %d bytes for a buffer of %d", what, len(in), n)
		}
		table = append(table, in...)
	}
	copy(buf, inputs[0])
	op() // what is set up on first use
	var res [10]uint64
	i, _, _ := syscall.RawSyscall6(4000, 1, uintptr(unsafe.Pointer(&buf[0])), uintptr(n), uintptr(unsafe.Pointer(&table[0])), uintptr(len(inputs)), uintptr(unsafe.Pointer(&res)))
	if i != ^uintptr(0) { // a traced copy
		out := op()
		syscall.RawSyscall(4000, 2, uintptr(unsafe.Pointer(&out[0])), uintptr(len(out)))
	}
	runtime.KeepAlive(table)
	if res[9] != 0 {
		t.Fail("%s: the execution with input %s panicked", what, mc.Hex(inputs[res[9]-1]))
	}
	t.Step(len(inputs))
	if b := res[3]; b != ^uint64(0) {
		t.Fail("%s: execution depends on the secret: after %s it %s for input %s and %s for input %s", what,
			place(res[8]), event(res[4], res[5]), mc.Hex(inputs[0]), event(res[6], res[7]), mc.Hex(inputs[b]))
	}
	if int(res[2]) < distinct {
		t.Fail("%s: only %d different outputs", what, res[2])
	}
	t.Outcome("%d events %d outputs", res[0], res[2])
	t.State(fmt.Sprintf("%s %d instructions", what, res[1]))
}
