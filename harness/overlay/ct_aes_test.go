//go:build go1.22

package aes

import (
	"fmt"
	"testing"
	"unsafe"

	"github.com/henrydcase/nobs/utils"

	"vh/mc"
	"vh/trace"
)

var (
	vhCipher AESAsm
	vh       struct {
		key   [32]byte
		block [16]byte
		out   [2][16]byte
	}
)

func vhOps(n int) (ops []trace.Op) {
	for _, size := range []int{16, 24, 32} {
		size := size
		ops = append(ops, trace.Op{Name: fmt.Sprintf("key of %d bytes, encryption and decryption", size), N: n, Set: func(i int) {
			copy(vh.key[:], mc.Pattern(i%5, 32))
			copy(vh.block[:], mc.Pattern(100+i/5, 16))
			if i%7 == 3 {
				vh.key = [32]byte{}
			}
			if i%4 == 3 {
				vh.block = [16]byte{byte(i)}
			}
		}, Run: func() {
			vhCipher.SetKey(vh.key[:size])
			vhCipher.Encrypt(vh.out[0][:], vh.block[:])
			vhCipher.Decrypt(vh.out[1][:], vh.block[:])
		}, Out: func() []byte { return append(append([]byte(nil), vh.out[0][:]...), vh.out[1][:]...) }})
	}
	return
}

func TestVerifHarness(t *testing.T) {
	n := 40
	if trace.Thorough() {
		n = 1000
	}
	paths := []trace.Path{{Name: "instructions", Set: func() {}}}
	state := unsafe.Slice((*byte)(unsafe.Pointer(&vh)), unsafe.Sizeof(vh))
	trace.Child(paths, vhOps(n), state)
	mc.MainEnv(map[string]func(*mc.Run){"T01": func(r *mc.Run) {
		if !utils.X86.HasAES {
			r.Note("no AES instructions on this processor")
			return
		}
		trace.Stepped(r, "aes", paths, vhOps(n), state)
	}})
}
