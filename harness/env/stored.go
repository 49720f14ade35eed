package env

import (
	"reflect"
	"unsafe"
)

// Stored reaches the common part and the ciphertext list a multi-recipient object keeps: the byte array (or slice) of
// at least the size of a public key, and the slice of byte arrays (or slices), wherever in the object they are.
func Stored(k interface{}, need int) (ct0 []byte, cts [][]byte, ok bool) {
	list := false
	byteList := func(t reflect.Type) bool {
		return (t.Kind() == reflect.Array || t.Kind() == reflect.Slice) && t.Elem().Kind() == reflect.Uint8
	}
	bytes := func(f reflect.Value) []byte {
		p := unsafe.Pointer(f.UnsafeAddr())
		if f.Kind() == reflect.Array {
			return unsafe.Slice((*byte)(p), f.Len())
		}
		return *(*[]byte)(p)
	}
	var visit func(v reflect.Value, depth int)
	visit = func(v reflect.Value, depth int) {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if depth < 2 && f.Kind() == reflect.Pointer && f.Type().Elem().Kind() == reflect.Struct && !f.IsNil() && f.Type().Elem().PkgPath() == v.Type().PkgPath() {
				f = f.Elem()
			}
			switch {
			case f.Kind() == reflect.Struct && depth < 2:
				visit(f, depth+1)
			case byteList(f.Type()) && f.Len() >= need && (ct0 == nil || f.Len() > len(ct0) && f.Kind() == reflect.Array):
				ct0 = bytes(f)
			case f.Kind() == reflect.Slice && byteList(f.Type().Elem()):
				list = true
				for j := 0; j < f.Len(); j++ {
					cts = append(cts, bytes(f.Index(j)))
				}
			}
		}
	}
	visit(reflect.ValueOf(k).Elem(), 0)
	return ct0, cts, ct0 != nil && list
}
