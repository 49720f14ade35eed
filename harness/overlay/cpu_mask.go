package utils

import (
	"os"
	"reflect"
	"strings"
)

// Clears the capabilities listed in VH_CPU_OFF after the detection.
func init() {
	v := reflect.ValueOf(&X86).Elem()
	for _, n := range strings.Split(os.Getenv("VH_CPU_OFF"), ",") {
		if f := v.FieldByName(n); n != "" && f.IsValid() && f.Kind() == reflect.Bool {
			f.SetBool(false)
		}
	}
}
