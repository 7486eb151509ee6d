package mon

import (
	"reflect"
	"unsafe"
)

// strData is the address of a string's bytes.
func strData(v reflect.Value) uintptr {
	s := v.String()
	return uintptr(unsafe.Pointer(unsafe.StringData(s)))
}
