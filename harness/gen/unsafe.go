package gen

import (
	"reflect"
	"unsafe"
)

// hidden makes an addressable unexported field settable.
func hidden(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}
