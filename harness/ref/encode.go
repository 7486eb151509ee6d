// Package ref is an executable specification of Marshal and Unmarshal,
// written against the documentation only.
package ref

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strconv"

	"vmon/gen"
	"vmon/phpdoc"
)

// CheckEnc reports how document n fails to denote v. v must be acyclic and
// free of custom marshalers.
func CheckEnc(v reflect.Value, n *phpdoc.Node) error {
	return checkEnc(v, n, "$", false)
}

func mism(path, f string, a ...any) error {
	return fmt.Errorf("at %s: %s", path, fmt.Sprintf(f, a...))
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func isByteSlice(t reflect.Type) bool {
	return t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8
}

func checkEnc(v reflect.Value, n *phpdoc.Node, path string, str bool) error {
	if !v.IsValid() {
		if n.K != 'N' {
			return mism(path, "nil encoded as %s", clip(n.String()))
		}
		return nil
	}
	t := v.Type()
	if t.Kind() == reflect.Interface || t.Kind() == reflect.Pointer {
		if !v.IsNil() {
			return checkEnc(v.Elem(), n, path, str)
		}
	}
	null := false
	switch t.Kind() {
	case reflect.Interface, reflect.Pointer, reflect.Map:
		null = v.IsNil()
	case reflect.Slice:
		null = v.IsNil() && t != gen.BytesType
	}
	if null {
		if n.K != 'N' {
			return mism(path, "nil %s encoded as %s", t, clip(n.String()))
		}
		return nil
	}
	if n.K == 'N' {
		return mism(path, "non-nil %s encoded as null", t)
	}
	if str {
		if n.K != 's' {
			return mism(path, "string option value encoded as %s", clip(n.String()))
		}
		return checkText(v, n.S, path)
	}
	switch t.Kind() {
	case reflect.Bool:
		if n.K != 'b' || n.B != v.Bool() {
			return mism(path, "%v encoded as %s", v.Bool(), clip(n.String()))
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n.K != 'i' || n.T != strconv.FormatInt(v.Int(), 10) {
			return mism(path, "%s %d encoded as %s", t, v.Int(), clip(n.String()))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n.K != 'i' || n.T != strconv.FormatUint(v.Uint(), 10) {
			return mism(path, "%s %d encoded as %s", t, v.Uint(), clip(n.String()))
		}
	case reflect.Float32, reflect.Float64:
		if n.K != 'd' || !phpdoc.PHPFloat(n.T) || !FloatDenotes(n.T, v.Float(), t.Bits(), false) {
			return mism(path, "%s %v (%x) encoded as %s", t, v.Float(), math.Float64bits(v.Float()), clip(n.String()))
		}
	case reflect.String:
		if n.K != 's' || n.S != v.String() {
			return mism(path, "string %q encoded as %q", clip(v.String()), clip(n.String()))
		}
	case reflect.Slice, reflect.Array:
		if isByteSlice(t) && (t == gen.BytesType || n.K == 's') {
			if n.K != 's' || n.S != string(v.Bytes()) {
				return mism(path, "bytes %q encoded as %q", clip(string(v.Bytes())), clip(n.String()))
			}
			return nil
		}
		if n.K != 'a' || len(n.Ent) != v.Len() {
			return mism(path, "%s of %d elements encoded as %s", t, v.Len(), clip(n.String()))
		}
		for i, e := range n.Ent {
			if e.Key.K != 'i' || e.Key.T != strconv.Itoa(i) {
				return mism(path, "list key %d is %s", i, e.Key)
			}
			if err := checkEnc(v.Index(i), e.Val, fmt.Sprintf("%s[%d]", path, i), false); err != nil {
				return err
			}
		}
	case reflect.Map:
		if n.K != 'a' || len(n.Ent) != v.Len() {
			return mism(path, "%s of %d entries encoded as %s", t, v.Len(), clip(n.String()))
		}
		seen := map[string]bool{}
		for _, e := range n.Ent {
			id := string(e.Key.K) + e.Key.T + e.Key.S
			if seen[id] {
				return mism(path, "map key %s twice", e.Key)
			}
			seen[id] = true
			k, err := mapKey(t.Key(), e.Key)
			if err != nil {
				return mism(path, "%v", err)
			}
			ev := v.MapIndex(k)
			if !ev.IsValid() {
				return mism(path, "map key %s not in the map", e.Key)
			}
			if err := checkEnc(ev, e.Val, path+"["+clip(e.Key.String())+"]", false); err != nil {
				return err
			}
		}
	case reflect.Struct:
		if n.K != 'a' {
			return mism(path, "struct encoded as %s", clip(n.String()))
		}
		i := 0
		for f := 0; f < t.NumField(); f++ {
			sf := t.Field(f)
			fi := gen.Field(sf)
			if fi.Skip || (fi.Omit && IsZero(v.Field(f))) {
				continue
			}
			if i >= len(n.Ent) {
				return mism(path, "field %s missing", sf.Name)
			}
			e := n.Ent[i]
			i++
			if e.Key.K != 's' || e.Key.S != fi.Key {
				return mism(path, "entry %d has key %s, want %q of field %s", i-1, e.Key, fi.Key, sf.Name)
			}
			if err := checkEnc(v.Field(f), e.Val, path+"."+sf.Name, fi.Str); err != nil {
				return err
			}
		}
		if i != len(n.Ent) {
			return mism(path, "extra entry %s", n.Ent[i].Key)
		}
	default:
		return mism(path, "unsupported %s was encoded as %s", t, clip(n.String()))
	}
	return nil
}

func mapKey(t reflect.Type, k *phpdoc.Node) (reflect.Value, error) {
	v := reflect.New(t).Elem()
	switch {
	case t.Kind() == reflect.String && k.K == 's':
		v.SetString(k.S)
		return v, nil
	case gen.IsInt(t) && k.K == 'i':
		i, err := strconv.ParseInt(k.T, 10, t.Bits())
		v.SetInt(i)
		return v, err
	case gen.IsUint(t) && k.K == 'i':
		i, err := strconv.ParseUint(k.T, 10, t.Bits())
		v.SetUint(i)
		return v, err
	}
	return v, fmt.Errorf("key of map with %s keys encoded as %s", t, k)
}

// checkText: the content of a value with the string option.
func checkText(v reflect.Value, s, path string) error {
	ok := false
	switch t := v.Type(); {
	case t.Kind() == reflect.Bool:
		ok = s == strconv.FormatBool(v.Bool())
	case gen.IsInt(t):
		ok = s == strconv.FormatInt(v.Int(), 10)
	case gen.IsUint(t):
		ok = s == strconv.FormatUint(v.Uint(), 10)
	case t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64:
		ok = FloatDenotes(s, v.Float(), t.Bits(), true)
	case t.Kind() == reflect.String:
		ok = s == v.String()
	}
	if !ok {
		return mism(path, "%s %v with string option encoded as %q", v.Type(), v, clip(s))
	}
	return nil
}

// FloatDenotes: does text denote exactly f (of the given width)?
func FloatDenotes(text string, f float64, bits int, str bool) bool {
	var g float64
	switch text {
	case "INF":
		g = math.Inf(1)
	case "-INF":
		g = math.Inf(-1)
	case "NAN":
		g = math.NaN()
	default:
		var err error
		g, err = strconv.ParseFloat(text, bits)
		if err != nil {
			return false
		}
	}
	if math.IsNaN(f) || math.IsNaN(g) {
		return math.IsNaN(f) && math.IsNaN(g)
	}
	return math.Float64bits(f) == math.Float64bits(g)
}

// IsZero is the zero test of omitempty: every part is its type's zero value.
func IsZero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.Slice, reflect.Map, reflect.Pointer, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return v.IsNil()
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !IsZero(v.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !IsZero(v.Index(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return v.Len() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.Complex64, reflect.Complex128:
		return v.Complex() == 0
	}
	if v.CanInt() {
		return v.Int() == 0
	}
	if v.CanUint() {
		return v.Uint() == 0
	}
	return v.IsZero()
}

// EqOpt says which differences are permitted.
type EqOpt struct {
	NilSlice bool // nil and empty slices are the same
	NilMap   bool // nil and empty maps are the same
	NilPtr   bool // nil pointer and pointer to nil slice or map are the same
	Skipped  bool // ignore fields that are not serialised
	NegZero  bool // -0 and 0 are the same
}

// Equal describes the first difference of a and b, or "".
func Equal(a, b reflect.Value, o EqOpt) string {
	if path, msg := equal(a, b, o); msg != "" {
		return "at $" + path + msg
	}
	return ""
}

func nilTarget(p reflect.Value) bool {
	e := p.Elem()
	return (e.Kind() == reflect.Slice || e.Kind() == reflect.Map) && e.IsNil()
}

// equal returns the path to the first difference and what differs.
func equal(a, b reflect.Value, o EqOpt) (path, msg string) {
	if a.IsValid() != b.IsValid() {
		return "", ": one side missing"
	}
	if !a.IsValid() {
		return "", ""
	}
	if a.Type() != b.Type() {
		return "", fmt.Sprintf(": type %s vs %s", a.Type(), b.Type())
	}
	diff := func() (string, string) {
		return "", fmt.Sprintf(" (%s): %s vs %s", a.Type(), clip(fmt.Sprintf("%#v", a)), clip(fmt.Sprintf("%#v", b)))
	}
	switch a.Kind() {
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return diff()
		}
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		if math.IsNaN(x) && math.IsNaN(y) {
			return "", ""
		}
		if o.NegZero && x == y {
			return "", ""
		}
		if math.Float64bits(x) != math.Float64bits(y) {
			return diff()
		}
	case reflect.String:
		if a.String() != b.String() {
			return diff()
		}
	case reflect.Pointer, reflect.Interface:
		if a.IsNil() != b.IsNil() {
			if o.NilPtr && a.Kind() == reflect.Pointer && ((a.IsNil() && nilTarget(b)) || (b.IsNil() && nilTarget(a))) {
				return "", ""
			}
			return diff()
		}
		if a.IsNil() {
			return "", ""
		}
		path, msg = equal(a.Elem(), b.Elem(), o)
		return "*" + path, msg
	case reflect.Slice:
		if a.IsNil() != b.IsNil() && !(o.NilSlice && a.Len() == 0 && b.Len() == 0) {
			return diff()
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return "", fmt.Sprintf(": length %d vs %d", a.Len(), b.Len())
		}
		if a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Uint8 && bytes.Equal(a.Bytes(), b.Bytes()) {
			return "", ""
		}
		for i := 0; i < a.Len(); i++ {
			if path, msg = equal(a.Index(i), b.Index(i), o); msg != "" {
				return fmt.Sprintf("[%d]%s", i, path), msg
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() && !(o.NilMap && a.Len() == 0 && b.Len() == 0) {
			return diff()
		}
		if a.Len() != b.Len() {
			return "", fmt.Sprintf(": %d vs %d map entries", a.Len(), b.Len())
		}
		it := a.MapRange()
		for it.Next() {
			y := b.MapIndex(it.Key())
			if !y.IsValid() {
				return "", fmt.Sprintf(": key %v missing", it.Key())
			}
			if path, msg = equal(it.Value(), y, o); msg != "" {
				return fmt.Sprintf("[%v]%s", it.Key(), path), msg
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if o.Skipped && gen.Field(f).Skip {
				continue
			}
			if path, msg = equal(a.Field(i), b.Field(i), o); msg != "" {
				return "." + f.Name + path, msg
			}
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if a.Pointer() != b.Pointer() {
			return diff()
		}
	case reflect.Complex64, reflect.Complex128:
		if a.Complex() != b.Complex() {
			return diff()
		}
	default:
		if a.CanInt() && a.Int() != b.Int() || a.CanUint() && a.Uint() != b.Uint() {
			return diff()
		}
	}
	return "", ""
}
