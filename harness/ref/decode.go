package ref

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"

	"vmon/gen"
	"vmon/phpdoc"
)

// ErrHuge marks documents whose decoding is allowed to use huge memory.
var ErrHuge = errors.New("list index too large to try")

// Unmarshaler mirrors the library's interface.
type Unmarshaler interface{ UnmarshalPHP([]byte) error }

var unmarshalerType = reflect.TypeOf((*Unmarshaler)(nil)).Elem()

const MaxDepth = 10000

func refuse(path string, n *phpdoc.Node, t reflect.Type) error {
	return fmt.Errorf("at %s: %s does not fit %s", path, clip(n.String()), t)
}

// Decode stores what n denotes into dst, or says why it does not fit.
func Decode(n *phpdoc.Node, dst reflect.Value) error {
	if err := Decodable(dst.Type()); err != nil {
		return err
	}
	return decode(n, dst, "$", 0)
}

func decode(n *phpdoc.Node, dst reflect.Value, path string, depth int) error {
	t := dst.Type()
	if t.Kind() != reflect.Interface && reflect.PointerTo(t).Implements(unmarshalerType) {
		if depth+n.Depth() > MaxDepth {
			return errors.New("too deep")
		}
		if n.K == 'N' {
			dst.SetZero()
			return nil
		}
		p := reflect.New(t)
		if err := p.Interface().(Unmarshaler).UnmarshalPHP(n.Bytes()); err != nil {
			return err
		}
		dst.Set(p.Elem())
		return nil
	}
	container := n.K == 'a' || n.K == 'O'
	if container && depth+1 > MaxDepth {
		return errors.New("too deep")
	}
	switch t.Kind() {
	case reflect.Pointer:
		if n.K == 'N' {
			dst.SetZero()
			return nil
		}
		if dst.IsNil() {
			dst.Set(reflect.New(t.Elem()))
		}
		return decode(n, dst.Elem(), path, depth)
	case reflect.Interface:
		if t.NumMethod() > 0 {
			if !dst.IsNil() {
				if u, ok := dst.Interface().(Unmarshaler); ok {
					if depth+n.Depth() > MaxDepth {
						return errors.New("too deep")
					}
					if n.K == 'N' {
						dst.SetZero()
						return nil
					}
					return u.UnmarshalPHP(n.Bytes())
				}
			}
			if n.K == 'N' {
				dst.SetZero()
				return nil
			}
			return refuse(path, n, t)
		}
		x, err := Dynamic(n, depth)
		if err != nil {
			return err
		}
		if x == nil {
			dst.SetZero()
		} else {
			dst.Set(reflect.ValueOf(x))
		}
		return nil
	case reflect.Slice:
		if isByteSlice(t) && n.K == 's' {
			s := reflect.MakeSlice(t, len(n.S), len(n.S))
			copy(s.Bytes(), n.S)
			dst.Set(s)
			return nil
		}
		if n.K == 'N' {
			dst.SetZero()
			return nil
		}
		if n.K != 'a' {
			return refuse(path, n, t)
		}
		// the fresh list grows as keys are met
		s := reflect.MakeSlice(t, 0, 0)
		for _, e := range n.Ent {
			i, err := index(e.Key)
			if err != nil {
				return err
			}
			if i > 1<<17 {
				return ErrHuge
			}
			if i >= s.Cap() {
				ns := reflect.MakeSlice(t, i+1, i+1+s.Len())
				reflect.Copy(ns, s)
				s = ns
			} else if i >= s.Len() {
				s = s.Slice(0, i+1)
			}
			if err := decode(e.Val, s.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1); err != nil {
				return err
			}
		}
		dst.Set(s)
		return nil
	case reflect.Array:
		if n.K == 'N' {
			return nil
		}
		if n.K != 'a' {
			return refuse(path, n, t)
		}
		dst.SetZero()
		for _, e := range n.Ent {
			i, err := index(e.Key)
			if err != nil {
				return err
			}
			if i >= dst.Len() {
				if depth+1+e.Val.Depth() > MaxDepth {
					return errors.New("too deep")
				}
				continue
			}
			if err := decode(e.Val, dst.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if n.K == 'N' {
			dst.SetZero()
			return nil
		}
		if !container {
			return refuse(path, n, t)
		}
		if dst.IsNil() {
			dst.Set(reflect.MakeMap(t))
		}
		for _, e := range n.Ent {
			k, err := decodeKey(e.Key, t.Key())
			if err != nil {
				return fmt.Errorf("at %s: %w", path, err)
			}
			v := reflect.New(t.Elem()).Elem()
			if err := decode(e.Val, v, path+"["+clip(e.Key.String())+"]", depth+1); err != nil {
				return err
			}
			dst.SetMapIndex(k, v)
		}
		return nil
	case reflect.Struct:
		if n.K == 'N' {
			return nil
		}
		if !container {
			return refuse(path, n, t)
		}
		for _, e := range n.Ent {
			if e.Key.K != 's' {
				return refuse(path, e.Key, t)
			}
			found := false
			for i := 0; i < t.NumField(); i++ {
				fi := gen.Field(t.Field(i))
				if fi.Skip || fi.Key != e.Key.S {
					continue
				}
				found = true
				p := path + "." + t.Field(i).Name
				var err error
				if fi.Str && stringOption(t.Field(i).Type) {
					err = decodeText(e.Val, dst.Field(i), p)
				} else {
					err = decode(e.Val, dst.Field(i), p, depth+1)
				}
				if err != nil {
					return err
				}
			}
			if !found && depth+1+e.Val.Depth() > MaxDepth {
				return errors.New("too deep")
			}
		}
		return nil
	}
	switch t.Kind() {
	case reflect.Chan, reflect.Func, reflect.Complex64, reflect.Complex128, reflect.UnsafePointer:
		return refuse(path, n, t)
	}
	if n.K == 'N' {
		return nil
	}
	switch {
	case t.Kind() == reflect.Bool && n.K == 'b':
		dst.SetBool(n.B)
		return nil
	case t.Kind() == reflect.String && n.K == 's':
		dst.SetString(n.S)
		return nil
	case (gen.IsInt(t) || gen.IsUint(t) || t.Kind() == reflect.Uintptr) && n.K == 'i':
		return setInt(n.T, dst)
	case (t.Kind() == reflect.Float64 || t.Kind() == reflect.Float32) && n.K == 'd':
		return setFloat(n.T, dst)
	}
	return refuse(path, n, t)
}

func setInt(text string, dst reflect.Value) error {
	t := dst.Type()
	if gen.IsInt(t) {
		i, err := strconv.ParseInt(text, 10, t.Bits())
		if err != nil {
			return err
		}
		dst.SetInt(i)
		return nil
	}
	if len(text) > 1 && text[0] == '-' {
		if i, err := strconv.ParseInt(text, 10, 64); err == nil && i == 0 {
			return ErrNegZero
		}
	}
	i, err := strconv.ParseUint(text, 10, t.Bits())
	if err != nil {
		return err
	}
	dst.SetUint(i)
	return nil
}

// ErrNegZero marks "-0" for an unsigned destination: PHP never writes it, and
// both storing 0 and refusing it are right.
var ErrNegZero = errors.New("negative zero for unsigned destination")

func parseFloat(text string, bits int) (float64, error) {
	switch text {
	case "INF":
		return math.Inf(1), nil
	case "-INF":
		return math.Inf(-1), nil
	case "NAN":
		return math.NaN(), nil
	}
	return strconv.ParseFloat(text, bits)
}

func setFloat(text string, dst reflect.Value) error {
	f, err := parseFloat(text, dst.Type().Bits())
	if err != nil {
		return err
	}
	dst.SetFloat(f)
	return nil
}

func index(k *phpdoc.Node) (int, error) {
	if k.K != 'i' {
		return 0, fmt.Errorf("list key %s", clip(k.String()))
	}
	i, err := strconv.ParseInt(k.T, 10, 64)
	if err != nil || i < 0 {
		return 0, fmt.Errorf("list key %s", k)
	}
	return int(min(i, math.MaxInt)), nil
}

func decodeKey(k *phpdoc.Node, t reflect.Type) (reflect.Value, error) {
	v := reflect.New(t).Elem()
	switch {
	case t.Kind() == reflect.String && k.K == 's':
		v.SetString(k.S)
		return v, nil
	case (gen.IsInt(t) || gen.IsUint(t)) && k.K == 'i':
		return v, setInt(k.T, v)
	case t == gen.AnyType || (t.Kind() == reflect.Interface && t.NumMethod() == 0):
		if k.K == 's' {
			v.Set(reflect.ValueOf(k.S))
			return v, nil
		}
		i, err := strconv.ParseInt(k.T, 10, 64)
		v.Set(reflect.ValueOf(i))
		return v, err
	}
	return v, fmt.Errorf("key %s does not fit %s", clip(k.String()), t)
}

// stringOption: kinds whose decoding honours the string option.
func stringOption(t reflect.Type) bool {
	if reflect.PointerTo(t).Implements(unmarshalerType) {
		return false
	}
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return gen.IsScalar(t)
}

func decodeText(n *phpdoc.Node, dst reflect.Value, path string) error {
	t := dst.Type()
	if t.Kind() == reflect.Pointer {
		if n.K == 'N' {
			dst.SetZero()
			return nil
		}
		if dst.IsNil() {
			dst.Set(reflect.New(t.Elem()))
		}
		return decodeText(n, dst.Elem(), path)
	}
	if n.K == 'N' {
		return nil
	}
	if n.K != 's' {
		return refuse(path, n, t)
	}
	switch {
	case t.Kind() == reflect.String:
		dst.SetString(n.S)
		return nil
	case t.Kind() == reflect.Bool:
		b, err := strconv.ParseBool(n.S)
		if err != nil {
			return err
		}
		dst.SetBool(b)
		return nil
	case gen.IsInt(t) || gen.IsUint(t):
		if n.S != "" && n.S[0] == '+' {
			return errors.New("sign")
		}
		return setInt(n.S, dst)
	}
	return setFloat(n.S, dst)
}

// Dynamic is the fixed result of decoding into an empty interface.
func Dynamic(n *phpdoc.Node, depth int) (any, error) {
	if (n.K == 'a' || n.K == 'O') && depth+1 > MaxDepth {
		return nil, errors.New("too deep")
	}
	switch n.K {
	case 'N':
		return nil, nil
	case 'b':
		return n.B, nil
	case 'i':
		return parseInt64(n.T)
	case 'd':
		return parseFloat(n.T, 64)
	case 's':
		return n.S, nil
	case 'a':
		m := map[any]any{}
		for _, e := range n.Ent {
			var k any = e.Key.S
			if e.Key.K == 'i' {
				i, err := parseInt64(e.Key.T)
				if err != nil {
					return nil, err
				}
				k = i
			}
			v, err := Dynamic(e.Val, depth+1)
			if err != nil {
				return nil, err
			}
			m[k] = v
		}
		return m, nil
	}
	m := map[string]any{}
	for _, e := range n.Ent {
		if e.Key.K != 's' {
			return nil, fmt.Errorf("object key %s", e.Key)
		}
		v, err := Dynamic(e.Val, depth+1)
		if err != nil {
			return nil, err
		}
		m[e.Key.S] = v
	}
	return m, nil
}

func parseInt64(t string) (any, error) {
	i, err := strconv.ParseInt(t, 10, 64)
	return i, err
}

// Decodable reports types that are refused whatever the document.
func Decodable(t reflect.Type) error { return decodable(t, map[reflect.Type]bool{}) }

func decodable(t reflect.Type, seen map[reflect.Type]bool) error {
	if seen[t] {
		return nil
	}
	seen[t] = true
	if t.Kind() != reflect.Interface && reflect.PointerTo(t).Implements(unmarshalerType) {
		return nil
	}
	switch t.Kind() {
	case reflect.Pointer:
		if t.Elem().Kind() == reflect.Pointer {
			return fmt.Errorf("nested pointer %s", t)
		}
		return decodable(t.Elem(), seen)
	case reflect.Slice:
		if isByteSlice(t) {
			return nil
		}
		return decodable(t.Elem(), seen)
	case reflect.Array:
		return decodable(t.Elem(), seen)
	case reflect.Map:
		if err := decodable(t.Key(), seen); err != nil {
			return err
		}
		return decodable(t.Elem(), seen)
	case reflect.Struct:
		keys := map[string]bool{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			fi := gen.Field(f)
			if fi.Skip {
				continue
			}
			ft := f.Type
			if ft.Kind() == reflect.Pointer {
				ft = ft.Elem()
			}
			if f.Anonymous && ft.Kind() == reflect.Struct {
				return fmt.Errorf("embedded struct in %s", t)
			}
			if keys[fi.Key] {
				return fmt.Errorf("key %q twice in %s", fi.Key, t)
			}
			keys[fi.Key] = true
			if err := decodable(f.Type, seen); err != nil {
				return err
			}
		}
	}
	return nil
}
