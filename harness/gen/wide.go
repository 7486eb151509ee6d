package gen

import (
	"reflect"
	"strconv"

	"vmon/phpdoc"
)

// Wide values and documents: one container with very many entries, with
// counts around the powers and round numbers where a table, a buffer or a
// digit count may end.

// WideLen picks a number of entries.
func WideLen(r R, limit int) int {
	for {
		n := Pick(r, 128, 200, 255, 256, 257, 500, 511, 512, 513, 700, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 3000, 4095, 4096, 5000, 8192, 9999, 10000, 10001, 16384, 20000, 32768, 65535, 65536, 70000)
		n += r.IntN(3)
		if r.IntN(4) == 0 {
			n = 64 << r.IntN(10)
			n += r.IntN(n)
		}
		if n <= limit {
			return n
		}
	}
}

// WideElem picks a small element type.
func WideElem(r R, o Opt) reflect.Type {
	if len(o.Leaf) > 0 && r.IntN(3) > 0 {
		return Pick(r, o.Leaf...)
	}
	s := Scalar(r, Opt{Named: o.Named})
	switch r.IntN(12) {
	case 0:
		return BytesType
	case 1:
		return reflect.PointerTo(s)
	case 2:
		return reflect.StructOf([]reflect.StructField{{Name: "A", Type: s, Tag: `php:"a,omitempty"`}, {Name: "B", Type: reflect.PointerTo(s)}})
	case 3:
		return reflect.ArrayOf(1+r.IntN(3), s)
	case 4:
		return reflect.MapOf(KeyType(r, o), s)
	case 5:
		return reflect.SliceOf(s)
	case 6:
		if o.Any {
			return AnyType
		}
	}
	return s
}

// WideKey is the i-th key of a wide map.
func WideKey(t reflect.Type, i int) (reflect.Value, bool) {
	k := reflect.New(t).Elem()
	switch {
	case k.CanInt():
		x := int64(i)
		if i%3 == 1 {
			x = -x
		}
		if i%7 == 3 {
			x *= 1000003
		}
		if k.OverflowInt(x) {
			return k, false
		}
		k.SetInt(x)
	case k.CanUint():
		if k.OverflowUint(uint64(i)) {
			return k, false
		}
		k.SetUint(uint64(i))
	default:
		s := strconv.Itoa(i)
		if i%2 == 1 {
			s = "key " + s
		}
		k.SetString(s)
	}
	return k, true
}

// WideStruct is a struct type with very many fields of one type.
func WideStruct(r R, o Opt, e reflect.Type, n int) reflect.Type {
	defer Giant(Giant(false))
	n = min(n, 1100)
	fs := make([]reflect.StructField, n)
	for i := range fs {
		fs[i] = reflect.StructField{Name: "F" + strconv.Itoa(i), Type: e}
		if o.Tags && i%3 > 0 {
			tag := "f" + strconv.Itoa(i)
			if i%3 == 2 {
				tag += ",omitempty"
			}
			fs[i].Tag = reflect.StructTag(`php:"` + tag + `"`)
		}
	}
	return reflect.StructOf(fs)
}

// Wide generates a type with one wide container and a value of it.
func Wide(r R, o Opt, limit int) reflect.Value {
	defer Giant(Giant(false))
	n := WideLen(r, limit)
	e := WideElem(r, o)
	small := o
	small.Depth, small.MaxLen, small.MaxMap = 1, 2, 0
	elem := func(w reflect.Value) {
		if e == AnyType {
			x := Value(r, Pick(r, Scalars()...), small)
			w.Set(x)
			return
		}
		w.Set(Value(r, e, small))
	}
	var v reflect.Value
	switch r.IntN(10) {
	case 9:
		t := WideStruct(r, o, e, n)
		v = reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			if r.IntN(3) > 0 {
				elem(v.Field(i))
			}
		}
	case 0, 1, 2, 3:
		v = reflect.New(reflect.SliceOf(e)).Elem()
		v.Set(reflect.MakeSlice(v.Type(), n, n+r.IntN(3)))
		for i := 0; i < n; i++ {
			elem(v.Index(i))
		}
	case 4:
		n = min(n, 3000)
		v = reflect.New(reflect.ArrayOf(n, e)).Elem()
		for i := 0; i < n; i++ {
			elem(v.Index(i))
		}
	default:
		v = reflect.New(reflect.MapOf(KeyType(r, o), e)).Elem()
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < n; i++ {
			if k, ok := WideKey(v.Type().Key(), i); ok {
				x := reflect.New(e).Elem()
				elem(x)
				v.SetMapIndex(k, x)
			}
		}
	}
	switch r.IntN(8) {
	case 0:
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		v = reflect.New(p.Type()).Elem()
		v.Set(p)
	case 1:
		s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "W", Type: v.Type(), Tag: `php:"w"`}, {Name: "After", Type: reflect.TypeOf("")}})).Elem()
		s.Field(0).Set(v)
		s.Field(1).SetString("after")
		v = s
	case 2:
		s := reflect.New(reflect.SliceOf(v.Type())).Elem()
		s.Set(reflect.Append(s, v, reflect.Zero(v.Type())))
		v = s
	case 3:
		if o.Any {
			s := reflect.New(reflect.TypeOf([]any(nil))).Elem()
			s.Set(reflect.ValueOf([]any{v.Interface(), 1}))
			v = s
		}
	}
	return v
}

// WideDoc generates a wide document for a destination type it returns.
func WideDoc(r R, o Opt, limit int) (reflect.Type, *phpdoc.Node) {
	defer Giant(Giant(false))
	n := WideLen(r, limit)
	e := WideElem(r, o)
	doc := phpdoc.Arr()
	var t reflect.Type
	elem := func() *phpdoc.Node { return DocFor(r, e, 1, 0, true) }
	switch r.IntN(9) {
	case 8: // every field, in any order, some twice
		t = WideStruct(r, o, e, n)
		for i := 0; i < t.NumField(); i++ {
			doc.Ent = append(doc.Ent, phpdoc.Entry{Key: phpdoc.Str(Field(t.Field(i)).Key), Val: elem()})
		}
		for i := r.IntN(5); i > 0; i-- {
			doc.Ent = append(doc.Ent, phpdoc.Entry{Key: Pick(r, doc.Ent...).Key, Val: elem()})
		}
		if r.IntN(2) == 0 {
			r.Shuffle(len(doc.Ent), func(i, j int) { doc.Ent[i], doc.Ent[j] = doc.Ent[j], doc.Ent[i] })
		}
	case 0, 1, 2, 3: // list
		t = reflect.SliceOf(e)
		if r.IntN(4) == 0 {
			t = reflect.ArrayOf(min(n+r.IntN(5)-2, 3000), e)
		}
		for i := 0; i < n; i++ {
			doc.Ent = append(doc.Ent, phpdoc.Entry{Key: phpdoc.Int(int64(i)), Val: elem()})
		}
		switch r.IntN(6) {
		case 0:
			r.Shuffle(n, func(i, j int) { doc.Ent[i], doc.Ent[j] = doc.Ent[j], doc.Ent[i] })
		case 1:
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				doc.Ent[i], doc.Ent[j] = doc.Ent[j], doc.Ent[i]
			}
		case 2:
			k := 0
			for _, x := range doc.Ent {
				if r.IntN(5) > 0 {
					doc.Ent[k] = x
					k++
				}
			}
			doc.Ent = doc.Ent[:k]
		}
	case 4, 5, 6: // map
		t = reflect.MapOf(KeyType(r, o), e)
		for i := 0; i < n; i++ {
			k, ok := WideKey(t.Key(), i)
			if !ok {
				continue
			}
			key := phpdoc.Str(k.String())
			if k.CanInt() {
				key = phpdoc.Int(k.Int())
			} else if k.CanUint() {
				key = phpdoc.Int(int64(k.Uint()))
			}
			doc.Ent = append(doc.Ent, phpdoc.Entry{Key: key, Val: elem()})
		}
		if r.IntN(4) == 0 { // keys again
			for i := 0; i < 20 && len(doc.Ent) > 0; i++ {
				doc.Ent = append(doc.Ent, phpdoc.Entry{Key: Pick(r, doc.Ent...).Key, Val: elem()})
			}
		}
	default: // most entries are unknown to a struct
		n = min(n, 8000)
		t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: e, Tag: `php:"a"`}, {Name: "B", Type: reflect.TypeOf("")}})
		for i := 0; i < n; i++ {
			doc.Ent = append(doc.Ent, phpdoc.Entry{Key: phpdoc.Str("k" + strconv.Itoa(i)), Val: Doc(r, 1, false)})
		}
		doc.Ent[r.IntN(n)] = phpdoc.Entry{Key: phpdoc.Str("a"), Val: elem()}
		doc.Ent[r.IntN(n)] = phpdoc.Entry{Key: phpdoc.Str("B"), Val: phpdoc.Str("b")}
	}
	if r.IntN(3) == 0 && (t.Kind() == reflect.Map && t.Key().Kind() == reflect.String || t.Kind() == reflect.Struct) {
		doc.K = 'O'
		doc.S = "Wide"
	}
	if o.Any && r.IntN(4) == 0 {
		t = AnyType
	}
	switch r.IntN(5) {
	case 0:
		t = reflect.PointerTo(t)
	case 1:
		t = reflect.SliceOf(t)
		doc = phpdoc.List(doc, phpdoc.Null())
	}
	return t, doc
}
