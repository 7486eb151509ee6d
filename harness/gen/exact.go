package gen

import (
	"reflect"
	"strconv"
	"strings"

	"vmon/phpdoc"
)

// Exact values and documents: a sweep over every size up to a bound, so that
// no size, count, length, depth or offset below it is left to chance.

const (
	exactSizes     = 1060
	exactShapes    = 14
	exactDocShapes = 16
	// ExactCases is the number of indexes of Exact and ExactDoc.
	ExactCases = exactSizes * exactDocShapes
)

// ExactIndex spreads the indexes over the first cases of a run.
func ExactIndex(i int) (int, bool) {
	return i / 4 * 7919 % ExactCases, i%4 == 0 && i/4 < ExactCases
}

// ExactSize is the size of index i.
func ExactSize(i int) int { return i / exactDocShapes }

// ExactStruct is the index of the i-th struct among the values of Exact.
func ExactStruct(i int) (int, bool) {
	n := 3 * exactSizes
	x := i / 4 * 7919 % n
	return x/3*exactDocShapes + 7 + x%3, i%4 == 0 && i/4 < n
}

type exactRest struct {
	I  int
	S  string `php:"s"`
	U  uint16
	F  float64
	B  bool `php:"b"`
	Y  []byte
	L  []int8
	A  [2]string
	M  map[string]int
	N  map[int]bool
	P  *int32
	O  struct{ X, Y int }
	E  []string
	Z  *string
	QI int  `php:"qi,string"`
	QB bool `php:"qb,string"`
}

var exactElems = []reflect.Type{
	reflect.TypeOf(false), reflect.TypeOf(int8(0)), reflect.TypeOf(0), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(0.5), reflect.TypeOf(""),
	BytesType, reflect.TypeOf(new(int)), reflect.TypeOf([2]bool{}), reflect.TypeOf(struct{ A int }{}), reflect.TypeOf([]int(nil)), reflect.TypeOf(map[string]int(nil)),
}

func exactElem(r R, o Opt) reflect.Type {
	if o.Any && r.IntN(6) == 0 {
		return AnyType
	}
	if len(o.Leaf) > 0 && r.IntN(2) == 0 {
		return Pick(r, o.Leaf...)
	}
	return Pick(r, exactElems...)
}

func exactText(r R, n int) string {
	switch r.IntN(4) {
	case 0:
		return RandBytes(r, n)
	case 1:
		return strings.Repeat(`";}a:1:{s:0:"";`, n/15+1)[:n]
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	return string(b)
}

// Exact generates the i-th value.
func Exact(r R, o Opt, i int) reflect.Value {
	defer Giant(Giant(false))
	n := ExactSize(i)
	e := exactElem(r, o)
	small := o
	small.Depth, small.MaxLen, small.MaxMap, small.Big = 1, 2, 2, false
	elem := func(w reflect.Value) {
		x := Value(r, w.Type(), small)
		w.Set(x)
	}
	mk := func(t reflect.Type) reflect.Value { return reflect.New(t).Elem() }
	switch i % exactDocShapes % exactShapes {
	case 0:
		v := mk(Pick(r, reflect.TypeOf(""), reflect.TypeOf(NString(""))))
		v.SetString(exactText(r, n))
		return v
	case 1:
		v := mk(BytesType)
		v.SetBytes([]byte(exactText(r, n)))
		return v
	case 2, 3:
		v := mk(reflect.SliceOf(e))
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			elem(v.Index(i))
		}
		return v
	case 4:
		v := mk(reflect.ArrayOf(n, e))
		for i := 0; i < n; i++ {
			elem(v.Index(i))
		}
		return v
	case 5, 6:
		k := KeyType(r, o)
		v := mk(reflect.MapOf(k, e))
		v.Set(reflect.MakeMap(v.Type()))
		for i := 0; i < n; i++ {
			if k, ok := WideKey(k, i); ok {
				x := mk(e)
				elem(x)
				v.SetMapIndex(k, x)
			}
		}
		return v
	case 7:
		v := mk(WideStruct(r, o, e, n))
		for i := 0; i < n; i++ {
			elem(v.Field(i))
		}
		return v
	case 8: // n of at least n fields are written
		fs := make([]reflect.StructField, n+r.IntN(40))
		for i := range fs {
			fs[i] = reflect.StructField{Name: "F" + strconv.Itoa(i), Type: reflect.TypeOf(0), Tag: `php:",omitempty"`}
		}
		v := mk(reflect.StructOf(fs))
		for _, i := range r.Perm(len(fs))[:n] {
			v.Field(i).SetInt(1 + int64(r.IntN(300)))
		}
		return v
	case 9: // a name of n bytes
		name := strings.Map(func(c rune) rune {
			if c >= 'a' && c <= 'z' {
				return c
			}
			return 'k'
		}, exactText(r, n))
		f := reflect.StructField{Name: "A", Type: e}
		if o.Tags && r.IntN(2) == 0 {
			f.Tag = reflect.StructTag(`php:"` + name + `"`)
		} else {
			f.Name = "X" + name
		}
		v := mk(reflect.StructOf([]reflect.StructField{f, {Name: "After", Type: reflect.TypeOf("")}}))
		elem(v.Field(0))
		v.Field(1).SetString("after")
		return v
	case 10: // a map key of n bytes
		v := mk(reflect.MapOf(reflect.TypeOf(""), e))
		v.Set(reflect.MakeMap(v.Type()))
		x := mk(e)
		elem(x)
		v.SetMapIndex(reflect.ValueOf(exactText(r, n)), x)
		return v
	case 11: // n levels
		return exactDeep(r, o, n)
	default: // everything else begins n bytes later
		t := reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: reflect.TypeOf("")}, {Name: "Rest", Type: reflect.TypeOf(exactRest{})}, {Name: "Elem", Type: e}})
		v := mk(t)
		v.Field(0).SetString(exactText(r, n))
		elem(v.Field(1))
		elem(v.Field(2))
		return v
	}
}

type (
	exactList struct{ L []exactList }
	exactNext struct {
		V int
		N *exactNext `php:"n"`
	}
	exactTree map[string]exactTree
)

func exactDeep(r R, o Opt, n int) reflect.Value {
	switch r.IntN(4) {
	case 0:
		var l exactList
		for i := 1; i < n; i++ {
			l = exactList{L: []exactList{l}}
		}
		return reflect.ValueOf(&l).Elem()
	case 1:
		x := &exactNext{V: n}
		for i := 1; i < n; i++ {
			x = &exactNext{V: i, N: x}
		}
		return reflect.ValueOf(&x).Elem()
	case 2:
		if o.Any {
			var x any = n
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					x = []any{x}
				} else {
					x = map[string]any{"k": x}
				}
			}
			return reflect.ValueOf(&x).Elem()
		}
	}
	t := exactTree{}
	for i := 1; i < n; i++ {
		t = exactTree{"k": t}
	}
	return reflect.ValueOf(&t).Elem()
}

// ExactDoc generates the i-th document, with a destination type.
func ExactDoc(r R, o Opt, i int) (t reflect.Type, doc *phpdoc.Node) {
	defer Giant(Giant(false))
	n := ExactSize(i)
	e := exactElem(r, o)
	elem := func() *phpdoc.Node { return DocFor(r, e, 1, 0, true) }
	doc = phpdoc.Arr()
	entry := func(k, v *phpdoc.Node) { doc.Ent = append(doc.Ent, phpdoc.Entry{Key: k, Val: v}) }
	object := func() {
		if doc.K, doc.S = 'O', ClassName(r); r.IntN(2) == 0 {
			doc.S = "C"
		}
	}
	str := reflect.TypeOf("")
	switch i % exactDocShapes {
	case 0, 1:
		t = reflect.SliceOf(e)
		if i%2 == 1 {
			t = reflect.ArrayOf(max(0, n+r.IntN(3)-1), e)
		}
		for i := 0; i < n; i++ {
			entry(phpdoc.Int(int64(i)), elem())
		}
	case 2, 3:
		t = reflect.MapOf(KeyType(r, o), e)
		for i := 0; i < n; i++ {
			if k, ok := WideKey(t.Key(), i); ok {
				key := phpdoc.Str(k.String())
				if k.CanInt() {
					key = phpdoc.Int(k.Int())
				} else if k.CanUint() {
					key = phpdoc.Int(int64(k.Uint()))
				}
				entry(key, elem())
			}
		}
		if t.Key().Kind() == reflect.String && r.IntN(2) == 0 {
			object()
		}
	case 4, 5: // every field, or unknown ones around two
		t = WideStruct(r, o, e, n)
		for i := 0; i < n; i++ {
			entry(phpdoc.Str(Field(t.Field(i)).Key), elem())
		}
		if i%2 == 1 {
			t = reflect.StructOf([]reflect.StructField{{Name: "F0", Type: e}, {Name: "Last", Type: str}})
		}
		entry(phpdoc.Str("Last"), phpdoc.Str("last"))
		if r.IntN(2) == 0 {
			object()
		}
	case 6: // a string
		t = Pick(r, str, BytesType, reflect.TypeOf(NString("")))
		doc = phpdoc.Str(exactText(r, n))
	case 7, 8: // a key
		key := exactText(r, n)
		switch r.IntN(3) {
		case 0:
			t = reflect.MapOf(str, e)
			entry(phpdoc.Str(key), elem())
			entry(phpdoc.Str("after"), elem())
		case 1: // unknown
			t = reflect.StructOf([]reflect.StructField{{Name: "After", Type: e}})
			entry(phpdoc.Str(key), Doc(r, 2, false))
			entry(phpdoc.Str("After"), elem())
		default:
			for {
				v := Exact(r, o, n*exactDocShapes+9)
				if t = v.Type(); t.NumField() == 2 {
					break
				}
			}
			entry(phpdoc.Str(Field(t.Field(0)).Key), DocFor(r, t.Field(0).Type, 1, 0, true))
			entry(phpdoc.Str("After"), phpdoc.Str("after"))
			// an equally long key
			entry(phpdoc.Str(strings.Repeat("z", len(Field(t.Field(0)).Key))), Doc(r, 1, false))
		}
		if r.IntN(2) == 0 {
			object()
		}
	case 9: // a class name
		switch r.IntN(3) {
		case 0:
			t = reflect.MapOf(str, e)
			entry(phpdoc.Str("k"), elem())
		case 1:
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: e}})
			entry(phpdoc.Str("A"), elem())
		default:
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: str}})
			entry(phpdoc.Str("skipped"), phpdoc.Obj(exactText(r, n), phpdoc.Entry{Key: phpdoc.Str("p"), Val: Doc(r, 1, false)}))
			entry(phpdoc.Str("A"), phpdoc.Str("a"))
		}
		doc.K, doc.S = 'O', exactText(r, n)
	case 10, 11: // n levels
		x := phpdoc.Int(int64(n))
		for i := 0; i < n; i++ {
			switch r.IntN(3) {
			case 0:
				x = phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Int(0), Val: x})
			case 1:
				x = phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("k"), Val: x})
			default:
				x = phpdoc.Obj("C", phpdoc.Entry{Key: phpdoc.Str("k"), Val: x})
			}
		}
		if o.Any && i%2 == 0 {
			return AnyType, x
		}
		t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: str}})
		entry(phpdoc.Str("skipped"), x)
		entry(phpdoc.Str("A"), phpdoc.Str("a"))
	case 12: // one index
		t = reflect.SliceOf(e)
		if r.IntN(2) == 0 {
			t = reflect.ArrayOf(max(0, n+r.IntN(3)-1), e)
		}
		entry(phpdoc.Int(int64(n)), elem())
		if r.IntN(2) == 0 {
			entry(phpdoc.Int(int64(n/2)), elem())
		}
	case 13: // digits
		switch r.IntN(3) {
		case 0:
			t, doc = reflect.TypeOf(0), phpdoc.IntText(strings.Repeat("0", n)+"7")
		case 1:
			t, doc = reflect.TypeOf(0.5), phpdoc.FloatText("0."+strings.Repeat("3", n+1))
		default:
			t, doc = reflect.TypeOf(0.5), phpdoc.FloatText("1"+strings.Repeat("0", n)+".5e-"+strconv.Itoa(n))
		}
	default: // everything else begins n bytes later
		t = reflect.StructOf([]reflect.StructField{{Name: "Pad", Type: str}, {Name: "Rest", Type: reflect.TypeOf(exactRest{})}, {Name: "Elem", Type: e}})
		entry(phpdoc.Str("Pad"), phpdoc.Str(exactText(r, n)))
		if r.IntN(2) == 0 {
			entry(phpdoc.Str("unknown"), Doc(r, 2, false))
		}
		entry(phpdoc.Str("Rest"), DocFor(r, reflect.TypeOf(exactRest{}), 2, 0, true))
		entry(phpdoc.Str("Elem"), elem())
	}
	return t, doc
}
