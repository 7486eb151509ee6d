// Package gen generates Go types, values and PHP documents.
package gen

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
)

type R = *rand.Rand

// Opt bounds what is generated.
type Opt struct {
	Depth     int  // nesting of the type
	Any       bool // interface{} parts
	Named     bool // named kinds and catalog structs
	Recursive bool // recursive catalog types
	Tags      bool // struct tags with options
	AnyString bool // string option on interface fields (encoding only)
	MaxMap    int  // max entries of a map value (0: default)
	MaxLen    int  // max length of slices (0: default)
	NoMap     bool
	Big       bool           // now and then large strings and slices
	NoStr     bool           // no string option
	Leaf      []reflect.Type // types with custom methods, used often
	Dyn       *Pool
	budget    *int
}

// Pool keeps the types that dynamic values are made of, so that a process
// does not create an unbounded number of distinct types.
type Pool struct {
	Types []reflect.Type
}

// NewPool makes a pool of n concrete types.
func NewPool(r R, o Opt, n int) *Pool {
	p := &Pool{}
	o.Dyn = nil
	for len(p.Types) < n {
		t := typ(r, o, r.IntN(4))
		if t.Kind() != reflect.Interface {
			p.Types = append(p.Types, t)
		}
	}
	return p
}

// Fillers set values of types that cannot be filled by kind.
var Fillers = map[reflect.Type]func(r R, v reflect.Value){}

// AnyDoc are the types that take any document.
var AnyDoc = map[reflect.Type]bool{}

type (
	NBool    bool
	NInt     int
	NInt8    int8
	NInt16   int16
	NInt32   int32
	NInt64   int64
	NUint    uint
	NUint8   uint8
	NUint16  uint16
	NUint32  uint32
	NUint64  uint64
	NFloat32 float32
	NFloat64 float64
	NString  string
	NAny     any
	NSlice   []int
	NStrs    []string
	NMap     map[string]int
	NIMap    map[int]string
	NArr     [3]int16
	NBytes   []byte
	NAnys    []any
	NAnyMap  map[string]any
)

func tf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var (
	AnyType   = tf[any]()
	BytesType = tf[[]byte]()
	plain     = []reflect.Type{
		tf[bool](), tf[int](), tf[int8](), tf[int16](), tf[int32](), tf[int64](),
		tf[uint](), tf[uint8](), tf[uint16](), tf[uint32](), tf[uint64](),
		tf[float32](), tf[float64](), tf[string](), tf[string](), tf[int](), tf[bool](),
	}
	named = []reflect.Type{
		tf[NBool](), tf[NInt](), tf[NInt8](), tf[NInt16](), tf[NInt32](), tf[NInt64](),
		tf[NUint](), tf[NUint8](), tf[NUint16](), tf[NUint32](), tf[NUint64](),
		tf[NFloat32](), tf[NFloat64](), tf[NString](),
	}
	Keys = []reflect.Type{
		tf[string](), tf[int](), tf[int8](), tf[int16](), tf[int32](), tf[int64](),
		tf[uint](), tf[uint8](), tf[uint16](), tf[uint32](), tf[uint64](), tf[string](), tf[string](),
	}
	namedKeys  = []reflect.Type{tf[NString](), tf[NInt](), tf[NInt8](), tf[NUint16](), tf[NInt64](), tf[NUint64]()}
	namedOther = []reflect.Type{tf[NSlice](), tf[NStrs](), tf[NMap](), tf[NIMap](), tf[NArr](), tf[NBytes]()}
	namedAny   = []reflect.Type{tf[NAny](), tf[NAnys](), tf[NAnyMap]()}
)

// Scalars are all scalar types, plain and named.
func Scalars() []reflect.Type {
	return append(append([]reflect.Type{}, plain[:14]...), named...)
}

// Ints are all integer types, plain and named.
func Ints() []reflect.Type {
	return append(append([]reflect.Type{}, plain[1:11]...), named[1:11]...)
}

func pick[T any](r R, s []T) T { return s[r.IntN(len(s))] }

// Pick picks one element.
func Pick[T any](r R, s ...T) T { return s[r.IntN(len(s))] }

func Scalar(r R, o Opt) reflect.Type {
	if o.Named && r.IntN(4) == 0 {
		return pick(r, named)
	}
	return pick(r, plain)
}

func KeyType(r R, o Opt) reflect.Type {
	if o.Named && r.IntN(4) == 0 {
		return pick(r, namedKeys)
	}
	return pick(r, Keys)
}

// Type generates a type every value of which can be marshalled.
func Type(r R, o Opt) reflect.Type { return typ(r, o, o.Depth) }

func typ(r R, o Opt, d int) reflect.Type {
	if len(o.Leaf) > 0 && (d <= 1 && r.IntN(2) == 0 || r.IntN(6) == 0) {
		return pick(r, o.Leaf)
	}
	if d <= 0 {
		switch {
		case o.Any && r.IntN(6) == 0:
			return AnyType
		case r.IntN(10) == 0:
			return BytesType
		}
		return Scalar(r, o)
	}
	for {
		switch r.IntN(14) {
		case 0, 1:
			return Scalar(r, o)
		case 2:
			return BytesType
		case 3, 4:
			return reflect.SliceOf(typ(r, o, d-1))
		case 5:
			e := typ(r, o, d-1)
			n := Pick(r, 0, 1, 1, 2, 2, 3, 4, 11)
			if k := e.Kind(); k < reflect.Array && r.IntN(8) == 0 {
				n = Pick(r, 8, 12, 16, 20, 24, 32, 33, 64)
			}
			return reflect.ArrayOf(n, e)
		case 6, 7:
			if o.NoMap {
				continue
			}
			return reflect.MapOf(KeyType(r, o), typ(r, o, d-1))
		case 8:
			e := typ(r, o, d-1)
			if e.Kind() == reflect.Pointer {
				continue
			}
			return reflect.PointerTo(e)
		case 9, 10, 11:
			return Struct(r, o, d)
		case 12:
			if o.Any {
				if o.Named && r.IntN(4) == 0 {
					return pick(r, namedAny)
				}
				return AnyType
			}
		case 13:
			if o.Named && !o.NoStr && r.IntN(3) == 0 {
				return twinType(r, o)
			}
			if o.Named && !o.NoMap && r.IntN(2) == 0 {
				return pick(r, namedOther)
			}
			if o.Recursive && !o.NoMap {
				if o.Any {
					return pick(r, AnyCatalog)
				}
				return pick(r, Catalog)
			}
		}
	}
}

var fieldNames = []string{"A", "B", "C", "D", "E", "F", "G", "Ab", "AB", "ABC", "Id", "ID", "Name", "NAME", "Value", "X", "Y", "Z", "Élan", "Ω", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8", "LongFieldNameWithManyCharacters", "Key", "Type", "Z9"}

var tagNames = []string{"a", "b", "c", "A", "aa", "Aa", "a b", "a.b", "a-b", "a/b", "x:y", "[0]", "{}", "0", "1", "10", "-1", "<tag>", "é", "日本語", "name", "Name", "n@me", "a&b", "100%", "a=b", "key", "kEy", "-x", "--", "#", "*", "$ref", "?q", "~t", "^", "|p", "(k)", "!", "a+b", "with space ", " ", "veryLongTagNameThatIsLongerThanSixtyFourBytesToCheckLengthDigits0123456789_0123456789"}

var badTagNames = []string{`a\b`, "a'b", "a;b", "a`b", `a"b`, "a\tb", "'"}

// Struct generates a struct type with unique keys.
func Struct(r R, o Opt, d int) reflect.Type {
	n := r.IntN(6)
	switch r.IntN(12) {
	case 0:
		n = 0
	case 1:
		n = 8 + r.IntN(14)
	case 2:
		if r.IntN(10) == 0 {
			n = Pick(r, 31, 32, 33, 63, 64, 65, 100, 128, 129, 256, 257)
		}
	}
	var fs []reflect.StructField
	used := map[string]bool{}
	perm := r.Perm(len(fieldNames))
	for i := 0; i < n; i++ {
		name := fieldNames[perm[i%len(perm)]]
		if i >= len(perm) {
			name = fmt.Sprintf("%s_%d", name, i)
		}
		f := reflect.StructField{Name: name}
		fd := d - 1
		if n > 6 {
			fd = min(fd, 1)
			if n > 30 {
				fd = 0
			}
		}
		f.Type = typ(r, o, fd)
		tag := ""
		if o.Tags {
			switch r.IntN(16) {
			case 0:
				f.Name = strings.ToLower(name[:1]) + name[1:] + "x"
				if f.Name[0] < 'a' || f.Name[0] > 'z' {
					f.Name = fmt.Sprintf("unexported%d", i)
				}
				f.PkgPath = "vmon/gen"
				tag = Pick(r, "", fmt.Sprintf("u%d", i))
			case 1:
				tag = "-"
			case 2:
				tag = "-,"
			case 3, 4:
				// no tag
			case 5:
				tag = pick(r, badTagNames)
			case 6:
				tag = ","
			default:
				tag = pick(r, tagNames)
				if i > 20 {
					tag += strconv.Itoa(i)
				}
				if r.IntN(40) == 0 {
					tag = longName(r)
				}
			}
			if tag != "-" {
				if r.IntN(3) == 0 {
					tag = opt(tag, "omitempty")
				}
				base := f.Type
				if base.Kind() == reflect.Pointer {
					base = base.Elem()
				}
				if o.NoStr || Fillers[base] != nil || AnyDoc[base] {
					// custom methods and the string option: unspecified
				} else if IsScalar(base) || (o.AnyString && f.Type.Kind() == reflect.Interface && f.Type.NumMethod() == 0) {
					if r.IntN(4) == 0 {
						tag = opt(tag, "string")
					}
				}
				if r.IntN(12) == 0 {
					tag = opt(tag, Pick(r, "unknown", "", "OMITEMPTY", "String", " string"))
				}
			}
			f.Tag = mkTag(r, tag)
			fi := Field(f)
			if fi.Skip {
				fs = append(fs, f)
				continue
			}
			if used[fi.Key] {
				continue
			}
			used[fi.Key] = true
		}
		fs = append(fs, f)
	}
	// distinct Go names are guaranteed by perm, except for lowered ones
	seen := map[string]bool{}
	var out []reflect.StructField
	for _, f := range fs {
		if !seen[f.Name] {
			seen[f.Name] = true
			out = append(out, f)
		}
	}
	return reflect.StructOf(out)
}

// longName is a name which needs more than a short buffer.
func longName(r R) string {
	n := Pick(r, 32, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 999, 1000, 1024)
	if r.IntN(8) == 0 {
		n = Pick(r, 2048, 4095, 4096, 10000, 65535, 65536)
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i*i%26)
	}
	b[r.IntN(n)] = byte('0' + r.IntN(10))
	b[n-1] = byte('A' + r.IntN(26))
	return string(b)
}

func mkTag(r R, tag string) reflect.StructTag {
	if tag == "" {
		return reflect.StructTag(Pick(r, "", `json:"zzz"`))
	}
	s := fmt.Sprintf("php:%q", tag)
	if r.IntN(6) == 0 {
		s = `json:"other,omitempty" ` + s
	}
	return reflect.StructTag(s)
}

func opt(tag, o string) string {
	if !strings.Contains(tag, ",") {
		return tag + "," + o
	}
	return strings.TrimSuffix(tag, ",") + "," + o
}

func IsScalar(t reflect.Type) bool {
	k := t.Kind()
	return k >= reflect.Bool && k <= reflect.Uint64 || k == reflect.Float32 || k == reflect.Float64 || k == reflect.String
}

func IsInt(t reflect.Type) bool {
	return t.Kind() >= reflect.Int && t.Kind() <= reflect.Int64
}
func IsUint(t reflect.Type) bool {
	return t.Kind() >= reflect.Uint && t.Kind() <= reflect.Uint64
}

// FieldInfo is the documented meaning of a struct field.
type FieldInfo struct {
	Key  string
	Skip bool
	Omit bool
	Str  bool
}

const tagPunct = "!#$%&()*+-./:<=>?@[]^_{|}~ "

// Field interprets the php tag of a field (independent implementation).
func Field(f reflect.StructField) FieldInfo {
	if f.PkgPath != "" {
		return FieldInfo{Skip: true}
	}
	tag := f.Tag.Get("php")
	if tag == "-" {
		return FieldInfo{Skip: true}
	}
	name, rest, _ := strings.Cut(tag, ",")
	fi := FieldInfo{Key: name}
	ok := name != ""
	for _, c := range name {
		if !strings.ContainsRune(tagPunct, c) && !isLetterOrDigit(c) {
			ok = false
		}
	}
	if !ok {
		fi.Key = f.Name
	}
	for rest != "" {
		var o string
		o, rest, _ = strings.Cut(rest, ",")
		switch o {
		case "omitempty":
			fi.Omit = true
		case "string":
			fi.Str = true
		}
	}
	return fi
}

// DynType picks the dynamic type of an interface value.
func DynType(r R, o Opt, d int) reflect.Type {
	if o.Dyn != nil {
		return pick(r, o.Dyn.Types)
	}
	t := typ(r, o, min(d, 3))
	for t.Kind() == reflect.Interface {
		t = typ(r, o, min(d, 3))
	}
	return t
}
