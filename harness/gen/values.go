package gen

import (
	"math"
	"reflect"
	"strconv"
	"strings"
	"sync/atomic"

	"vmon/phpdoc"
)

var pow10 = func() []uint64 {
	var p []uint64
	for v := uint64(1); ; v *= 10 {
		p = append(p, v)
		if v > math.MaxUint64/10 {
			return p
		}
	}
}()

// IntBits generates a boundary biased integer of the given width.
func IntBits(r R, bits int) int64 {
	lo, hi := int64(-1)<<(bits-1), int64(1)<<(bits-1)-1
	var v int64
	switch r.IntN(8) {
	case 0:
		return Pick(r, lo, lo+1, hi, hi-1, 0, 1, -1)
	case 1, 2:
		v = int64(r.IntN(301) - 150)
	case 3:
		v = int64(pick(r, pow10)) + int64(r.IntN(3)-1)
		if r.IntN(2) == 0 {
			v = -v
		}
	case 4:
		v = int64(1)<<r.IntN(64) + int64(r.IntN(3)-1)
		if r.IntN(2) == 0 {
			v = -v
		}
	default:
		v = int64(r.Uint64()) >> r.IntN(64)
	}
	if v < lo || v > hi {
		v = v << (64 - bits) >> (64 - bits)
	}
	return v
}

func UintBits(r R, bits int) uint64 {
	hi := uint64(math.MaxUint64) >> (64 - bits)
	var v uint64
	switch r.IntN(8) {
	case 0:
		return Pick(r, hi, hi-1, 0, 1, hi>>1, hi>>1+1)
	case 1, 2:
		v = uint64(r.IntN(300))
	case 3:
		v = pick(r, pow10) + uint64(r.IntN(3)) - 1
	case 4:
		v = uint64(1)<<r.IntN(64) + uint64(r.IntN(3)) - 1
	default:
		v = r.Uint64() >> r.IntN(64)
	}
	return v & hi
}

var specialFloats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, -0.1, 1.0 / 3, math.Inf(1), math.Inf(-1), math.NaN(),
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 2.225073858507201e-308,
	math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1.1754943508222875e-38, 1e-6, 9.999999999e-7, 1.0000001e-6, 1e-7, 1e20, 1e21, 9.99999999e20, 1e22, 123456789, 1e15, 1e16, 1e17,
	9007199254740991, 9007199254740992, 9007199254740993, 4503599627370496.5, 0.5, 1.5, 100, 1e100, 1e-100, 5e-324, 1.7976931348623157e308, 3.4028234e38, 16777216, 16777217, 0.30000000000000004, 2.5e-5}

func Float64(r R) float64 {
	switch r.IntN(6) {
	case 0, 1:
		return pick(r, specialFloats)
	case 2:
		return float64(r.IntN(2000)-1000) / 8
	case 3:
		return math.Ldexp(r.Float64()*2-1, r.IntN(2100)-1074)
	case 4:
		return float64(IntBits(r, 64))
	}
	return math.Float64frombits(r.Uint64())
}

func Float32(r R) float32 {
	switch r.IntN(6) {
	case 0, 1:
		return float32(pick(r, specialFloats))
	case 2:
		return float32(r.IntN(2000)-1000) / 8
	case 3:
		return float32(math.Ldexp(r.Float64()*2-1, r.IntN(280)-149))
	case 4:
		return float32(IntBits(r, 32))
	}
	return math.Float32frombits(r.Uint32())
}

var specialStrings = []string{"", "a", `"`, `";`, `";}`, `s:1:"a";`, "N;", "a:0:{}", `O:8:"stdClass":0:{}`, "{", "}", ":", ";", "\x00", "\xff\xfe", "é", "日本語文字列", "叛逆的鲁鲁修", "0", "1", "-1", "true", "null", "i:5;", "\n\r\t", `\`, `\"`, "'", "😀", "\x00*\x00prot", "\x00Cls\x00priv", "a\x00b", "12345678901234567890", "1.5", "INF", " lead", "trail ", `a:1:{i:0;s:3:"x";}`}

// String generates hostile strings; lengths cluster around digit count and
// buffer size changes.
func String(r R, big bool) string {
	if big && giant.Load() && r.IntN(2) == 0 && giants.Add(1) <= 0 {
		return giantText(r)
	}
	switch r.IntN(10) {
	case 9: // alike: same length, one byte differs
		b := []byte(alike[:Pick(r, 2, 3, 4, 5, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40, 64, 65, 100, 130)])
		b[Pick(r, 0, 1, len(b)/2, len(b)-2, len(b)-1, r.IntN(len(b)))] = Pick[byte](r, 'x', 'y', '0')
		return string(b)
	case 8: // numeric text, which php would take for an integer key
		switch r.IntN(4) {
		case 0:
			return IntText(r, false)
		case 1:
			return FloatText(r)
		}
		return strconv.FormatInt(IntBits(r, 1+r.IntN(64)), 10)
	case 0, 1, 2:
		return pick(r, specialStrings)
	case 3:
		return strings.Repeat(pick(r, specialStrings), r.IntN(5))
	case 4:
		n := Pick(r, 8, 9, 10, 11, 63, 64, 65, 98, 99, 100, 101)
		if big && r.IntN(4) == 0 {
			n = Pick(r, 998, 999, 1000, 1001, 1015, 1016, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 9999, 10000, 65536)
		}
		return RandBytes(r, n)
	}
	return RandBytes(r, r.IntN(24))
}

// giant makes some texts very long.
var giant atomic.Bool

// Giant turns very long texts on or off, and returns how it was.
func Giant(on bool) bool { return giant.Swap(on) }

// giants counts the very long texts; NewGiants allows a few more.
var giants atomic.Int32

func NewGiants(n int) { giants.Store(int32(-n)) }

// longLists makes some lists of small values very long, when texts are.
var longLists atomic.Bool

// LongLists turns very long lists on or off, and returns how it was.
func LongLists(on bool) bool { return longLists.Swap(on) }

// IsGiant tells whether texts may be very long.
func IsGiant() bool { return giant.Load() }

// Around is a struct with fields of type t and more among lists and texts.
func Around(r R, t reflect.Type, more ...reflect.Type) reflect.Type {
	fs := []reflect.StructField{{Name: "L", Type: Pick(r, reflect.TypeOf([]any{}), reflect.TypeOf([]int{}), reflect.TypeOf([]*int{}))}, {Name: "A", Type: BytesType}, {Name: "V", Type: t}, {Name: "B", Type: reflect.TypeOf([][]byte{})}, {Name: "S", Type: reflect.TypeOf("")}, {Name: "N", Type: reflect.TypeOf(0)}}
	for i, m := range more {
		fs = append(fs, reflect.StructField{Name: "W" + strconv.Itoa(i), Type: m})
	}
	if r.IntN(2) == 0 {
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	return reflect.StructOf(fs)
}

func giantText(r R) string {
	n := 1<<Pick(r, 16, 17, 18, 19, 20, 20, 20) + Pick(r, 0, 0, 1, -1, r.IntN(60000))
	block := RandBytes(r, 1+r.IntN(80))
	b := make([]byte, 0, n+len(block))
	for len(b) < n {
		b = append(b, block...)
	}
	b = b[:n]
	copy(b[n-8:], Pick(r, "", `"`, `";`, `";}`, "é", "12345678"))
	if r.IntN(2) == 0 {
		b[n-1] = Pick[byte](r, '"', ';', '}', 0, 'x')
	}
	return string(b)
}

var alike = strings.Repeat("alike_but_not_the_same ", 6)

func RandBytes(r R, n int) string {
	b := make([]byte, n)
	mode := r.IntN(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.IntN(256))
		case 1:
			b[i] = byte(' ' + r.IntN(95))
		default:
			b[i] = `";:{}0123456789aOsidbN`[r.IntN(22)]
		}
	}
	return string(b)
}

func length(r R, o Opt, d int) int {
	m := o.MaxLen
	if m == 0 {
		m = 4
	}
	if d < -3 {
		return r.IntN(2)
	}
	if o.Big && d >= 0 && r.IntN(40) == 0 {
		return Pick(r, 9, 10, 11, 12, 99, 100, 101, 130)
	}
	return r.IntN(m + 1)
}

// Value generates a value of type t. Same r state, same value.
func Value(r R, t reflect.Type, o Opt) reflect.Value {
	if o.budget == nil {
		n := 400
		o.budget = &n
	}
	v := reflect.New(t).Elem()
	Fill(r, v, o, o.Depth)
	return v
}

// Fill sets v to a random value; d bounds recursion.
func Fill(r R, v reflect.Value, o Opt, d int) {
	t := v.Type()
	if f := Fillers[t]; f != nil {
		f(r, v)
		return
	}
	if o.budget != nil {
		if *o.budget--; *o.budget < 0 {
			return
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(IntBits(r, t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(UintBits(r, t.Bits()))
	case reflect.Float32:
		v.SetFloat(float64(Float32(r)))
	case reflect.Float64:
		v.SetFloat(Float64(r))
	case reflect.String:
		if r.IntN(8) > 0 {
			v.SetString(String(r, o.Big))
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			switch r.IntN(6) {
			case 0:
			case 1:
				v.Set(reflect.MakeSlice(t, 0, Pick(r, 0, 0, 1, 40)))
			default:
				s := String(r, o.Big)
				sl := reflect.MakeSlice(t, len(s), len(s)+Pick(r, 0, 0, 1, 2, 24, 100))
				copy(sl.Bytes(), s)
				v.Set(sl)
			}
			return
		}
		if r.IntN(6) == 0 || d < -5 {
			return
		}
		n := length(r, o, d)
		v.Set(reflect.MakeSlice(t, n, n+Pick(r, 0, 0, 0, 1, 1, 2, 5)))
		for i := 0; i < n; i++ {
			Fill(r, v.Index(i), o, d-1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			Fill(r, v.Index(i), o, d-1)
		}
	case reflect.Map:
		if r.IntN(6) == 0 || d < -5 {
			return
		}
		n := length(r, o, d)
		if o.MaxMap > 0 {
			n = min(n, o.MaxMap)
		}
		v.Set(reflect.MakeMap(t))
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			Fill(r, k, o, 0)
			e := reflect.New(t.Elem()).Elem()
			Fill(r, e, o, d-1)
			v.SetMapIndex(k, e)
		}
	case reflect.Pointer:
		if r.IntN(4) == 0 || d < -5 {
			return
		}
		v.Set(reflect.New(t.Elem()))
		Fill(r, v.Elem(), o, d-1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" && !t.Field(i).Anonymous {
				// never serialised, but part of the value
				if IsScalar(t.Field(i).Type) && v.Field(i).CanAddr() && r.IntN(2) == 0 {
					Fill(r, hidden(v.Field(i)), Opt{}, 0)
				}
				continue
			}
			if t.Field(i).PkgPath != "" {
				continue
			}
			if r.IntN(6) == 0 && Fillers[t.Field(i).Type] == nil {
				continue // zero, for omitempty
			}
			fo := o
			if Field(t.Field(i)).Str && t.Field(i).Type.Kind() == reflect.Interface {
				ScalarIface(r, v.Field(i))
				continue
			}
			Fill(r, v.Field(i), fo, d-1)
		}
	case reflect.Interface:
		if r.IntN(6) == 0 || d < -5 {
			return
		}
		if t.NumMethod() > 0 {
			if t == tf[Stringy]() {
				e := reflect.New(pick(r, stringies)).Elem()
				Fill(r, e, o, d-1)
				if e.Kind() != reflect.Pointer || !e.IsNil() {
					v.Set(e)
				}
			}
			return
		}
		dt := DynType(r, o, d)
		if r.IntN(3) == 0 {
			dt = Scalar(r, o)
		}
		e := reflect.New(dt).Elem()
		Fill(r, e, o, d-1)
		v.Set(e)
	default:
		// kinds that cannot be marshalled stay zero
	}
}

// ScalarIface stores a random scalar, a pointer to one, or nil.
func ScalarIface(r R, v reflect.Value) {
	if r.IntN(6) == 0 {
		return
	}
	e := reflect.New(pick(r, Scalars()))
	Fill(r, e.Elem(), Opt{}, 0)
	if r.IntN(4) == 0 {
		v.Set(e)
	} else {
		v.Set(e.Elem())
	}
}

// ---- documents -------------------------------------------------------------

// IntText generates the text of an integer token, sometimes out of range of
// every Go type, sometimes with leading zeros.
func IntText(r R, weird bool) string {
	switch r.IntN(10) {
	case 0, 1, 2, 3:
		return phpdoc.Int(int64(r.IntN(301) - 100)).T
	case 4, 5:
		return phpdoc.Int(IntBits(r, Pick(r, 8, 16, 32, 64))).T
	case 6:
		return phpdoc.Uint(UintBits(r, Pick(r, 8, 16, 32, 64))).T
	case 7:
		if weird {
			return pick(r, EdgeInts)
		}
	case 8:
		if weird {
			return Pick(r, "", "-") + strings.Repeat("0", r.IntN(25)) + phpdoc.Int(int64(r.IntN(100000))).T
		}
	case 9:
		if weird {
			n := 1 + r.IntN(25)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('0' + r.IntN(10))
			}
			return Pick(r, "", "-") + string(b)
		}
	}
	return phpdoc.Int(IntBits(r, 64)).T
}

var EdgeInts = []string{"127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809", "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617", "28446744073709551615", "19223372036854775808", "27670116110564327424", "36893488147419103232", "99999999999999999999", "100000000000000000000", "184467440737095516150", "-18446744073709551616", "-18446744073709551615", "-0", "0", "340282366920938463463374607431768211456"}

var floatTexts = []string{"0", "1", "-1", "1.5", "-0", "-0.0", "0.1", "1e5", "1E5", "1.5e-5", "1.0E+25", "1.0E-10", "INF", "-INF", "NAN", "1e308", "1.7976931348623157E+308", "4.9E-324", "2.2250738585072011e-308", "123456789.123456789", "0.1000000000000000055511151231257827021181583404541015625", "9007199254740993", "3.4028235E+38", "1e-400", "100", ".5", "5."}

func FloatText(r R) string {
	if r.IntN(2) == 0 {
		return pick(r, floatTexts)
	}
	return floatToken(Float64(r))
}

func floatToken(f float64) string {
	switch {
	case math.IsNaN(f):
		return "NAN"
	case math.IsInf(f, 1):
		return "INF"
	case math.IsInf(f, -1):
		return "-INF"
	}
	s := fmtFloat(f)
	return s
}

// Doc generates any well-formed document.
func Doc(r R, d int, big bool) *phpdoc.Node {
	if big && giant.Load() && longLists.Load() && r.IntN(20) == 0 {
		n := phpdoc.Arr()
		for i := r.IntN(80000); i >= 0; i-- {
			n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Int(int64(len(n.Ent))), Val: phpdoc.Null()})
		}
		return n
	}
	k := r.IntN(10)
	if d <= 0 {
		k = r.IntN(6)
	}
	switch k {
	case 0:
		return phpdoc.Null()
	case 1:
		return phpdoc.Bool(r.IntN(2) == 0)
	case 2:
		return phpdoc.IntText(IntText(r, false))
	case 3:
		return phpdoc.FloatText(FloatText(r))
	case 4, 5:
		return phpdoc.Str(String(r, big))
	case 6:
		n := phpdoc.Obj(ClassName(r))
		used := map[string]bool{}
		for i := r.IntN(4); i > 0; i-- {
			s := String(r, false)
			if used[s] {
				continue
			}
			used[s] = true
			n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Str(s), Val: Doc(r, d-1, big)})
		}
		return n
	case 7:
		n := phpdoc.Arr()
		for i := r.IntN(4); i > 0; i-- {
			n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Int(int64(len(n.Ent))), Val: Doc(r, d-1, big)})
		}
		return n
	}
	n := phpdoc.Arr()
	used := map[string]bool{}
	for i := r.IntN(5); i > 0; i-- {
		key := phpdoc.Int(IntBits(r, 64))
		if r.IntN(2) == 0 {
			key = phpdoc.Str(String(r, false))
		}
		if used[key.String()] {
			continue
		}
		used[key.String()] = true
		n.Ent = append(n.Ent, phpdoc.Entry{Key: key, Val: Doc(r, d-1, big)})
	}
	return n
}

var classNames = []string{"stdClass", "A", "", "App\\Models\\User", `X":0:{}`, `a";`, "class@anonymous\x00/in/x.php:3$0", "é", "0", "O", `"`, "Foo{", "}", ":", "a:1:{i:0;N;}", "LongClassNameLongClassNameLongClassNameLongClassNameLongClassNameLongClassNameLongClassNameLongClassName1"}

func ClassName(r R) string {
	if r.IntN(24) == 0 {
		n := Pick(r, 127, 128, 255, 256, 257, 300, 1000)
		if r.IntN(20) == 0 {
			n = Pick(r, 65535, 65536, 70000)
		}
		return strings.Repeat(Pick(r, "c", "é", "\\", "}", `"`), n)
	}
	switch r.IntN(3) {
	case 0:
		return "stdClass"
	case 1:
		return pick(r, classNames)
	}
	return String(r, false)
}

// DocFor generates a well-formed document aimed at destination type t, with
// probability of about 1/miss per part of not fitting (0: always fits).
func DocFor(r R, t reflect.Type, d, miss int, objects bool) *phpdoc.Node {
	g := &docGen{r: r, miss: miss, obj: objects}
	return g.doc(t, d)
}

type docGen struct {
	n    int
	r    R
	miss int
	obj  bool
}

func (g *docGen) doc(t reflect.Type, d int) *phpdoc.Node {
	r := g.r
	if g.n++; g.n > 300 {
		return phpdoc.Null()
	}
	if g.miss > 0 && r.IntN(g.miss) == 0 {
		return Doc(r, 2, false)
	}
	if AnyDoc[t] {
		return Doc(r, 3, false)
	}
	if r.IntN(12) == 0 || d < -8 {
		if t.Kind() != reflect.Uint8 || r.IntN(2) == 0 {
			return phpdoc.Null()
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		return phpdoc.Bool(r.IntN(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if g.miss > 0 && r.IntN(g.miss) == 0 {
			return phpdoc.IntText(IntText(r, true))
		}
		return phpdoc.Int(IntBits(r, t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if g.miss > 0 && r.IntN(g.miss) == 0 {
			return phpdoc.IntText(IntText(r, true))
		}
		return phpdoc.Uint(min(UintBits(r, t.Bits()), math.MaxInt64))
	case reflect.Float32:
		return phpdoc.FloatText(floatToken(float64(Float32(r))))
	case reflect.Float64:
		return phpdoc.FloatText(FloatText(r))
	case reflect.String:
		return phpdoc.Str(String(r, true))
	case reflect.Pointer:
		return g.doc(t.Elem(), d)
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8 && r.IntN(4) > 0 {
			return phpdoc.Str(String(r, true))
		}
		n := phpdoc.Arr()
		m := r.IntN(5)
		if d < 0 {
			m = r.IntN(2)
		}
		if giant.Load() && longLists.Load() && t.Kind() == reflect.Slice && r.IntN(2) == 0 {
			e := t.Elem()
			if e.Kind() == reflect.Pointer {
				e = e.Elem()
			}
			switch e.Kind() {
			case reflect.Bool, reflect.Int, reflect.Int16, reflect.Float64, reflect.Interface:
				m, d = 65000+r.IntN(3000), -1
				defer func(n int) { g.n = n }(g.n)
				g.n = -1 << 20
			}
		}
		idx := 0
		for i := 0; i < m; i++ {
			n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Int(int64(idx)), Val: g.doc(t.Elem(), d-1)})
			idx++
			if r.IntN(4) == 0 {
				idx += r.IntN(3)
			}
		}
		if r.IntN(4) == 0 {
			r.Shuffle(len(n.Ent), func(i, j int) { n.Ent[i], n.Ent[j] = n.Ent[j], n.Ent[i] })
		}
		return n
	case reflect.Map:
		n := phpdoc.Arr()
		m := r.IntN(5)
		if d < 0 {
			m = r.IntN(2)
		}
		used := map[string]bool{}
		for i := 0; i < m; i++ {
			key := g.key(t.Key())
			if used[key.String()] && r.IntN(8) > 0 {
				continue
			}
			used[key.String()] = true
			n.Ent = append(n.Ent, phpdoc.Entry{Key: key, Val: g.doc(t.Elem(), d-1)})
		}
		g.maybeObj(n)
		return n
	case reflect.Struct:
		n := phpdoc.Arr()
		used := map[string]bool{}
		keys := map[string]bool{}
		for i := 0; i < t.NumField(); i++ {
			if fi := Field(t.Field(i)); !fi.Skip {
				keys[fi.Key] = true
			}
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			fi := Field(f)
			if fi.Skip {
				// its name as an unknown key
				if r.IntN(3) == 0 && !used[f.Name] && !keys[f.Name] {
					used[f.Name] = true
					n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Str(f.Name), Val: Doc(r, 2, false)})
				}
				continue
			}
			if r.IntN(5) == 0 || d < -6 || used[fi.Key] {
				continue
			}
			used[fi.Key] = true
			v := g.doc(f.Type, d-1)
			if fi.Str {
				v = g.quoted(f.Type, v)
			}
			n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Str(fi.Key), Val: v})
		}
		for r.IntN(3) == 0 {
			k := unknownKey(r, t)
			if keys[k] || used[k] {
				continue
			}
			used[k] = true
			n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Str(k), Val: Doc(r, 3, false)})
		}
		if r.IntN(2) == 0 {
			r.Shuffle(len(n.Ent), func(i, j int) { n.Ent[i], n.Ent[j] = n.Ent[j], n.Ent[i] })
		}
		g.maybeObj(n)
		return n
	case reflect.Interface:
		return Doc(r, min(d, 3), false)
	}
	return Doc(r, 1, false)
}

// unknownKey is often a near miss of a real key.
func unknownKey(r R, t reflect.Type) string {
	if t.NumField() > 0 && r.IntN(2) == 0 {
		f := t.Field(r.IntN(t.NumField()))
		k := Pick(r, f.Name, Field(f).Key)
		switch r.IntN(5) {
		case 0:
			return strings.ToLower(k)
		case 1:
			return strings.ToUpper(k)
		case 2:
			return k + Pick(r, " ", "x", "\x00", "0")
		case 3:
			if k != "" {
				return k[:len(k)-1]
			}
		}
		return Pick(r, "\x00*\x00", "\x00C\x00", " ", "_") + k
	}
	return String(r, false)
}

func (g *docGen) quoted(t reflect.Type, v *phpdoc.Node) *phpdoc.Node {
	switch v.K {
	case 'i', 'd':
		return phpdoc.Str(v.T)
	case 'b':
		if v.B {
			return phpdoc.Str(Pick(g.r, "true", "1"))
		}
		return phpdoc.Str(Pick(g.r, "false", "0"))
	}
	return v
}

func (g *docGen) key(t reflect.Type) *phpdoc.Node {
	r := g.r
	if g.miss > 0 && r.IntN(g.miss*3) == 0 {
		if r.IntN(2) == 0 {
			return phpdoc.Str(String(r, false))
		}
		return phpdoc.IntText(IntText(r, true))
	}
	switch {
	case t.Kind() == reflect.String:
		return phpdoc.Str(String(r, false))
	case IsInt(t):
		return phpdoc.Int(IntBits(r, t.Bits()))
	case IsUint(t):
		return phpdoc.Uint(min(UintBits(r, t.Bits()), math.MaxInt64))
	}
	if r.IntN(2) == 0 {
		return phpdoc.Str(String(r, false))
	}
	return phpdoc.Int(IntBits(r, 64))
}

func (g *docGen) maybeObj(n *phpdoc.Node) {
	if !g.obj || g.r.IntN(3) > 0 {
		return
	}
	for _, e := range n.Ent {
		if e.Key.K != 's' {
			return
		}
	}
	n.K = 'O'
	n.S = ClassName(g.r)
}
