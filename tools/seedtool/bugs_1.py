ENC = 'internal/encoder/'
DEC = 'internal/decoder/'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='s01-float64-short-text', property='C07',
 edits={ENC+'float.go': [('b = strconv.AppendFloat(b, f64, format, -1, 64)\n\treturn append(b, \';\')\n',
 '''bitSize := 64
	if f64 == float64(float32(f64)) {
		// exact as float32, use the shorter text
		bitSize = 32
	}
	b = strconv.AppendFloat(b, f64, format, -1, bitSize)
	return append(b, ';')
''')]},
 demo='''
func main() {
	for _, f := range []float64{1, 0.5, float64(float32(0.1)), float64(float32(3.3e20))} {
		b, err := php.Marshal(f)
		check(err == nil, "%v", err)
		var g float64
		check(php.Unmarshal(b, &g) == nil && g == f, "%v came back as %v", f, g)
	}
}''', needs='a float64 which is exactly a float32, but whose shortest float32 text is a different float64',
 breaks='the emitted token denotes another float64, so the value does not round trip')

bug(id='s02-negative-zero', property='C07',
 edits={DEC+'float.go': [('rv.SetFloat(f64)\n', 'rv.SetFloat(f64 + 0)\n')]},
 imports=['math'], demo='''
func main() {
	var f float64 = 1
	check(php.Unmarshal([]byte("d:-0;"), &f) == nil && f == 0 && math.Signbit(f), "-0 decoded as %v", f)
}''', needs='a document with negative zero', breaks='the sign of negative zero is lost when decoding')

bug(id='s03-digits-log10', property='C27',
 edits={ENC+'uint_at_string.go': [('''	for number != 0 {
		number /= 10
		count += 1
	}

	return count
''', '''	count = int64(math.Log10(float64(number))) + 1

	return count
'''), ('import (\n\t"reflect"', 'import (\n\t"math"\n\t"reflect"')]},
 demo='''
type T struct {
	A uint64 `php:",string"`
}

func main() {
	for _, v := range []uint64{1, 10, 999, 999999999999999999, 9999999999999999999, 18446744073709551615} {
		b, err := php.Marshal(T{v})
		check(err == nil, "%v", err)
		var o T
		err = php.Unmarshal(b, &o)
		check(err == nil && o.A == v, "%s -> %v %v", b, o, err)
	}
}''', needs='a string-tagged unsigned value just below a large power of ten, where float64 rounds up',
 breaks='the declared length of the quoted number is one too large')

bug(id='s04-marshal-tail-reuse', property='C10',
 edits={ENC+'marshal.go': [('''	dst := make([]byte, len(b))
	copy(dst, b)

	ctx.Buf = b
	freeCtx(ctx)

	return dst, nil
''', '''	if len(b) < 256 {
		dst := make([]byte, len(b))
		copy(dst, b)
		ctx.Buf = b
		freeCtx(ctx)
		return dst, nil
	}

	// don't copy big output, keep the remaining of the buffer for next call
	ctx.Buf = b[len(b):]
	freeCtx(ctx)

	return b, nil
''')]},
 imports=['strings', 'bytes', 'runtime/debug'], demo='''
func main() {
	debug.SetGCPercent(-1)
	first, err := php.Marshal(strings.Repeat("a", 300))
	check(err == nil, "%v", err)
	var outs [][]byte
	var want [][]byte
	for i := 0; i < 20; i++ {
		o, err := php.Marshal(strings.Repeat("b", 280+i))
		check(err == nil, "%v", err)
		outs = append(outs, o)
		want = append(want, bytes.Clone(o))
	}
	for i := range outs {
		_ = append(outs[i], "tail of caller, written after the result"...)
	}
	_ = append(first, "tail of caller, written after the first result"...)
	for i := range outs {
		check(bytes.Equal(outs[i], want[i]), "result %d changed", i)
	}
}''', needs='an output of at least 256 bytes, a second Marshal on the same pooled context, then append to the first result',
 breaks='returned slices share spare capacity with later results')

bug(id='s05-defer-free-ctx', property='C12',
 edits={ENC+'marshal.go': [('	ctx := newCtx()\n', '	ctx := newCtx()\n	defer freeCtx(ctx)\n'),
   ('	if err != nil {\n		freeCtx(ctx)\n		return nil, err\n	}\n\n	dst', '	if err != nil {\n		return nil, err\n	}\n\n	dst'),
   ('	ctx.Buf = b\n	freeCtx(ctx)\n', '	ctx.Buf = b\n')]},
 demo='''
type P struct{ fail *bool }

func (p P) MarshalPHP() ([]byte, error) {
	if *p.fail {
		panic("user")
	}
	return []byte("N;"), nil
}

func main() {
	fail := true
	m := map[string]any{"a": P{&fail}}
	func() {
		defer func() { recover() }()
		php.Marshal([]any{m})
	}()
	fail = false
	for i := 0; i < 50; i++ {
		_, err := php.Marshal([]any{m})
		check(err == nil, "after a recovered panic: %v", err)
	}
}''', needs='a MarshalPHP that panics below a map or slice held in an interface, the caller recovers, then encodes the same map again',
 breaks='the pooled context keeps the interrupted call\'s seen set, a later Marshal reports recursion for an acyclic value')

bug(id='s06-slice-cycle-check', property='C13',
 edits={ENC+'slice.go': [('	containerEnc := checkRecursiveEncoder(func(ctx', '	containerEnc := encoder(func(ctx'),
 ('	recursiveEnc.enc = containerEnc\n	return recursiveEnc.Encode, nil\n}\n', '''	recursiveEnc.enc = nilAsNullEncoder(containerEnc)
	if mayReachItself(rt.Elem()) {
		recursiveEnc.enc = checkRecursiveEncoder(containerEnc)
	}
	return recursiveEnc.Encode, nil
}

// mayReachItself reports whether a element may refer to the slice it belongs to.
func mayReachItself(elem reflect.Type) bool {
	switch elem.Kind() {
	case reflect.Interface, reflect.Ptr, reflect.Map, reflect.Slice, reflect.Struct:
		return true
	}
	return false
}
''')]},
 demo='''
type S [][1]S

func main() {
	s := make(S, 1)
	s[0][0] = s
	_, err := php.Marshal(s)
	check(err != nil, "no error for a cyclic value")
}''', needs='a cycle through a slice whose element type is an array', breaks='cyclic value is not detected, stack overflow')

bug(id='s07-toplevel-marshaler-alias', property='C10',
 edits={ENC+'marshal_php.go': [('		return append(b, raw...), nil\n', '''		if len(b) > 0 {
			raw = append(b, raw...)
		}

		return raw, nil
''')]},
 imports=['bytes', 'runtime/debug'], demo='''
type C struct{ raw []byte }

func (c C) MarshalPHP() ([]byte, error) { return c.raw, nil }

func main() {
	debug.SetGCPercent(-1)
	raw := []byte(`s:10:"0123456789";`)
	keep := bytes.Clone(raw)
	_, err := php.Marshal(C{raw})
	check(err == nil, "%v", err)
	for i := 0; i < 20; i++ {
		php.Marshal(i)
	}
	check(bytes.Equal(raw, keep), "bytes owned by the Marshaler changed: %s", raw)
}''', needs='a top level Marshaler returning bytes it keeps, then another Marshal using the same pooled context',
 breaks='the user\'s slice becomes the pooled buffer and is overwritten')

bug(id='s08-map-scalar-fastpath', property='C14',
 edits={ENC+'map_reflect.go': [('	valueEncoder, err = compileWithCache(valueType)\n	if err != nil {\n		return nil, err\n	}\n', '''	switch valueType.Kind() {
	case reflect.String, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		// scalar types can share encoder with keys
		valueEncoder = mapKeyEncoder[valueType.Kind()]
	default:
		valueEncoder, err = compileWithCache(valueType)
		if err != nil {
			return nil, err
		}
	}
''')]},
 demo='''
type Level int

func (l Level) MarshalPHP() ([]byte, error) { return []byte(`s:3:"lvl";`), nil }

func main() {
	m := map[string]Level{"a": 1}
	x, err := php.Marshal(m)
	check(err == nil, "%v", err)
	y, err := php.Marshal([]any{m})
	check(err == nil && string(y) == "a:1:{i:0;"+string(x)+"}", "%s", y)
}''', needs='a map, held in an interface, whose element type is a named scalar with MarshalPHP',
 breaks='MarshalPHP is not called for those map elements')

bug(id='s09-bytes-in-interface', property='C17',
 edits={ENC+'slice_reflect.go': [('''	enc, err := compileWithCache(rv.Type())
	if err != nil {
		return nil, err
	}

	return enc(ctx, b, rv)
''', '''	rt := rv.Type()
	if rt.Elem().Kind() == reflect.Uint8 && !rv.IsNil() {
		return encodeBytes(ctx, b, rv)
	}

	enc, err := compileWithCache(rt)
	if err != nil {
		return nil, err
	}

	return enc(ctx, b, rv)
''')]},
 demo='''
type Raw []byte

func main() {
	x, err := php.Marshal(Raw("ab"))
	check(err == nil, "%v", err)
	y, err := php.Marshal([]any{Raw("ab")})
	check(err == nil && string(y) == "a:1:{i:0;"+string(x)+"}", "%s and %s", x, y)
}''', needs='a named byte slice type held in an interface', breaks='it is encoded differently than when reached with its static type')

bug(id='s10-omitempty-len0', property='C16',
 edits={ENC+'struct.go': [('				if v.IsZero() {\n					continue\n', '				if isEmptyValue(v) {\n					continue\n'),
  ('func compileStructFieldsEncoders(', '''func isEmptyValue(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0
	}
	return v.IsZero()
}

func compileStructFieldsEncoders('''),]},
 demo='''
type T struct {
	A []int `php:",omitempty"`
	B int
}

func main() {
	b, err := php.Marshal(T{A: []int{}, B: 1})
	check(err == nil && string(b) == `a:2:{s:1:"A";a:0:{}s:1:"B";i:1;}`, "%s", b)
}''', needs='an omitempty slice or map field which is empty but not nil', breaks='the field is dropped, and the declared count does not match')

bug(id='s11-dash-comma-tag', property='C16',
 edits={'internal/runtime/struct_field.go': [('	return tag == "-"\n', '	name, _, _ := strings.Cut(tag, ",")\n\n	return name == "-"\n')]},
 demo='''
type T struct {
	A int `php:"-,"`
}

func main() {
	b, err := php.Marshal(T{7})
	check(err == nil && string(b) == `a:1:{s:1:"-";i:7;}`, "%s", b)
}''', needs='a field whose tag is "-," followed by options, which names the key "-"', breaks='the field is ignored in both directions')

bug(id='s12-fold-keys', property='C16',
 edits={DEC+'struct.go': [('	if !exists {\n		return cursor, nil, nil\n	}\n\n	return cursor, field, nil\n', '''	if exists {
		return cursor, field, nil
	}
	for name, f := range d.fieldMap {
		if strings.EqualFold(name, string(key)) {
			return cursor, f, nil
		}
	}

	return cursor, nil, nil
'''), ('	"reflect"\n', '	"reflect"\n	"strings"\n')]},
 demo='''
type T struct {
	Name string `php:"name"`
}

func main() {
	var t T
	err := php.Unmarshal([]byte(`a:2:{s:4:"name";s:1:"x";s:4:"NAME";s:1:"y";}`), &t)
	check(err == nil && t.Name == "x", "%v %v", t, err)
}''', needs='a document key which differs from a field key only in case', breaks='keys are no longer matched exactly')

bug(id='s13-shared-compile-map', property='C12',
 edits={DEC+'compile.go': [('	dec, err := compileHead(rt, map[reflect.Type]Decoder{})\n', '''	compileLock.Lock()
	dec, err := compileHead(rt, compiledDecoders)
	compileLock.Unlock()
'''), ('func storeDecoder(', '''var (
	compileLock sync.Mutex
	// decoders of nested types, so they are not compiled again for each type using them
	compiledDecoders = map[reflect.Type]Decoder{}
)

func storeDecoder('''), ('	"sync/atomic"\n', '	"sync"\n	"sync/atomic"\n')]},
 demo='''
type E struct{ X int }
type Bad struct {
	A int
	E
}

func main() {
	for i := 0; i < 2; i++ {
		var b Bad
		err := php.Unmarshal([]byte(`a:1:{s:1:"A";i:1;}`), &b)
		check(err != nil, "use %d of an unsupported type: no error", i+1)
	}
}''', needs='the second use of a type whose first compilation failed', breaks='a half built decoder is kept, so the second Unmarshal silently succeeds with nothing decoded')

bug(id='s14-last-key-cache', property='C11', flags='',
 edits={DEC+'struct.go': [('	field, exists := d.fieldMap[string(key)]\n	if !exists {\n		return cursor, nil, nil\n	}\n', '''	// lists of objects repeat same keys
	if d.lastField != nil && d.lastKey == string(key) {
		return cursor, d.lastField, nil
	}
	field, exists := d.fieldMap[string(key)]
	if exists {
		d.lastKey = field.key
		d.lastField = field
	}
'''), ('	structName    string\n	fieldName     string\n}\n\nfunc newStructDecoder', '	structName    string\n	fieldName     string\n\n	lastKey   string\n	lastField *structFieldSet\n}\n\nfunc newStructDecoder')]},
 imports=['sync'], demo='''
type T struct {
	A int `php:"a"`
	B int `php:"b"`
}

func main() {
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 400000; i++ {
				var t T
				err := php.Unmarshal([]byte(`a:2:{s:1:"a";i:1;s:1:"b";i:2;}`), &t)
				if err != nil || t.A != 1 || t.B != 2 {
					bad <- fmt.Sprint(t, err)
					return
				}
			}
		}()
	}
	wg.Wait()
	check(len(bad) == 0, "concurrent result differs")
}''', needs='goroutines decoding the same struct type at once', breaks='unsynchronised shared cache of the last key: values land in the wrong field')

bug(id='s15-no-input-copy', property='C09',
 edits={'unmarshal.go': [('	src := make([]byte, len(data))\n	copy(src, data)\n', '	src := data\n')]},
 imports=['bytes'], demo='''
type U struct{ raw []byte }

func (u *U) UnmarshalPHP(b []byte) error {
	u.raw = b
	for i := range b {
		b[i] = 'x'
	}
	return nil
}

func main() {
	in := []byte(`a:1:{i:0;s:3:"abc";}`)
	keep := bytes.Clone(in)
	var us []U
	err := php.Unmarshal(in, &us)
	check(err == nil && bytes.Equal(in, keep), "%v %s", err, in)
}''', needs='an UnmarshalPHP which modifies or keeps the bytes it is given', breaks='the caller\'s input is shared with custom methods')

bug(id='s16-map-value-reuse', property='C26',
 edits={DEC+'map.go': [('''	for {
		if !hasByte(buf, cursor) {
			return cursor, errors.ErrUnexpectedEnd("map", cursor)
		}
		if buf[cursor] != 'i' ''', '''	// SetMapIndex will copy key and value
	k := reflect.New(d.keyType)
	v := reflect.New(d.valueType)
	for {
		if !hasByte(buf, cursor) {
			return cursor, errors.ErrUnexpectedEnd("map", cursor)
		}
		if buf[cursor] != 'i' '''), ('		k := reflect.New(d.keyType)\n', '		k.Elem().SetZero()\n'),
  ('		v := reflect.New(d.valueType)\n', '''		switch d.valueType.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Struct, reflect.Interface, reflect.Array:
			v.Elem().SetZero()
		}
''')]},
 demo='''
func main() {
	var m map[string]int
	err := php.Unmarshal([]byte(`a:2:{s:1:"a";i:5;s:1:"b";N;}`), &m)
	check(err == nil && m["a"] == 5 && m["b"] == 0, "%v %v", m, err)
}''', needs='a null map element after a non-null one, in a map of scalars', breaks='the null element takes the previous element\'s value')

bug(id='s17-map-merge-existing', property='C19',
 edits={DEC+'map.go': [('		v := reflect.New(d.valueType)\n', '''		v := reflect.New(d.valueType).Elem()
		if d.valueType.Kind() == reflect.Struct {
			if old := rv.MapIndex(k.Elem()); old.IsValid() {
				v.Set(old)
			}
		}
'''), ('d.valueDecoder.Decode(ctx, cursor, depth, v.Elem())', 'd.valueDecoder.Decode(ctx, cursor, depth, v)'), ('		rv.SetMapIndex(k.Elem(), v.Elem())\n', '		rv.SetMapIndex(k.Elem(), v)\n')]},
 demo='''
type T struct{ A, B int }

func main() {
	m := map[string]T{"x": {1, 2}}
	err := php.Unmarshal([]byte(`a:1:{s:1:"x";a:1:{s:1:"A";i:9;}}`), &m)
	check(err == nil && m["x"] == T{A: 9}, "%v %v", m, err)
}''', needs='an existing entry of a map of structs, named again by a document with fewer keys', breaks='the named entry is merged instead of replaced')

bug(id='s18-slice-set-only-grown', property='C19',
 edits={DEC+'slice.go': [('			rv.Set(slice)\n', '			if rv.Len() != slice.Len() {\n				rv.Set(slice)\n			}\n')]},
 demo='''
func main() {
	s := []int{7, 8, 9}
	err := php.Unmarshal([]byte(`a:3:{i:2;i:3;i:1;i:2;i:0;i:1;}`), &s)
	check(err == nil && fmt.Sprint(s) == "[1 2 3]", "%v %v", s, err)
}''', needs='a destination slice of the same length as the result, and a document whose first key is the largest index', breaks='the decoded slice is never stored')

bug(id='s19-array-zero-gaps', property='C24',
 edits={DEC+'array.go': [('		// set zero value first, php array may skip some index\n		rv.SetZero()\n\n', ''),
  ('			err := validateEmptyArray(buf, cursor)\n			if err != nil {\n				return cursor, err\n			}\n', '			err := validateEmptyArray(buf, cursor)\n			if err != nil {\n				return cursor, err\n			}\n			rv.SetZero()\n'),
  ('		idx := 0\n', '		idx := 0\n		next := 0 // php array may skip some index, set them to zero value\n'),
  ('			if idx < d.alen {\n', '			for ; next < min(idx, d.alen); next++ {\n				rv.Index(next).SetZero()\n			}\n			next = idx + 1\n			if idx < d.alen {\n				rv.Index(idx).SetZero()\n'),
  ('''			if buf[cursor] == '}' {
				cursor++
				return cursor, nil
''', '''			if buf[cursor] == '}' {
				for ; next < d.alen; next++ {
					rv.Index(next).SetZero()
				}
				cursor++
				return cursor, nil
''')]},
 demo='''
func main() {
	var a [4]int
	err := php.Unmarshal([]byte(`a:3:{i:2;i:3;i:0;i:1;i:1;i:2;}`), &a)
	check(err == nil && a == [4]int{1, 2, 3, 0}, "%v %v", a, err)
}''', needs='keys out of order in a fixed array', breaks='elements stored before are zeroed again')

bug(id='s20-class-name-quote', property='C20',
 edits={DEC+'context.go': [('	end := start + classLen + 1\n	if !hasBytes(buf, end, 2) {\n', '''	end := start + 1 + int64(bytes.IndexByte(buf[start+1:], '"'))
	if end-start-1 != classLen {
		return start, errors.ErrSyntax("php-serialize: invalid class name", start)
	}
	if !hasBytes(buf, end, 2) {
'''), ('import (\n', 'import (\n	"bytes"\n')]},
 demo='''
func main() {
	var m map[string]int
	err := php.Unmarshal([]byte(`O:3:"a"b":1:{s:1:"k";i:1;}`), &m)
	check(err == nil && m["k"] == 1, "%v %v", m, err)
}''', needs='a class name containing a quote byte', breaks='such objects are refused although the equal array is accepted')

bug(id='s21-unmarshaler-depth', property='C23',
 edits={DEC+'unmarshal_php.go': [('	end, err := skipValue(buf, cursor, depth)\n', '	end, err := skipValue(buf, cursor, 0)\n')]},
 imports=['strings'], demo='''
type U struct{ raw []byte }

func (u *U) UnmarshalPHP(b []byte) error { return nil }

type R struct {
	N *R
	U U
}

func main() {
	n, m := 6000, 6000
	doc := strings.Repeat(`a:1:{s:1:"N";`, n) + `a:1:{s:1:"U";` + strings.Repeat("a:1:{i:0;", m) + "i:1;" + strings.Repeat("}", n+m+1)
	var r R
	check(php.Unmarshal([]byte(doc), &r) != nil, "12001 nested containers accepted")
}''', needs='total depth above the limit, split between decoded containers and bytes handed to an Unmarshaler', breaks='the nesting limit restarts inside raw values')

bug(id='s22-any-object-depth', property='C23',
 edits={DEC+'interface.go': [('d.mapClassDecoder.Decode(ctx, cursor, depth, ptr)', 'd.mapClassDecoder.Decode(ctx, cursor, 0, ptr)')]},
 imports=['strings'], demo='''
func main() {
	n := 10001
	doc := strings.Repeat(`O:1:"a":1:{s:1:"N";`, n) + "i:1;" + strings.Repeat("}", n)
	var r any
	check(php.Unmarshal([]byte(doc), &r) != nil, "%d nested objects accepted", n)
}''', needs='nested objects decoded dynamically', breaks='objects reset the nesting counter')

bug(id='s23-named-int-overflow', property='C06',
 edits={DEC+'int.go': [('	if rv.OverflowInt(i64) {\n', '	if overflowInt(d.typ, i64) {\n'), ('func readInt(', '''func overflowInt(typ reflect.Type, v int64) bool {
	switch typ {
	case int8Type:
		return v != int64(int8(v))
	case int16Type:
		return v != int64(int16(v))
	case int32Type:
		return v != int64(int32(v))
	case intType:
		return v != int64(int(v))
	}
	return false
}

var (
	intType   = reflect.TypeOf(int(0))
	int8Type  = reflect.TypeOf(int8(0))
	int16Type = reflect.TypeOf(int16(0))
	int32Type = reflect.TypeOf(int32(0))
)

func readInt(''')]},
 demo='''
type Small int8

func main() {
	var s struct{ A Small }
	check(php.Unmarshal([]byte(`a:1:{s:1:"A";i:300;}`), &s) != nil, "300 stored in a int8: %v", s)
}''', needs='a named integer type narrower than 64 bits and an out of range number', breaks='the integer is truncated')

bug(id='s24-uint-wrap', property='C06',
 edits={DEC+'uint.go': [('	return strconv.ParseUint(unsafeStr(b), 10, 64)\n', '''	if len(b) == 0 {
		return 0, fmt.Errorf("invalid integer")
	}
	var v uint64
	for _, c := range b {
		if !numTable[c] {
			return 0, fmt.Errorf("invalid integer")
		}
		n := v*10 + uint64(c-'0')
		if n < v {
			return 0, fmt.Errorf("integer overflow")
		}
		v = n
	}
	return v, nil
'''), ('	"strconv"\n', '')]},
 demo='''
func main() {
	var u uint64
	for _, s := range []string{"18446744073709551616", "30000000000000000000", "99999999999999999999"} {
		check(php.Unmarshal([]byte("i:"+s+";"), &u) != nil, "%s stored as %d", s, u)
	}
}''', needs='a 20 digit number whose wrapped product is still larger than the prefix', breaks='out of range unsigned numbers wrap')

bug(id='s25-skip-bool-payload', property='C05',
 edits={DEC+'context.go': [('		_, err := readBool(buf, cursor)\n		return cursor + 4, err\n', '''		if !hasBytes(buf, cursor, 4) || buf[cursor+1] != ':' || buf[cursor+3] != ';' {
			return cursor, errors.ErrUnexpectedEnd("bool", cursor)
		}
		return cursor + 4, nil
''')]},
 demo='''
func main() {
	var s struct{ A int }
	check(php.Unmarshal([]byte(`a:2:{s:1:"B";b:7;s:1:"A";i:1;}`), &s) != nil, "b:7; accepted")
}''', needs='a damaged boolean payload inside a skipped value', breaks='a malformed document is accepted')

bug(id='s26-trailing-space', property='C05',
 edits={'unmarshal.go': [('	if int64(len(src)) == cursor {\n', '	if len(bytes.TrimRight(src[cursor:], " \\t\\r\\n")) == 0 {\n'), ('import (\n', 'import (\n	"bytes"\n')]},
 demo='''
func main() {
	var i int
	check(php.Unmarshal([]byte("i:1;\\n"), &i) != nil, "trailing newline accepted")
}''', needs='white space after the document', breaks='extra bytes after a document are accepted')

bug(id='s27-hasbytes-overflow', property='C04',
 edits={DEC+'context.go': [('	return cursor >= 0 && size >= 0 && cursor <= int64(len(buf))-size\n', '	return cursor >= 0 && size >= 0 && cursor+size <= int64(len(buf))\n')]},
 demo='''
func main() {
	var s string
	check(php.Unmarshal([]byte(`s:9223372036854775800:"abc";`), &s) != nil, "accepted")
}''', needs='a declared length so close to the largest int64 that only adding the offset overflows', breaks='panic: index out of range')

bug(id='s28-struct-value-bound', property='C04',
 edits={DEC+'struct.go': [('''		cursor = c

		// cursor++
		if !hasByte(buf, cursor) {
			return 0, errors.ErrUnexpectedEnd("object value", cursor)
		}
		if field != nil {''', '''		cursor = c

		if field != nil {''')]},
 demo='''
func main() {
	var s struct{ A *int }
	check(php.Unmarshal([]byte(`a:1:{s:1:"A";`), &s) != nil, "accepted")
}''', needs='input which ends right after a key of a pointer, interface or bytes field', breaks='panic: index out of range')

bug(id='s29-map-temp-buffer', property='C21',
 edits={ENC+'map.go': [('''			vv.SetIterValue(iter)
			b, err = valueEncoder(ctx, b, vv)
			if err != nil {
				return b, err
			}
''', '''			vv.SetIterValue(iter)
			value, err := valueEncoder(ctx, nil, vv)
			if err != nil {
				return b, err
			}
			b = append(b, value...)
''')]},
 imports=['runtime', 'strings'], demo='''
type M map[string]M

func main() {
	m := M{strings.Repeat("x", 100): nil}
	for i := 0; i < 3000; i++ {
		m = M{strings.Repeat("k", 20): m}
	}
	var a, b runtime.MemStats
	php.Marshal(m)
	runtime.ReadMemStats(&a)
	out, err := php.Marshal(m)
	runtime.ReadMemStats(&b)
	check(err == nil, "%v", err)
	total := b.TotalAlloc - a.TotalAlloc
	check(total < uint64(len(out))*100+1<<22, "%d bytes allocated for %d bytes of output", total, len(out))
}''', needs='deeply nested maps', breaks='allocation is quadratic in the depth')

bug(id='s30-any-merge-object', property='C08',
 edits={DEC+'interface.go': [('		var v map[string]any\n', '		v, _ := rv.Interface().(map[string]any)\n')]},
 demo='''
func main() {
	var v any = map[string]any{"old": 1}
	err := php.Unmarshal([]byte(`O:1:"a":1:{s:1:"k";i:1;}`), &v)
	check(err == nil && len(v.(map[string]any)) == 1, "%v %v", v, err)
}''', needs='an interface which already holds a map[string]any', breaks='result contains entries of the old value')

bug(id='s31-byte-elem-unmarshaler', property='C15',
 edits={DEC+'bytes.go': [('''	switch {
	case reflect.PointerTo(typ).Implements(unmarshalPHPType):
		unmarshalDecoder = newUnmarshalTextDecoder(reflect.PointerTo(typ), structName, fieldName)
	default:
		unmarshalDecoder, _ = compileUint8(typ, structName, fieldName)
	}
''', '''	unmarshalDecoder, _ = compileUint8(typ, structName, fieldName)
''')]},
 demo='''
type B uint8

func (b *B) UnmarshalPHP(raw []byte) error { *b = B(len(raw)); return nil }

func main() {
	var bs []B
	err := php.Unmarshal([]byte(`a:1:{i:0;i:255;}`), &bs)
	check(err == nil && len(bs) == 1 && bs[0] == 6, "%v %v", bs, err)
}''', needs='a slice whose element is a named byte type with UnmarshalPHP', breaks='the method is not called for the elements')

bug(id='s32-encoder-shared-compile-map', property='C18',
 edits={ENC+'compile.go': [('	return compile(rt, compileSeenMap{})\n', '''	compileLock.Lock()
	defer compileLock.Unlock()
	return compile(rt, compiledEncoders)
'''), ('func compileType(', '''var (
	compileLock sync.Mutex
	// encoders of nested types, so they are not compiled again for each type using them
	compiledEncoders = compileSeenMap{}
)

func compileType('''), ('	"reflect"\n', '	"reflect"\n	"sync"\n')]},
 demo='''
type T struct {
	M map[string]chan int
}

func main() {
	for i := 0; i < 2; i++ {
		_, err := php.Marshal(T{map[string]chan int{"a": nil}})
		check(err != nil, "no error")
	}
}''', needs='the second use of an unsupported type', breaks='nil encoder of the failed compilation is called: panic')

bug(id='s33-empty-map-badkey', property='C18',
 edits={ENC+'map_reflect.go': [('''	switch keyType.Kind() {
	case reflect.String,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
	default:
		return nil, &UnsupportedTypeAsMapKeyError{Type: rv.Type().Key()}
	}

	if rv.IsNil() {
		return appendNull(b), nil
	}
''', '''	if rv.IsNil() {
		return appendNull(b), nil
	}

	if rv.Len() == 0 {
		return appendEmptyArray(b), nil
	}

	switch keyType.Kind() {
	case reflect.String,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
	default:
		return nil, &UnsupportedTypeAsMapKeyError{Type: rv.Type().Key()}
	}
''')]},
 demo='''
func main() {
	_, err := php.Marshal([]any{map[float64]int{}})
	check(err != nil, "map[float64]int accepted")
}''', needs='an empty or nil map with an unsupported key type inside an interface', breaks='the unsupported type is accepted')

bug(id='s34-object-protected-prefix', property='C20',
 edits={DEC+'struct.go': [('''		cursor = end
		fallthrough
''', '''		cursor = end
		isObject = true
		fallthrough
'''), ('		c, field, err := decodeKey(d, buf, cursor)\n', '''		c, field, err := decodeKey(d, buf, cursor, isObject)
'''), ('func decodeKey(d *structDecoder, buf []byte, cursor int64) (', 'func decodeKey(d *structDecoder, buf []byte, cursor int64, isObject bool) ('),
 ('	cursor = c\n\n	// go compiler', '''	cursor = c

	if isObject && bytes.HasPrefix(key, []byte("\\x00*\\x00")) {
		// protected property
		key = key[3:]
	}

	// go compiler'''), ('	depth++\n', '	depth++\n	isObject := false\n'), ('	"reflect"\n', '	"bytes"\n	"reflect"\n')]},
 demo='''
func main() {
	var a, o struct{ A int }
	err1 := php.Unmarshal([]byte("a:1:{s:4:\\"\\x00*\\x00A\\";i:1;}"), &a)
	err2 := php.Unmarshal([]byte("O:1:\\"c\\":1:{s:4:\\"\\x00*\\x00A\\";i:1;}"), &o)
	check(err1 == nil && err2 == nil && a == o, "%v %v", a, o)
}''', needs='an object with a protected property name', breaks='object and array with the same entries decode differently')

bug(id='s36-null-array', property='C26',
 edits={DEC+'array.go': [('		// set zero value first, php array may skip some index\n		rv.SetZero()\n\n', ''), ('	switch buf[cursor] {\n	case \'N\':', '	// set zero value first, php array may skip some index\n	rv.SetZero()\n\n	switch buf[cursor] {\n	case \'N\':')]},
 demo='''
func main() {
	a := [2]int{1, 2}
	err := php.Unmarshal([]byte("N;"), &a)
	check(err == nil && a == [2]int{1, 2}, "%v %v", a, err)
}''', needs='null for a fixed array which already holds values', breaks='null clears the array')

bug(id='s37-uint-string-spaces', property='C27',
 edits={DEC+'wrapped_string.go': [('	_, err := d.uintDecoder.processBytes(bytes, topCursor, rv)\n', '	_, err := d.uintDecoder.processBytes(stdbytes.TrimSpace(bytes), topCursor, rv)\n'), ('import (\n', 'import (\n	stdbytes "bytes"\n')]},
 demo='''
func main() {
	var s struct {
		A uint `php:",string"`
	}
	check(php.Unmarshal([]byte(`a:1:{s:1:"A";s:2:" 1";}`), &s) != nil, "' 1' accepted")
}''', needs='blanks around a quoted unsigned number', breaks='a string which is not entirely a number is accepted')

bug(id='s38-small-struct-key', property='C03',
 edits={DEC+'struct.go': [('	field, exists := d.fieldMap[string(key)]\n	if !exists {\n', '''	var field *structFieldSet
	if len(d.fieldMap) == 1 {
		// small struct, no need to hash the key
		for name, f := range d.fieldMap {
			if len(name) == len(key) && len(key) > 0 && name[0] == key[0] && name[len(name)-1] == key[len(key)-1] {
				field = f
			}
		}
	} else {
		field = d.fieldMap[string(key)]
	}
	if field == nil {
''')]},
 demo='''
func main() {
	var s struct {
		A int `php:"total"`
	}
	err := php.Unmarshal([]byte(`a:2:{s:5:"total";i:1;s:5:"tidal";i:2;}`), &s)
	check(err == nil && s.A == 1, "%v %v", s, err)
}''', needs='an unknown key with the same length, first and last byte as the only field\'s key', breaks='an unknown entry is stored in a field')

bug(id='s39-uint64-map-key', property='C02',
 edits={ENC+'compile.go': [('''	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		return encodeInt, nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return encodeUint, nil
	}

	return nil, fmt.Errorf("failed to build encoder for map key,''', '''	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		return encodeInt, nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
			return appendIntBytes(b, int64(rv.Uint())), nil
		}, nil
	}

	return nil, fmt.Errorf("failed to build encoder for map key,''')]},
 demo='''
func main() {
	b, err := php.Marshal(map[uint64]int{1 << 63: 1})
	check(err == nil && string(b) == "a:1:{i:9223372036854775808;i:1;}", "%s", b)
}''', needs='a map with an unsigned key of at least 2^63', breaks='the key is written as a negative number')

bug(id='s40-field-name-runes', property='C02',
 edits={ENC+'struct.go': [('	fieldName string // field fieldName\n', '	fieldName []byte // encoded field name\n'),
  ('			b = appendPhpStringVariable(ctx, b, field.fieldName)\n', '			b = append(b, field.fieldName...)\n'),
  ('			fieldName: cfg.Name(),\n', '			fieldName: []byte(fmt.Sprintf("s:%d:%q;", utf8.RuneCountInString(cfg.Name()), cfg.Name())),\n'), ('	"reflect"\n', '	"reflect"\n	"unicode/utf8"\n')]},
 demo='''
type T struct {
	A int `php:"名前"`
}

func main() {
	b, err := php.Marshal(T{1})
	check(err == nil && string(b) == `a:1:{s:6:"名前";i:1;}`, "%s", b)
}''', needs='a field key with non ASCII letters', breaks='the declared key length is not the byte length')

bug(id='s43-ptr-decoder-shared', property='C27',
 edits={DEC+'compile.go': [('''	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
	if err != nil {
		return nil, err
	}
	return newPtrDecoder(dec, typ.Elem(), structName, fieldName)
''', '''	if dec, exists := structTypeToDecoder[typ]; exists {
		return dec, nil
	}
	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
	if err != nil {
		return nil, err
	}
	ptrDec, err := newPtrDecoder(dec, typ.Elem(), structName, fieldName)
	if err != nil {
		return nil, err
	}
	structTypeToDecoder[typ] = ptrDec
	return ptrDec, nil
''')]},
 demo='''
func main() {
	var s struct {
		A *int
		B *int `php:",string"`
	}
	err := php.Unmarshal([]byte(`a:2:{s:1:"A";i:1;s:1:"B";s:1:"2";}`), &s)
	check(err == nil && *s.A == 1 && *s.B == 2, "%v %v", s, err)
}''', needs='two fields of the same pointer type, one of them with the string option', breaks='wrapping the shared pointer decoder changes how the other field is decoded')

bug(id='s44-ptr-always-new', property='C19',
 edits={DEC+'ptr.go': [('	if rv.IsNil() {\n		np := reflect.New(d.typ)\n		rv.Set(np)\n	}\n', '	np := reflect.New(d.typ)\n	np.Elem().Set(d.current(rv))\n	rv.Set(np)\n'), ('func (d *ptrDecoder) Decode(', '''// current return the value to start with
func (d *ptrDecoder) current(rv reflect.Value) reflect.Value {
	if rv.IsNil() {
		return reflect.Zero(d.typ)
	}
	return rv.Elem()
}

func (d *ptrDecoder) Decode(''')]},
 demo='''
func main() {
	n := 1
	s := struct{ A *int }{&n}
	err := php.Unmarshal([]byte(`a:1:{s:1:"A";i:5;}`), &s)
	check(err == nil && n == 5 && s.A == &n, "%v %v", n, err)
}''', needs='a pointer which the caller also holds', breaks='the pointee is replaced instead of being decoded in place')

bug(id='s45-float-string-shared-buffer', property='C11',
 edits={ENC+'float.go': [('	return appendFloat64AsString(ctx.smallBuffer[:0], b, rv.Float()), nil\n', '	return appendFloat64AsString(floatBuffer[:0], b, rv.Float()), nil\n'), ('func appendFloat32AsString(', 'var floatBuffer = make([]byte, 0, 32)\n\nfunc appendFloat32AsString(')]},
 imports=['sync'], demo='''
type T struct {
	F float64 `php:",string"`
}

func main() {
	var wg sync.WaitGroup
	bad := make(chan string, 64)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v := T{float64(g) + 0.25}
			want := fmt.Sprintf(`a:1:{s:1:"F";s:%d:"%v";}`, len(fmt.Sprint(v.F)), v.F)
			for i := 0; i < 300000; i++ {
				b, err := php.Marshal(v)
				if err != nil || string(b) != want {
					bad <- string(b)
					return
				}
			}
		}()
	}
	wg.Wait()
	check(len(bad) == 0, "concurrent result differs")
}''', needs='goroutines encoding string-tagged floats at once', breaks='a buffer shared by all calls')

bug(id='s46-skip-string-scan', property='C25',
 edits={DEC+'context.go': [('	_, end, err := readString(buf, cursor+1)\n	return end, err\n', '''	length, start, err := readLength(buf, cursor+1)
	if err != nil {
		return cursor, err
	}
	if length < 64 {
		_, end, err := readString(buf, cursor+1)
		return end, err
	}
	// content is not needed, jump to the closing quote
	idx := bytes.Index(buf[start:], []byte(`";`))
	if idx < 1 {
		return start, errors.ErrUnexpectedEnd("string", start)
	}
	return start + int64(idx) + 2, nil
'''), ('import (\n', 'import (\n	"bytes"\n')]},
 imports=['strings'], demo='''
func main() {
	var s struct{ A int }
	err := php.Unmarshal([]byte(`a:2:{s:1:"B";s:83:"`+strings.Repeat("x", 40)+`";b`+strings.Repeat("x", 40)+`";s:1:"A";i:1;}`), &s)
	check(err == nil && s.A == 1, "%v %v", s, err)
}''', needs='a long skipped string which contains a quote followed by a semicolon', breaks='the skipper stops inside the string')

