ENC = 'internal/encoder/'
DEC = 'internal/decoder/'
RT = 'internal/runtime/'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='t01-small-int-table', property='C02',
 edits={ENC+'int.go': [('''	b = append(b, 'i', ':')
	b = strconv.AppendInt(b, v, 10)
	return append(b, ';')
''', '''	b = append(b, 'i', ':')
	if v >= 0 && v < 20000 {
		b = appendSmallInt(b, uint32(v))
	} else {
		b = strconv.AppendInt(b, v, 10)
	}
	return append(b, ';')
}

// appendSmallInt is a fast path for indexes, without division.
func appendSmallInt(b []byte, v uint32) []byte {
	var tmp [5]byte
	i := len(tmp) - 1
	for v >= 10 {
		q := v * 6554 >> 16
		tmp[i] = '0' + byte(v-q*10)
		i--
		v = q
	}
	tmp[i] = '0' + byte(v)
	return append(b, tmp[i:]...)
''')]},
 demo='''
func main() {
	for v := 0; v < 30000; v++ {
		b, err := php.Marshal(v)
		check(err == nil && string(b) == fmt.Sprintf("i:%d;", v), "%d: %s", v, b)
	}
}''', needs='an integer or list index from 16389 to 19999 which ends in 9', breaks='the digits are wrong')

bug(id='t02-length-cache-64k', property='C02',
 edits={ENC+'string.go': [("	b = strconv.AppendInt(b, int64(len(s)), 10)\n", "	b = strconv.AppendUint(b, uint64(uint16(len(s))), 10)\n")]},
 imports=['strings'], demo='''
func main() {
	for _, n := range []int{0, 100, 65535, 65536, 70000} {
		s := strings.Repeat("x", n)
		b, err := php.Marshal(s)
		check(err == nil && string(b) == fmt.Sprintf("s:%d:\\"%s\\";", n, s), "length %d: %.20s", n, b)
	}
}''', needs='a string of 65536 bytes or more', breaks='the declared length is modulo 65536')

bug(id='t03-omitempty-value-float', property='C16',
 edits={ENC+'struct.go': [('			if field.omitEmpty && rv.Field(field.index).IsZero() {\n', '			if field.omitEmpty && isEmpty(rv.Field(field.index)) {\n'),
  ('				if v.IsZero() {\n', '				if isEmpty(v) {\n'),
  ('func compileStructFieldsEncoders(', '''// isEmpty reports if v should be omitted
func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	case reflect.Array:
		return v.Len() == 0 || v.IsZero()
	}
	return v.IsZero()
}

func compileStructFieldsEncoders(''')]},
 imports=['math'], demo='''
func main() {
	v := struct {
		F float64 `php:",omitempty"`
	}{math.Copysign(0, -1)}
	b, err := php.Marshal(v)
	check(err == nil && string(b) == `a:1:{s:1:"F";d:-0;}`, "%s %v", b, err)
}''', needs='an omitempty float field which holds negative zero', breaks='the field is left out, though it does not hold the zero value', drop=True)

bug(id='t04-omit-pointer-to-zero', property='C16',
 edits={ENC+'struct.go': [('			if field.omitEmpty && rv.Field(field.index).IsZero() {\n', '			if field.omitEmpty && omitted(rv.Field(field.index)) {\n'),
  ('				if v.IsZero() {\n', '				if omitted(v) {\n'),
  ('func compileStructFieldsEncoders(', '''func omitted(v reflect.Value) bool {
	if v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	return v.IsZero()
}

func compileStructFieldsEncoders(''')]},
 demo='''
func main() {
	v := struct {
		A any `php:",omitempty"`
	}{0}
	b, err := php.Marshal(v)
	check(err == nil && string(b) == `a:1:{s:1:"A";i:0;}`, "%s %v", b, err)
}''', needs='an omitempty interface field which holds a zero value', breaks='the field is left out')

bug(id='t05-tag-option-order', property='C16',
 edits={RT+'struct_field.go': [('''		for _, opt := range opts[1:] {
			switch opt {
			case "omitempty":
				st.IsOmitEmpty = true
			case "string":
				st.IsString = true
			}
		}
''', '''		switch opts[1] {
		case "omitempty":
			st.IsOmitEmpty = true
			st.IsString = len(opts) > 2 && opts[2] == "string"
		case "string":
			st.IsString = true
		}
''')]},
 demo='''
func main() {
	v := struct {
		A int `php:"a,string,omitempty"`
	}{}
	b, err := php.Marshal(v)
	check(err == nil && string(b) == `a:0:{}`, "%s %v", b, err)
}''', needs='a tag with omitempty after string', breaks='omitempty is ignored', drop=True)

bug(id='t06-float32-in-any', property='C17',
 edits={ENC+'interface.go': [('''	case reflect.Float32:
		return encodeFloat32(ctx, b, rv)
	case reflect.Float64:
		return encodeFloat64(ctx, b, rv)
	case reflect.String:
		return encodeString(ctx, b, rv)
	}

	switch rv.Kind() {
	case reflect.Slice:
''', '''	case reflect.Float32, reflect.Float64:
		return encodeFloat64(ctx, b, rv)
	case reflect.String:
		return encodeString(ctx, b, rv)
	}

	switch rv.Kind() {
	case reflect.Slice:
''')]},
 demo='''
func main() {
	a, _ := php.Marshal([]any{float32(0.1)})
	b, _ := php.Marshal([]float32{0.1})
	check(string(a) == string(b), "%s %s", a, b)
}''', needs='a float32 inside an interface whose shortest text differs from that as float64', breaks='the text differs from that of a statically typed float32', drop=True)

bug(id='t07-map-size-mapany', property='C02',
 edits={ENC+'map_reflect.go': [('''	mapLen := rv.Len()
	if mapLen == 0 {
		return appendEmptyArray(b), nil
	}

	b = appendArrayBegin(b, int64(mapLen))

	keyEncoder := mapKeyEncoder[keyType.Kind()]

	var valueType = rt.Elem()
''', '''	mapLen := rv.Len()
	if mapLen == 0 {
		return appendEmptyArray(b), nil
	}

	b = appendArrayBegin(b, int64(mapLen))

	keyEncoder := keyEncoderOf(keyType)

	var valueType = rt.Elem()
'''), ('func reflectMap(', '''func keyEncoderOf(keyType reflect.Type) encoder {
	if keyType.Kind() == reflect.String && keyType.PkgPath() == "" {
		return encodeStringKey
	}
	return mapKeyEncoder[keyType.Kind()]
}

// encodeStringKey encode decimal string key as int, php does it for array keys
func encodeStringKey(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
	s := rv.String()
	if len(s) > 4 && s[0] != '0' {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			return appendIntBytes(b, n), nil
		}
	}
	return encodeString(ctx, b, rv)
}

func reflectMap('''), ('import (\n\t"reflect"', 'import (\n\t"reflect"\n\t"strconv"')]},
 demo='''
func main() {
	v := map[string]any{"12345": 1}
	b, err := php.Marshal([]any{v})
	check(err == nil && string(b) == `a:1:{i:0;a:1:{s:5:"12345";i:1;}}`, "%s %v", b, err)
}''', needs='a map[string]any inside an interface with a decimal key of 5 or more digits', breaks='the string key is written as an integer key')

bug(id='t08-seen-not-removed-on-error', property='C12',
 edits={ENC+'context.go': [('	ctx.smallBuffer = ctx.smallBuffer[:0]\n', '	ctx.smallBuffer = ctx.smallBuffer[:0]\n	ctx.StackDepth = min(ctx.StackDepth, 1001)\n')],
  ENC+'interface.go': [('''	ctx.Seen[key] = empty{}
	b, err := enc(ctx, b, rv)
	delete(ctx.Seen, key)
	return b, err
''', '''	ctx.Seen[key] = empty{}
	b, err := enc(ctx, b, rv)
	if err == nil {
		delete(ctx.Seen, key)
	}
	return b, err
''')]},
 demo='''
func main() {
	m := map[string]any{"f": func() {}}
	_, err := php.Marshal([]any{m})
	check(err != nil, "accepted")
	delete(m, "f")
	for i := 0; i < 100; i++ {
		b, err := php.Marshal([]any{m})
		check(err == nil && string(b) == "a:1:{i:0;a:0:{}}", "%s %v", b, err)
	}
}''', needs='a map in an interface whose encoding failed once, encoded again (same map) with the same pooled context', breaks='the later call reports recursion', drop=True)

bug(id='t09-stack-depth-error-leak', property='C13',
 edits={ENC+'ptr.go': [('''	b, err := enc(ctx, b, target)
	if tracked {
		delete(ctx.Seen, key)
	}
	ctx.StackDepth--
''', '''	b, err := enc(ctx, b, target)
	if err != nil {
		return b, err
	}
	if tracked {
		delete(ctx.Seen, key)
	}
	ctx.StackDepth--
''')]},
 demo='''
type N struct {
	Next *N
	F    any
}

func main() {
	// a deep value fails, then a part of it, which is fine by itself
	var first, last *N
	for i := 0; i < 1500; i++ {
		first = &N{Next: first}
		if last == nil {
			last = first
		}
	}
	last.F = func() {}
	for i := 0; i < 50; i++ {
		_, err := php.Marshal(first)
		check(err != nil, "accepted")
	}
	last.F = nil
	for i := 0; i < 50; i++ {
		_, err := php.Marshal(first)
		check(err == nil, "%v", err)
	}
}''', needs='a chain of more than 1000 references whose encoding fails at the end, encoded again after that was corrected', breaks='recursion is reported for an acyclic value', drop=True)

bug(id='t10-seen-key-without-len', property='C13',
 edits={ENC+'context.go': [('''	if rv.Kind() == reflect.Slice {
		key.len = rv.Len()
	}
''', '')]},
 allow_fix=True, demo='''
func main() {
	a := []any{1, nil}
	a[1] = a[:1]
	b, err := php.Marshal(a)
	check(err == nil, "%s %v", b, err)
}''', needs='a slice holding a shorter slice of the same array', breaks='recursion is reported for an acyclic value', drop=True)

bug(id='t11-array-elem-marshaler', property='C14',
 edits={ENC+'interface.go': [('''	if rv.Type().Implements(marshalerType) {
		enc, err := compileMarshaler(rv.Type())
		if err != nil {
			return nil, err
		}
		return enc(ctx, b, rv)
	}
''', '''	if rv.Kind() != reflect.Map && rv.Type().Implements(marshalerType) {
		enc, err := compileMarshaler(rv.Type())
		if err != nil {
			return nil, err
		}
		return enc(ctx, b, rv)
	}
''')]},
 demo='''
type M map[string]int

func (m M) MarshalPHP() ([]byte, error) { return []byte("i:5;"), nil }

func main() {
	b, err := php.Marshal([]any{M{"a": 1}})
	check(err == nil && string(b) == "a:1:{i:0;i:5;}", "%s %v", b, err)
}''', needs='a map type with MarshalPHP inside an interface', breaks='the method is not called', drop=True)

bug(id='t12-marshaler-error-wrapped', property='C14',
 edits={ENC+'slice.go': [('''			b, err = elemEnc(ctx, b, rv.Index(i))
			if err != nil {
				return b, err
			}
''', '''			b, err = elemEnc(ctx, b, rv.Index(i))
			if err != nil {
				return b, fmt.Errorf("index %d: %w", i, err)
			}
'''), ('import (\n', 'import (\n\t"fmt"\n')]},
 demo='''
type M struct{}

var e = fmt.Errorf("x")

func (M) MarshalPHP() ([]byte, error) { return nil, e }

func main() {
	_, err := php.Marshal([]M{{}})
	check(err == e, "%v", err)
}''', needs='a slice element whose MarshalPHP fails', breaks='the error is another one')

bug(id='t13-unmarshaler-in-array', property='C15',
 edits={DEC+'array.go': [('c, err := d.valueDecoder.Decode(ctx, cursor, depth, rv.Index(idx))', 'c, err := d.decodeElem(ctx, cursor, depth, rv.Index(idx))'), ('func (d *arrayDecoder) Decode(', '''func (d *arrayDecoder) decodeElem(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
	if buf := ctx.Buf; rv.Kind() == reflect.String && buf[cursor] == 's' {
		// fast path
		s, c, err := readString(buf, cursor+1)
		if err != nil {
			return 0, err
		}
		rv.SetString(string(s))
		return c, nil
	}
	return d.valueDecoder.Decode(ctx, cursor, depth, rv)
}

func (d *arrayDecoder) Decode(''')]},
 demo='''
type S string

func (s *S) UnmarshalPHP(b []byte) error { *s = S("called " + string(b)); return nil }

func main() {
	var a [1]S
	err := php.Unmarshal([]byte(`a:1:{i:0;s:1:"x";}`), &a)
	check(err == nil && a[0] == `called s:1:"x";`, "%q %v", a, err)
}''', needs='a fixed array of a string type with UnmarshalPHP', breaks='the method is not called')

bug(id='t14-unmarshaler-raw-cap', property='C15',
 edits={DEC+'unmarshal_php.go': [('	src := buf[start:end:end]\n', '	src := buf[start:end]\n')]},
 allow_fix=True, demo='''
type A struct{}

func (*A) UnmarshalPHP(b []byte) error { _ = append(b, "garbagegarbage"...); return nil }

func main() {
	v := struct {
		X A
		Y string
	}{}
	err := php.Unmarshal([]byte(`a:2:{s:1:"X";i:1;s:1:"Y";s:5:"hello";}`), &v)
	check(err == nil && v.Y == "hello", "%v %v", v, err)
}''', needs='an UnmarshalPHP which appends to its argument', breaks='the following data is overwritten', drop=True)

bug(id='t15-raw-shared-in-pool', property='C09',
 edits={'unmarshal.go': [('''	src := make([]byte, len(data))
	copy(src, data)

''', ''), ('	ctx.Buf = src\n', '	src := ctx.Load(data)\n')],
  DEC+'context.go': [('	Buf          []byte\n', '	Buf          []byte\n	small        []byte\n'),
  ('func ReleaseRuntimeContext(', '''// Load copies data to Buf, small input is copied to a buffer owned by ctx.
func (ctx *RuntimeContext) Load(data []byte) []byte {
	if len(data) <= 512 {
		ctx.small = append(ctx.small[:0], data...)
		ctx.Buf = ctx.small
	} else {
		ctx.Buf = append([]byte(nil), data...)
	}
	return ctx.Buf
}

func ReleaseRuntimeContext(''')]},
 demo='''
type U struct{ Raw []byte }

func (u *U) UnmarshalPHP(b []byte) error { u.Raw = b; return nil }

func main() {
	var u U
	check(php.Unmarshal([]byte(`s:5:"first";`), &u) == nil, "error")
	for i := 0; i < 100; i++ {
		var s string
		check(php.Unmarshal([]byte(`s:5:"other";`), &s) == nil, "error")
	}
	check(string(u.Raw) == `s:5:"first";`, "%s", u.Raw)
}''', needs='an UnmarshalPHP which keeps its argument, and a later small input on the same pooled context', breaks='what it kept changes')

bug(id='t16-string-unsafe', property='C09',
 edits={DEC+'string.go': [('	rv.SetString(string(bytes))\n', '	rv.SetString(unsafeStr(bytes))\n')],
  DEC+'interface.go': [('		rv.Set(reflect.ValueOf(string(b)))\n', '		rv.Set(reflect.ValueOf(unsafeStr(b)))\n')]},
 demo='''
type U struct{}

func (u *U) UnmarshalPHP(b []byte) error {
	clear(b[:cap(b)])
	return nil
}

type K string

func (k *K) UnmarshalPHP(b []byte) error { *k = K(b); clear(b); return nil }

type T struct {
	A string
	U *U
	M map[string]U
}

func main() {
	var m map[string]U
	check(php.Unmarshal([]byte(`a:1:{s:3:"key";i:1;}`), &m) == nil, "error")
	_, ok := m["key"]
	check(ok, "%q", m)
	var t struct{ B []byte }
	check(php.Unmarshal([]byte(`a:1:{s:1:"B";s:3:"key";}`), &t) == nil, "error")
	var x any
	in := []byte(`a:1:{i:0;s:3:"abc";}`)
	check(php.Unmarshal(in, &x) == nil, "error")
	clear(in)
	check(fmt.Sprint(x) == "map[0:abc]", "%v", x)
	// memory of the whole document must not stay behind a short string: strings may not share storage
	type P struct{ A, B string }
	var p P
	check(php.Unmarshal([]byte(`a:2:{s:1:"A";s:3:"abc";s:1:"B";s:3:"def";}`), &p) == nil, "error")
	d := uintptr(unsafe.Pointer(unsafe.StringData(p.B))) - uintptr(unsafe.Pointer(unsafe.StringData(p.A)))
	check(d != 22, "strings share the input copy")
}''', imports=['unsafe'], needs='-', breaks='-', drop=True)

bug(id='t17-decoder-shared-float', property='C11',
 edits={DEC+'float.go': [('type floatDecoder struct {\n', 'type floatDecoder struct {\n	f64        float64\n'),
  ('	var f64 float64\n	var err error\n	switch', '	var err error\n	switch'),
  ('		f64 = math.Inf(1)\n', '		d.f64 = math.Inf(1)\n'), ('		f64 = math.Inf(-1)\n', '		d.f64 = math.Inf(-1)\n'), ('		f64 = math.NaN()\n', '		d.f64 = math.NaN()\n'),
  ('		f64, err = strconv', '		d.f64, err = strconv'), ('	rv.SetFloat(f64)\n', '	rv.SetFloat(d.f64)\n')]},
 imports=['sync'], demo='''
func main() {
	var wg sync.WaitGroup
	bad := make(chan float64, 64)
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			doc := []byte(fmt.Sprintf("d:%d.5;", g))
			for i := 0; i < 300000; i++ {
				var f float64
				if err := php.Unmarshal(doc, &f); err != nil || f != float64(g)+0.5 {
					bad <- f
					return
				}
			}
		}()
	}
	wg.Wait()
	check(len(bad) == 0, "%d goroutines saw another goroutine's value", len(bad))
}''', needs='two goroutines decoding floats with the same decoder at the same time', breaks='a data race: one call stores the other call\'s value')

bug(id='t18-cache-map-mutated', property='C11',
 edits={DEC+'compile.go': [('''	newDecoderMap := make(map[reflect.Type]Decoder, len(m)+1)
	for k, v := range m {
		newDecoderMap[k] = v
	}

	newDecoderMap[rt] = dec

	cachedDecoderMap.Store(&newDecoderMap)
''', '''	if len(m)%64 != 0 {
		// don't copy the whole map for each new type
		m[rt] = dec
		return
	}

	newDecoderMap := make(map[reflect.Type]Decoder, len(m)+64)
	for k, v := range m {
		newDecoderMap[k] = v
	}

	newDecoderMap[rt] = dec

	cachedDecoderMap.Store(&newDecoderMap)
''')]},
 imports=['sync', 'reflect'], demo='''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 1; i < 1500; i++ {
				v := reflect.New(reflect.ArrayOf(i*16+g, reflect.TypeOf(0)))
				_ = php.Unmarshal([]byte("a:0:{}"), v.Interface())
			}
		}()
	}
	wg.Wait()
}''', needs='types used for the first time while another goroutine looks up its decoder', breaks='a data race on the cache: the runtime aborts with concurrent map writes')

bug(id='t19-partial-compile-cached', property='C12',
 edits={DEC+'interface.go': [('	decoder, err := CompileToGetDecoder(rv.Type())\n', '	decoder, err := CompileToGetDecoder(rv.Type())\n')],
  DEC+'compile.go': [('''	dec, err := compileHead(rt, map[reflect.Type]Decoder{})
	if err != nil {
		return nil, err
	}

	storeDecoder(rt, dec, decoderMap)

	return dec, nil
''', '''	seen := map[reflect.Type]Decoder{}
	dec, err := compileHead(rt, seen)
	for typ, d := range seen {
		// pointers to inner types are ready too
		if typ.Kind() == reflect.Struct {
			decoderMap = storeDecoder(reflect.PointerTo(typ), d, decoderMap)
		}
	}
	if err != nil {
		return nil, err
	}

	storeDecoder(rt, dec, decoderMap)

	return dec, nil
'''), ('func storeDecoder(rt reflect.Type, dec Decoder, m map[reflect.Type]Decoder) {', 'func storeDecoder(rt reflect.Type, dec Decoder, m map[reflect.Type]Decoder) map[reflect.Type]Decoder {'),
 ('	cachedDecoderMap.Store(&newDecoderMap)\n', '	cachedDecoderMap.Store(&newDecoderMap)\n	return newDecoderMap\n')]},
 demo='''
type In struct{ X int }
type Out struct {
	A In
	B struct{ In }
}

type Bad struct {
	A int
	B **int
}

func main() {
	for i := 0; i < 3; i++ {
		var b Bad
		err := php.Unmarshal([]byte(`a:1:{s:1:"A";i:1;}`), &b)
		check(err != nil, "attempt %d accepted", i)
	}
}''', needs='an unsupported struct type used a second time', breaks='the second attempt is accepted, as its incomplete decoder was cached by the first')

bug(id='t20-class-len-int32', property='C20',
 edits={DEC+'context.go': [('''	end := start + classLen + 1
	if !hasBytes(buf, end, 2) {''', '''	end := start + int64(uint8(classLen)) + 1
	if !hasBytes(buf, end, 2) {''')]},
 imports=['strings'], demo='''
func main() {
	for _, n := range []int{0, 1, 255, 256, 300} {
		var v struct{ A int }
		err := php.Unmarshal([]byte(fmt.Sprintf(`O:%d:"%s":1:{s:1:"A";i:7;}`, n, strings.Repeat("c", n))), &v)
		check(err == nil && v.A == 7, "class name of %d bytes: %v", n, err)
	}
}''', needs='a class name of 256 bytes or more', breaks='the object is refused')

bug(id='t21-class-name-empty', property='C20',
 edits={DEC+'context.go': [('''	if !hasByte(buf, start) || buf[start] != '"' {
		return start, errors.ErrUnexpectedEnd("class name", start)
	}
''', '''	if !hasByte(buf, start) || buf[start] != '"' || classLen == 0 {
		return start, errors.ErrUnexpectedEnd("class name", start)
	}
''')]},
 demo='''
func main() {
	var v map[string]int
	err := php.Unmarshal([]byte(`O:0:"":1:{s:1:"A";i:7;}`), &v)
	check(err == nil && v["A"] == 7, "%v", err)
}''', needs='an object with an empty class name', breaks='the object is refused')

bug(id='t22-slice-growth-exact', property='C21',
 edits={DEC+'slice.go': [('newSlice := reflect.MakeSlice(d.stype, currentIndex+1, max(currentIndex+1, 2*slice.Cap()))', 'newSlice := reflect.MakeSlice(d.stype, currentIndex+1, max(currentIndex+1, slice.Cap()+64))')]},
 allow_fix=True, demo='''
func main() {
	doc := []byte("a:1:{")
	n := 60000
	for i := 0; i < n; i++ {
		doc = fmt.Appendf(doc, "i:%d;i:1;", i)
	}
	doc = append(doc, '}')
	var a, b runtime.MemStats
	var v []int
	php.Unmarshal(doc, &v)
	v = nil
	runtime.ReadMemStats(&a)
	php.Unmarshal(doc, &v)
	runtime.ReadMemStats(&b)
	check(len(v) == n && b.TotalAlloc-a.TotalAlloc < 64<<20, "%d bytes for %d elements", b.TotalAlloc-a.TotalAlloc, n)
}''', imports=['runtime'], needs='a long list whose declared count is too small', breaks='allocation is quadratic', drop=True)

bug(id='t23-out-of-range-nocount', property='C25',
 edits={DEC+'context.go': [('''	case 's':
		return skipString(buf, cursor)
	case 'd':
''', '''	case 's':
		return skipString(buf, cursor)
	case 'E', 'R', 'r':
		// enum and reference
		for hasByte(buf, cursor) && buf[cursor] != ';' {
			cursor++
		}
		return cursor + 1, nil
	case 'd':
''')]},
 demo='''
func main() {
	var v struct{ A int }
	err := php.Unmarshal([]byte(`a:2:{s:1:"x";R;s:1:"A";i:1;}`), &v)
	check(err != nil, "accepted")
}''', drop=True, needs='-', breaks='-')

bug(id='t24-skip-float-stop', property='C25',
 edits={DEC+'context.go': [('''		_, end, err := readFloatBytes(buf, cursor)
		return end, err
	case 'i':
''', '''		cursor += 2
		for hasByte(buf, cursor) && (numTable[buf[cursor]] || buf[cursor] == '.' || buf[cursor] == '-' || buf[cursor] == '+' || buf[cursor] == 'E') {
			cursor++
		}
		if !hasByte(buf, cursor) || buf[cursor] != ';' {
			return cursor, errors.ErrUnexpectedEnd("float", cursor)
		}
		return cursor + 1, nil
	case 'i':
''')]},
 demo='''
func main() {
	for _, f := range []string{"0.5", "-1", "1.5E+25", "INF", "-INF", "NAN", "1e10"} {
		var v struct{ A int }
		err := php.Unmarshal([]byte(`a:2:{s:1:"x";d:`+f+`;s:1:"A";i:1;}`), &v)
		check(err == nil && v.A == 1, "%s: %v", f, err)
	}
}''', needs='a skipped float which is INF, NAN or has a lower case exponent', breaks='the document is refused', drop=True)

bug(id='t25-skip-oob-scalar', property='C25',
 edits={DEC+'array.go': [('				c, err := skipValue(buf, cursor, depth)\n', '				c, err := skipElement(buf, cursor, depth)\n'),
  ('func (d *arrayDecoder) Decode(', '''// skipElement skip element of out of range index, most of them are scalar.
func skipElement(buf []byte, cursor, depth int64) (int64, error) {
	if buf[cursor] == 'i' || buf[cursor] == 'd' || buf[cursor] == 'b' {
		end := bytes.IndexByte(buf[cursor:], ';')
		if end < 0 {
			return cursor, errors.ErrUnexpectedEnd("array value", cursor)
		}
		return cursor + int64(end) + 1, nil
	}
	return skipValue(buf, cursor, depth)
}

func (d *arrayDecoder) Decode('''), ('import (\n', 'import (\n\t"bytes"\n')]},
 demo='''
func main() {
	var v [1]int
	check(php.Unmarshal([]byte(`a:2:{i:0;i:1;i:5;i:3;}`), &v) == nil && v[0] == 1, "%v", v)
	check(php.Unmarshal([]byte(`a:2:{i:0;i:1;i:5;i:x;}`), &v) != nil, "i:x; accepted")
}''', needs='a malformed integer or boolean at an out of range index', breaks='the document is accepted')

bug(id='t26-null-in-skip-oob', property='C24',
 edits={DEC+'array.go': [('''			if idx < d.alen {
				c, err''', '''			if uint8(idx) < uint8(d.alen) || idx < d.alen {
				idx &= 0xff
				c, err''')]},
 demo='''
func main() {
	var v [3]int
	err := php.Unmarshal([]byte(`a:2:{i:0;i:1;i:256;i:9;}`), &v)
	check(err == nil && v[0] == 1, "%v %v", v, err)
}''', needs='an out of range index whose low byte is in range', breaks='an ignored element overwrites a stored one')

bug(id='t27-array-descending', property='C24',
 edits={DEC+'slice.go': [('''				if currentIndex < slice.Cap() {
					slice = slice.Slice(0, currentIndex+1)
''', '''				if currentIndex < slice.Cap() {
					slice = slice.Slice(0, max(currentIndex+1, min(int(arrLen), slice.Cap())))
''')]},
 demo='''
func main() {
	var v []int
	err := php.Unmarshal([]byte(`a:5:{i:0;i:1;i:1;i:2;}`), &v)
	check(err == nil && len(v) == 2, "%v %v", v, err)
}''', allow_fix=True, needs='a list with a declared count larger than the number of its entries', breaks='the result is longer than max(key)+1', drop=True)

bug(id='t28-null-struct-reset', property='C26',
 edits={DEC+'struct.go': [('''			return 0, err
		}
		cursor += 2
		return cursor, nil
''', '''			return 0, err
		}
		if depth > 1 {
			rv.SetZero()
		}
		return cursor + 2, nil
''')]},
 demo='''
func main() {
	v := struct{ S struct{ A int } }{}
	v.S.A = 5
	err := php.Unmarshal([]byte(`a:1:{s:1:"S";N;}`), &v)
	check(err == nil && v.S.A == 5, "%v %v", v, err)
}''', needs='null for a struct field of a non-empty destination', breaks='the nested struct is reset')

bug(id='t29-null-named-bytes', property='C26',
 edits={DEC+'bytes.go': [('''	if bytes == nil {
		if ctx.Buf[cursor] == 'N' {
			rv.SetZero()
		}
		return c, nil
	}
''', '''	if bytes == nil {
		return c, nil
	}
''')]},
 demo='''
func main() {
	v := struct{ B []byte }{[]byte("x")}
	err := php.Unmarshal([]byte(`a:1:{s:1:"B";N;}`), &v)
	check(err == nil && v.B == nil, "%v %v", v, err)
}''', allow_fix=True, needs='null for a byte slice which holds something', breaks='the byte slice is kept', drop=True)

bug(id='t30-ptr-string-null', property='C27',
 edits={DEC+'wrapped_string.go': [('''	if err := d.dec.DecodeString(ctx, bytes, cursor, rv); err != nil {''', '''	if len(bytes) == 0 {
		// php casts empty string to 0
		rv.SetZero()
	} else if err := d.dec.DecodeString(ctx, bytes, cursor, rv); err != nil {''')]},
 demo='''
func main() {
	v := struct {
		A int `php:",string"`
	}{}
	err := php.Unmarshal([]byte(`a:1:{s:1:"A";s:0:"";}`), &v)
	check(err != nil, "accepted")
}''', needs='an empty string for a numeric field with the string option', breaks='it is accepted as 0')

bug(id='t31-string-option-any-pointer', property='C27',
 edits={ENC+'interface.go': [('''	case reflect.Float32:
		return encodeFloat32AsString(ctx, b, rv)
	case reflect.Float64:
		return encodeFloat64AsString(ctx, b, rv)
	case reflect.String:
		return encodeString(ctx, b, rv)
	}

	// slice''', '''	case reflect.Float32, reflect.Float64:
		return encodeFloat64AsString(ctx, b, rv)
	case reflect.String:
		return encodeString(ctx, b, rv)
	}

	// slice''')]},
 demo='''
func main() {
	v := struct {
		A any `php:",string"`
	}{float32(0.1)}
	b, err := php.Marshal(v)
	check(err == nil && string(b) == `a:1:{s:1:"A";s:3:"0.1";}`, "%s %v", b, err)
}''', needs='a float32 in an interface field with the string option', breaks='the text is that of another number', drop=True)

bug(id='t32-string-int-min', property='C27',
 edits={ENC+'int_as_string.go': [('''	var count int64
	if number <= 0 {
		count++
	}

	for number != 0 {
		number /= 10
		count += 1
	}

	return count
''', '''	var count int64 = 1
	if number < 0 {
		count++
		number = -number
	}

	for number >= 10 {
		number /= 10
		count += 1
	}

	return count
''')]},
 imports=['math'], demo='''
func main() {
	for _, n := range []int64{0, 1, -1, 9, 10, -10, math.MaxInt64, math.MinInt64} {
		v := struct {
			A int64 `php:",string"`
		}{n}
		b, err := php.Marshal(v)
		s := fmt.Sprint(n)
		check(err == nil && string(b) == fmt.Sprintf(`a:1:{s:1:"A";s:%d:"%s";}`, len(s), s), "%s %v", b, err)
	}
}''', needs='the smallest int64 in a field with the string option', breaks='the declared length is wrong')

bug(id='t33-recursive-map-array', property='C22',
 edits={DEC+'compile.go': [('''	elem := typ.Elem()
	arrayDec := newArrayDecoder(nil, elem, typ.Len(), structName, fieldName)
	structTypeToDecoder[typ] = arrayDec
	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
	if err != nil {
		return nil, err
	}
	arrayDec.valueDecoder = decoder
	return arrayDec, nil
''', '''	elem := typ.Elem()
	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
	if err != nil {
		return nil, err
	}
	return newArrayDecoder(decoder, elem, typ.Len(), structName, fieldName), nil
''')]},
 allow_fix=True, flags='', demo='''
type A [1]map[string]A

func main() {
	done := make(chan bool)
	go func() {
		var a A
		err := php.Unmarshal([]byte(`a:1:{i:0;a:1:{s:1:"k";N;}}`), &a)
		check(err == nil && len(a[0]) == 1, "%v %v", a, err)
		done <- true
	}()
	<-done
}''', needs='an array type recursive through a map', breaks='compiling the type never ends (stack overflow)', drop=True)

bug(id='t34-recursive-key-by-elem', property='C22',
 edits={ENC+'slice.go': [('''	if recursiveEnc, exists := seen[rt]; exists {
		return recursiveEnc.Encode, nil
	}
	recursiveEnc := &structRecEncoder{}
	seen[rt] = recursiveEnc
''', '''	if recursiveEnc, exists := seen[rt]; exists && recursiveEnc.enc != nil {
		return recursiveEnc.enc, nil
	} else if exists {
		return recursiveEnc.Encode, nil
	}
	recursiveEnc := &structRecEncoder{}
	seen[rt] = recursiveEnc
	defer delete(seen, rt.Elem())
''')]},
 demo='''
func main() {}
''', drop=True, needs='-', breaks='-')

bug(id='t35-depth-shared-per-call', property='C23',
 edits={DEC+'map.go': [('		valueCursor, err := d.valueDecoder.Decode(ctx, cursor, depth, v.Elem())\n', '''		valueDepth := depth
		if d.valueType.Kind() == reflect.Ptr {
			// pointer decoder count itself
			valueDepth--
		}
		valueCursor, err := d.valueDecoder.Decode(ctx, cursor, valueDepth, v.Elem())
''')]},
 imports=['strings'], demo='''
type M map[string]*M

func main() {
	for _, d := range []int{100, 10000, 10001, 10050} {
		var m M
		err := php.Unmarshal([]byte(strings.Repeat(`a:1:{s:1:"k";`, d)+"N;"+strings.Repeat("}", d)), &m)
		check((err == nil) == (d <= 10000), "depth %d: %v", d, err)
	}
}''', needs='nesting through maps of pointers', breaks='the nesting limit is not enforced')

bug(id='t36-depth-any-reset', property='C23',
 edits={DEC+'interface.go': [('		cursor, err := d.mapArrayDecoder.Decode(ctx, cursor, depth, ptr)\n', '		cursor, err := d.mapArrayDecoder.Decode(ctx, cursor, min(depth, maxDecodeNestingDepth-1), ptr)\n')]},
 imports=['strings'], demo='''
func main() {
	for _, d := range []int{100, 9999, 10000, 10001, 20000} {
		var v any
		err := php.Unmarshal([]byte(strings.Repeat(`a:1:{i:0;`, d)+"N;"+strings.Repeat("}", d)), &v)
		check((err == nil) == (d <= 10000), "depth %d: %v", d, err)
	}
}''', needs='arrays nested more than 10000 deep in an interface', breaks='they are accepted')

bug(id='t37-any-int-key-string', property='C08',
 edits={DEC+'interface.go': [('''		var v string
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.strDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
''', '''		var v string
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.strDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(reflect.ValueOf(arrayKey(v)))
'''), ('func (d *interfaceDecoder) Decode(', '''// arrayKey cast string to int, as php does
func arrayKey(v string) any {
	if i, err := parseInt64([]byte(v)); err == nil && strconv.FormatInt(i, 10) == v {
		return i
	}
	return v
}

func (d *interfaceDecoder) Decode('''), ('	"reflect"\n', '	"reflect"\n	"strconv"\n')]},
 demo='''
func main() {
	var v any
	err := php.Unmarshal([]byte(`a:1:{s:2:"12";i:1;}`), &v)
	check(err == nil && v.(map[any]any)["12"] == int64(1), "%#v %v", v, err)
}''', needs='a dynamically decoded array with a decimal string key', breaks='the key becomes an int64')

bug(id='t38-any-keeps-holding', property='C08',
 edits={DEC+'interface.go': [('''	if rv.Type().NumMethod() == 0 {
		// concrete type is empty interface
''', '''	if isAny := rv.Type().NumMethod() == 0; isAny {
		if e := rv.Elem(); buf[cursor] == 's' && e.IsValid() && e.Type() == reflect.TypeOf([]byte(nil)) {
			// keep type of existing value
			b, end, err := readString(buf, cursor+1)
			if err != nil {
				return 0, err
			}
			rv.Set(reflect.ValueOf(append([]byte{}, b...)))
			return end, nil
		}
		// concrete type is empty interface
''')]},
 demo='''
func main() {
	var v any = []byte("x")
	err := php.Unmarshal([]byte(`s:1:"y";`), &v)
	check(err == nil && v == any("y"), "%#v %v", v, err)
}''', needs='an interface which held a byte slice', breaks='a string decodes to a byte slice')

bug(id='t39-uint8-slice-elem', property='C06',
 edits={DEC+'compile.go': [('''	case reflect.Uint8:
		return compileUint8(rt, structName, fieldName)
''', '''	case reflect.Uint8:
		if rt.Name() != "uint8" {
			// enum
			return compileUint(reflect.TypeOf(uint(0)), structName, fieldName)
		}
		return compileUint8(rt, structName, fieldName)
''')],
  DEC+'uint.go': [('	if rv.OverflowUint(u64) {\n', '	if bits := d.typ.Bits(); bits < 64 && u64>>bits != 0 {\n')]},
 demo='''
type E uint8

func main() {
	var e E
	err := php.Unmarshal([]byte("i:300;"), &e)
	check(err != nil, "300 became %d", e)
}''', needs='a named uint8 type and a value over 255', breaks='the value is truncated')

bug(id='t40-key-int-overflow', property='C06',
 edits={DEC+'compile.go': [('''	if typ.Kind() == reflect.String {
		return newStringDecoder(structName, fieldName), nil
	}
''', '''	switch typ.Kind() {
	case reflect.String:
		return newStringDecoder(structName, fieldName), nil
	case reflect.Int, reflect.Int64, reflect.Int32:
		return &indexDecoder{}, nil
	}
''')],
  DEC+'int.go': [('func readInt(', '''// indexDecoder is a intDecoder without check of overflow, for map keys
type indexDecoder struct{}

func (d *indexDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
	b, c, err := readIntegerBytes(ctx.Buf, cursor)
	if err != nil {
		return 0, err
	}
	i64, err := parseInt64(b)
	if err != nil {
		return 0, errors.ErrSyntax("php-serialize: invalid key", cursor)
	}
	rv.SetInt(i64)
	return c, nil
}

func readInt(''')]},
 demo='''
func main() {
	var m map[int32]string
	err := php.Unmarshal([]byte(`a:1:{i:4294967297;s:1:"x";}`), &m)
	check(err != nil, "%v", m)
}''', needs='an integer key over the range of an int32 key type', breaks='the key is truncated')

bug(id='t41-float-int-token', property='C03',
 edits={DEC+'float.go': [('''	case 'd':
		return readFloatBytes(buf, cursor)
''', '''	case 'd', 'i':
		if buf[cursor] == 'i' {
			// php may serialize float as int
			return readIntegerBytes(buf, cursor)
		}
		return readFloatBytes(buf, cursor)
''')]},
 demo='''
func main() {
	var f float64
	check(php.Unmarshal([]byte("i:9007199254740993;"), &f) != nil, "stored %v", f)
}''', needs='an integer for a float destination', breaks='it is accepted, and rounded')

bug(id='t42-bytes-array-index', property='C03',
 edits={DEC+'bytes.go': [('	if buf[cursor] == \'a\' {\n		if d.sliceDecoder', '	if hasByte(buf, cursor) && buf[cursor] == \'a\' && rv.IsNil() {\n		if d.sliceDecoder')]},
 demo='''
func main() {
	b := []byte("old")
	err := php.Unmarshal([]byte("a:1:{i:0;i:65;}"), &b)
	check(err == nil && string(b) == "A", "%q %v", b, err)
}''', needs='an array of integers for a byte slice which is not nil', breaks='it is refused')

bug(drop=True, id='t43-roundtrip-empty-key', property='C03',
 edits={DEC+'string.go': [('	s, end, err := readString(buf, cursor)\n	if err != nil {\n		return nil, 0, err\n	}\n', '	s, end, err := readString(buf, cursor)\n	if err != nil {\n		return nil, 0, err\n	}\n	if len(s) == 0 {\n		return nil, end, nil\n	}\n')]},
 demo='''
func main() {
	s := "old"
	err := php.Unmarshal([]byte(`s:0:"";`), &s)
	check(err == nil && s == "", "%q %v", s, err)
}''', needs='an empty string over a non-empty destination, or an empty key of a struct', breaks='the old string stays')

bug(id='t44-roundtrip-map-nan', property='C01',
 edits={ENC+'map.go': [('''		size := rv.Len()
		b = appendArrayBegin(b, int64(size))
''', '''		size := rv.Len()
		if size == 0 {
			return appendNull(b), nil
		}
		b = appendArrayBegin(b, int64(size))
''')]},
 demo='''
func main() {
	b, err := php.Marshal(struct{ M map[string]int }{map[string]int{}})
	check(err == nil && string(b) == `a:1:{s:1:"M";a:0:{}}`, "%s %v", b, err)
}''', needs='an empty map', breaks='it is written as null', drop=True)

bug(id='t45-bytes-spare-capacity', property='C09',
 edits={DEC+'bytes.go': [('	rv.SetBytes(append(make([]byte, 0, len(bytes)), bytes...))\n', '	rv.SetBytes(bytes)\n')]},
 demo='''
func main() {
	var v []([]byte)
	err := php.Unmarshal([]byte(`a:2:{i:0;s:3:"abc";i:1;s:3:"def";}`), &v)
	check(err == nil, "%v", err)
	_ = append(v[0], "0123456789abc"...)
	check(string(v[1]) == "def", "%q", v)
}''', allow_fix=True, needs='appending to a decoded byte slice', breaks='other decoded byte slices change', drop=True)

bug(id='t46-marshal-sorts-input', property='C10',
 edits={ENC+'slice_reflect.go': [('''	for i := 0; i < size; i++ {
		b = appendIntBytes(b, int64(i))
		b, err = encoder(ctx, b, rv.Index(i))
		if err != nil {
			return b, err
		}
	}
''', '''	for i := 0; i < size; i++ {
		elem := rv.Index(i)
		if e := elem.Elem(); e.Kind() == reflect.Ptr && !e.IsNil() && e.Elem().Kind() == reflect.String {
			// deref once, the pointer is not needed anymore
			elem.Set(e.Elem())
		}
		b = appendIntBytes(b, int64(i))
		b, err = encoder(ctx, b, elem)
		if err != nil {
			return b, err
		}
	}
''')]},
 demo='''
func main() {
	s := "x"
	v := []any{&s}
	_, err := php.Marshal(v)
	check(err == nil, "%v", err)
	_, err = php.Marshal([]any{v})
	_, ok := v[0].(*string)
	check(err == nil && ok, "the element is now a %T", v[0])
}''', needs='a pointer to a string in a []any inside an interface', breaks='Marshal modifies the slice')

bug(id='t47-error-returns-partial', property='C10',
 edits={ENC+'marshal.go': [('''	if err != nil {
		freeCtx(ctx)
		return nil, err
	}

	dst''', '''	if err != nil {
		freeCtx(ctx)
		return b[:0], err
	}

	dst''')]},
 demo='''
func main() {
	b, err := php.Marshal([]any{1, func() {}})
	check(err != nil && b == nil, "%v %v", b, err)
}''', needs='a failing Marshal', breaks='the returned bytes are not nil, and share the pooled buffer')

bug(id='t48-object-in-slice', property='C05',
 edits={DEC+'context.go': [('''	if buf[cursor+3] != '}' {
		return errors.ErrUnexpected("empty array end with '}'", cursor+3, buf[cursor+3])

	}

	return nil
''', '''	return nil
''')]},
 demo='''
func main() {
	var v []int
	check(php.Unmarshal([]byte("a:0:{x"), &v) != nil, "accepted")
}''', needs='an empty list whose closing brace is damaged', breaks='it is accepted', drop=True)

bug(id='t49-bool-true-payload', property='C05',
 edits={DEC+'context.go': [('''	case '0':
		v = false
	default:
		return false, errors.ErrInvalidCharacter(buf[cursor+2], "bool", cursor)
	}
''', '''	default:
		v = buf[cursor+2] > '0'
	}
''')]},
 demo='''
func main() {
	var v bool
	check(php.Unmarshal([]byte("b:x;"), &v) != nil, "accepted")
}''', needs='a boolean whose payload is damaged', breaks='it is accepted', drop=True)

bug(id='t50-round-float-string', property='C07',
 edits={ENC+'float.go': [('''	buf = strconv.AppendFloat(buf, f64, format, -1, 64)
	b = appendStringHead''', '''	buf = strconv.AppendFloat(buf, f64, format, 17, 64)
	b = appendStringHead''')]},
 demo='''
func main() {
	v := struct {
		F float64 `php:",string"`
	}{5e-324}
	b, err := php.Marshal(v)
	check(err == nil && string(b) == `a:1:{s:1:"F";s:6:"5e-324";}`, "%s %v", b, err)
}''', drop=True, needs='-', breaks='-')

bug(id='t51-float32-f64-bits', property='C07',
 edits={DEC+'float.go': [('		f64, err = strconv.ParseFloat(unsafeStr(bytes), rv.Type().Bits())\n', '''		f64, err = strconv.ParseFloat(unsafeStr(bytes), 64)
		if err == nil && rv.Kind() == reflect.Float32 {
			if math.Abs(f64) > math.MaxFloat32*(1+1e-8) {
				err = strconv.ErrRange
			}
			f64 = float64(float32(f64))
		}
''')]},
 allow_fix=True, demo='''
func main() {
	// halfway between two float32 values, a little above it in decimal
	var f float32
	err := php.Unmarshal([]byte("d:1.00000005960464477539062500000000000000000001;"), &f)
	check(err == nil && f == 1.0000001192092896, "%v %v", f, err)
}''', needs='a decimal text close to the middle of two float32 values', breaks='double rounding: the float32 is one unit off', drop=True)

bug(id='t52-embedded-alias', property='C18',
 edits={ENC+'struct.go': [('''			if field.Type.Kind() == reflect.Struct || (field.Type.Kind() == reflect.Ptr && field.Type.Elem().Kind() == reflect.Struct) {
				return nil,''', '''			if field.Type.Kind() == reflect.Struct || (field.Type.Kind() == reflect.Ptr && field.Type.Elem().Kind() == reflect.Struct && !cfg.IsOmitEmpty) {
				return nil,''')]},
 demo='''
type E struct{ A int }
type T struct {
	*E `php:",omitempty"`
}

func main() {
	b, err := php.Marshal(T{})
	check(err != nil, "%s", b)
}''', needs='an embedded struct pointer with omitempty', breaks='it is not refused', drop=True)

bug(id='t53-uintptr-encoded', property='C18',
 edits={ENC+'interface.go': [('''	switch rv.Type().Kind() {
	case reflect.Bool:
		return encodeBool(ctx, b, rv)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
''', '''	switch rv.Type().Kind() {
	case reflect.Bool:
		return encodeBool(ctx, b, rv)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint, reflect.Uintptr:
''')]},
 demo='''
func main() {
	b, err := php.Marshal([]any{uintptr(5)})
	check(err != nil, "%s", b)
}''', needs='a uintptr inside an interface', breaks='it is written as an integer')

bug(id='t54-map-cap-clear', property='C19',
 edits={DEC+'map.go': [('''	if buf[cursor] == '}' {
		cursor++
		return cursor, nil
	}

	for {''', '''	if buf[cursor] == '}' {
		rv.Clear()
		return cursor + 1, nil
	}

	for {''')]},
 demo='''
func main() {
	m := map[string]int{"a": 1}
	err := php.Unmarshal([]byte("a:0:{}"), &m)
	check(err == nil && m["a"] == 1, "%v %v", m, err)
}''', needs='an empty array for a map with entries', breaks='the other entries are lost')

bug(id='t55-slice-empty-keeps', property='C19',
 edits={DEC+'slice.go': [('''			rv.SetZero()
			return cursor + 4, nil
''', '''			rv.SetLen(0)
			return cursor + 4, nil
''')]},
 demo='''
func main() {
	old := []int{1, 2, 3}
	v := old
	err := php.Unmarshal([]byte("a:0:{}"), &v)
	check(err == nil && len(v) == 0, "%v %v", v, err)
	v = append(v, 9)
	check(old[0] == 1, "%v", old)
}''', needs='an empty list for a slice with elements, then appending', breaks='the old storage is reused')

bug(id='t56-ptr-in-map-reused', property='C19',
 edits={DEC+'map.go': [('		v := reflect.New(d.valueType)\n', '''		v := d.newValue(rv, k.Elem())
'''), ('func (d *mapDecoder) Decode(', '''func (d *mapDecoder) newValue(m, k reflect.Value) reflect.Value {
	v := reflect.New(d.valueType)
	if d.valueType.Kind() == reflect.Ptr {
		if old := m.MapIndex(k); old.IsValid() {
			v.Elem().Set(old)
		}
	}
	return v
}

func (d *mapDecoder) Decode(''')]},
 demo='''
type T struct{ A, B int }

func main() {
	old := &T{1, 2}
	m := map[string]*T{"k": old}
	err := php.Unmarshal([]byte(`a:1:{s:1:"k";a:1:{s:1:"A";i:5;}}`), &m)
	check(err == nil && *m["k"] == T{5, 0} && old.A == 1, "%v %v %v", m["k"], old, err)
}''', needs='a map of pointers with an entry under the decoded key', breaks='the entry is merged instead of replaced')

bug(id='t57-pointer-any-position', property='C17',
 edits={ENC+'ptr.go': [('''	case reflect.Interface:
		return compileInterface(rt.Elem())
''', '''	case reflect.Interface:
		return deRefNilEncoder(func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
			if rv.Elem().Kind() == reflect.Ptr {
				return nil, fmt.Errorf("encoding nested ptr is not supported *%s", rv.Type().String())
			}
			return reflectInterfaceValue(ctx, b, rv)
		}), nil
''')]},
 demo='''
func main() {
	n := 5
	var a any = &n
	b, err := php.Marshal([]any{&a})
	check(err == nil, "%v", err)
	c, err := php.Marshal([]*any{&a})
	check(err == nil && string(b) == string(c), "%s %v", c, err)
}''', needs='a *any element whose interface holds a pointer', breaks='it is refused, though it is accepted in other positions', drop=True)

bug(id='t58-array-in-any-null', property='C17',
 edits={ENC+'interface.go': [('''	case reflect.Array:
		enc, err := compileWithCache(rv.Type())
''', '''	case reflect.Array:
		if rv.Len() == 0 {
			return appendNull(b), nil
		}
		enc, err := compileWithCache(rv.Type())
''')]},
 demo='''
func main() {
	a, _ := php.Marshal([0]int{})
	b, _ := php.Marshal([]any{[0]int{}})
	check("a:1:{i:0;"+string(a)+"}" == string(b), "%s %s", a, b)
}''', needs='an array of length 0 inside an interface', breaks='it is written as null', drop=True)