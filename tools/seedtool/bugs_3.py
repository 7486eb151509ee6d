ENC = 'internal/encoder/'
DEC = 'internal/decoder/'
RT = 'internal/runtime/'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='u01-key-length-table', property='C02',
 edits={ENC+'string.go': [("	b = strconv.AppendInt(b, int64(len(s)), 10)\n", '''	if n := len(s); n < 10 {
		b = append(b, '0'+byte(n))
	} else if n <= 100 {
		b = append(b, '0'+byte(n/10), '0'+byte(n%10))
	} else {
		b = strconv.AppendInt(b, int64(n), 10)
	}
''')]}, imports=['strings'],
 demo='''
func main() {
	for n := 0; n < 300; n++ {
		s := strings.Repeat("x", n)
		b, err := php.Marshal(s)
		check(err == nil && string(b) == fmt.Sprintf("s:%d:\\"%s\\";", n, s), "length %d: %.20s", n, b)
	}
}''', needs='a string of exactly 100 bytes', breaks='the declared length is ":0"')

bug(id='u02-seen-left-on-error', property='C12',
 edits={ENC+'ptr.go': [('''	b, err := enc(ctx, b, target)
	if tracked {
''', '''	b, err := enc(ctx, b, target)
	if err != nil {
		// the call fails as a whole, unwind at once
		ctx.StackDepth--
		return b, err
	}
	if tracked {
''')]},
 demo='''
type N struct {
	Next *N
	V    any
}

func main() {
	last := &N{V: make(chan int)}
	n := last
	for i := 0; i < 1500; i++ {
		n = &N{Next: n}
	}
	_, err := php.Marshal(n)
	check(err != nil, "no error for a channel")
	last.V = 1
	for i := 0; i < 3; i++ {
		_, err = php.Marshal(n)
		check(err == nil, "%v", err)
	}
}''', needs='a Marshal which fails more than 1000 references deep, then another Marshal of the repaired value', breaks='the second call reports recursion')

bug(id='u03-seen-depth-after-decrement', property='C13',
 edits={ENC+'ptr.go': [('''	if tracked {
		delete(ctx.Seen, key)
	}
	ctx.StackDepth--

	return b, err
''', '''	ctx.StackDepth--
	if ctx.StackDepth > 1000 {
		delete(ctx.Seen, key)
	}

	return b, err
''')]},
 demo='''
type N struct {
	Next *N
	L    []*N
}

func main() {
	shared := &N{}
	n := &N{L: []*N{shared, shared}}
	for d := 990; d < 1010; d++ {
		v := n
		for i := 0; i < d; i++ {
			v = &N{Next: v}
		}
		_, err := php.Marshal(v)
		check(err == nil, "depth %d: %v", d, err)
	}
}''', needs='a value which is shared by two parts, at a depth of exactly 1001 references', breaks='an acyclic value is reported as recursive')

bug(id='u04-tag-bytes', property='C16',
 edits={RT+'struct_field.go': [('''	for _, c := range s {
		switch {
''', '''	for i := 0; i < len(s); i++ {
		c := rune(s[i])
		switch {
''')]},
 demo='''
func main() {
	v := struct {
		A int `php:"价格"`
	}{1}
	b, err := php.Marshal(v)
	check(err == nil && string(b) == "a:1:{s:6:\\"价格\\";i:1;}", "%s %v", b, err)
}''', needs='a key name in the tag which has letters outside ASCII', breaks='the name in the tag is ignored in both directions')

bug(id='u05-marshaler-empty-retry', property='C14',
 edits={ENC+'marshal_php.go': [('''		return append(b, raw...), nil
''', '''		if len(raw) == 0 {
			// nothing returned, give it a second chance
			if raw, err = rv.Interface().(Marshaler).MarshalPHP(); err != nil {
				return nil, err
			}
		}

		return append(b, raw...), nil
'''),('		raw, err := rv.Interface().(Marshaler).MarshalPHP()\n','		var m = rv.Interface().(Marshaler)\n		raw, err := m.MarshalPHP()\n')]},
 demo='''
var calls int

type M struct{}

func (M) MarshalPHP() ([]byte, error) { calls++; return nil, nil }

func main() {
	_, err := php.Marshal([]M{{}})
	check(err == nil && calls == 1, "%d calls, %v", calls, err)
}''', needs='a custom Marshaler which returns no bytes', breaks='MarshalPHP is called twice', drop=True)

bug(id='u06-big-output-not-copied', property='C10',
 edits={ENC+'marshal.go': [('''	dst := make([]byte, len(b))
	copy(dst, b)

	ctx.Buf = b
	freeCtx(ctx)

	return dst, nil
''', '''	ctx.Buf = b
	defer freeCtx(ctx)

	if len(b) > 48<<10 && len(b) == cap(b) {
		return b[:len(b):len(b)], nil
	}

	dst := make([]byte, len(b))
	copy(dst, b)

	return dst, nil
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u07-big-output-shared', property='C10',
 edits={ENC+'marshal.go': [('''	dst := make([]byte, len(b))
	copy(dst, b)

	ctx.Buf = b
	freeCtx(ctx)

	return dst, nil
''', '''	ctx.Buf = b
	defer freeCtx(ctx)

	// copying a big document is expensive
	if len(b) >= 64<<10 {
		return b[:len(b):len(b)], nil
	}

	dst := make([]byte, len(b))
	copy(dst, b)

	return dst, nil
''')]}, imports=['strings'],
 demo='''
func main() {
	for i := 0; i < 10; i++ {
		a, _ := php.Marshal(strings.Repeat("a", 100000))
		want := string(a)
		php.Marshal(strings.Repeat("b", 1000))
		check(string(a) == want, "result of an earlier call changed")
	}
}''', needs='an output of 64 KiB or more', breaks='the returned bytes are overwritten by a later call')

bug(id='u08-encoder-cache-by-name', property='C12',
 edits={ENC+'compile_cache.go': [
  ('	cachedEncoderMap atomic.Pointer[map[reflect.Type]encoder]', '	cachedEncoderMap atomic.Pointer[map[string]encoder]'),
  ('	var m = map[reflect.Type]encoder{}', '	var m = map[string]encoder{}'),
  ('opcodeMap[rt]; exists', 'opcodeMap[typeName(rt)]; exists'),
  ('func storeEncoder(rt reflect.Type, set encoder, m map[reflect.Type]encoder) {\n	newEncoderMap := make(map[reflect.Type]encoder, len(m)+1)\n	newEncoderMap[rt] = set', '''// typeName identifies a type, hashing a string is faster than hashing a interface
func typeName(rt reflect.Type) string {
	return rt.PkgPath() + " " + rt.String()
}

func storeEncoder(rt reflect.Type, set encoder, m map[string]encoder) {
	newEncoderMap := make(map[string]encoder, len(m)+1)
	newEncoderMap[typeName(rt)] = set''')]},
 demo='''
func f() ([]byte, error) {
	type T struct{ A int }
	return php.Marshal(T{1})
}
func g() ([]byte, error) {
	type T struct{ B string }
	return php.Marshal(T{"x"})
}

func main() {
	f()
	b, err := g()
	check(err == nil && string(b) == "a:1:{s:1:\\"B\\";s:1:\\"x\\";}", "%s %v", b, err)
}''', needs='two distinct types with the same name, declared in two functions', breaks='the second type is encoded with the encoder of the first one: wrong output or a panic')

bug(id='u09-decoder-cache-by-name', property='C12',
 edits={DEC+'compile.go': [
  ('	cachedDecoderMap atomic.Pointer[map[reflect.Type]Decoder]', '	cachedDecoderMap atomic.Pointer[map[string]Decoder]'),
  ('	var m = map[reflect.Type]Decoder{}', '	var m = map[string]Decoder{}'),
  ('decoderMap[rt]; exists', 'decoderMap[rt.Elem().PkgPath()+rt.String()]; exists'),
  ('func storeDecoder(rt reflect.Type, dec Decoder, m map[reflect.Type]Decoder) {\n	newDecoderMap := make(map[reflect.Type]Decoder, len(m)+1)', 'func storeDecoder(rt reflect.Type, dec Decoder, m map[string]Decoder) {\n	newDecoderMap := make(map[string]Decoder, len(m)+1)'),
  ('	newDecoderMap[rt] = dec\n', '	newDecoderMap[rt.Elem().PkgPath()+rt.String()] = dec\n')]},
 demo='''
func f() error {
	type T struct{ A int }
	return php.Unmarshal([]byte(`a:1:{s:1:"A";i:1;}`), new(T))
}
func g() (string, error) {
	type T struct{ B, A string }
	var v T
	err := php.Unmarshal([]byte(`a:1:{s:1:"B";s:1:"x";}`), &v)
	return v.B, err
}

func main() {
	f()
	s, err := g()
	check(err == nil && s == "x", "%s %v", s, err)
}''', needs='two distinct types with the same name, declared in two functions', breaks='the second type is decoded with the decoder of the first one')

bug(id='u10-wrong-count-any-uint-string', property='C27',
 edits={ENC+'interface.go': [('''		return appendUintAsString(b, rv.Uint())
''', '''		return appendIntAsString(b, int64(rv.Uint()))
''')]},
 demo='''
func main() {
	v := struct {
		V any `php:",string"`
	}{uint64(1<<63 + 5)}
	b, err := php.Marshal(v)
	check(err == nil && string(b) == `a:1:{s:1:"V";s:19:"9223372036854775813";}`, "%s %v", b, err)
}''', needs='an interface field with the string option holding an unsigned number above MaxInt64', breaks='a negative number is written')

bug(id='u11-any-float32-string', property='C27',
 edits={ENC+'interface.go': [('''	case reflect.Float32:
		return encodeFloat32AsString(ctx, b, rv)
	case reflect.Float64:
		return encodeFloat64AsString(ctx, b, rv)
''', '''	case reflect.Float32, reflect.Float64:
		return encodeFloat64AsString(ctx, b, rv)
''')]},
 demo='''
func main() {
	v := struct {
		V any `php:",string"`
	}{float32(0.1)}
	b, err := php.Marshal(v)
	check(err == nil && string(b) == `a:1:{s:1:"V";s:3:"0.1";}`, "%s %v", b, err)
}''', needs='an interface field with the string option holding a float32', breaks='the text has the digits of the float64', drop=True)

bug(id='u12-integral-float-fast', property='C07',
 edits={ENC+'float.go': [('''	b = append(b, 'd', ':')
	b = strconv.AppendFloat(b, f64, format, -1, 64)
''', '''	b = append(b, 'd', ':')
	if f64 != 0 && abs <= 1<<63 && f64 == math.Trunc(f64) {
		// integral, no need to search for the shortest text
		b = strconv.AppendInt(b, int64(f64), 10)
		return append(b, ';')
	}
	b = strconv.AppendFloat(b, f64, format, -1, 64)
''')]}, imports=['strings'],
 demo='''
func main() {
	for _, f := range []float64{1, -5, 1e15, 1 << 62, 1 << 63, -(1 << 63), 1e19} {
		b, err := php.Marshal(f)
		var g float64
		err2 := php.Unmarshal(b, &g)
		check(err == nil && err2 == nil && f == g && strings.HasPrefix(string(b), "d:"), "%v: %s %v", f, b, g)
	}
}''', needs='the float64 2^63 exactly', breaks='it is written as -2^63')

bug(id='u13-empty-bytes-shared', property='C09',
 edits={DEC+'bytes.go': [('''	rv.SetBytes(append(make([]byte, 0, len(bytes)), bytes...))
	return cursor, nil
}
''', '''	if len(bytes) == 0 {
		rv.SetBytes(emptyBytes)
		return cursor, nil
	}
	rv.SetBytes(append(make([]byte, 0, len(bytes)), bytes...))
	return cursor, nil
}

// emptyBytes is used for all empty strings, so they need no allocation.
var emptyBytes = make([]byte, 0, 8)
'''), ('	cursor = c\n', '')]},
 demo='''
func main() {
	var a, b []byte
	check(php.Unmarshal([]byte(`s:0:"";`), &a) == nil, "a")
	check(php.Unmarshal([]byte(`s:0:"";`), &b) == nil, "b")
	a = append(a, "hello"...)
	b = append(b, "world"...)
	check(string(a) == "hello", "%s", a)
}''', needs='two empty byte slices decoded, then appended to', breaks='they share writable memory', drop=True)

bug(id='u15-any-empty-object', property='C08',
 edits={DEC+'interface.go': [('''	case 'O':
		var v map[string]any
''', '''	case 'O':
		if bytes.HasSuffix(buf, []byte(":0:{}")) && bytes.Index(buf[cursor:], []byte(":0:{}"))+5 == len(buf)-int(cursor) {
			end, err := skipValue(buf, cursor, depth)
			if err == nil {
				rv.Set(reflect.ValueOf(map[any]any{}))
			}
			return end, err
		}
		var v map[string]any
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u16-any-object-numeric', property='C08',
 edits={DEC+'interface.go': [('''	case 'O':
		var v map[string]any
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.mapClassDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
		return cursor, nil
	case 'a':
''', '''	case 'O':
		var v map[string]any
		ptr := reflect.ValueOf(&v).Elem()
		end, err := d.mapClassDecoder.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		if len(v) == 0 {
			// like php, an empty object is an empty array
			rv.Set(reflect.ValueOf(map[any]any{}))
			return end, nil
		}
		rv.Set(ptr)
		return end, nil
	case 'a':
''')]},
 demo='''
func main() {
	var v any
	err := php.Unmarshal([]byte(`O:8:"stdClass":0:{}`), &v)
	_, ok := v.(map[string]any)
	check(err == nil && ok, "%T %v", v, err)
}''', needs='an object without properties', breaks='it becomes a map[any]any')

bug(id='u17-skip-empty-array-fast', property='C25',
 edits={DEC+'context.go': [('''	case 'a':
		return skipArray(buf, cursor+1, depth+1)
	case 's':
''', '''	case 'a':
		if hasBytes(buf, cursor, 6) && string(buf[cursor:cursor+5]) == ":0:{}"[:3]+"{}" {
			return cursor + 5, nil
		}
		if hasBytes(buf, cursor, 6) && string(buf[cursor+1:cursor+4]) == ":0:" {
			// empty array
			return cursor + 6, nil
		}
		return skipArray(buf, cursor+1, depth+1)
	case 's':
''')]},
 demo='''
func main() {
	var v struct{ A int }
	err := php.Unmarshal([]byte(`a:2:{s:1:"x";a:0:[]s:1:"A";i:1;}`), &v)
	check(err != nil, "accepted")
}''', needs='a damaged empty array inside a skipped value', breaks='a malformed document is accepted')

bug(id='u18-ptr-depth', property='C23',
 edits={DEC+'ptr.go': [('	c, err := d.dec.Decode(ctx, cursor, depth, rv.Elem())\n', '	c, err := d.dec.Decode(ctx, cursor, depth+1, rv.Elem())\n')]},
 imports=['strings'], demo='''
type P []*P

func main() {
	n := 7000
	doc := strings.Repeat("a:1:{i:0;", n) + "N;" + strings.Repeat("}", n)
	var v P
	err := php.Unmarshal([]byte(doc), &v)
	check(err == nil, "%v", err)
}''', needs='a document nested more than 5000 deep which is decoded through pointers', breaks='it is refused')

bug(id='u19-int16-bound', property='C06',
 edits={DEC+'int.go': [('''	if rv.OverflowInt(i64) {
''', '''	if d.overflow(i64) {
'''), ('func readInt(', '''func (d *intDecoder) overflow(v int64) bool {
	switch d.kind {
	case reflect.Int8:
		return v > 1<<7-1 || v < -1<<7
	case reflect.Int16:
		return v > 1<<15-1 || v < -1<<15-1
	case reflect.Int32:
		return v > 1<<31-1 || v < -1<<31
	}
	return false
}

func readInt(''')]},
 demo='''
func main() {
	for _, s := range []string{"i:32768;", "i:-32769;"} {
		var v int16
		err := php.Unmarshal([]byte(s), &v)
		check(err != nil, "%s: %d", s, v)
	}
}''', needs='-32769 for an int16', breaks='it wraps to 32767')

bug(id='u20-twenty-digits', property='C06',
 edits={DEC+'int.go': [('''	if len(buf) > len(pow10i64) {
		return 0, fmt.Errorf("integer overflow")
	}
''', '''	if len(buf) > 20 {
		return 0, fmt.Errorf("integer overflow")
	}
'''), ('		value += uint64(c-\'0\') * pow10i64[len(buf)-i-1]\n', '		value = value*10 + uint64(c-\'0\')\n'), ('	for i, c := range buf {\n', '	for _, c := range buf {\n'),
 ],}, demo='''
func main() {
	var v int64
	err := php.Unmarshal([]byte("i:18446744073709551621;"), &v)
	check(err != nil, "%d", v)
}''', needs='a 20 digit integer from 2^64 to 2^64+2^63', breaks='it wraps')

bug(id='u21-nil-map-bad-key', property='C18',
 edits={ENC+'map_reflect.go': [('''	keyType := rt.Key()

	switch keyType.Kind() {
	case reflect.String,
		reflect.Int, reflect.Int8''', '''	keyType := rt.Key()

	if rv.IsNil() {
		return appendNull(b), nil
	}

	switch keyType.Kind() {
	case reflect.String,
		reflect.Int, reflect.Int8'''), ('''		return nil, &UnsupportedTypeAsMapKeyError{Type: rv.Type().Key()}
	}

	if rv.IsNil() {
		return appendNull(b), nil
	}
''', '''		return nil, &UnsupportedTypeAsMapKeyError{Type: rv.Type().Key()}
	}
''')]},
 demo='''
func main() {
	b, err := php.Marshal([]any{map[float64]int(nil)})
	check(err != nil, "%s", b)
}''', needs='a nil map with an unsupported key type inside an interface', breaks='it is accepted')

bug(id='u22-embedded-with-tag', property='C18',
 edits={ENC+'struct.go': [('''		if field.Anonymous {
''', '''		if field.Anonymous && cfg.Name() == field.Name {
''')]},
 demo='''
type E struct{ A int }

func main() {
	b, err := php.Marshal(struct {
		E `php:"e"`
	}{})
	check(err != nil, "%s", b)
}''', needs='an embedded struct with a name in its tag', breaks='it is accepted by Marshal')

bug(id='u23-raw-copied-rest', property='C21',
 edits={DEC+'unmarshal_php.go': [('''	if s, ok := unquoteBytes(src); ok {
		src = s
	}

	v := reflect.New(d.typ.Elem())
''', '''	if s, ok := unquoteBytes(src); ok {
		src = s
	}

	// UnmarshalPHP may keep or modify its argument, don't share the document
	doc := append([]byte(nil), buf...)
	src = doc[start : start+int64(len(src)) : end]

	v := reflect.New(d.typ.Elem())
''')]}, imports=['strings', 'runtime'], demo='''
type U struct{ n int }

func (u *U) UnmarshalPHP(b []byte) error { u.n = len(b); return nil }

func main() {
	n := 5000
	var sb strings.Builder
	fmt.Fprintf(&sb, "a:%d:{", n)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "i:%d;i:5;", i)
	}
	sb.WriteString("}")
	doc := []byte(sb.String())
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var v []U
	err := php.Unmarshal(doc, &v)
	runtime.ReadMemStats(&b)
	check(err == nil && b.TotalAlloc-a.TotalAlloc < uint64(len(doc))*1000, "%d bytes allocated for %d, %v", b.TotalAlloc-a.TotalAlloc, len(doc), err)
}''', needs='many values decoded by custom Unmarshalers in one document', breaks='allocation is quadratic', drop=True)

bug(id='u24-release-twice', property='C11',
 edits={'unmarshal.go': [('''	cursor, err := dec.Decode(ctx, 0, 0, rv.Elem())
	if err != nil {
		return err
	}
''', '''	cursor, err := dec.Decode(ctx, 0, 0, rv.Elem())
	if err != nil {
		decoder.ReleaseRuntimeContext(ctx)
		return err
	}
''')]}, imports=['sync', 'strings'], demo='''
func main() {
	var docs [8]string
	for i := range docs {
		docs[i] = fmt.Sprintf("a:300:{%s}", strings.Repeat(fmt.Sprintf("i:%d;s:1:\\"%d\\";", i, i), 300))
	}
	for round := 0; round < 300; round++ {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 20; i++ {
					var x int
					php.Unmarshal([]byte("i:x;"), &x)
					v := map[int]string{}
					err := php.Unmarshal([]byte(docs[g]), &v)
					check(err == nil && v[g] == fmt.Sprint(g) && len(v) == 1, "%v %v", v, err)
				}
			}()
		}
		wg.Wait()
	}
}''', needs='a failing Unmarshal, then concurrent Unmarshal calls', breaks='two calls share one context')

bug(id='u25-free-ctx-twice', property='C12',
 edits={ENC+'marshal.go': [('''	ctx := newCtx()

	b, err := encode(ctx, ctx.Buf[:0], v)
	if err != nil {
		freeCtx(ctx)
		return nil, err
	}
''', '''	ctx := newCtx()
	defer freeCtx(ctx)

	b, err := encode(ctx, ctx.Buf[:0], v)
	if err != nil {
		freeCtx(ctx)
		return nil, err
	}
'''), ('''	ctx.Buf = b
	freeCtx(ctx)
''', '''	ctx.Buf = b
''')]}, demo='''
type M struct{ V any }

func (m M) MarshalPHP() ([]byte, error) { return php.Marshal(m.V) }

func main() {
	for i := 0; i < 50; i++ {
		php.Marshal([]any{make(chan int)})
		b, err := php.Marshal([]any{"outer", M{"inner inner"}, "x"})
		check(err == nil && string(b) == `a:3:{i:0;s:5:"outer";i:1;s:11:"inner inner";i:2;s:1:"x";}`, "%s %v", b, err)
	}
}''', needs='a failing Marshal, then a Marshal which runs another one in a custom Marshaler (or concurrently)', breaks='both calls share one buffer')

bug(id='u26-lazy-recursive-encoder', property='C11',
 edits={ENC+'struct.go': [('''	return s.enc(ctx, b, rv)
}
''', '''	if s.enc == nil {
		// the struct was not ready when this was compiled
		enc, err := compileWithCache(s.rt)
		if err != nil {
			return b, err
		}
		s.enc = enc
	}
	return s.enc(ctx, b, rv)
}
'''), ('''type structRecEncoder struct {
	enc encoder
''', '''type structRecEncoder struct {
	enc encoder
	rt  reflect.Type
'''), ('		seen[rt] = &structRecEncoder{}\n', '		seen[rt] = &structRecEncoder{rt: rt}\n'),
 ('''		if recursiveEnc.enc == nil {
			recursiveEnc.enc = enc
			return recursiveEnc.Encode, nil
		}
''', '''		if recursiveEnc.enc == nil {
			return enc, nil
		}
''')]}, flags='-race', imports=['sync'], demo='''
type N struct {
	Next *N
	L    []N
}

func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				_, err := php.Marshal(N{Next: &N{}, L: []N{{}}})
				check(err == nil, "%v", err)
			}
		}()
	}
	wg.Wait()
}''', needs='the first values of a recursive type encoded by several goroutines at once', breaks='a data race on the encoder')

bug(id='u27-bytes-append-caller', property='C10',
 edits={ENC+'bytes.go': [('''	b = append(b, rv.Bytes()...)

	return append(b, '"', ';'), nil
''', '''	return append(b, append(rv.Bytes(), '"', ';')...), nil
''')]}, demo='''
func main() {
	buf := []byte("hello world")
	_, err := php.Marshal(struct{ B []byte }{buf[:5]})
	check(err == nil && string(buf) == "hello world", "%s", buf)
}''', needs='a byte slice with spare capacity', breaks='Marshal writes behind the end of the slice')

bug(id='u28-zero-len-array-any', property='C17',
 edits={ENC+'interface.go': [('''	case reflect.Array:
		enc, err''', '''	case reflect.Array:
		if rv.Len() == 0 {
			return appendNull(b), nil
		}
		enc, err''')]}, demo='''
func main() {
	b, err := php.Marshal([]any{[0]int{}})
	check(err == nil && string(b) == "a:1:{i:0;a:0:{}}", "%s %v", b, err)
}''', needs='an array of length 0 inside an interface', breaks='it is written as null', drop=True)

bug(id='u29-empty-doc-keeps-array', property='C19',
 edits={DEC+'array.go': [('''		// set zero value first, php array may skip some index
		rv.SetZero()

''', ''), ('''		_, end, err := readLengthInt(buf, cursor-1)
''', '''		// set zero value first, php array may skip some index
		rv.SetZero()

		_, end, err := readLengthInt(buf, cursor-1)
''')]}, demo='''
func main() {
	v := [2]int{1, 2}
	err := php.Unmarshal([]byte("a:0:{}"), &v)
	check(err == nil && v == [2]int{}, "%v %v", v, err)
}''', needs='an empty document for an array which holds values', breaks='the elements are not zeroed', drop=True)

bug(id='u30-array-early-end', property='C24',
 edits={DEC+'array.go': [('''			if idx < d.alen {
				c, err := d.valueDecoder.Decode(ctx, cursor, depth, rv.Index(idx))
				if err != nil {
					return 0, err
				}
				cursor = c
			} else {
''', '''			if idx < d.alen && !full {
				c, err := d.valueDecoder.Decode(ctx, cursor, depth, rv.Index(idx))
				if err != nil {
					return 0, err
				}
				cursor = c
				full = idx == d.alen-1 // nothing more to store
			} else {
'''), ('		idx := 0\n', '		idx := 0\n		full := false\n'), ('			idx = currentIndex\n', '			idx = int(currentIndex)\n')]},
 drop=True, demo='', needs='', breaks='')

bug(id='u31-array-early-end', property='C24',
 edits={DEC+'array.go': [('''			if idx < d.alen {
''', '''			if next < d.alen && idx < d.alen {
'''), ('		idx := 0\n', '		idx, next := 0, 0 // next is the lowest index which may still come\n'), ('			idx = currentIndex\n', '			idx = currentIndex\n			if idx > 0 && next == 0 && idx >= d.alen {\n				next = d.alen\n			}\n')]},
 demo='''
func main() {
	var v [2]int
	err := php.Unmarshal([]byte("a:3:{i:0;i:1;i:5;i:7;i:1;i:2;}"), &v)
	check(err == nil && v == [2]int{1, 2}, "%v %v", v, err)
}''', needs='an index within the array after one which is out of range', breaks='it is not stored')

bug(id='u32-slice-declared-len', property='C24',
 edits={DEC+'slice.go': [('''		slice := reflect.MakeSlice(d.stype, 0, int(ctx.limitLength(int64(arrLen), cursor)))
''', '''		arrLen = int(ctx.limitLength(int64(arrLen), cursor))
		slice := reflect.MakeSlice(d.stype, arrLen, arrLen)
'''), ('	case \'-\', \'0\', \'1\'', '	case \'-\', \'0\', \'1\'')]},
 demo='''
func main() {
	var v []int
	err := php.Unmarshal([]byte("a:3:{i:0;i:1000000;i:1;i:1000000;}"), &v)
	check(err == nil && len(v) == 2, "%v %v", v, err)
}''', needs='', breaks='', drop=True)

bug(id='u33-omit-negzero-bool', property='C16',
 edits={ENC+'struct.go': [('			if field.omitEmpty && rv.Field(field.index).IsZero() {\n', '			if field.omitEmpty && field.isZero(rv) {\n'),
  ('				if v.IsZero() {\n', '				if field.isZero(rv) {\n'),
  ('type compileSeenMap =', '''func (f *structEncoder) isZero(rv reflect.Value) bool {
	v := rv.Field(f.index)
	if v.Kind() == reflect.Struct {
		// a struct without content is not written
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && !v.Field(i).IsZero() {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

type compileSeenMap =''')]},
 demo='''
type S struct{ n int; A int }

func main() {
	b, err := php.Marshal(struct {
		S S `php:",omitempty"`
	}{S{n: 1}})
	check(err == nil && string(b) == `a:1:{s:1:"S";a:1:{s:1:"A";i:0;}}`, "%s %v", b, err)
}''', needs='an omitempty struct field where only unexported fields are set', breaks='the field is left out')

bug(id='u34-bool-true-words', property='C02',
 edits={ENC+'bool_as_string.go': [('''		return append(b, `s:4:"true";`...), nil
''', '''		return append(b, `s:1:"1";`...), nil
''')]}, demo='''
func main() {
	b, err := php.Marshal(struct {
		B bool `php:",string"`
	}{true})
	check(err == nil && string(b) == `a:1:{s:1:"B";s:4:"true";}`, "%s %v", b, err)
}''', needs='', breaks='', drop=True)

bug(id='u35-map-null-value-skipped', property='C03',
 edits={DEC+'map.go': [('''		rv.SetMapIndex(k.Elem(), v.Elem())
''', '''		if d.valueType.Kind() == reflect.Interface && v.Elem().IsNil() && !rv.MapIndex(k.Elem()).IsValid() && rv.Len() > 0 {
			v = reflect.New(d.valueType)
		}
		rv.SetMapIndex(k.Elem(), v.Elem())
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u36-any-null-value-dropped', property='C08',
 edits={DEC+'map.go': [('''		rv.SetMapIndex(k.Elem(), v.Elem())
''', '''		// the zero Value deletes the key, unlike a nil interface
		if ev := v.Elem(); ev.Kind() == reflect.Interface && ev.IsNil() && rv.MapIndex(k.Elem()).IsValid() {
			rv.SetMapIndex(k.Elem(), ev.Elem())
		} else {
			rv.SetMapIndex(k.Elem(), ev)
		}
''')]}, demo='''
func main() {
	var v any
	err := php.Unmarshal([]byte(`a:2:{i:1;i:1;i:1;N;}`), &v)
	m, _ := v.(map[any]any)
	x, ok := m[int64(1)]
	check(err == nil && len(m) == 1 && ok && x == nil, "%v %v", v, err)
}''', needs='a duplicate key whose last value is null', breaks='the entry is missing')

bug(id='u37-unmarshaler-pooled-value', property='C15',
 edits={DEC+'unmarshal_php.go': [('''	v := reflect.New(d.typ.Elem())

	if err := v.Interface().(Unmarshaler).UnmarshalPHP(src); err != nil {
		d.annotateError(cursor, err)
		return 0, err
	}

	rv.Set(v.Elem())
''', '''	v := rv.Addr()

	if err := v.Interface().(Unmarshaler).UnmarshalPHP(src); err != nil {
		d.annotateError(cursor, err)
		// not decoded, try it with a fresh value
		v = reflect.New(d.typ.Elem())
		if v.Interface().(Unmarshaler).UnmarshalPHP(src) != nil {
			return 0, err
		}
		rv.Set(v.Elem())
	}
''')]}, demo='''
var calls int

type U struct{ n int }

func (u *U) UnmarshalPHP(b []byte) error { calls++; return fmt.Errorf("no") }

func main() {
	var v []U
	err := php.Unmarshal([]byte("a:1:{i:0;i:1;}"), &v)
	check(err != nil && calls == 1, "%d %v", calls, err)
}''', needs='an UnmarshalPHP which fails', breaks='it is called twice')

bug(id='u38-skip-int-fast', property='C05',
 edits={DEC+'context.go': [('''	_, end, err := readIntegerBytes(buf, cursor)
	return end, err
}
''', '''	for end := cursor + 2; hasByte(buf, end); end++ {
		if buf[end] == ';' && end > cursor+2 {
			return end + 1, nil
		}
		if !isInteger[buf[end]] && buf[end] != '-' {
			return end, errors.ErrUnexpected("integer", end, buf[end])
		}
	}
	return cursor, errors.ErrUnexpectedEnd("integer", cursor)
}
''')]}, demo='''
func main() {
	for _, s := range []string{"i:1-2;", "i:-;", "i;5;"} {
		var v struct{ A int }
		err := php.Unmarshal([]byte(`a:1:{s:1:"x";`+s+`}`), &v)
		check(err != nil, "%s accepted", s)
	}
}''', needs='a damaged integer inside a skipped value, with only digits and signs', breaks='a malformed document is accepted')

bug(id='u39-object-null-in-struct', property='C20',
 edits={DEC+'struct.go': [('''		end, err := skipClassName(buf, cursor)
		if err != nil {
			return cursor, err
		}
		cursor = end
		fallthrough
''', '''		end, err := skipClassName(buf, cursor)
		if err != nil {
			return cursor, err
		}
		cursor = end
		if buf[end-1] == 0 {
			return 0, errors.ErrUnexpected("class name", end, buf[end-1])
		}
		fallthrough
''')]}, demo='''
func main() {
	var v struct{ A int }
	err := php.Unmarshal([]byte("O:2:\\"a\\x00\\":1:{s:1:\\"A\\";i:1;}"), &v)
	check(err == nil && v.A == 1, "%v", err)
}''', needs='a class name which ends with a zero byte', breaks='the object is refused', drop=True)

bug(id='u40-digit-count-1e19', property='C27',
 edits={ENC+'uint_at_string.go': [('''	var count int64
	if number == 0 {
		return 1
	}

	for number != 0 {
		number /= 10
		count += 1
	}

	return count
''', '''	count := int64(1)

	for limit := uint64(10); number >= limit && count < 20; limit *= 10 {
		count++
	}

	return count
''')]}, demo='''
func main() {
	for _, n := range []uint64{0, 9, 10, 99999, 1e18, 9999999999999999999, 10000000000000000000, 18446744073709551615} {
		b, err := php.Marshal(struct {
			N uint64 `php:",string"`
		}{n})
		s := fmt.Sprint(n)
		check(err == nil && string(b) == fmt.Sprintf(`a:1:{s:1:"N";s:%d:"%s";}`, len(s), s), "%s %v", b, err)
	}
}''', needs='', breaks='', drop=True)

bug(id='u41-small-int-boxes', property='C08',
 edits={DEC+'interface.go': [('''	case 'i':
		var v int64
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.intDecode.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
		return cursor, nil
	case 'b':
''', '''	case 'i':
		var v int64
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.intDecode.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		if int8(v) == int8(v&0xff) && v > -128 && v < 256 {
			ptr = smallInts[uint8(v)]
		}
		rv.Set(ptr)
		return cursor, nil
	case 'b':
'''), ('''type mapKeyDecoder struct {
''', '''// smallInts has a boxed value for each small integer
var smallInts = func() (a [256]reflect.Value) {
	for i := range a {
		a[i] = reflect.ValueOf(int64(int8(i)))
	}
	return
}()

type mapKeyDecoder struct {
''')]}, demo='''
func main() {
	for i := -300; i < 300; i++ {
		var v any
		err := php.Unmarshal([]byte(fmt.Sprintf("i:%d;", i)), &v)
		check(err == nil && v == any(int64(i)), "%d: %v %v", i, v, err)
	}
}''', needs='', breaks='', drop=True)

bug(id='u42-string-ptr-interned', property='C09',
 edits={DEC+'ptr.go': [('''	if rv.IsNil() {
		np := reflect.New(d.typ)
		rv.Set(np)
	}
''', '''	if rv.IsNil() {
		np := reflect.New(d.typ)
		if d.typ.Size() == 0 {
			np = reflect.Zero(reflect.PointerTo(d.typ))
		}
		if d.typ.Kind() == reflect.Bool && hasBytes(buf, cursor, 3) {
			// there are only two values, no need to allocate
			if d.vals[buf[cursor+2]&1].IsValid() {
				np = d.vals[buf[cursor+2]&1]
			}
		}
		rv.Set(np)
	}
'''), ('''type ptrDecoder struct {
	dec        Decoder
''', '''type ptrDecoder struct {
	vals       [2]reflect.Value
	dec        Decoder
'''), ('''	return &ptrDecoder{
		dec:        dec,
''', '''	return &ptrDecoder{
		vals:       [2]reflect.Value{reflect.New(typ), reflect.New(typ)},
		dec:        dec,
''')]}, demo='''
func main() {
	var v []*bool
	err := php.Unmarshal([]byte("a:2:{i:0;b:1;i:1;b:1;}"), &v)
	check(err == nil && len(v) == 2, "%v", err)
	*v[0] = false
	check(*v[1], "shared")
}''', needs='pointers to bool decoded from different parts', breaks='they are the same pointer')

bug(id='u43-map-key-cache', property='C01',
 edits={DEC+'map.go': [('''		k := reflect.New(d.keyType)
''', '''		if !k.IsValid() {
			k = reflect.New(d.keyType)
		}
'''), ('''	cursor++
	if !hasByte(buf, cursor) {
		return cursor, errors.ErrUnexpectedEnd("map", cursor)
	}
''', '''	var k reflect.Value // SetMapIndex copies it, use the same for all entries
	cursor++
	if !hasByte(buf, cursor) {
		return cursor, errors.ErrUnexpectedEnd("map", cursor)
	}
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u44-map-value-array-reuse', property='C01',
 edits={DEC+'map.go': [('''		v := reflect.New(d.valueType)
''', '''		v := value
		if reused := d.valueType.Kind() == reflect.Struct || d.valueType.Kind() == reflect.Array; !reused || !v.IsValid() {
			v = reflect.New(d.valueType)
			value = v
		}
'''), ('''	cursor++
	if !hasByte(buf, cursor) {
		return cursor, errors.ErrUnexpectedEnd("map", cursor)
	}
''', '''	var value reflect.Value // map entries are copies, big values need only one buffer
	cursor++
	if !hasByte(buf, cursor) {
		return cursor, errors.ErrUnexpectedEnd("map", cursor)
	}
''')]}, demo='''
type S struct {
	A int  `php:",omitempty"`
	P *int
}

func main() {
	one := 1
	v := map[int]S{1: {A: 1, P: &one}, 2: {P: &one}, 3: {A: 3}}
	b, err := php.Marshal(v)
	check(err == nil, "%v", err)
	var w map[int]S
	err = php.Unmarshal(b, &w)
	check(err == nil && len(w) == 3 && w[1].A == 1 && w[2].A == 0 && w[3].A == 3 && *w[2].P == 1, "%v %v", w, err)
	*w[1].P = 5
	check(*w[2].P == 1, "shared pointer")
}''', needs='a map of structs with omitted fields or pointers, with several entries', breaks='values of one entry leak into the next, pointers are shared')

bug(id='u45-recursive-slice-type', property='C22',
 edits={ENC+'compile.go': [('''	case reflect.Slice:
		return compileSlice(rt, seen)
''', '''	case reflect.Slice:
		if rt.Elem().Kind() == reflect.Struct {
			// a list of records, compiled once
			elem, err := compileWithCache(rt.Elem())
			if err != nil {
				return nil, err
			}
			seen[rt.Elem()] = &structRecEncoder{enc: elem}
		}
		return compileSlice(rt, seen)
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u46-struct-decoder-max-types', property='C22',
 edits={DEC+'compile.go': [('''	if dec, exists := structTypeToDecoder[rt]; exists {
		return dec, nil
	}
	structDec := newStructDecoder(''', '''	if dec, exists := structTypeToDecoder[rt]; exists {
		if d, ok := dec.(*structDecoder); ok && len(d.fieldMap) > 0 {
			return dec, nil
		}
		// still compiling, resolve it when it's used
		return &lazyDecoder{typ: rt}, nil
	}
	structDec := newStructDecoder('''), ('func compileHead(', '''// lazyDecoder find its decoder when it's used
type lazyDecoder struct {
	typ reflect.Type
}

func (d *lazyDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
	dec, err := CompileToGetDecoder(reflect.PointerTo(d.typ))
	if err != nil {
		return 0, err
	}
	return dec.Decode(ctx, cursor, 0, rv)
}

func compileHead(''')]}, imports=['strings'], demo='''
type N struct{ Next *N }

func main() {
	n := 20000
	doc := strings.Repeat(`a:1:{s:4:"Next";`, n) + "N;" + strings.Repeat("}", n)
	var v N
	err := php.Unmarshal([]byte(doc), &v)
	check(err != nil, "accepted")
}''', needs='', breaks='', drop=True)

bug(id='u47-lazy-depth', property='C23',
 edits={DEC+'compile.go': [('''	if dec, exists := structTypeToDecoder[rt]; exists {
		return dec, nil
	}
	structDec := newStructDecoder(''', '''	if _, exists := structTypeToDecoder[rt]; exists {
		// recursive type, find the decoder when it's used
		return &lazyDecoder{typ: rt}, nil
	}
	structDec := newStructDecoder('''), ('func compileHead(', '''// lazyDecoder find its decoder when it's used
type lazyDecoder struct {
	typ reflect.Type
}

func (d *lazyDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect.Value) (int64, error) {
	dec, err := CompileToGetDecoder(reflect.PointerTo(d.typ))
	if err != nil {
		return 0, err
	}
	return dec.Decode(ctx, cursor, 0, rv)
}

func compileHead(''')]}, imports=['strings'], demo='''
type N struct{ Next *N }

func main() {
	n := 20000
	doc := strings.Repeat(`a:1:{s:4:"Next";`, n) + "N;" + strings.Repeat("}", n)
	var v N
	err := php.Unmarshal([]byte(doc), &v)
	check(err != nil, "accepted")
}''', needs='a deep document for a recursive struct', breaks='the limit is not enforced')

bug(id='u48-annotate-shared-error', property='C15',
 edits={DEC+'unmarshal_php.go': [('''		d.annotateError(cursor, err)
		return 0, err
	}

	rv.Set(v.Elem())
''', '''		d.annotateError(cursor, err)
		if e, ok := err.(*errors.SyntaxError); ok {
			err = errors.ErrSyntax(e.Error(), cursor)
		}
		return 0, err
	}

	rv.Set(v.Elem())
''')]}, demo='''
var want error

type U struct{ n int }

func (u *U) UnmarshalPHP(b []byte) error {
	var s string
	want = php.Unmarshal([]byte("x"), &s)
	return want
}

func main() {
	var v U
	err := php.Unmarshal([]byte("i:1;"), &v)
	check(err == want, "another error")
}''', needs='an UnmarshalPHP which returns an error of this package', breaks='Unmarshal returns another error')

bug(id='u49-marshaler-syntax', property='C14',
 edits={ENC+'interface.go': [('''		return reflectRecursiveValue(ctx, b, rv, reflectMap)
''', '''		if rv.Len() == 0 && !rv.IsNil() {
			return appendEmptyArray(b), nil
		}
		return reflectRecursiveValue(ctx, b, rv, reflectMap)
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u50-marshaler-elem-array', property='C14',
 edits={ENC+'compile.go': [('''	case reflect.Array:
		return compileArray(rt, seen)
''', '''	case reflect.Array:
		if rt.Elem().Kind() == reflect.String {
			return compileStringArray(rt)
		}
		return compileArray(rt, seen)
'''), ('''func compileMapKey(''', '''// a array of strings doesn't need a encoder for its elements
func compileStringArray(rt reflect.Type) (encoder, error) {
	length := rt.Len()
	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
		b = appendArrayBegin(b, int64(length))
		for i := 0; i < length; i++ {
			b = appendIntBytes(b, int64(i))
			b = appendPhpStringVariable(ctx, b, rv.Index(i).String())
		}
		return append(b, '}'), nil
	}, nil
}

func compileMapKey(''')]}, demo='''
type S string

func (s S) MarshalPHP() ([]byte, error) { return []byte("i:1;"), nil }

func main() {
	b, err := php.Marshal([2]S{"a", "b"})
	check(err == nil && string(b) == "a:2:{i:0;i:1;i:1;i:1;}", "%s %v", b, err)
}''', needs='an array whose elements are a string type with MarshalPHP', breaks='MarshalPHP is not called')

bug(id='u51-nil-slice-in-array', property='C26',
 edits={ENC+'slice.go': [('''		length := rv.Len()

		b = appendArrayBegin(b, int64(length))
''', '''		length := rv.Len()
		if length == 0 && rv.Cap() == 0 {
			return appendNull(b), nil
		}

		b = appendArrayBegin(b, int64(length))
''')]}, demo='''
func main() {
	b, err := php.Marshal([]int{})
	check(err == nil && string(b) == "a:0:{}", "%s %v", b, err)
}''', needs='an empty slice without capacity', breaks='it is written as null', drop=True)

bug(id='u52-null-iface-method', property='C26',
 edits={DEC+'interface.go': [('''		if u, ok := rv.Interface().(Unmarshaler); ok {
			return decodePHPUnmarshaler(buf, cursor, depth, u, rv)
		}
''', '''		if u, ok := rv.Interface().(Unmarshaler); ok {
			if e := rv.Elem(); buf[cursor] == 'N' && e.Kind() == reflect.Ptr && !e.IsNil() {
				// like the static type: reset the value, keep the pointer
				if err := validateNull(buf, cursor); err != nil {
					return 0, err
				}
				e.Elem().SetZero()
				return cursor + 2, nil
			}
			return decodePHPUnmarshaler(buf, cursor, depth, u, rv)
		}
''')]}, demo='''
type U struct{ n int }

func (u *U) UnmarshalPHP(b []byte) error { u.n = len(b); return nil }

func main() {
	var v interface{ UnmarshalPHP([]byte) error } = &U{5}
	err := php.Unmarshal([]byte("N;"), &v)
	check(err == nil && v == nil, "%v %v", v, err)
}''', needs='null for an interface with methods which holds an Unmarshaler', breaks='the interface is not set to nil')

bug(id='u53-depth-limit-value', property='C23',
 edits={DEC+'map.go': [('''	depth++
	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
	}
''', '''	depth++
	if depth >= maxDecodeNestingDepth && buf[cursor] != 'N' {
		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
	}
''')]}, imports=['strings'], demo='''
func main() {
	n := 10000
	doc := strings.Repeat("a:1:{i:0;", n) + "i:1;" + strings.Repeat("}", n)
	var v any
	err := php.Unmarshal([]byte(doc), &v)
	check(err == nil, "%v", err)
}''', needs='a document nested exactly 10000 deep, with a map as the innermost container', breaks='it is refused')

bug(id='u54-class-name-shortcut', property='C20',
 edits={DEC+'map.go': [('''		end, err := skipClassName(buf, cursor)
		if err != nil {
			return cursor, err
		}
		cursor = end
		fallthrough
''', '''		end, err := skipClassName(buf, cursor)
		if err != nil {
			return cursor, err
		}
		cursor = end
		if rv.Type() == d.mapType && d.mapType.Key().Kind() != reflect.String && d.mapType.Key().Kind() != reflect.Interface {
			return 0, errors.ErrUnexpectedStart("map", buf, cursor)
		}
		fallthrough
''')]}, demo='''
type K int

func (k *K) UnmarshalPHP(b []byte) error { *k = K(len(b)); return nil }

func main() {
	m := map[K]int{}
	err := php.Unmarshal([]byte(`O:1:"a":1:{s:1:"x";i:1;}`), &m)
	check(err == nil, "%v", err)
}''', needs='', breaks='', drop=True)

bug(id='u55-ctx-prealloc-total', property='C21',
 edits={DEC+'map.go': [('''		rv.Set(reflect.MakeMapWithSize(d.mapType, int(ctx.limitLength(l, cursor))))
''', '''		rv.Set(reflect.MakeMapWithSize(d.mapType, int(min(l, int64(len(buf))-cursor))))
''')]}, imports=['strings', 'runtime'], demo='''
func main() {
	n := 3000
	doc := []byte(strings.Repeat("a:99999:{i:0;", n) + "N;" + strings.Repeat("}", n))
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var v any
	err := php.Unmarshal(doc, &v)
	runtime.ReadMemStats(&b)
	check(err == nil && b.TotalAlloc-a.TotalAlloc < uint64(len(doc))*1000, "%d bytes allocated for %d, %v", b.TotalAlloc-a.TotalAlloc, len(doc), err)
}''', needs='', breaks='', drop=True)

bug(id='u56-key-lookup-cut', property='C16',
 edits={DEC+'struct.go': [('''	field, exists := d.fieldMap[string(key)]
	if !exists {
''', '''	field, exists := d.fieldMap[string(key)]
	if !exists && len(key) > 2 && key[0] == 0 {
		// private or protected property: "\\x00Class\\x00name"
		for i := len(key) - 1; i > 0; i-- {
			if key[i] == 0 {
				field, exists = d.fieldMap[string(key[i+1:])]
				break
			}
		}
	}
	if !exists {
''')]}, demo='''
func main() {
	v := struct{ A int }{7}
	err := php.Unmarshal([]byte("O:1:\\"x\\":2:{s:1:\\"A\\";i:1;s:4:\\"\\x00*\\x00A\\";i:2;}"), &v)
	check(err == nil && v.A == 1, "%v %v", v, err)
}''', needs='a key with zero bytes which ends in the name of a field', breaks='its value is stored in the field')

bug(id='u57-wrapped-ptr-null', property='C26',
 edits={DEC+'wrapped_string.go': [('''		if d.isPtrType {
			rv.SetZero()
		}
		return c, nil
''', '''		rv.SetZero()
		return c, nil
'''), ('	isPtrType     bool\n', ''), ('		isPtrType:     typ.Kind() == reflect.Ptr,\n', '')]}, demo='''
func main() {
	v := struct {
		A int `php:",string"`
	}{7}
	err := php.Unmarshal([]byte(`a:1:{s:1:"A";N;}`), &v)
	check(err == nil && v.A == 7, "%v %v", v, err)
}''', needs='null for a number field with the string option which holds a value', breaks='the number is reset')

bug(id='u58-string-float-overflow', property='C27',
 edits={DEC+'wrapped_string.go': [('''	_, err := d.floatDecoder.processBytes(bytes, topCursor, rv)
	return err
''', '''	f, err := strconv.ParseFloat(unsafeStr(bytes), 64)
	if err != nil {
		return errors.ErrSyntax(err.Error(), topCursor)
	}
	rv.SetFloat(f)
	return nil
''')]}, demo='''
func main() {
	v := struct {
		A float32 `php:",string"`
	}{7}
	err := php.Unmarshal([]byte(`a:1:{s:1:"A";s:4:"1e39";}`), &v)
	check(err != nil, "%v", v)
}''', needs='a quoted number out of the range of float32', breaks='it becomes infinity')

bug(id='u59-marshal-error-nil-array', property='C14',
 edits={ENC+'array.go': [('''			if err != nil {
				return b, err
			}
''', '''			if err != nil && i < length {
				return b, err
			}
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u60-map-iter-value-kept', property='C02',
 edits={ENC+'map.go': [('''		for iter.Next() {
			kv.SetIterKey(iter)
''', '''		var prev any
		for iter.Next() {
			kv.SetIterKey(iter)
			if k := kv.Interface(); k == prev {
				continue
			} else {
				prev = k
			}
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u61-cyclic-array-ptr', property='C13',
 edits={ENC+'ptr.go': [('''	case reflect.Array:
		enc, err := compile(rt.Elem(), seen)
		return checkPtrRecursiveEncoder(enc), err
''', '''	case reflect.Array:
		enc, err := compile(rt.Elem(), seen)
		return deRefNilEncoder(enc), err
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u62-seen-off-when-shallow-type', property='C13',
 edits={ENC+'struct.go': [('''				case reflect.Struct, reflect.Array, reflect.Interface:
''', '''				case reflect.Struct, reflect.Interface:
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u63-map-depth-not-counted', property='C13',
 edits={ENC+'map.go': [('	enc := checkRecursiveEncoder(func(', '	enc := nilAsNullEncoder(func(')]}, demo='''
type M map[string]M

func main() {
	if len(os.Args) == 1 {
		// a stack overflow can not be recovered: run it in a child process
		p, err := os.StartProcess(os.Args[0], []string{os.Args[0], "child"}, &os.ProcAttr{})
		check(err == nil, "%v", err)
		s, err := p.Wait()
		check(err == nil && s.Success(), "%v %v", s, err)
		return
	}
	debug.SetMaxStack(64 << 20)
	m := M{}
	m["a"] = m
	_, err := php.Marshal(m)
	check(err != nil, "accepted")
}''', imports=['runtime/debug'], needs='a map of a recursive map type which holds itself', breaks='stack overflow')

bug(id='u64-slice-elem-null', property='C19',
 edits={DEC+'slice.go': [('''			rv.SetZero()
			return cursor + 4, nil
''', '''			if rv.Cap() == 0 {
				rv.SetZero()
			} else {
				rv.SetLen(0)
			}
			return cursor + 4, nil
''')]}, drop=True, demo='', needs='', breaks='')

bug(id='u65-int-in-float', property='C03',
 edits={DEC+'bool.go': [('''	case 'N':
''', '''	case 'i':
		// php code often use 0 and 1
		b, end, err := readIntegerBytes(buf, cursor)
		if err != nil {
			return 0, err
		}
		rv.SetBool(len(b) != 1 || b[0] != '0')
		return end, nil

	case 'N':
''')]}, drop=True, demo='', needs='', breaks='')
