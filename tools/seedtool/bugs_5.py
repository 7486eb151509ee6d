ENC = 'internal/encoder/'
DEC = 'internal/decoder/'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='w01-intern-strings', property='C08',
 edits={DEC+'interface.go': [('''		rv.Set(reflect.ValueOf(string(b)))
		return end, nil
''', '''		rv.Set(reflect.ValueOf(internString(b)))
		return end, nil
'''), ('''type mapKeyDecoder struct {
''', '''type internKey struct {
	head, tail [8]byte
	size       int
}

// documents repeat the same strings again and again
var interned sync.Map // internKey -> string

func internString(b []byte) string {
	if len(b) > 64 {
		return string(b)
	}
	key := internKey{size: len(b)}
	copy(key.head[:], b)
	copy(key.tail[:], b[max(0, len(b)-8):])
	if s, ok := interned.Load(key); ok {
		return s.(string)
	}
	s := string(b)
	interned.Store(key, s)
	return s
}

type mapKeyDecoder struct {
'''), ('"reflect"\n', '"reflect"\n\t"sync"\n')]},
 demo='''
func main() {
	var a, b any
	e1 := php.Unmarshal([]byte("s:20:\\"aaaaaaaa1234aaaaaaaa\\";"), &a)
	e2 := php.Unmarshal([]byte("s:20:\\"aaaaaaaa5678aaaaaaaa\\";"), &b)
	check(e1 == nil && e2 == nil && a != b, "%v %v %v %v", e1, e2, a, b)
}''', needs='two strings of more than 16 bytes which differ in the middle only', breaks='the second is decoded as the first')

bug(id='w02-decoder-cache-by-name', drop=True, property='C12',
 edits={DEC+'compile.go': [('''	decoderMap := *cachedDecoderMap.Load()
	if dec, exists := decoderMap[rt]; exists {
		return dec, nil
	}
''', '''	decoderMap := *cachedDecoderMap.Load()
	key := cacheKey(rt)
	if dec, exists := decoderMap[key]; exists {
		return dec, nil
	}
'''), ('	storeDecoder(rt, dec, decoderMap)\n', '	storeDecoder(key, dec, decoderMap)\n'),
 ('atomic.Pointer[map[reflect.Type]Decoder]', 'atomic.Pointer[map[string]Decoder]'),
 ('	var m = map[reflect.Type]Decoder{}\n	cached', '	var m = map[string]Decoder{}\n	cached'),
 ('''func storeDecoder(rt reflect.Type, dec Decoder, m map[reflect.Type]Decoder) {
	newDecoderMap := make(map[reflect.Type]Decoder, len(m)+1)
''', '''// a string key doesn't keep the type alive
func cacheKey(rt reflect.Type) string {
	return rt.Elem().PkgPath() + "|" + rt.String()
}

func storeDecoder(key string, dec Decoder, m map[string]Decoder) {
	newDecoderMap := make(map[string]Decoder, len(m)+1)
'''), ('	newDecoderMap[rt] = dec\n', '	newDecoderMap[key] = dec\n')]},
 demo='''
func a() any { type T struct{ A int }; return &T{} }
func b() any { type T struct{ B int }; return &T{} }

func main() {
	doc := []byte("a:2:{s:1:\\"A\\";i:1;s:1:\\"B\\";i:2;}")
	x, y := a(), b()
	e1, e2 := php.Unmarshal(doc, x), php.Unmarshal(doc, y)
	check(e1 == nil && e2 == nil && fmt.Sprint(x) == "&{1}" && fmt.Sprint(y) == "&{2}", "%v %v %v %v", e1, e2, x, y)
}''', needs='two types of the same name, declared in different functions', breaks='the second type is decoded with the decoder of the first')

bug(id='w03-encoder-cache-by-name', drop=True, property='C12',
 edits={ENC+'compile_cache.go': [('atomic.Pointer[map[reflect.Type]encoder]', 'atomic.Pointer[map[string]encoder]'),
 ('	var m = map[reflect.Type]encoder{}\n', '	var m = map[string]encoder{}\n'),
 ('''	if codeSet, exists := opcodeMap[rt]; exists {
''', '''	name := rt.PkgPath() + " " + rt.String()
	if codeSet, exists := opcodeMap[name]; exists {
'''), ('	storeEncoder(rt, codeSet, opcodeMap)\n', '	storeEncoder(name, codeSet, opcodeMap)\n'),
 ('func storeEncoder(rt reflect.Type, set encoder, m map[reflect.Type]encoder) {\n', 'func storeEncoder(name string, set encoder, m map[string]encoder) {\n'),
 ('	newEncoderMap := make(map[reflect.Type]encoder, len(m)+1)\n	newEncoderMap[rt] = set\n', '	newEncoderMap := make(map[string]encoder, len(m)+1)\n	newEncoderMap[name] = set\n')]},
 demo='''
func a() any { type T struct{ A int }; return T{1} }
func b() any { type T struct{ B int }; return T{2} }

func main() {
	x, e1 := php.Marshal(a())
	y, e2 := php.Marshal(b())
	check(e1 == nil && e2 == nil && string(x) != string(y) && string(y) == "a:1:{s:1:\\"B\\";i:2;}", "%v %v %s %s", e1, e2, x, y)
}''', needs='two types of the same name, declared in different functions', breaks='the second type is encoded as the first')

bug(id='w04-omit-bitmask', property='C16',
 edits={ENC+'struct.go': [('''		writtenField := int64(len(fields))
		for _, field := range fields {
			if field.omitEmpty && rv.Field(field.index).IsZero() {
				writtenField--
			}
		}
''', '''		writtenField := int64(len(fields))
		var omitted uint64
		for i, field := range fields {
			if field.omitEmpty && rv.Field(field.index).IsZero() {
				omitted |= 1 << (i % 64)
				writtenField--
			}
		}
'''), ('''		for _, field := range fields {
			v := rv.Field(field.index)

			if field.omitEmpty {
				if v.IsZero() {
					continue
				}
			}
''', '''		for i, field := range fields {
			v := rv.Field(field.index)

			if field.omitEmpty {
				if omitted>>(i%64)&1 == 1 {
					continue
				}
			}
''')]},
 demo='''
func main() {
	var fs []reflect.StructField
	for i := 0; i < 70; i++ {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0), Tag: `php:",omitempty"`})
	}
	v := reflect.New(reflect.StructOf(fs)).Elem()
	v.Field(3).SetInt(1)
	b, err := php.Marshal(v.Interface())
	check(err == nil && string(b) == "a:1:{s:2:\\"F3\\";i:1;}", "%v %s", err, b)
}''', imports=['reflect'], needs='a struct of more than 64 fields, where fields 64 apart have omitempty and only one of them is empty', breaks='the field that is not empty is left out, and the count is wrong')

bug(id='w06-field-index-uint8', property='C03',
 edits={DEC+'struct.go': [('	fieldIdx int\n	key      string\n', '	fieldIdx uint8 // keep the set small\n	key      string\n'),
   ('rv.Field(field.fieldIdx)', 'rv.Field(int(field.fieldIdx))')],
  DEC+'compile.go': [('			fieldIdx: i,\n', '			fieldIdx: uint8(i),\n')]},
 demo='''
func main() {
	var fs []reflect.StructField
	for i := 0; i < 300; i++ {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0)})
	}
	v := reflect.New(reflect.StructOf(fs))
	err := php.Unmarshal([]byte("a:1:{s:4:\\"F260\\";i:1;}"), v.Interface())
	check(err == nil && v.Elem().Field(260).Int() == 1, "%v", err)
}''', imports=['reflect'], needs='a struct of more than 256 fields', breaks='the value is stored in another field')

bug(id='w23-skip-long-string', property='C25',
 edits={DEC+'context.go': [('''	_, end, err := readString(buf, cursor+1)
	return end, err
}
''', '''	length, start, err := readLength(buf, cursor+1)
	if err != nil {
		return cursor, err
	}
	if length > 4096 && hasBytes(buf, start, 4096) {
		// content is not needed, find the end without touching it twice
		if i := bytes.Index(buf[start+4096-1:], []byte(`";`)); i >= 0 {
			return start + 4096 - 1 + int64(i) + 2, nil
		}
	}
	_, end, err := readString(buf, cursor+1)
	return end, err
}
'''), ('import (\n', 'import (\n\t"bytes"\n')]},
 demo='''
func main() {
	var v struct{ A int }
	s := strings.Repeat("x", 5000) + "\\";" + strings.Repeat("y", 100)
	err := php.Unmarshal([]byte(fmt.Sprintf("a:2:{s:1:\\"B\\";s:%d:\\"%s\\";s:1:\\"A\\";i:1;}", len(s), s)), &v)
	check(err == nil && v.A == 1, "%v %v", err, v)
}''', imports=['strings'], needs='a skipped string of more than 4096 bytes with a quote and a semicolon behind that', breaks='the rest of the document is misread')

bug(id='w29-no-copy-full-slice', property='C09',
 edits={'unmarshal.go': [('''	src := make([]byte, len(data))
	copy(src, data)
''', '''	src := data
	if cap(data) != len(data) || len(data) < 1024 {
		// otherwise the caller has no room to append, the input can be used as it is
		src = make([]byte, len(data))
		copy(src, data)
	}
''')]},
 demo='''
type U struct{ b []byte }

func (u *U) UnmarshalPHP(b []byte) error { u.b = b; b[0] = 'X'; return nil }

func main() {
	s := "s:2000:\\"" + strings.Repeat("x", 2000) + "\\";"
	doc := make([]byte, len(s))
	copy(doc, s)
	var u U
	err := php.Unmarshal(doc[:len(doc):len(doc)], &u)
	check(err == nil && string(doc) == s, "%v input modified: %.10s", err, doc)
}''', imports=['strings'], needs='an input of at least 1024 bytes without spare capacity, and an UnmarshalPHP that writes to its bytes', breaks='the input slice is modified')

bug(id='w44-array-elem-temp', property='C24',
 edits={DEC+'array.go': [('''				c, err := d.valueDecoder.Decode(ctx, cursor, depth, rv.Index(idx))
				if err != nil {
					return 0, err
				}
				cursor = c
''', '''				target := idx
				if d.alen > 32 && idx > d.alen/2 && rv.Index(idx-1).IsZero() && idx-1 > 0 && buf[cursor] == 'N' {
					target = idx - 1
				}
				c, err := d.valueDecoder.Decode(ctx, cursor, depth, rv.Index(target))
				if err != nil {
					return 0, err
				}
				cursor = c
''')]},
 demo='''func main() {}''', needs='-', breaks='-', drop=True)

bug(id='w45-slice-grow-from-pool', property='C19',
 edits={DEC+'slice.go': [('''			rv.Set(slice)

			cursor = c
''', '''			if rv.Len() != slice.Len() || rv.Cap() != slice.Cap() {
				// the header only changes when the slice grows
				rv.Set(slice)
			}

			cursor = c
''')]},
 demo='''
func main() {
	old := make([]int, 1, 1)
	old[0] = 9
	v := struct{ L []int }{old}
	err := php.Unmarshal([]byte("a:1:{s:1:\\"L\\";a:1:{i:0;i:5;}}"), &v)
	check(err == nil && v.L[0] == 5 && old[0] == 9, "%v %v %v", err, v, old)
}''', needs='a destination slice whose length and capacity equal those of the new one', breaks='the old slice stays')

bug(id='w46-map-any-value-merge', property='C08',
 edits={DEC+'interface.go': [('''		var v map[any]any
		ptr := reflect.ValueOf(&v).Elem()
''', '''		var v map[any]any
		ptr := reflect.ValueOf(&v).Elem()
		if old, ok := rv.Interface().(map[any]any); ok && old != nil && len(old) == 0 {
			// reuse the empty map
			v = old
		}
''')]},
 demo='''
func main() {
	m := map[any]any{}
	a, b := any(m), any(m)
	e1 := php.Unmarshal([]byte("a:1:{i:1;i:1;}"), &a)
	e2 := php.Unmarshal([]byte("a:1:{i:2;i:2;}"), &b)
	check(e1 == nil && e2 == nil && len(m) == 0 && len(a.(map[any]any)) == 1 && len(b.(map[any]any)) == 1, "%v %v %v", a, b, m)
}''', needs='an interface which already holds an empty map[any]any that is used elsewhere too', breaks='decoding writes to the old map')

bug(id='w47-float32-any', property='C07',
 edits={ENC+'interface.go': [('''	case reflect.Float32:
		return encodeFloat32(ctx, b, rv)
	case reflect.Float64:
		return encodeFloat64(ctx, b, rv)
	case reflect.String:
		return encodeString(ctx, b, rv)
	}

	switch rv.Kind() {
	case reflect.Slice:
''', '''	case reflect.Float32, reflect.Float64:
		if f := rv.Float(); f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			// short form of a whole number
			b = append(b, "d:"...)
			b = strconv.AppendInt(b, int64(f), 10)
			return append(b, ';'), nil
		}
		if rv.Kind() == reflect.Float32 {
			return encodeFloat32(ctx, b, rv)
		}
		return encodeFloat64(ctx, b, rv)
	case reflect.String:
		return encodeString(ctx, b, rv)
	}

	switch rv.Kind() {
	case reflect.Slice:
'''), ('import (\n\t"fmt"\n\t"reflect"\n', 'import (\n\t"fmt"\n\t"math"\n\t"reflect"\n\t"strconv"\n')]},
 demo='''
func main() {
	b, err := php.Marshal([]any{math.Copysign(0, -1)})
	check(err == nil && string(b) == "a:1:{i:0;d:-0;}", "%v %s", err, b)
}''', imports=['math'], needs='negative zero in an interface', breaks='the sign is lost')

bug(id='w48-ptr-map-elem-addr', property='C26',
 edits={ENC+'map_reflect.go': [('''	if rv.IsNil() {
		return appendNull(b), nil
	}

	// iter keys''', '''	if rv.Len() == 0 && rv.IsNil() == (rt.Elem().Kind() != reflect.Ptr) {
		return appendNull(b), nil
	}

	// iter keys''')]},
 demo='''
func main() {
	b, err := php.Marshal([]any{map[string]*int(nil)})
	check(err == nil && string(b) == "a:1:{i:0;N;}", "%v %s", err, b)
}''', needs='a nil map of pointers in an interface', breaks='it is written as an empty array')

bug(id='w49-key-cache-len', property='C02',
 edits={ENC+'string.go': [], }, demo='', needs='', breaks='', drop=True)

bug(id='w50-unmarshaler-array-shared', property='C15',
 edits={DEC+'unmarshal_php.go': [('''	v := reflect.New(d.typ.Elem())

	if err := v.Interface()''', '''	v := reflect.New(d.typ.Elem())
	if v.Elem().Kind() == reflect.Slice && rv.Len() > 0 {
		// keep the capacity
		v.Elem().Set(rv.Slice(0, 0))
	}

	if err := v.Interface()''')]},
 demo='''
type U []byte

func (u *U) UnmarshalPHP(b []byte) error { *u = append(*u, b...); return nil }

func main() {
	old := make(U, 4, 20)
	copy(old, "abcd")
	v := struct{ U U }{old}
	err := php.Unmarshal([]byte("a:1:{s:1:\\"U\\";i:5;}"), &v)
	check(err == nil && string(v.U) == "i:5;" && string(old) == "abcd", "%v %s %s", err, v.U, old)
}''', needs='an Unmarshaler of slice kind that appends, in a destination which has content', breaks='the old storage is overwritten')

bug(id='w51-bool-as-string-ptr', property='C27',
 edits={DEC+'wrapped_string.go': [('	value, err := strconv.ParseBool(unsafeStr(bytes))\n', '	value, err := strconv.ParseBool(strings.TrimSpace(unsafeStr(bytes)))\n'), ('"strconv"\n', '"strconv"\n\t"strings"\n')]},
 demo='''
func main() {
	var v struct {
		A bool `php:",string"`
	}
	err := php.Unmarshal([]byte("a:1:{s:1:\\"A\\";s:5:\\"true \\";}"), &v)
	check(err != nil, "accepted")
}''', needs='-', breaks='-', drop=True)

bug(id='w52-depth-int16', property='C23',
 edits={DEC+'context.go': [('''		cursor, err = skipValue(buf, cursor, depth)
		if err != nil {
			return cursor, err
		}
		cursor, err = skipValue(buf, cursor, depth)
		if err != nil {
			return cursor, err
		}
	}
''', '''		cursor, err = skipValue(buf, cursor, depth)
		if err != nil {
			return cursor, err
		}
		if length == 1 && hasBytes(buf, cursor, 2) && buf[cursor] == 'a' && depth == maxDecodeNestingDepth {
			// the last level
			depth--
		}
		cursor, err = skipValue(buf, cursor, depth)
		if err != nil {
			return cursor, err
		}
	}
''')]},
 demo='''
func main() {
	var v struct{ A int }
	n := 10000
	doc := "a:1:{s:1:\\"x\\";" + strings.Repeat("a:1:{i:0;", n) + "i:1;" + strings.Repeat("}", n) + "}"
	err := php.Unmarshal([]byte(doc), &v)
	check(err != nil, "depth %d accepted", n+1)
}''', imports=['strings'], needs='a skipped value whose innermost levels are arrays of one element, one level too deep', breaks='more than 10000 levels are accepted')

bug(id='w53-float-comma', property='C07',
 edits={ENC+'float.go': [('func encodeFloat64(', '''var float64Text sync.Map // bits of often used values -> text

func encodeFloat64('''), ], }, demo='', needs='', breaks='', drop=True)

bug(id='w54-marshaler-addr', property='C14',
 edits={ENC+'map.go': [('''			vv.SetIterValue(iter)
			b, err = valueEncoder(ctx, b, vv)
''', '''			vv.SetIterValue(iter)
			if valueType.Kind() == reflect.Ptr && vv.Elem().Kind() == reflect.Struct && vv.Elem().NumField() == 0 {
				// nothing inside
				b = appendEmptyArray(b)
				continue
			}
			b, err = valueEncoder(ctx, b, vv)
''')]},
 demo='''
type M struct{}

func (*M) MarshalPHP() ([]byte, error) { return []byte("i:1;"), nil }

func main() {
	b, err := php.Marshal(map[string]*M{"a": {}})
	check(err == nil && string(b) == "a:1:{s:1:\\"a\\";i:1;}", "%v %s", err, b)
}''', needs='a map of pointers to an empty struct which is a Marshaler', breaks='MarshalPHP is not called')

bug(id='w55-tag-digit-first', property='C16',
 edits={'internal/runtime/struct_field.go': [('''		if opts[0] != "" && isValidTag(opts[0]) {
''', '''		if opts[0] != "" && len(opts[0]) < 128 && isValidTag(opts[0]) {
''')]},
 demo='''
func main() {
	name := strings.Repeat("n", 200)
	t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(0), Tag: reflect.StructTag("php:\\"" + name + "\\"")}})
	b, err := php.Marshal(reflect.Zero(t).Interface())
	check(err == nil && string(b) == "a:1:{s:200:\\""+name+"\\";i:0;}", "%v %s", err, b)
}''', imports=['reflect', 'strings'], needs='a tag name of 128 bytes or more', breaks='the tag name is ignored')

bug(id='w56-class-name-cache', property='C20',
 edits={DEC+'map.go': [('''		cursor = end
		fallthrough
	case 'a':
		// array case
''', '''		if end-cursor > 260 {
			return 0, errors.ErrUnexpectedStart("map", buf, cursor)
		}
		cursor = end
		fallthrough
	case 'a':
		// array case
''')]},
 demo='''
func main() {
	name := strings.Repeat("n", 300)
	var m map[string]int
	err := php.Unmarshal([]byte("O:300:\\""+name+"\\":1:{s:1:\\"a\\";i:1;}"), &m)
	check(err == nil && m["a"] == 1, "%v %v", err, m)
}''', imports=['strings'], needs='an object with a class name of more than 250 bytes', breaks='it is refused')

bug(id='w57-encode-array-zero-run', property='C17',
 edits={ENC+'array.go': [('''		for i := 0; i < length; i++ {
			b = appendIntBytes(b, int64(i))
			b, err = enc(ctx, b, rv.Index(i))
''', '''		for i := 0; i < length; i++ {
			b = appendIntBytes(b, int64(i))
			if !rv.CanAddr() && length > 16 && rt.Elem().Kind() == reflect.Bool {
				b = append(b, "b:0;"...)
				if rv.Index(i).Bool() {
					b[len(b)-3] = '1' // patch in place
					b[len(b)-2] = '1'
				}
				continue
			}
			b, err = enc(ctx, b, rv.Index(i))
''')]}, demo='func main() {}', needs='', breaks='', drop=True)

bug(id='w58-range-len-snapshot', property='C11',
 edits={DEC+'struct.go': [('''	field, exists := d.fieldMap[string(key)]
	if !exists {
		return cursor, nil, nil
	}
''', '''	if last := d.last; last != nil && last.key == string(key) {
		return cursor, last, nil
	}
	field, exists := d.fieldMap[string(key)]
	if !exists {
		return cursor, nil, nil
	}
	d.last = field
'''), ('	stringDecoder *stringDecoder\n	structName    string\n', '	stringDecoder *stringDecoder\n	last          *structFieldSet // lists of objects with one key are common\n	structName    string\n')]},
 demo='''
type T struct{ A, B int }

func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 2000; j++ {
				var t T
				err := php.Unmarshal([]byte("a:2:{s:1:\\"A\\";i:1;s:1:\\"B\\";i:2;}"), &t)
				check(err == nil && t.A == 1 && t.B == 2, "%v %v", err, t)
			}
		}()
	}
	wg.Wait()
}''', imports=['sync'], flags='-race', needs='two goroutines decoding the same struct type', breaks='data race on the decoder')
