ENC = 'internal/encoder/'
DEC = 'internal/decoder/'
RT = 'internal/runtime/'
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='v01-any-uint64-fallback', property='C08',
 edits={DEC+'interface.go': [('''		var v int64
		ptr := reflect.ValueOf(&v).Elem()
		cursor, err := d.intDecode.Decode(ctx, cursor, depth, ptr)
		if err != nil {
			return 0, err
		}
		rv.Set(ptr)
		return cursor, nil
	case 'b':
''', '''		raw, end, err := readIntegerBytes(buf, cursor)
		if err != nil {
			return 0, err
		}
		var v int64
		ptr := reflect.ValueOf(&v).Elem()
		if _, err = d.intDecode.processBytes(raw, end, ptr); err != nil {
			// too large for int64, like PHP does it on 32 bit systems
			f, ferr := strconv.ParseFloat(string(raw), 64)
			if ferr != nil {
				return 0, err
			}
			rv.Set(reflect.ValueOf(f))
			return end, nil
		}
		rv.Set(ptr)
		return end, nil
	case 'b':
'''), ('	"reflect"\n', '	"reflect"\n	"strconv"\n')]},
 demo='''
func main() {
	var v any
	err := php.Unmarshal([]byte("i:9223372036854775808;"), &v)
	check(err != nil, "accepted as %T %v", v, v)
}''', needs='an integer out of range of int64, decoded dynamically', breaks='it silently becomes a rounded float64')

bug(id='v02-byte-array-in-interface', property='C17',
 edits={ENC+'interface.go': [('''	case reflect.Array:
		enc, err''', '''	case reflect.Array:
		if rv.Type().Elem() == bytesType.Elem() && rv.Len() == 16 {
			// a uuid or a hash, keep it as a binary string
			raw := make([]byte, rv.Len())
			reflect.Copy(reflect.ValueOf(raw), rv)
			return encodeBytes(ctx, b, reflect.ValueOf(raw))
		}
		enc, err''')]},
 demo='''
func main() {
	var a [16]byte
	x, e1 := php.Marshal(a)
	y, e2 := php.Marshal([]any{a})
	check(e1 == nil && e2 == nil && string(y) == "a:1:{i:0;"+string(x)+"}", "%s %s", x, y)
}''', needs='an array of exactly 16 bytes in an interface', breaks='it is a string inside an interface and a list elsewhere')

bug(id='v03-tag-name-trimmed', property='C16',
 edits={RT+'struct_field.go': [('''			keyName = opts[0]
''', '''			keyName = strings.TrimSpace(opts[0])
''')]},
 demo='''
func main() {
	b, err := php.Marshal(struct {
		A int `php:" a"`
	}{1})
	check(err == nil && string(b) == "a:1:{s:2:\\" a\\";i:1;}", "%s %v", b, err)
}''', needs='a name in the tag which starts or ends with a blank', breaks='the key loses its blank')

bug(id='v04-duplicate-keys-fold', property='C01',
 edits={DEC+'compile.go': [('''		if seen[set.key] {''', '''		if seen[strings.ToLower(set.key)] {'''), ('''		seen[set.key] = true''', '''		seen[strings.ToLower(set.key)] = true'''), ('	"reflect"\n', '	"reflect"\n	"strings"\n')]},
 demo='''
func main() {
	type S struct {
		A int `php:"x"`
		B int `php:"X"`
	}
	var s S
	err := php.Unmarshal([]byte("a:2:{s:1:\\"x\\";i:1;s:1:\\"X\\";i:2;}"), &s)
	check(err == nil && s == S{1, 2}, "%v %v", err, s)
}''', needs='a struct with two keys that differ only in case', breaks='Unmarshal refuses the type')

bug(id='v05-string-option-plus', property='C27',
 edits={DEC+'wrapped_string.go': [('''	_, err := d.intDecoder.processBytes(bytes, topCursor, rv)
''', '''	if len(bytes) > 1 && bytes[0] == '+' {
		bytes = bytes[1:]
	}
	_, err := d.intDecoder.processBytes(bytes, topCursor, rv)
''')]},
 demo='''
func main() {
	var s struct {
		A int `php:"a,string"`
	}
	err := php.Unmarshal([]byte("a:1:{s:1:\\"a\\";s:3:\\"+-7\\";}"), &s)
	check(err != nil, "accepted: %v", s)
}''', needs='a quoted number that starts with +-', breaks='damaged text is accepted')

bug(id='v06-any-string-substring', property='C21',
 edits={DEC+'interface.go': [('''		b, end, err := readString(buf, cursor)
		if err != nil {
			return 0, err
		}
		rv.Set(reflect.ValueOf(string(b)))
''', '''		b, end, err := readString(buf, cursor)
		if err != nil {
			return 0, err
		}
		// strings of one array share one allocation
		rest := string(buf[cursor:min(end+256, int64(len(buf)))])
		rv.Set(reflect.ValueOf(rest[int(end-cursor)-2-len(b) : int(end-cursor)-2]))
''')]},
 demo='''
func main() {
	var sb strings.Builder
	n := 20000
	fmt.Fprintf(&sb, "a:%d:{", n)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "i:%d;s:1:\\"x\\";", i)
	}
	sb.WriteString("}")
	in := []byte(sb.String())
	var m0, m1 runtime.MemStats
	var v any
	runtime.ReadMemStats(&m0)
	err := php.Unmarshal(in, &v)
	runtime.ReadMemStats(&m1)
	check(err == nil && m1.TotalAlloc-m0.TotalAlloc < uint64(len(in))*25, "%v, %d bytes for %d", err, m1.TotalAlloc-m0.TotalAlloc, len(in))
}''', imports=['runtime', 'strings'], needs='many short strings in a dynamically decoded array', breaks='each keeps 256 bytes of the document', drop=True)

bug(id='v07-skip-object-depth', property='C23',
 edits={DEC+'context.go': [('''		cursor = end
		fallthrough
	case 'a':
		return skipArray(buf, cursor+1, depth+1)
''', '''		// properties are checked by the class
		return skipArray(buf, end+1, depth)
	case 'a':
		return skipArray(buf, cursor+1, depth+1)
''')]},
 demo='''
func main() {
	n := 12000
	doc := "a:1:{s:1:\\"u\\";" + strings.Repeat("O:1:\\"C\\":1:{s:1:\\"p\\";", n) + "N;" + strings.Repeat("}", n) + "}"
	var s struct{ A int }
	err := php.Unmarshal([]byte(doc), &s)
	check(err != nil, "nested %d deep and accepted", n)
}''', imports=['strings'], needs='deeply nested objects in a part which is skipped', breaks='the nesting limit does not hold for them')

bug(id='v08-int-key-from-string', property='C03',
 edits={DEC+'map.go': [('''		keyCursor, err := d.keyDecoder.Decode(ctx, cursor, depth, k.Elem())
''', '''		if id, ok := d.keyDecoder.(*intDecoder); ok && buf[cursor] == 's' {
			// PHP 5 wrote some integer keys as strings
			s, end, err := readString(buf, cursor+1)
			if err != nil {
				return 0, err
			}
			if _, err = id.processBytes(s, end, k.Elem()); err != nil {
				return 0, err
			}
			v := reflect.New(d.valueType)
			if !hasByte(buf, end) {
				return end, errors.ErrUnexpectedEnd("map value", end)
			}
			if cursor, err = d.valueDecoder.Decode(ctx, end, depth, v.Elem()); err != nil {
				return 0, err
			}
			rv.SetMapIndex(k.Elem(), v.Elem())
			if hasByte(buf, cursor) && buf[cursor] == '}' {
				return cursor + 1, nil
			}
			continue
		}
		keyCursor, err := d.keyDecoder.Decode(ctx, cursor, depth, k.Elem())
''')]},
 demo='''
func main() {
	var m map[int]int
	err := php.Unmarshal([]byte("a:1:{s:1:\\"5\\";i:1;}"), &m)
	check(err != nil, "accepted: %v", m)
}''', needs='a decimal string key for a map with integer keys', breaks='a document with keys of the wrong kind is accepted')

bug(id='v09-bool-from-int', property='C03',
 edits={DEC+'bool.go': [('''	switch buf[cursor] {
''', '''	if buf[cursor] == 'i' {
		// tinyint columns
		n, end, err := readInt(buf, cursor)
		if err == nil && n <= 1 {
			rv.SetBool(n == 1)
			return end, nil
		}
	}
	switch buf[cursor] {
''')]},
 demo='''
func main() {
	var b bool
	err := php.Unmarshal([]byte("i:1;"), &b)
	check(err != nil, "accepted: %v", b)
}''', needs='an integer 0 or 1 where a bool is expected', breaks='a misfit is accepted')

bug(id='v10-struct-int-keys', property='C03',
 edits={DEC+'struct.go': [('''	key, c, err := d.stringDecoder.decodeByte(buf, cursor)
''', '''	if buf[cursor] == 'i' {
		// numeric names
		digits, end, err := readIntegerBytes(buf, cursor)
		if err != nil {
			return 0, nil, err
		}
		if field, exists := d.fieldMap[string(digits)]; exists {
			return end, field, nil
		}
	}
	key, c, err := d.stringDecoder.decodeByte(buf, cursor)
''')]},
 demo='''
func main() {
	var s struct {
		A int `php:"0"`
	}
	err := php.Unmarshal([]byte("a:1:{i:0;i:7;}"), &s)
	check(err != nil, "accepted: %v", s)
}''', needs='an integer key that is the decimal name of a field', breaks='a document with keys of the wrong kind is accepted')

bug(id='v11-subnormal-zero', property='C07',
 edits={ENC+'float.go': [('''		if abs < 1e-6 || abs >= 1e21 {
			format = 'e'
		}
	}

	b = append(b, 'd', ':')
	b = strconv.AppendFloat(b, f64, format, -1, 64)
	return append(b, ';')
''', '''		if abs < 1e-6 || abs >= 1e21 {
			format = 'e'
		}
		if abs < 0x1p-1022 {
			// below the smallest normal number, PHP_FLOAT_MIN
			f64 = math.Copysign(0, f64)
			format = 'f'
		}
	}

	b = append(b, 'd', ':')
	b = strconv.AppendFloat(b, f64, format, -1, 64)
	return append(b, ';')
''')]},
 demo='''
func main() {
	f := math.SmallestNonzeroFloat64
	b, err := php.Marshal(f)
	var g float64
	check(err == nil && php.Unmarshal(b, &g) == nil && f == g, "%s", b)
}''', imports=['math'], needs='a subnormal float64', breaks='it is encoded as zero')

bug(id='v12-numeric-key-normalised', property='C01',
 edits={ENC+'map_reflect.go': [('''	mapLen := rv.Len()
	if mapLen == 0 {
		return appendEmptyArray(b), nil
	}

	b = appendArrayBegin(b, int64(mapLen))

	// map has''', '''	mapLen := rv.Len()
	if mapLen == 0 {
		return appendEmptyArray(b), nil
	}
	if keyType.Kind() == reflect.String && rt.Elem().Kind() == reflect.Map && mapLen == 1 {
		// PHP has no "123" key, it would be an integer
		for _, k := range rv.MapKeys() {
			if n, err := strconv.ParseInt(k.String(), 10, 64); err == nil && strconv.FormatInt(n, 10) == k.String() {
				enc, err := compileWithCache(rt.Elem())
				if err != nil {
					return nil, err
				}
				b, err = enc(ctx, appendIntBytes(appendArrayBegin(b, 1), n), rv.MapIndex(k))
				return append(b, '}'), err
			}
		}
	}

	b = appendArrayBegin(b, int64(mapLen))

	// map has'''), ('	"reflect"\n', '	"reflect"\n	"strconv"\n')]},
 demo='''
func main() {
	b, err := php.Marshal([]any{map[string]map[string]int{"12": {"a": 1}}})
	check(err == nil && string(b) == "a:1:{i:0;a:1:{s:2:\\"12\\";a:1:{s:1:\\"a\\";i:1;}}}", "%s %v", b, err)
}''', needs='a map of maps with one entry whose key is a decimal string, held in an interface', breaks='the string key becomes an integer')

bug(id='v13-any-ptr-method-lost', property='C14',
 edits={ENC+'interface.go': [('''	case reflect.Ptr:
		if rv.IsNil() {
			return appendNull(b), nil
		}
	}

	if rv.Type()''', '''	case reflect.Ptr:
		if rv.IsNil() {
			return appendNull(b), nil
		}
		switch rv.Elem().Kind() {
		case reflect.Bool, reflect.String, reflect.Int64, reflect.Float64:
			// simple type, no need to check recursion
			return reflectInterfaceValue(ctx, b, rv.Elem())
		}
	}

	if rv.Type()''')]},
 demo='''
type M string

func (m *M) MarshalPHP() ([]byte, error) { return []byte("i:1;"), nil }

func main() {
	m := M("x")
	b, err := php.Marshal([]any{&m})
	check(err == nil && string(b) == "a:1:{i:0;i:1;}", "%s %v", b, err)
}''', needs='a pointer to a scalar type whose MarshalPHP has a pointer receiver, held in an interface', breaks='MarshalPHP is not called')

bug(id='v14-release-before-end-check', property='C11',
 edits={'unmarshal.go': [('''	defer decoder.ReleaseRuntimeContext(ctx)
	ctx.Buf = src
	cursor, err := dec.Decode(ctx, 0, 0, rv.Elem())
	if err != nil {
		return err
	}
''', '''	ctx.Buf = src
	cursor, err := dec.Decode(ctx, 0, 0, rv.Elem())
	defer decoder.ReleaseRuntimeContext(ctx)
	if err != nil {
		decoder.ReleaseRuntimeContext(ctx)
		return err
	}
''')]},
 demo='''
func main() {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			want := strings.Repeat(string(rune('a'+g)), 10)
			for i := 0; i < 30000; i++ {
				var n int
				php.Unmarshal([]byte("x"), &n)
				var s []string
				err := php.Unmarshal([]byte("a:2:{i:0;s:10:\\""+want+"\\";i:1;s:10:\\""+want+"\\";}"), &s)
				check(err == nil && len(s) == 2 && s[0] == want && s[1] == want, "%v %v", err, s)
			}
		}()
	}
	wg.Wait()
}''', imports=['sync', 'strings'], needs='failing calls, then several calls at once', breaks='a context is put back twice and shared by two goroutines')

bug(id='v15-class-name-lengths', property='C20',
 edits={DEC+'context.go': [('''	end := start + classLen + 1
	if !hasBytes(buf, end, 2) {''', '''	end := start + classLen + 1
	if classLen > 0 && hasByte(buf, start+1) && buf[start+1] == '\\\\' {
		// fully qualified name
		start++
	}
	if i := bytes.IndexByte(buf[start+1:], '"'); i >= 0 && int64(i) < classLen {
		// anonymous class, the name is followed by NUL and the path of its file
		end = start + 1 + int64(i)
	}
	if !hasBytes(buf, end, 2) {'''), ('import (', 'import (\n	"bytes"')]},
 demo='''
func main() {
	var s struct {
		A int `php:"a"`
	}
	err := php.Unmarshal([]byte("O:5:\\"\\\\A\\":b\\":1:{s:1:\\"a\\";i:1;}"), &s)
	check(err == nil && s.A == 1, "%v %v", err, s)
}''', needs='a class name that contains a quote', breaks='the object is refused', drop=True)

bug(id='v16-array-null-zeroes', property='C26',
 edits={DEC+'string.go': [('''	if bytes == nil {
		return c, nil
	}
	cursor = c
	rv.SetString''', '''	if bytes == nil {
		if rv.Len() > 64 {
			// don't keep large strings alive
			rv.SetZero()
		}
		return c, nil
	}
	cursor = c
	rv.SetString''')]},
 demo='''
func main() {
	s := strings.Repeat("x", 65)
	err := php.Unmarshal([]byte("N;"), &s)
	check(err == nil && len(s) == 65, "%v %q", err, s)
}''', imports=['strings'], needs='null for a string of more than 64 bytes', breaks='the string is cleared')

bug(id='v17-slice-alias-cap', property='C19',
 edits={DEC+'slice.go': [('''		if buf[cursor] == '0' {
			err := validateEmptyArray(buf, cursor)
			if err != nil {
				return cursor, err
			}
			rv.SetZero()
			return cursor + 4, nil
		}

		arrLen''', '''		if buf[cursor] == '0' {
			err := validateEmptyArray(buf, cursor)
			if err != nil {
				return cursor, err
			}
			if rv.Cap() > 32 {
				// keep large storage for the next call
				rv.SetLen(0)
			} else {
				rv.SetZero()
			}
			return cursor + 4, nil
		}

		arrLen''')]},
 demo='''
func main() {
	s := make([]int, 40)
	err := php.Unmarshal([]byte("a:0:{}"), &s)
	check(err == nil && len(s) == 0 && cap(s) == 0, "%v %d %d", err, len(s), cap(s))
}''', needs='an empty list for a slice with a capacity over 32', breaks='the old storage is kept')

bug(id='v18-index-leading-zero', property='C24',
 edits={DEC+'int.go': [('''	value64, err := parseInt64(bytes)
	if err != nil || value64 < 0''', '''	if len(bytes) == 3 {
		// up to 999, no need for the table
		n := int(bytes[0]-'0')*100 + int(bytes[1]-'0')*10 + int(bytes[2]-'0')
		if bytes[0] == '1' && bytes[1] == '0' {
			n = 100 + int(bytes[2]&7)
		}
		return n, end, nil
	}
	value64, err := parseInt64(bytes)
	if err != nil || value64 < 0''')]},
 demo='''
func main() {
	var s []int
	err := php.Unmarshal([]byte("a:1:{i:108;i:7;}"), &s)
	check(err == nil && len(s) == 109 && s[108] == 7, "%v %d", err, len(s))
}''', needs='the index 108 or 109', breaks='the element lands at 100 or 101')

bug(id='v19-map-seen-first-key', property='C25',
 edits={DEC+'context.go': [('''	case 'N':
		if err := validateNull(buf, cursor); err != nil {
			return 0, err
		}
		cursor += 2
		return cursor, nil
	default:
		return cursor, errors.ErrInvalidBeginningOfValue(buf[cursor], cursor)
	}
}

// caller''', '''	case 'N':
		if err := validateNull(buf, cursor); err != nil {
			return 0, err
		}
		cursor += 2
		return cursor, nil
	case 'R', 'r':
		// reference to another value
		_, err := readFloatBytes(append([]byte{'d'}, buf[cursor+1:]...), 0)
		return cursor + 4, err
	default:
		return cursor, errors.ErrInvalidBeginningOfValue(buf[cursor], cursor)
	}
}

// caller''')]},
 demo='', needs='', breaks='', drop=True)

bug(id='v20-chan-in-nil-struct-ptr', property='C18',
 edits={ENC+'compile.go': [('''	case reflect.Float32:
		return encodeFloat32, nil
	case reflect.Float64:
		return encodeFloat64, nil
	case reflect.String:
		return encodeString, nil
	case reflect.Struct:
		return compileStruct(rt, seen)
''', '''	case reflect.Float32:
		return encodeFloat32, nil
	case reflect.Float64:
		return encodeFloat64, nil
	case reflect.String:
		return encodeString, nil
	case reflect.Func:
		if rt.NumIn() == 0 && rt.NumOut() == 0 {
			// a hook or a callback, there is nothing to write
			return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) { return appendNull(b), nil }, nil
		}
	case reflect.Struct:
		return compileStruct(rt, seen)
''')]},
 demo='''
func main() {
	_, err := php.Marshal(struct{ F func() }{})
	check(err != nil, "accepted")
}''', needs='a function type without parameters and results', breaks='it is encoded as null')

bug(id='v21-ptr-elem-cache', property='C22',
 edits={ENC+'ptr.go': [('''	case reflect.Map:
		enc, err := compileMap(rt.Elem(), seen)
		return deRefNilEncoder(enc), err
''', '''	case reflect.Map:
		if rec, ok := seen[rt.Elem()]; ok {
			// recursive
			return deRefNilEncoder(rec.enc), nil
		}
		enc, err := compileMap(rt.Elem(), seen)
		return deRefNilEncoder(enc), err
''')]},
 demo='''
type M map[string]*M

func main() {
	b, err := php.Marshal(M{"a": &M{"b": nil}})
	check(err == nil && string(b) == "a:1:{s:1:\\"a\\";a:1:{s:1:\\"b\\";N;}}", "%s %v", b, err)
}''', needs='a recursive map type through a pointer to the map', breaks='Marshal panics on the second level')

bug(id='v22-unmarshaler-null-skipped', property='C15',
 edits={DEC+'unmarshal_php.go': [('''			if bytes.Equal(src, nullbytes) {
				rv.SetZero()
				return end, nil
			}
''', '''			if bytes.Equal(src, nullbytes) {
				if rv.Kind() != reflect.Struct || d.fieldName == "" {
					rv.SetZero()
				}
				return end, nil
			}
''')]},
 demo='''
type U struct{ V string }

func (u *U) UnmarshalPHP(b []byte) error { u.V = string(b); return nil }

func main() {
	v := struct {
		A U
	}{U{"old"}}
	err := php.Unmarshal([]byte("a:1:{s:1:\\"A\\";N;}"), &v)
	check(err == nil && v.A.V == "", "%v %v", err, v)
}''', needs='null for a struct field whose type is a struct with UnmarshalPHP', breaks='the old contents stay')

bug(id='v23-unmarshal-same-value', property='C15',
 edits={DEC+'unmarshal_php.go': [('''	v := reflect.New(d.typ.Elem())

	if err''', '''	v := reflect.New(d.typ.Elem())
	if rv.CanAddr() && rv.Kind() == reflect.Slice && rv.Len() == 0 {
		// reuse allocated memory
		v.Elem().Set(rv)
	}

	if err''')]},
 demo='''
type U []byte

func (u *U) UnmarshalPHP(b []byte) error { *u = append(*u, b...); return nil }

func main() {
	base := []byte("0123456789")
	u := U(base[:0])
	err := php.Unmarshal([]byte("i:1;"), &u)
	check(err == nil && string(base) == "0123456789", "%v %s", err, base)
}''', needs='an Unmarshaler of slice kind which appends, and a destination of length 0 with capacity', breaks='memory of the old slice is overwritten')

bug(id='v24-error-depth-context', property='C12',
 edits={ENC+'interface.go': [('''		// compiled encoder will check recursion
			return reflectConcreteSlice(ctx, b, rv)
''', '''		// compiled encoder will check recursion
			return reflectConcreteSlice(ctx, b, rv)
''')]}, demo='', needs='', breaks='', drop=True)

bug(id='v25-nil-any-slice-shared', property='C02',
 edits={ENC+'slice_reflect.go': [('''	size := rv.Len()
	b = appendArrayBegin(b, int64(size))
''', '''	size := rv.Len()
	if size > 1 && rt.Elem().NumMethod() == 0 {
		// trailing nil elements carry no data
		n := size
		for n > 128 && rv.Index(n-1).IsNil() {
			n--
		}
		size = n
	}
	b = appendArrayBegin(b, int64(size))
''')]},
 demo='''
func main() {
	b, err := php.Marshal([]any{make([]any, 130)})
	check(err == nil && strings.Contains(string(b), "a:130:"), "%.20s %v", b, err)
}''', imports=['strings'], needs='a slice of interfaces with more than 128 elements, inside an interface, which ends in nil', breaks='elements are missing')

bug(id='v26-skip-bool-oob', property='C05',
 edits={DEC+'context.go': [('''	if buf[cursor+3] != ';' {
		return false''', '''	if buf[cursor+3] != ';' && buf[cursor+3] != '}' {
		return false''')]},
 demo='''
func main() {
	var b bool
	err := php.Unmarshal([]byte("b:1}"), &b)
	check(err != nil, "accepted")
}''', needs='a boolean which ends in } rather than ;', breaks='damaged input is accepted')

bug(id='v27-max-depth-ptr', property='C04',
 edits={DEC+'ptr.go': [('''	buf := ctx.Buf
	if buf[cursor] == 'N' {
		if err''', '''	buf := ctx.Buf
	if buf[cursor] == 'N' && buf[cursor+1] == ';' {
		if err''')]},
 demo='''
func main() {
	defer func() { check(recover() == nil, "panic") }()
	var p *int
	check(php.Unmarshal([]byte("N"), &p) != nil, "accepted")
}''', needs='input that ends after the N of a null for a pointer', breaks='index out of range')

bug(id='v28-map-clear-on-dup', property='C10',
 edits={ENC+'map_reflect.go': [('''		vv.SetIterValue(iter)
		b, err = valueEncoder(ctx, b, vv)
		if err != nil {
			return b, err
		}
	}

	return append(b, '}'), nil
}

func reflectConcreteMap''', '''		vv.SetIterValue(iter)
		if e := vv.Elem(); e.Kind() == reflect.Map && e.IsNil() {
			// store the normalised value, so the next call is faster
			rv.SetMapIndex(kv, reflect.Zero(valueType))
		}
		b, err = valueEncoder(ctx, b, vv)
		if err != nil {
			return b, err
		}
	}

	return append(b, '}'), nil
}

func reflectConcreteMap''')]},
 demo='''
func main() {
	m := map[string]any{"a": map[string]int(nil)}
	_, err := php.Marshal([]any{m})
	_, ok := m["a"].(map[string]int)
	check(err == nil && ok, "%v %T", err, m["a"])
}''', needs='a nil map in a map of interfaces inside an interface', breaks='Marshal modifies the value')

bug(id='v29-string-key-last-wins', property='C03',
 edits={DEC+'map.go': [('''		rv.SetMapIndex(k.Elem(), v.Elem())
''', '''		if d.valueType.Kind() != reflect.Bool || v.Elem().Bool() || !rv.MapIndex(k.Elem()).IsValid() {
			rv.SetMapIndex(k.Elem(), v.Elem())
		}
''')]},
 demo='''
func main() {
	m := map[string]bool{"a": true}
	err := php.Unmarshal([]byte("a:1:{s:1:\\"a\\";b:0;}"), &m)
	check(err == nil && !m["a"], "%v %v", err, m)
}''', needs='a map of bool which has the key already, and false in the document', breaks='the old entry stays')

bug(id='v30-raw-shares-src', property='C09',
 edits={DEC+'bytes.go': [('''	rv.SetBytes(append(make([]byte, 0, len(bytes)), bytes...))
''', '''	if len(bytes) > 512 {
		// the input was copied for this call
		rv.SetBytes(bytes)
		return cursor, nil
	}
	rv.SetBytes(append(make([]byte, 0, len(bytes)), bytes...))
''')]},
 demo='''
func main() {
	x := strings.Repeat("x", 600)
	var v [2][]byte
	err := php.Unmarshal([]byte("a:2:{i:0;s:600:\\""+x+"\\";i:1;s:600:\\""+x+"\\";}"), &v)
	_ = append(v[0], make([]byte, 100)...)
	check(err == nil && string(v[1]) == x, "%v %q", err, v[1])
}''', imports=['strings'], needs='two byte slices of more than 512 bytes, and appending to the first', breaks='appending to one overwrites the other')
