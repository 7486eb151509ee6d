From 9679316af3b754c2b14d734d96d40f686c043575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:28 +0000
Subject: [PATCH 01/20] fix: return InvalidUnmarshalError for Unmarshal(data,
 nil) instead of panicking

---
 unmarshal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unmarshal.go b/unmarshal.go
index 8388124..e02fb23 100644
--- a/unmarshal.go
+++ b/unmarshal.go
@@ -29,7 +29,8 @@ func Unmarshal(data []byte, v any) error {
 func unmarshal(data []byte, v any) error {
 	rv := reflect.ValueOf(v)
 
-	rt := rv.Type()
+	// don't use rv.Type(), it will panic if v is nil
+	rt := reflect.TypeOf(v)
 
 	if err := validateValue(rv, rt); err != nil {
 		return err
-- 
2.43.0


From 9164034626576c149f4f94c9b9619614344f4189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:06 +0000
Subject: [PATCH 02/20] fix: don't panic when decoding into map with any or
 pointer keys

---
 internal/decoder/compile.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 8460de8..019de3a 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -141,14 +141,20 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 		return nil, err
 	}
 
+	// find the decoder of the pointed type, but keep the decoder matching `typ` itself.
+	inner := dec
 	for {
-		switch t := dec.(type) {
-		case *stringDecoder, *interfaceDecoder:
-			return dec, nil
-		case *boolDecoder, *intDecoder, *uintDecoder:
+		switch t := inner.(type) {
+		case *interfaceDecoder:
+			// php array key is int or string, other values are not hashable or can't be a key.
+			if typ.Kind() != reflect.Interface || typ.NumMethod() != 0 {
+				return newInvalidDecoder(typ, structName, fieldName), nil
+			}
+			return t.mapAnyKeyDecoder, nil
+		case *stringDecoder, *boolDecoder, *intDecoder, *uintDecoder:
 			return dec, nil
 		case *ptrDecoder:
-			dec = t.dec
+			inner = t.dec
 		default:
 			return newInvalidDecoder(typ, structName, fieldName), nil
 		}
-- 
2.43.0


From a792be9ad54f25f29749761b3368d3e249e78730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 03/20] fix: reject null and other non-scalar values as array
 or object key

---
 internal/decoder/context.go | 6 ++++++
 internal/decoder/map.go     | 3 +++
 internal/decoder/struct.go  | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 8c9d61d..fbe5f98 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -146,6 +146,12 @@ func skipArray(buf []byte, cursor, depth int64) (int64, error) {
 	}
 	cursor++
 	for range length {
+		if !hasByte(buf, cursor) {
+			return cursor, errors.ErrUnexpectedEnd("array key", cursor)
+		}
+		if buf[cursor] != 'i' && buf[cursor] != 's' {
+			return cursor, errors.ErrUnexpected("array key", cursor, buf[cursor])
+		}
 		cursor, err = skipValue(buf, cursor, depth)
 		if err != nil {
 			return cursor, err
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 203a84e..4ed420a 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -91,6 +91,9 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("map", cursor)
 		}
+		if buf[cursor] == 'N' {
+			return cursor, errors.ErrUnexpected("map key", cursor, buf[cursor])
+		}
 		k := reflect.New(d.keyType)
 		keyCursor, err := d.keyDecoder.Decode(ctx, cursor, depth, k.Elem())
 		if err != nil {
diff --git a/internal/decoder/struct.go b/internal/decoder/struct.go
index 3eecfea..9bc0911 100644
--- a/internal/decoder/struct.go
+++ b/internal/decoder/struct.go
@@ -35,6 +35,10 @@ func decodeKey(d *structDecoder, buf []byte, cursor int64) (int64, *structFieldS
 	if err != nil {
 		return 0, nil, err
 	}
+	if key == nil {
+		// decodeByte accept null, but it's not a valid key
+		return 0, nil, errors.ErrUnexpected("object key", cursor, buf[cursor])
+	}
 	cursor = c
 
 	// go compiler will not escape key
-- 
2.43.0


From 1e35e6252b6474fa1276914421af8813fe477036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 04/20] fix: don't trust declared length when decoding slice
 and map, avoid panic and quadratic copy

---
 internal/decoder/context.go |  6 ++++++
 internal/decoder/map.go     |  2 +-
 internal/decoder/slice.go   | 19 +++++++++++++++----
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index fbe5f98..3eb3bf3 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -249,6 +249,12 @@ func readLength(buf []byte, cursor int64) (int64, int64, error) {
 	return length, end, nil
 }
 
+// limitLength limit the declared element count to the max count of elements the remaining input may contain,
+// so it's safe to pre-allocate memory with it. A element takes at least 6 bytes, for example `i:0;N;`.
+func limitLength(length int64, buf []byte, cursor int64) int64 {
+	return min(length, (int64(len(buf))-cursor)/6)
+}
+
 // :${length}:
 func readLengthInt(buf []byte, cursor int64) (int, int64, error) {
 	end, err := skipLengthWithBothColon(buf, cursor)
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 4ed420a..86e3c2e 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, int(l)))
+		rv.Set(reflect.MakeMapWithSize(d.mapType, int(limitLength(l, buf, cursor))))
 	}
 
 	cursor++
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index d3a3cbb..d87071a 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -1,12 +1,16 @@
 package decoder
 
 import (
+	"math"
 	"reflect"
 	"unsafe"
 
 	"github.com/trim21/go-phpserialize/internal/errors"
 )
 
+// a slice using more bytes can't be allocated, `reflect.MakeSlice` will panic.
+const maxSliceBytes = min(math.MaxInt, 1<<47)
+
 type sliceDecoder struct {
 	stype             reflect.Type // type of slice
 	elemType          reflect.Type // type of element
@@ -102,7 +106,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		slice := reflect.MakeSlice(d.stype, 0, arrLen)
+		slice := reflect.MakeSlice(d.stype, 0, int(limitLength(int64(arrLen), buf, cursor)))
 
 		for {
 			if !hasByte(buf, cursor) {
@@ -119,9 +123,16 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 			}
 
 			if currentIndex >= slice.Len() {
-				newSlice := reflect.MakeSlice(d.stype, currentIndex+1, currentIndex+1)
-				reflect.Copy(newSlice, slice)
-				slice = newSlice
+				if uint64(currentIndex) >= maxSliceBytes/max(uint64(d.size), 1) {
+					return 0, errors.ErrOverflow(currentIndex, "slice index")
+				}
+				if currentIndex < slice.Cap() {
+					slice = slice.Slice(0, currentIndex+1)
+				} else {
+					newSlice := reflect.MakeSlice(d.stype, currentIndex+1, max(currentIndex+1, 2*slice.Cap()))
+					reflect.Copy(newSlice, slice)
+					slice = newSlice
+				}
 			}
 
 			c, err := d.valueDecoder.Decode(ctx, cursor, depth, slice.Index(currentIndex))
-- 
2.43.0


From 27001c6b162d53c09e61db01276f7b1faeac1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 05/20] fix: stack overflow when compiling recursive slice,
 map, array and pointer types

---
 internal/decoder/compile.go | 31 ++++++++++++++++++++++++++-----
 internal/encoder/array.go   | 29 ++++++++++++++---------------
 internal/encoder/compile.go |  2 +-
 3 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/internal/decoder/compile.go b/internal/decoder/compile.go
index 019de3a..a76baff 100644
--- a/internal/decoder/compile.go
+++ b/internal/decoder/compile.go
@@ -162,6 +162,10 @@ func compileMapKey(typ reflect.Type, structName, fieldName string, structTypeToD
 }
 
 func compilePtr(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if typ.Elem().Kind() == reflect.Ptr {
+		// nested ptr is not supported, don't compile it, it may be a recursive type like `type P *P`
+		return newPtrDecoder(nil, typ.Elem(), structName, fieldName)
+	}
 	dec, err := compile(typ.Elem(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
@@ -230,24 +234,41 @@ func compileBytes(typ reflect.Type, structName, fieldName string) (Decoder, erro
 }
 
 func compileSlice(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
+	sliceDec := newSliceDecoder(nil, elem, elem.Size(), structName, fieldName)
+	structTypeToDecoder[typ] = sliceDec
 	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newSliceDecoder(decoder, elem, elem.Size(), structName, fieldName), nil
+	sliceDec.valueDecoder = decoder
+	return sliceDec, nil
 }
 
 func compileArray(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
 	elem := typ.Elem()
+	arrayDec := newArrayDecoder(nil, elem, typ.Len(), structName, fieldName)
+	structTypeToDecoder[typ] = arrayDec
 	decoder, err := compile(elem, structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
 	}
-	return newArrayDecoder(decoder, elem, typ.Len(), structName, fieldName), nil
+	arrayDec.valueDecoder = decoder
+	return arrayDec, nil
 }
 
 func compileMap(typ reflect.Type, structName, fieldName string, structTypeToDecoder map[reflect.Type]Decoder) (Decoder, error) {
+	if dec, exists := structTypeToDecoder[typ]; exists {
+		return dec, nil
+	}
+	mapDec := newMapDecoder(typ, typ.Key(), nil, typ.Elem(), nil, structName, fieldName)
+	structTypeToDecoder[typ] = mapDec
 	keyDec, err := compileMapKey(typ.Key(), structName, fieldName, structTypeToDecoder)
 	if err != nil {
 		return nil, err
@@ -256,7 +277,9 @@ func compileMap(typ reflect.Type, structName, fieldName string, structTypeToDeco
 	if err != nil {
 		return nil, err
 	}
-	return newMapDecoder(typ, typ.Key(), keyDec, typ.Elem(), valueDec, structName, fieldName), nil
+	mapDec.keyDecoder = keyDec
+	mapDec.valueDecoder = valueDec
+	return mapDec, nil
 }
 
 func compileInterface(typ reflect.Type, structName, fieldName string) (Decoder, error) {
@@ -325,7 +348,5 @@ func compileStruct(rt reflect.Type, structName, fieldName string, structTypeToDe
 		structDec.fieldMap[set.key] = set
 	}
 
-	delete(structTypeToDecoder, rt)
-
 	return structDec, nil
 }
diff --git a/internal/encoder/array.go b/internal/encoder/array.go
index 32ca216..9cc1feb 100644
--- a/internal/encoder/array.go
+++ b/internal/encoder/array.go
@@ -4,25 +4,22 @@ import (
 	"reflect"
 )
 
-func compileArray(rt reflect.Type) (encoder, error) {
+func compileArray(rt reflect.Type, seen compileSeenMap) (encoder, error) {
+	if recursiveEnc, exists := seen[rt]; exists {
+		return recursiveEnc.Encode, nil
+	}
+	recursiveEnc := &structRecEncoder{}
+	seen[rt] = recursiveEnc
+
 	length := rt.Len()
 	i64 := int64(length)
-	var enc encoder
-	var err error
 
-	if rt.Elem().Kind() == reflect.Map {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		enc, err = compileWithCache(rt.Elem())
-		if err != nil {
-			return nil, err
-		}
+	enc, err := compile(rt.Elem(), seen)
+	if err != nil {
+		return nil, err
 	}
 
-	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+	recursiveEnc.enc = func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		b = appendArrayBegin(b, i64)
 
 		var err error // create a new error value, so shadow compiler's error
@@ -35,5 +32,7 @@ func compileArray(rt reflect.Type) (encoder, error) {
 		}
 
 		return append(b, '}'), nil
-	}, nil
+	}
+
+	return recursiveEnc.Encode, nil
 }
diff --git a/internal/encoder/compile.go b/internal/encoder/compile.go
index 39f32d6..c5030c2 100644
--- a/internal/encoder/compile.go
+++ b/internal/encoder/compile.go
@@ -36,7 +36,7 @@ func compile(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Struct:
 		return compileStruct(rt, seen)
 	case reflect.Array:
-		return compileArray(rt)
+		return compileArray(rt, seen)
 	case reflect.Slice:
 		return compileSlice(rt, seen)
 	case reflect.Map:
-- 
2.43.0


From df78db141eba6bb554ca6f8817f51c38dbc96ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 06/20] fix: detect all cyclic values when encoding, don't
 report shared values as recursive

---
 internal/encoder/context.go       | 21 ++++++++-
 internal/encoder/interface.go     | 46 +++++++++----------
 internal/encoder/ptr.go           | 76 ++++++++++++++-----------------
 internal/encoder/slice_reflect.go |  5 --
 internal/encoder/struct.go        |  5 +-
 5 files changed, 79 insertions(+), 74 deletions(-)

diff --git a/internal/encoder/context.go b/internal/encoder/context.go
index 70f7717..87b7b8b 100644
--- a/internal/encoder/context.go
+++ b/internal/encoder/context.go
@@ -1,6 +1,7 @@
 package encoder
 
 import (
+	"reflect"
 	"sync"
 	"unsafe"
 )
@@ -10,17 +11,33 @@ var ctxPool = sync.Pool{
 		return &Ctx{
 			Buf:         make([]byte, 0, 1024),
 			smallBuffer: make([]byte, 0, 20),
-			Seen:        make(map[unsafe.Pointer]empty, 100),
+			Seen:        make(map[seenKey]empty, 100),
 		}
 	},
 }
 
 type empty struct{}
 
+// seenKey identify a value being encoded. A address alone is not enough, for example,
+// a struct and its first field, or a slice and its first sub slice have same address.
+type seenKey struct {
+	ptr unsafe.Pointer
+	typ reflect.Type
+	len int
+}
+
+func newSeenKey(rv reflect.Value) seenKey {
+	key := seenKey{ptr: rv.UnsafePointer(), typ: rv.Type()}
+	if rv.Kind() == reflect.Slice {
+		key.len = rv.Len()
+	}
+	return key
+}
+
 type Ctx struct {
 	smallBuffer []byte // a small buffer to encode float and time.Time as string
 	Buf         []byte
-	Seen        map[unsafe.Pointer]empty
+	Seen        map[seenKey]empty
 	StackDepth  uint
 }
 
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 65c919f..672b945 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -14,17 +14,14 @@ func compileInterface(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-LOOP:
-	for {
-		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
-				return appendNull(b), nil
-			}
-			rv = rv.Elem()
-		default:
-			break LOOP
+	switch rv.Kind() {
+	case reflect.Interface:
+		if rv.IsNil() {
+			return appendNull(b), nil
 		}
+		return reflectInterfaceValue(ctx, b, rv.Elem())
+	case reflect.Ptr:
+		return encodePtrCheckRecursive(ctx, b, rv, reflectInterfaceValue)
 	}
 
 	// simple type
@@ -45,6 +42,10 @@ LOOP:
 
 	switch rv.Kind() {
 	case reflect.Slice:
+		if rv.Type().Elem().Kind() != reflect.Interface {
+			// compiled encoder will check recursion
+			return reflectConcreteSlice(ctx, b, rv)
+		}
 		return reflectRecursiveValue(ctx, b, rv, reflectSlice)
 	case reflect.Map:
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
@@ -56,13 +57,13 @@ LOOP:
 }
 
 func reflectRecursiveValue(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
-	ptr := rv.UnsafePointer()
-	if _, seen := ctx.Seen[ptr]; seen {
+	key := newSeenKey(rv)
+	if _, seen := ctx.Seen[key]; seen {
 		return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
 	}
-	ctx.Seen[ptr] = empty{}
+	ctx.Seen[key] = empty{}
 	b, err := enc(ctx, b, rv)
-	delete(ctx.Seen, ptr)
+	delete(ctx.Seen, key)
 	return b, err
 }
 
@@ -73,17 +74,14 @@ func compileInterfaceAsString(rt reflect.Type) (encoder, error) {
 }
 
 func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-LOOP:
-	for {
-		switch rv.Kind() {
-		case reflect.Ptr, reflect.Interface:
-			if rv.IsNil() || rv.IsZero() {
-				return appendNull(b), nil
-			}
-			rv = rv.Elem()
-		default:
-			break LOOP
+	switch rv.Kind() {
+	case reflect.Interface:
+		if rv.IsNil() {
+			return appendNull(b), nil
 		}
+		return reflectInterfaceValueAsString(ctx, b, rv.Elem())
+	case reflect.Ptr:
+		return encodePtrCheckRecursive(ctx, b, rv, reflectInterfaceValueAsString)
 	}
 
 	switch value := rv.Interface().(type) {
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index aed0db2..1790705 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -26,9 +26,12 @@ func compilePtr(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	case reflect.Map:
 		enc, err := compileMap(rt.Elem(), seen)
 		return deRefNilEncoder(enc), err
+	case reflect.Array:
+		enc, err := compile(rt.Elem(), seen)
+		return checkPtrRecursiveEncoder(enc), err
 	case reflect.Struct:
 		enc, err := compileStruct(rt.Elem(), seen)
-		return checkStructRecursiveEncoder(enc), err
+		return checkPtrRecursiveEncoder(enc), err
 	}
 
 	enc, err := compile(rt.Elem(), seen)
@@ -49,32 +52,18 @@ func deRefNilEncoder(enc encoder) encoder {
 	}
 }
 
-func checkStructRecursiveEncoder(enc encoder) encoder {
+func checkPtrRecursiveEncoder(enc encoder) encoder {
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
-		if rv.IsNil() {
-			return appendNull(b), nil
-		}
-
-		ctx.StackDepth++
-		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
-		if tracked {
-			_, seen := ctx.Seen[ptr]
-			if seen {
-				ctx.StackDepth--
-				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
-			}
-			ctx.Seen[ptr] = empty{}
-		}
-
-		b, err := enc(ctx, b, rv.Elem())
-		if tracked {
-			delete(ctx.Seen, ptr)
-		}
-		ctx.StackDepth--
+		return encodePtrCheckRecursive(ctx, b, rv, enc)
+	}
+}
 
-		return b, err
+func encodePtrCheckRecursive(ctx *Ctx, b []byte, rv reflect.Value, enc encoder) ([]byte, error) {
+	if rv.IsNil() {
+		return appendNull(b), nil
 	}
+
+	return encodeCheckRecursive(ctx, b, rv, rv.Elem(), enc)
 }
 
 func checkRecursiveEncoder(enc encoder) encoder {
@@ -83,25 +72,30 @@ func checkRecursiveEncoder(enc encoder) encoder {
 			return appendNull(b), nil
 		}
 
-		ctx.StackDepth++
-		tracked := ctx.StackDepth > 1000
-		ptr := rv.UnsafePointer()
-		if tracked {
-			_, seen := ctx.Seen[ptr]
-			if seen {
-				ctx.StackDepth--
-				return b, fmt.Errorf("php: try to encode recursive value of type %s", rv.Type())
-			}
-
-			ctx.Seen[ptr] = empty{}
-		}
+		return encodeCheckRecursive(ctx, b, rv, rv, enc)
+	}
+}
 
-		b, err := enc(ctx, b, rv)
-		if tracked {
-			delete(ctx.Seen, ptr)
+// encodeCheckRecursive encode target, which is ref or the value ref point to.
+func encodeCheckRecursive(ctx *Ctx, b []byte, ref, target reflect.Value, enc encoder) ([]byte, error) {
+	ctx.StackDepth++
+	tracked := ctx.StackDepth > 1000
+	var key seenKey
+	if tracked {
+		key = newSeenKey(ref)
+		_, seen := ctx.Seen[key]
+		if seen {
+			ctx.StackDepth--
+			return b, fmt.Errorf("php: try to encode recursive value of type %s", ref.Type())
 		}
-		ctx.StackDepth--
+		ctx.Seen[key] = empty{}
+	}
 
-		return b, err
+	b, err := enc(ctx, b, target)
+	if tracked {
+		delete(ctx.Seen, key)
 	}
+	ctx.StackDepth--
+
+	return b, err
 }
diff --git a/internal/encoder/slice_reflect.go b/internal/encoder/slice_reflect.go
index 83cd596..2211336 100644
--- a/internal/encoder/slice_reflect.go
+++ b/internal/encoder/slice_reflect.go
@@ -7,11 +7,6 @@ import (
 func reflectSlice(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 	rt := rv.Type()
 
-	// not slice of interface, fast path
-	if rt.Elem().Kind() != reflect.Interface {
-		return reflectConcreteSlice(ctx, b, rv)
-	}
-
 	if rv.IsNil() {
 		return appendNull(b), nil
 	}
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 873da8b..c92b78a 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -143,8 +143,9 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		} else {
 			if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
-				if err == nil && field.Type.Elem().Kind() == reflect.Struct {
-					fieldEncoder = checkStructRecursiveEncoder(fieldEncoder)
+				switch field.Type.Elem().Kind() {
+				case reflect.Struct, reflect.Array, reflect.Interface:
+					fieldEncoder = checkPtrRecursiveEncoder(fieldEncoder)
 					isPtrField = false
 				}
 			} else {
-- 
2.43.0


From 36c2d5a63024496af53697a104097286c764fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:16 +0000
Subject: [PATCH 07/20] fix: call Marshaler of pointer fields and values in
 interface, encode nil Marshaler as null

---
 internal/encoder/interface.go   | 14 ++++++++++++++
 internal/encoder/marshal_php.go |  7 +++++++
 internal/encoder/ptr.go         | 10 ++++++++++
 internal/encoder/struct.go      |  6 +++++-
 4 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 672b945..ccfe2f4 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -21,6 +21,20 @@ func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error)
 		}
 		return reflectInterfaceValue(ctx, b, rv.Elem())
 	case reflect.Ptr:
+		if rv.IsNil() {
+			return appendNull(b), nil
+		}
+	}
+
+	if rv.Type().Implements(marshalerType) {
+		enc, err := compileMarshaler(rv.Type())
+		if err != nil {
+			return nil, err
+		}
+		return enc(ctx, b, rv)
+	}
+
+	if rv.Kind() == reflect.Ptr {
 		return encodePtrCheckRecursive(ctx, b, rv, reflectInterfaceValue)
 	}
 
diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 8fff89a..8a476f8 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -11,7 +11,14 @@ type Marshaler interface {
 }
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
+	// calling method on a nil interface, or value method on a nil pointer will panic
+	nilAsNull := rt.Kind() == reflect.Interface || (rt.Kind() == reflect.Ptr && rt.Elem().Implements(marshalerType))
+
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+		if nilAsNull && rv.IsNil() {
+			return appendNull(b), nil
+		}
+
 		raw, err := rv.Interface().(Marshaler).MarshalPHP()
 		if err != nil {
 			return nil, err
diff --git a/internal/encoder/ptr.go b/internal/encoder/ptr.go
index 1790705..66294a2 100644
--- a/internal/encoder/ptr.go
+++ b/internal/encoder/ptr.go
@@ -42,6 +42,16 @@ func compilePtr(rt reflect.Type, seen compileSeenMap) (encoder, error) {
 	return deRefNilEncoder(enc), nil
 }
 
+func nilAsNullEncoder(enc encoder) encoder {
+	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
+		if rv.IsNil() {
+			return appendNull(b), nil
+		}
+
+		return enc(ctx, b, rv)
+	}
+}
+
 func deRefNilEncoder(enc encoder) encoder {
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		if rv.IsNil() {
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index c92b78a..7bb7ace 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -141,7 +141,11 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 				fieldEncoder, err = compileAsString(field.Type)
 			}
 		} else {
-			if field.Type.Kind() == reflect.Ptr {
+			if isPtrField && field.Type.Implements(marshalerType) {
+				fieldEncoder, err = compileMarshaler(field.Type)
+				fieldEncoder = nilAsNullEncoder(fieldEncoder)
+				isPtrField = false
+			} else if field.Type.Kind() == reflect.Ptr {
 				fieldEncoder, err = compile(field.Type.Elem(), seen)
 				switch field.Type.Elem().Kind() {
 				case reflect.Struct, reflect.Array, reflect.Interface:
-- 
2.43.0


From c25aa7434b287cf4940322ba82ba855918b55718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 08/20] fix: encode array in interface

---
 internal/encoder/interface.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index ccfe2f4..12a83bf 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -65,6 +65,12 @@ func reflectInterfaceValue(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error)
 		return reflectRecursiveValue(ctx, b, rv, reflectMap)
 	case reflect.Struct:
 		return reflectStruct(ctx, b, rv)
+	case reflect.Array:
+		enc, err := compileWithCache(rv.Type())
+		if err != nil {
+			return nil, err
+		}
+		return enc(ctx, b, rv)
 	}
 
 	return b, &UnsupportedInterfaceTypeError{rv.Type()}
-- 
2.43.0


From 656612116acb6fb5d4e9ef56c90823dfa5508423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 09/20] fix: string option on string fields and on named
 scalars in interface

---
 internal/decoder/wrapped_string.go |  3 +++
 internal/encoder/interface.go      | 40 ++++++++++--------------------
 2 files changed, 16 insertions(+), 27 deletions(-)

diff --git a/internal/decoder/wrapped_string.go b/internal/decoder/wrapped_string.go
index b467272..f3abcb7 100644
--- a/internal/decoder/wrapped_string.go
+++ b/internal/decoder/wrapped_string.go
@@ -31,6 +31,9 @@ func newWrappedStringDecoder(typ reflect.Type, dec Decoder, structName, fieldNam
 		innerDec = newStringUintDecoder(structName, fieldName, v)
 	case *intDecoder:
 		innerDec = newStringIntDecoder(structName, fieldName, v)
+	case *stringDecoder:
+		// string is encoded as string already
+		return dec, nil
 	case *ptrDecoder:
 		err := v.wrapString()
 		return dec, err
diff --git a/internal/encoder/interface.go b/internal/encoder/interface.go
index 12a83bf..4fc8bdd 100644
--- a/internal/encoder/interface.go
+++ b/internal/encoder/interface.go
@@ -104,33 +104,19 @@ func reflectInterfaceValueAsString(ctx *Ctx, b []byte, rv reflect.Value) ([]byte
 		return encodePtrCheckRecursive(ctx, b, rv, reflectInterfaceValueAsString)
 	}
 
-	switch value := rv.Interface().(type) {
-	case bool:
-		return appendBoolAsString(b, value)
-	case uint8:
-		return appendUintAsString(b, uint64(value))
-	case uint16:
-		return appendUintAsString(b, uint64(value))
-	case uint32:
-		return appendUintAsString(b, uint64(value))
-	case uint64:
-		return appendUintAsString(b, uint64(value))
-	case uint:
-		return appendUintAsString(b, uint64(value))
-	case int8:
-		return appendIntAsString(b, int64(value))
-	case int16:
-		return appendIntAsString(b, int64(value))
-	case int32:
-		return appendIntAsString(b, int64(value))
-	case int64:
-		return appendIntAsString(b, int64(value))
-	case int:
-		return appendIntAsString(b, int64(value))
-	case float32:
-		return appendFloat32AsString(ctx.smallBuffer[:0], b, value), nil
-	case float64:
-		return appendFloat64AsString(ctx.smallBuffer[:0], b, value), nil
+	switch rv.Kind() {
+	case reflect.Bool:
+		return appendBoolAsString(b, rv.Bool())
+	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
+		return appendUintAsString(b, rv.Uint())
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
+		return appendIntAsString(b, rv.Int())
+	case reflect.Float32:
+		return encodeFloat32AsString(ctx, b, rv)
+	case reflect.Float64:
+		return encodeFloat64AsString(ctx, b, rv)
+	case reflect.String:
+		return encodeString(ctx, b, rv)
 	}
 
 	// slice, map and struct as interface are not supported yet.
-- 
2.43.0


From 2c122a1bc78cdd1cee7534f857ac500c1c8c6d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 10/20] fix: only ignore fields with tag "-" when encoding,
 same as decoding

---
 internal/encoder/struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 7bb7ace..1b025ed 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -112,10 +112,10 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 
 	for i := 0; i < rt.NumField(); i++ {
 		field := rt.Field(i)
-		cfg := runtime.StructTagFromField(field)
-		if cfg.Key == "-" || !cfg.Field.IsExported() {
+		if runtime.IsIgnoredStructField(field) {
 			continue
 		}
+		cfg := runtime.StructTagFromField(field)
 
 		var fieldEncoder encoder
 		var err error
-- 
2.43.0


From 07243d88097a704f454bb5f3050965a6b038fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:49 +0000
Subject: [PATCH 11/20] fix: don't share memory of input buffer between decoded
 byte slices, reset byte slice on null

---
 internal/decoder/bytes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/decoder/bytes.go b/internal/decoder/bytes.go
index 3aa3b4e..5f3e6e2 100644
--- a/internal/decoder/bytes.go
+++ b/internal/decoder/bytes.go
@@ -41,10 +41,14 @@ func (d *bytesDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, err
 	}
 	if bytes == nil {
+		if ctx.Buf[cursor] == 'N' {
+			rv.SetZero()
+		}
 		return c, nil
 	}
 	cursor = c
-	rv.SetBytes(bytes)
+	// bytes is part of the input buffer, don't share it with others values or UnmarshalPHP
+	rv.SetBytes(append(make([]byte, 0, len(bytes)), bytes...))
 	return cursor, nil
 }
 
-- 
2.43.0


From 002a2db9dd07050858e314cffd839d9a4d2a0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 12/20] fix: appending to bytes passed to UnmarshalPHP
 overwrite following data

---
 internal/decoder/interface.go     | 3 ++-
 internal/decoder/unmarshal_php.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/decoder/interface.go b/internal/decoder/interface.go
index 61e21ed..e7737df 100644
--- a/internal/decoder/interface.go
+++ b/internal/decoder/interface.go
@@ -107,7 +107,8 @@ func decodePHPUnmarshaler(buf []byte, cursor, depth int64, unmarshaler Unmarshal
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	// limit capacity, so `append` in UnmarshalPHP will not overwrite following data
+	src := buf[start:end:end]
 	if bytes.Equal(src, nullbytes) {
 		rv.SetZero()
 		return end, nil
diff --git a/internal/decoder/unmarshal_php.go b/internal/decoder/unmarshal_php.go
index f276c9a..03b1639 100644
--- a/internal/decoder/unmarshal_php.go
+++ b/internal/decoder/unmarshal_php.go
@@ -49,7 +49,8 @@ func (d *unmarshalPHPDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, r
 	if err != nil {
 		return 0, err
 	}
-	src := buf[start:end]
+	// limit capacity, so `append` in UnmarshalPHP will not overwrite following data
+	src := buf[start:end:end]
 	if len(src) > 0 {
 		switch src[0] {
 		case '[':
-- 
2.43.0


From eef83e160a8758131fc5b68064cff208b326f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 13/20] fix: reject embedded pointer to struct when encoding

---
 internal/encoder/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index 1b025ed..f0d915a 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -129,7 +129,7 @@ func compileStructFieldsEncoders(rt reflect.Type, seen compileSeenMap) ([]struct
 		}
 
 		if field.Anonymous {
-			if field.Type.Kind() == reflect.Struct || (field.Type.Kind() == reflect.Ptr && field.Type.Kind() == reflect.Struct) {
+			if field.Type.Kind() == reflect.Struct || (field.Type.Kind() == reflect.Ptr && field.Type.Elem().Kind() == reflect.Struct) {
 				return nil, fmt.Errorf("supported for Anonymous struct field has been removed: %s", field.Type.String())
 			}
 		}
-- 
2.43.0


From 28275544a9032adcccefe17fb956918d7803fae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 14/20] fix: encoding nested struct takes quadratic memory

---
 internal/encoder/buffer.go | 22 ----------------------
 internal/encoder/struct.go | 24 +++++++++++-------------
 2 files changed, 11 insertions(+), 35 deletions(-)
 delete mode 100644 internal/encoder/buffer.go

diff --git a/internal/encoder/buffer.go b/internal/encoder/buffer.go
deleted file mode 100644
index d9d8b02..0000000
--- a/internal/encoder/buffer.go
+++ /dev/null
@@ -1,22 +0,0 @@
-package encoder
-
-import "sync"
-
-type buffer struct {
-	b []byte
-}
-
-var bufferPool = sync.Pool{New: func() any {
-	return &buffer{b: make([]byte, 0, 1024)}
-}}
-
-func newBuffer() *buffer {
-	buf := bufferPool.Get().(*buffer)
-	buf.b = buf.b[:0]
-
-	return buf
-}
-
-func freeBuffer(buf *buffer) {
-	bufferPool.Put(buf)
-}
diff --git a/internal/encoder/struct.go b/internal/encoder/struct.go
index f0d915a..0ad1aa3 100644
--- a/internal/encoder/struct.go
+++ b/internal/encoder/struct.go
@@ -64,11 +64,15 @@ func compileStructFields(rt reflect.Type, seen compileSeenMap) (encoder, error)
 		// shadow compiler's error
 		var err error
 
-		buf := newBuffer()
-		defer freeBuffer(buf)
-		structBuffer := buf.b
+		// write fields to b directly, use a temp buffer for each nested struct will use quadratic memory
+		writtenField := int64(len(fields))
+		for _, field := range fields {
+			if field.omitEmpty && rv.Field(field.index).IsZero() {
+				writtenField--
+			}
+		}
 
-		var writtenField int64
+		b = appendArrayBegin(b, writtenField)
 
 	FIELD:
 		for _, field := range fields {
@@ -80,29 +84,23 @@ func compileStructFields(rt reflect.Type, seen compileSeenMap) (encoder, error)
 				}
 			}
 
-			writtenField++
-
-			structBuffer = appendPhpStringVariable(ctx, structBuffer, field.fieldName)
+			b = appendPhpStringVariable(ctx, b, field.fieldName)
 
 			if field.ptr {
 				if v.IsNil() {
-					structBuffer = appendNull(structBuffer)
+					b = appendNull(b)
 					continue FIELD
 				}
 
 				v = v.Elem()
 			}
 
-			structBuffer, err = field.encode(ctx, structBuffer, v)
+			b, err = field.encode(ctx, b, v)
 			if err != nil {
 				return b, err
 			}
 		}
 
-		b = appendArrayBegin(b, writtenField)
-		b = append(b, structBuffer...)
-		buf.b = structBuffer
-
 		return append(b, '}'), nil
 	}, nil
 }
-- 
2.43.0


From 16d850eb6bb4237b89939bec6b273ef44b8d215b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 15/20] fix: reject bool as array key when decoding into map
 with bool or Unmarshaler keys

---
 internal/decoder/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 86e3c2e..6ddd38b 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -91,7 +91,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		if !hasByte(buf, cursor) {
 			return cursor, errors.ErrUnexpectedEnd("map", cursor)
 		}
-		if buf[cursor] == 'N' {
+		if buf[cursor] != 'i' && buf[cursor] != 's' {
 			return cursor, errors.ErrUnexpected("map key", cursor, buf[cursor])
 		}
 		k := reflect.New(d.keyType)
-- 
2.43.0


From 3488c31b3cc02db04364d1401d26d96117836475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 16/20] fix: decoding math.MaxFloat32 into float32 reported
 overflow

---
 internal/decoder/float.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/decoder/float.go b/internal/decoder/float.go
index 27a6a12..8c9892c 100644
--- a/internal/decoder/float.go
+++ b/internal/decoder/float.go
@@ -1,6 +1,7 @@
 package decoder
 
 import (
+	stderrors "errors"
 	"math"
 	"reflect"
 	"strconv"
@@ -60,16 +61,17 @@ func (d *floatDecoder) processBytes(bytes []byte, cursor int64, rv reflect.Value
 	case "NAN":
 		f64 = math.NaN()
 	default:
-		f64, err = strconv.ParseFloat(unsafeStr(bytes), 64)
+		// round only once: the shortest decimal text of a float32, for example
+		// math.MaxFloat32, is not the same number when parsed as float64.
+		f64, err = strconv.ParseFloat(unsafeStr(bytes), rv.Type().Bits())
 	}
 	if err != nil {
+		if stderrors.Is(err, strconv.ErrRange) && rv.Kind() == reflect.Float32 {
+			return 0, errors.ErrOverflow(string(bytes), rv.Kind().String())
+		}
 		return 0, errors.ErrSyntax(err.Error(), cursor)
 	}
 
-	if rv.OverflowFloat(f64) {
-		return 0, errors.ErrOverflow(f64, rv.Type().Kind().String())
-	}
-
 	rv.SetFloat(f64)
 
 	return cursor, nil
-- 
2.43.0


From daaf0769a0605aa5a50f6413210b2d0006f5d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 17/20] fix: null as value of the innermost container counted
 as nested container

---
 internal/decoder/array.go  | 2 +-
 internal/decoder/map.go    | 2 +-
 internal/decoder/slice.go  | 2 +-
 internal/decoder/struct.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/array.go b/internal/decoder/array.go
index f4047ba..cb6de43 100644
--- a/internal/decoder/array.go
+++ b/internal/decoder/array.go
@@ -35,7 +35,7 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, errors.ErrUnexpectedEnd("array", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 6ddd38b..5733f7c 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -34,7 +34,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 		return 0, errors.ErrUnexpectedEnd("map", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index d87071a..3e187da 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -58,7 +58,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		return 0, errors.ErrUnexpectedEnd("slice", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 
diff --git a/internal/decoder/struct.go b/internal/decoder/struct.go
index 9bc0911..b5696ee 100644
--- a/internal/decoder/struct.go
+++ b/internal/decoder/struct.go
@@ -56,7 +56,7 @@ func (d *structDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refl
 		return 0, errors.ErrUnexpectedEnd("object", cursor)
 	}
 	depth++
-	if depth > maxDecodeNestingDepth {
+	if depth > maxDecodeNestingDepth && buf[cursor] != 'N' {
 		return 0, errors.ErrExceededMaxDepth(buf[cursor], cursor)
 	}
 	switch buf[cursor] {
-- 
2.43.0


From 67a8f9d1ea220f00173291dc6943abd75df8984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 18/20] fix: nil pointer with value method in Marshaler
 interface panic, encode it as null

---
 internal/encoder/marshal_php.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/encoder/marshal_php.go b/internal/encoder/marshal_php.go
index 8a476f8..0051f88 100644
--- a/internal/encoder/marshal_php.go
+++ b/internal/encoder/marshal_php.go
@@ -12,13 +12,18 @@ type Marshaler interface {
 
 func compileMarshaler(rt reflect.Type) (encoder, error) {
 	// calling method on a nil interface, or value method on a nil pointer will panic
-	nilAsNull := rt.Kind() == reflect.Interface || (rt.Kind() == reflect.Ptr && rt.Elem().Implements(marshalerType))
+	isInterface := rt.Kind() == reflect.Interface
+	nilAsNull := isInterface || isValueMethodPtr(rt)
 
 	return func(ctx *Ctx, b []byte, rv reflect.Value) ([]byte, error) {
 		if nilAsNull && rv.IsNil() {
 			return appendNull(b), nil
 		}
 
+		if isInterface && isValueMethodPtr(rv.Elem().Type()) && rv.Elem().IsNil() {
+			return appendNull(b), nil
+		}
+
 		raw, err := rv.Interface().(Marshaler).MarshalPHP()
 		if err != nil {
 			return nil, err
@@ -27,3 +32,8 @@ func compileMarshaler(rt reflect.Type) (encoder, error) {
 		return append(b, raw...), nil
 	}, nil
 }
+
+// isValueMethodPtr reports whether rt is a pointer to a type which implements Marshaler by itself.
+func isValueMethodPtr(rt reflect.Type) bool {
+	return rt.Kind() == reflect.Ptr && rt.Elem().Implements(marshalerType)
+}
-- 
2.43.0


From fd88c95568a31152bd43398fe8b7fa36a24ed87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:25 +0000
Subject: [PATCH 19/20] fix: bound preallocation from declared element counts
 over the whole input

Every nested container allocated for its own declared count, limited only by
the remaining input, so a 170 kB document with 9999 nested arrays declaring a
huge count allocated 8 GB. Share one budget between all containers of a call.
---
 internal/decoder/context.go | 11 +++++++++--
 internal/decoder/map.go     |  2 +-
 internal/decoder/slice.go   |  2 +-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/context.go b/internal/decoder/context.go
index 3eb3bf3..a2c823a 100644
--- a/internal/decoder/context.go
+++ b/internal/decoder/context.go
@@ -11,6 +11,8 @@ type RuntimeContext struct {
 	Buf          []byte
 	MaxMapSize   uint
 	MaxSliceSize uint
+
+	preallocated int64 // elements allocated from declared element count, see limitLength
 }
 
 var (
@@ -29,6 +31,7 @@ func ReleaseRuntimeContext(ctx *RuntimeContext) {
 	ctx.Buf = nil
 	ctx.MaxSliceSize = 0
 	ctx.MaxMapSize = 0
+	ctx.preallocated = 0
 	runtimeContextPool.Put(ctx)
 }
 
@@ -251,8 +254,12 @@ func readLength(buf []byte, cursor int64) (int64, int64, error) {
 
 // limitLength limit the declared element count to the max count of elements the remaining input may contain,
 // so it's safe to pre-allocate memory with it. A element takes at least 6 bytes, for example `i:0;N;`.
-func limitLength(length int64, buf []byte, cursor int64) int64 {
-	return min(length, (int64(len(buf))-cursor)/6)
+// Nested containers share the same input, so the sum of all containers is limited too.
+func (ctx *RuntimeContext) limitLength(length int64, cursor int64) int64 {
+	size := int64(len(ctx.Buf))
+	n := max(0, min(length, (size-cursor)/6, size/6-ctx.preallocated))
+	ctx.preallocated += n
+	return n
 }
 
 // :${length}:
diff --git a/internal/decoder/map.go b/internal/decoder/map.go
index 5733f7c..ad22903 100644
--- a/internal/decoder/map.go
+++ b/internal/decoder/map.go
@@ -75,7 +75,7 @@ func (d *mapDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv reflect
 	}
 
 	if rv.IsNil() {
-		rv.Set(reflect.MakeMapWithSize(d.mapType, int(limitLength(l, buf, cursor))))
+		rv.Set(reflect.MakeMapWithSize(d.mapType, int(ctx.limitLength(l, cursor))))
 	}
 
 	cursor++
diff --git a/internal/decoder/slice.go b/internal/decoder/slice.go
index 3e187da..b67c1fe 100644
--- a/internal/decoder/slice.go
+++ b/internal/decoder/slice.go
@@ -106,7 +106,7 @@ func (d *sliceDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 		}
 		cursor++
 
-		slice := reflect.MakeSlice(d.stype, 0, int(limitLength(int64(arrLen), buf, cursor)))
+		slice := reflect.MakeSlice(d.stype, 0, int(ctx.limitLength(int64(arrLen), cursor)))
 
 		for {
 			if !hasByte(buf, cursor) {
-- 
2.43.0


From f57f83cbb023d20a5ec028fa1f0ca26a5c231ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:52 +0000
Subject: [PATCH 20/20] fix: array index out of the range of int failed on
 32-bit platforms instead of being skipped

---
 internal/decoder/array.go |  4 ++--
 internal/decoder/int.go   | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/decoder/array.go b/internal/decoder/array.go
index cb6de43..bd9e065 100644
--- a/internal/decoder/array.go
+++ b/internal/decoder/array.go
@@ -88,12 +88,12 @@ func (d *arrayDecoder) Decode(ctx *RuntimeContext, cursor, depth int64, rv refle
 			if !hasByte(buf, cursor) {
 				return cursor, errors.ErrUnexpectedEnd("array", cursor)
 			}
-			currentIndex, end, err := readInt(buf, cursor)
+			currentIndex, end, err := readIndex(buf, cursor)
 			if err != nil {
 				return 0, err
 			}
 
-			idx = currentIndex
+			idx = int(min(currentIndex, int64(d.alen)))
 			cursor = end
 			if !hasByte(buf, cursor) {
 				return cursor, errors.ErrUnexpectedEnd("array value", cursor)
diff --git a/internal/decoder/int.go b/internal/decoder/int.go
index 17c903a..48df1db 100644
--- a/internal/decoder/int.go
+++ b/internal/decoder/int.go
@@ -150,14 +150,26 @@ func (d *intDecoder) processBytes(bytes []byte, cursor int64, rv reflect.Value)
 }
 
 func readInt(buf []byte, cursor int64) (int, int64, error) {
+	value64, end, err := readIndex(buf, cursor)
+	if err != nil {
+		return 0, cursor, err
+	}
+	if int64(int(value64)) != value64 {
+		return 0, cursor, errors.ErrSyntax("php-serialize: invalid array index", cursor+2)
+	}
+	return int(value64), end, nil
+}
+
+// index of a php array, it may not fit in int on 32-bit platforms.
+func readIndex(buf []byte, cursor int64) (int64, int64, error) {
 	start := cursor + 2
 	bytes, end, err := readIntegerBytes(buf, cursor)
 	if err != nil {
 		return 0, cursor, err
 	}
 	value64, err := parseInt64(bytes)
-	if err != nil || value64 < 0 || int64(int(value64)) != value64 {
+	if err != nil || value64 < 0 {
 		return 0, cursor, errors.ErrSyntax("php-serialize: invalid array index", start)
 	}
-	return int(value64), end, nil
+	return value64, end, nil
 }
-- 
2.43.0

