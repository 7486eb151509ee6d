package mon

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"strconv"
	"strings"
	"unsafe"

	php "github.com/trim21/go-phpserialize"

	"vmon/gen"
	"vmon/phpdoc"
	"vmon/ref"
)

func init() {
	register(&Monitor{
		ID: "C04", Quick: 90000, Thorough: 3600000, Chunk: 400,
		Rule: "hostile bytes (random, mutated documents, extreme lengths, counts and indexes, truncations) into any Go type (unsupported kinds, nested pointers, embedded structs, interfaces with methods, unsafe kinds) and bad arguments, long inputs and inputs 400000 containers deep with a small stack; every call must return, without panic, crash or hang (CPU watchdog); non-trivial: distinct (type, input)",
		Need: []string{"calls", "errors", "accepted", "bad_args", "odd_types", "extreme", "large", "abyss", "far_index"},
		Run:  runC04,
	})
	register(&Monitor{
		ID: "C13", NoGiant: true, Quick: 160000, Thorough: 4800000, Chunk: 500,
		Rule: "random object graphs over pointers, maps, slices, arrays behind pointers and interfaces with shared, overlapping and cyclic references, judged by an independent reachability search; deep chains; non-trivial: distinct graph shape",
		Need: []string{"cyclic", "acyclic", "shared", "overlap", "deep", "cycle_ptr", "cycle_map", "cycle_slice", "cycle_any", "tied_reused"},
		Run:  runC13,
		CPU:  60,
	})
	register(&Monitor{
		ID: "C18", NoGiant: true, Quick: 400000, Thorough: 12000000, Chunk: 200,
		Rule: "unsupported types at random encoded or decoded positions inside random supported structure, repeated 3 times; Marshal must return an error and nil bytes, Unmarshal an error whenever the reference stores there; non-trivial: distinct type",
		Need: []string{"enc_refused", "dec_refused", "enc_dynamic", "not_reached"},
		Run:  runC18,
	})
	register(&Monitor{
		ID: "C21", NoGiant: true, Quick: 15000, Thorough: 600000, Chunk: 20, Procs: 6,
		Rule: "TotalAlloc of single calls: hostile declared counts and lengths, dense lists, strings, maps and nested data of growing size, unknown data, Marshal of wide, deep and nested values; bound: fixed constant + K x (input + decoded or output size); non-trivial: distinct workload and size",
		Need: []string{"hostile", "decode_scaling", "encode_scaling"},
		Run:  runC21,
	})
	register(&Monitor{
		ID: "C22", NoGiant: true, Quick: 36000, Thorough: 1440000, Chunk: 60,
		Rule: "30 recursive and mutually recursive types (self slices, maps, arrays, generics, cross recursion) and random structs around them, in fresh processes so that each is compiled first by either direction; deep values round trip in full; pointer-only recursion refused; non-trivial: distinct (type, document)",
		Need: []string{"roundtrips", "refused_ptr", "deep", "decoded"},
		Run:  runC22,
	})
	register(&Monitor{
		ID: "C23", NoGiant: true, Quick: 3000, Thorough: 72000, Chunk: 8, CPU: 60,
		Rule: "documents nested 9998-10003, 20000 and up to 2 million deep of 9 container mixes, decoded, skipped or handed to an Unmarshaler, with the boundary crossing at every split; accepted exactly up to 10000; non-trivial: distinct (route, kind, depth, split)",
		Need: []string{"accepted", "refused", "route_any", "route_struct", "route_map", "route_slice", "route_array", "route_ptr", "route_skip", "route_oob", "route_unmarshaler", "route_walk", "route_walk_held", "huge"},
		Run:  runC23,
	})
}

// ---- C04 ---------------------------------------------------------------------

type oddEmb struct {
	gen.RList
	X int
}
type oddEmbPtr struct {
	*gen.RTree
	X int
}
type oddIface interface{ M() }
type oddImpl struct{ X int }

func (o *oddImpl) M() {}

type oddPtr *oddPtr
type oddPtrS struct{ P *oddPtr }

var oddTypes = []reflect.Type{
	reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(unsafe.Pointer(nil)), reflect.TypeOf((**int)(nil)), reflect.TypeOf((***string)(nil)), reflect.TypeOf(oddEmb{}), reflect.TypeOf(oddEmbPtr{}),
	reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf((*oddIface)(nil)).Elem(), reflect.TypeOf((*php.Unmarshaler)(nil)).Elem(), reflect.TypeOf((*php.Marshaler)(nil)).Elem(),
	reflect.TypeOf((oddPtr)(nil)), reflect.TypeOf(oddPtrS{}), reflect.TypeOf(reflect.Value{}), reflect.TypeOf(bytes.Buffer{}), reflect.TypeOf(runtime.MemStats{}),
	reflect.TypeOf([0]int{}), reflect.TypeOf([1 << 16]struct{}{}), reflect.TypeOf(struct{}{}), reflect.TypeOf([]struct{}{}), reflect.TypeOf(map[struct{ X int }]int{}), reflect.TypeOf(map[[2]int]string{}),
	reflect.TypeOf(map[any]any{}), reflect.TypeOf(map[any]int{}), reflect.TypeOf(map[*int]int{}), reflect.TypeOf(map[float64]int{}), reflect.TypeOf(map[bool]int{}), reflect.TypeOf(map[fmt.Stringer]int{}), reflect.TypeOf(map[error]string{}), reflect.TypeOf(map[chan int]int{}), reflect.TypeOf(map[uintptr]int{}), reflect.TypeOf(map[complex64]int{}), reflect.TypeOf(map[gen.NAny]any{}),
	reflect.TypeOf(RawU{}), reflect.TypeOf(map[RawU]int{}), reflect.TypeOf([]RawU{}), reflect.TypeOf([2]RawU{}), reflect.TypeOf(map[string]RawU{}), reflect.TypeOf([]func(){}), reflect.TypeOf(map[string]chan int{}),
	reflect.TypeOf(strings.Builder{}), reflect.TypeOf(reflect.StructField{}), reflect.TypeOf(map[string]oddIface{}), reflect.TypeOf([]error{}), reflect.TypeOf([3]any{}), reflect.TypeOf((*any)(nil)),
	reflect.TypeOf(struct {
		A int      `php:"a,string"`
		B chan int `php:"b,string"`
	}{}), reflect.TypeOf(struct {
		A []int `php:"a,string"`
	}{}), reflect.TypeOf(struct {
		A any `php:"a,string"`
	}{}), reflect.TypeOf(struct {
		A *[]int `php:"a,string"`
	}{}), reflect.TypeOf(struct {
		A **int `php:"a,string"`
	}{}), reflect.TypeOf(struct {
		A int `php:"x"`
		B int `php:"x"`
	}{}), reflect.TypeOf(struct {
		A RawU `php:"a,string"`
	}{}),
}

// wrapType puts t at a random position of a random supported type.
func wrapType(r gen.R, t reflect.Type, d int) reflect.Type {
	for ; d > 0; d-- {
		switch r.IntN(6) {
		case 0:
			t = reflect.SliceOf(t)
		case 1:
			t = reflect.ArrayOf(1+r.IntN(3), t)
		case 2:
			t = reflect.MapOf(gen.KeyType(r, gen.Opt{}), t)
		case 3:
			if t.Kind() != reflect.Pointer {
				t = reflect.PointerTo(t)
			}
		default:
			fs := []reflect.StructField{{Name: "A", Type: reflect.TypeOf(0)}, {Name: "B", Type: t}, {Name: "C", Type: reflect.TypeOf("")}}
			if r.IntN(3) == 0 {
				fs[1].Tag = `php:"b,omitempty"`
			}
			t = reflect.StructOf(fs)
		}
	}
	return t
}

var extremeNums = []string{"9223372036854775807", "9223372036854775806", "9223372036854775808", "18446744073709551615", "-1", "-9223372036854775808", "4294967296", "2147483647", "2147483648", "4294967295", "140737488355328", "1152921504606846976", "576460752303423488", "99999999999999999999999", "0", "00", "1"}

// extreme is a number with which sums and products overflow.
func extreme(r gen.R) string {
	if r.IntN(2) == 0 {
		return gen.Pick(r, extremeNums...)
	}
	k := uint64(r.IntN(gen.Pick(r, 4, 64, 4096)))
	base := gen.Pick[uint64](r, 1<<63, 1<<63, 1<<63, 1<<32, 1<<31, 1<<62, 1<<61, 1<<60, 1<<16, 0)
	if r.IntN(4) == 0 {
		return strconv.FormatUint(base+k, 10)
	}
	if base == 0 {
		return "-" + strconv.FormatUint(1<<63-k, 10)
	}
	return strconv.FormatUint(base-k, 10)
}

// large decodes long inputs of one shape: the CPU time must stay far below what
// work proportional to the square of the length takes.
func large(c *C) {
	r := c.R
	n := 100000
	var b []byte
	key := func(i int) { b = fmt.Appendf(b, "i:%d;", i) }
	body := []string{"N;", "i:1;", "b:1;", "d:0.5;", `s:3:"a";";`, "a:0:{}", "a:1:{i:0;i:7;}", `O:3:"A:{":1:{s:1:"x";N;}`, `a:2:{s:1:"A";i:1;s:1:"q";a:1:{i:0;N;}}`, "i:-000000000000000000005;", "d:1e10;"}
	elem := gen.Pick(r, body...)
	shape := r.IntN(12)
	obj := r.IntN(4) == 0
	wrap := func(k int) {
		head := "a:" + strconv.Itoa(k) + ":{"
		if obj && shape != 0 && shape != 1 {
			head = `O:8:"stdClass":` + strconv.Itoa(k) + ":{"
		}
		b = append([]byte(head), b...)
		b = append(b, '}')
	}
	switch shape {
	case 0, 6:
		for i := 0; i < n; i++ {
			key(i)
			b = append(b, elem...)
		}
		wrap(n)
	case 1:
		for i := n - 1; i >= 0; i-- {
			key(i)
			b = append(b, elem...)
		}
		wrap(n)
	case 2, 7: // mixed
		for i := 0; i < n; i++ {
			key(i)
			b = append(b, body[r.IntN(len(body))]...)
		}
		wrap(n)
	case 3, 8:
		for i := 0; i < n; i++ {
			k := "k" + strconv.Itoa(i)
			b = fmt.Appendf(b, "s:%d:\"%s\";%s", len(k), k, elem)
		}
		wrap(n)
	case 4: // the same key again and again
		k := gen.Pick(r, "i:0;", `s:1:"A";`, `s:1:"Z";`, `s:1:"L";`, "i:7;")
		for i := 0; i < n; i++ {
			b = append(b, k...)
			b = append(b, elem...)
		}
		wrap(n)
	case 5: // one long value
		x := strings.Repeat(gen.Pick(r, "a", `"`, ";", "}", `";`, "\\", "\x00", "é", "s:1:"), n*10)
		b = fmt.Appendf(b, "s:%d:\"%s\";", len(x), x)
		if r.IntN(2) == 0 {
			b = append([]byte(gen.Pick(r, "i:0;", `s:1:"Z";`, `s:1:"S";`)), b...)
			wrap(1)
		}
	case 9: // many deep values
		for i := 0; i < 60; i++ {
			key(i)
			b = append(b, chain(1500, func(j int) (string, bool) { return gen.Pick(r, "i:0;", `s:1:"L";`), obj && j%2 == 0 }, elem)...)
		}
		wrap(60)
	case 10: // long numbers
		b = append(b, gen.Pick(r, "i:", "i:-", "d:0.", "d:", "s:")...)
		b = append(b, bytes.Repeat([]byte(gen.Pick(r, "0", "1", "9")), n*3)...)
		b = append(b, gen.Pick(r, ";", "1;", ":\"\";")...)
		if r.IntN(2) == 0 {
			b = append([]byte(gen.Pick(r, "i:0;", `s:1:"Z";`)), b...)
			wrap(1)
		}
	case 11: // cut short
		for i := 0; i < n; i++ {
			key(i)
			b = append(b, elem...)
		}
		wrap(n)
		b = b[:len(b)-1-r.IntN(10)]
	}
	t := gen.Pick(r, gen.AnyType, reflect.TypeOf([]any{}), reflect.TypeOf(map[any]any{}), reflect.TypeOf(map[int]any{}), reflect.TypeOf(map[string]any{}), reflect.TypeOf([]int{}), reflect.TypeOf([]string{}), reflect.TypeOf([]bool{}), reflect.TypeOf([]float64{}), reflect.TypeOf([]largeS{}), reflect.TypeOf(map[string]largeS{}), reflect.TypeOf(largeS{}), reflect.TypeOf([3]int{}), reflect.TypeOf([]RawU{}), reflect.TypeOf(RawU{}), reflect.TypeOf(map[string]RawU{}), reflect.TypeOf(""), reflect.TypeOf([]byte{}), reflect.TypeOf(0), reflect.TypeOf([][]int{}), reflect.TypeOf([]map[string]int{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf([]*int{}), reflect.TypeOf([1]any{}))
	if shape == 9 {
		t = gen.Pick(r, t, reflect.TypeOf(gen.RSlice{}), reflect.TypeOf(gen.RIMap{}), reflect.TypeOf([]gen.RSlice{}))
	}
	v := reflect.New(t)
	t0 := cpu()
	err := c.Unmarshal(b, v.Interface())
	used := cpu() - t0
	c.Count("large")
	c.Max("large_cpu_ms", int(used*1000))
	c.Eval(true, "large", t.String(), fmt.Sprint(shape, elem))
	c.Sample("%d bytes of shape %d into %s: %v, %.3f CPU seconds", len(b), shape, t, err == nil, used)
	if used > 8 {
		c.Fail("Unmarshal of %d bytes (shape %d, %q) into %s took %.1f CPU seconds", len(b), shape, clip(string(b), 100), t, used)
	}
}

// abyss decodes documents so deep that decoding them by recursion overflows the
// stack: the depth must be limited wherever a value goes.
func abyss(c *C) {
	r := c.R
	debug.SetMaxStack(64 << 20)
	defer debug.SetMaxStack(512 << 20)
	d := 400000 + r.IntN(200000)
	n := nested(r, d)
	cut := len(n.doc)
	switch r.IntN(3) {
	case 0: // never closed
		cut -= d
	case 1:
		cut -= 1 + r.IntN(2*d)
	}
	t0 := cpu()
	err := c.Unmarshal(n.doc[:cut], n.dst)
	used := cpu() - t0
	c.Count("abyss")
	c.Count("calls")
	c.Max("abyss_cpu_ms", int(used*1000))
	c.Eval(true, "abyss", n.name, fmt.Sprint(n.route, d, n.split, cut))
	c.Sample("%d levels, route %s, %d of %d bytes: refused %v, %.3f CPU seconds", d, n.name, cut, len(n.doc), err != nil, used)
	if used > 8 {
		c.Fail("Unmarshal of %d levels (route %s/%d, split %d) took %.1f CPU seconds", d, n.name, n.route, n.split, used)
	}
}

type largeS struct {
	A int
	L []any
	S string
}

// farIndex decodes lists with an index that no memory can have, from the first one on.
func farIndex(c *C) {
	r := c.R
	o := dynDec
	o.Depth = r.IntN(3)
	et := gen.Type(r, o)
	if ref.Decodable(et) != nil || et.Size() == 0 {
		return
	}
	limit := min(uint64(math.MaxInt), 1<<47)
	idx := limit / uint64(et.Size())
	switch r.IntN(4) {
	case 0:
		idx += 1 + uint64(r.IntN(3))
	case 1:
		idx += 1 + r.Uint64N(idx)
	case 2:
		idx = 2*idx + 2 + uint64(r.IntN(3))
	case 3:
		idx = uint64(math.MaxInt) - uint64(r.IntN(4))
	}
	if et.Size() == 1 && idx < limit {
		idx = limit
	}
	t := reflect.SliceOf(et)
	doc := fmt.Appendf(nil, "a:1:{i:%d;", idx)
	if r.IntN(2) == 0 {
		doc = append([]byte("a:2:{i:0;"), gen.DocFor(r, et, 2, 0, true).Bytes()...)
		doc = fmt.Appendf(doc, "i:%d;", idx)
	}
	doc = append(append(doc, gen.DocFor(r, et, 2, 0, true).Bytes()...), '}')
	dst := reflect.New(t)
	if r.IntN(3) == 0 {
		dst.Elem().Set(reflect.MakeSlice(t, 3, 9))
	}
	if err := c.Unmarshal(doc, dst.Interface()); err == nil {
		c.Fail("%q decoded into %v of %d elements", clip(string(doc), 200), t, dst.Elem().Len())
	}
	c.Count("far_index")
	c.Eval(true, "far", t.String(), string(doc))
}

func runC04(c *C) {
	r := c.R
	if c.I%250 == 3 {
		large(c)
		return
	}
	if c.I%250 == 128 {
		abyss(c)
		return
	}
	if c.I%20 == 7 {
		farIndex(c)
	}
	o := c.withPool(dynDec)
	o.Depth = 1 + r.IntN(3)
	t := gen.Type(r, o)
	if r.IntN(3) == 0 {
		t = wrapType(r, gen.Pick(r, oddTypes...), r.IntN(4))
		c.Count("odd_types")
	}
	call := func(b []byte, v any) {
		b = tame(b)
		err := c.Unmarshal(b, v)
		c.Count("calls")
		if err != nil {
			c.Count("errors")
			if err.Error() == "" {
				c.Count("empty_message")
			}
		} else {
			c.Count("accepted")
		}
		c.Eval(true, fmt.Sprintf("%T", v), string(b))
	}
	newDst := func() any {
		v := reflect.New(t)
		if r.IntN(3) == 0 {
			func() {
				// some of the odd types have values reflect cannot build
				defer func() { recover() }()
				gen.Fill(r, v.Elem(), o, 2)
			}()
		}
		return v.Interface()
	}
	for i := 0; i < 12; i++ {
		var n *phpdoc.Node
		if r.IntN(3) == 0 {
			n = gen.Doc(r, 3, false)
		} else {
			n = gen.DocFor(r, t, 3, 12, true)
		}
		doc, toks := n.Tokens()
		switch i % 6 {
		case 0:
			call(doc, newDst())
		case 1: // extreme numbers
			for k := 0; k < 6; k++ {
				var nums []phpdoc.Token
				for _, x := range toks {
					if x.Kind == "len" || x.Kind == "count" || x.Kind == "int" {
						nums = append(nums, x)
					}
				}
				if len(nums) == 0 {
					break
				}
				x := nums[r.IntN(len(nums))]
				b := append([]byte{}, doc[:x.Start]...)
				b = append(b, extreme(r)...)
				b = append(b, doc[x.End:]...)
				c.Count("extreme")
				call(b, newDst())
			}
		case 2:
			for k := 0; k < 4; k++ {
				call(doc[:r.IntN(len(doc)+1)], newDst())
			}
		case 3:
			b := append([]byte{}, doc...)
			for k := 1 + r.IntN(6); k > 0 && len(b) > 1; k-- {
				b = mutate(r, b)
			}
			call(b, newDst())
		case 4: // token soup
			var b []byte
			for k := r.IntN(30); k > 0; k-- {
				b = append(b, gen.Pick(r, "a:", "O:", "s:", "i:", "d:", "b:", "N;", "{", "}", ";", ":", `"`, "1", "0", "-", "a:1:{", "i:0;", `s:1:"a";`, "a:2:{i:0;", "b:1;", `O:1:"A":1:{`, extreme(r), "\x00", "\xff")...)
			}
			call(b, newDst())
		case 5:
			call([]byte(gen.RandBytes(r, r.IntN(40))), newDst())
		}
	}
	c.Sample("%s", typeKey(t))
	// arguments that cannot be decoded into
	if r.IntN(4) == 0 {
		var nilErr error
		for _, v := range []any{nil, 1, "x", struct{}{}, []int{1}, map[string]int{}, (*int)(nil), (*struct{ X int })(nil), (**int)(nil), (*any)(nil), nilErr, make(chan int), func() {}, (*RawU)(nil), RawU{}, php.Unmarshaler((*RawU)(nil)), reflect.ValueOf(1), uintptr(1), unsafe.Pointer(nil), [2]int{}} {
			doc := []byte(gen.Pick(r, "i:1;", "N;", "a:0:{}", `s:1:"a";`, "", "x", "a:1:{i:0;i:1;}"))
			err, p := safeUnmarshal(doc, v)
			if p != nil {
				c.Fail("Unmarshal(%q, %T) panicked: %s", doc, v, p)
			}
			if err == nil {
				c.Fail("Unmarshal(%q, %T) returned no error", doc, v)
			}
			_ = err.Error()
			c.Count("bad_args")
		}
		if err := c.Unmarshal(nil, new(int)); err == nil {
			c.Fail("Unmarshal(nil) returned no error")
		}
	}
}

// ---- C13 ---------------------------------------------------------------------

type gnode struct {
	N  int
	P  *gnode            `php:"p,omitempty"`
	A  any               `php:"a"`
	L  []any             `php:"l"`
	M  map[string]any    `php:"m"`
	PA *any              `php:"pa"`
	NL []*gnode          `php:"nl,omitempty"`
	NM map[int]*gnode    `php:"nm"`
	R  *[2]any           `php:"r"`
	S  [2]*gnode         `php:"s"`
	LL []gslice          `php:"ll"`
	G  gslice            `php:"g,omitempty"`
	MM gmap              `php:"mm,omitempty"`
	PL *[]any            `php:"pl"`
	PM *map[string]any   `php:"pm,omitempty"`
	PR *garr             `php:"pr,omitempty"`
	V  []gval            `php:"v,omitempty"`
	MV map[string][]gval `php:"mv,omitempty"`
}
type gval struct {
	X []gval `php:"x,omitempty"`
	Y *gval
	Z any
}
type gslice []gslice
type gmap map[string]gmap
type garr [1]*garr

// reach is the independent judge: does a reference path return to a reference
// that is still open? Slices are identified by their element range.
type rnode struct {
	k    byte
	p    uintptr
	n    int
	t    reflect.Type
	edge reflect.Kind
}

type reach struct {
	open    map[rnode]bool
	done    map[rnode]bool
	edges   map[string]int
	shared  int
	steps   int
	cycleBy reflect.Kind
}

func (g *reach) visit(v reflect.Value) bool {
	g.steps++
	if !v.IsValid() {
		return false
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return false
		}
		return g.visit(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			fi := gen.Field(f)
			if fi.Skip || fi.Omit && ref.IsZero(v.Field(i)) {
				continue
			}
			if g.visit(v.Field(i)) {
				return true
			}
		}
		return false
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if g.visit(v.Index(i)) {
				return true
			}
		}
		return false
	case reflect.Pointer, reflect.Map, reflect.Slice:
		if v.IsNil() || v.Kind() == reflect.Slice && v.Len() == 0 {
			return false
		}
		key := rnode{k: byte(v.Kind()), p: v.Pointer(), t: v.Type(), edge: 0}
		if v.Kind() == reflect.Slice {
			key.n = v.Len()
		}
		if g.open[key] {
			g.cycleBy = v.Kind()
			return true
		}
		if g.done[key] {
			g.shared++
			return false
		}
		g.open[key] = true
		cyc := false
		switch v.Kind() {
		case reflect.Pointer:
			cyc = g.visit(v.Elem())
		case reflect.Map:
			it := v.MapRange()
			for it.Next() && !cyc {
				cyc = g.visit(it.Value())
			}
		case reflect.Slice:
			for i := 0; i < v.Len() && !cyc; i++ {
				cyc = g.visit(v.Index(i))
			}
		}
		delete(g.open, key)
		g.done[key] = true
		return cyc
	}
	return false
}

func cyclic(v reflect.Value) (bool, *reach) {
	g := &reach{open: map[rnode]bool{}, done: map[rnode]bool{}}
	return g.visit(v), g
}

// expanded counts the values Marshal visits (shared parts every time).
func expanded(v reflect.Value, limit int) int {
	n := 0
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if n++; n > limit || !v.IsValid() {
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			it := v.MapRange()
			for it.Next() {
				walk(it.Value())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		}
	}
	walk(v)
	return n
}

func runC13(c *C) {
	r := c.R
	if c.I%97 == 0 {
		deepChain(c)
		return
	}
	if r.IntN(3) == 0 {
		tied(c)
		return
	}
	// pools of reference values; links may go anywhere (cycles) or only to
	// values made before (acyclic)
	back := r.IntN(3) == 0 // allow links that can close cycles
	nn := 1 + r.IntN(5)
	nodes := make([]*gnode, nn)
	anys := make([]any, 1+r.IntN(3))
	lists := make([][]any, 1+r.IntN(3))
	maps := make([]map[string]any, 1+r.IntN(3))
	arrs := make([]*[2]any, 1+r.IntN(2))
	gs := make([]gslice, 1+r.IntN(3))
	gms := make([]gmap, 1+r.IntN(3))
	gas := make([]*garr, 1+r.IntN(3))
	gvs := make([][]gval, 1+r.IntN(3))
	for i := range nodes {
		nodes[i] = &gnode{N: i}
	}
	for i := range lists {
		lists[i] = make([]any, 1+r.IntN(4), 8)
	}
	for i := range maps {
		maps[i] = map[string]any{}
	}
	for i := range arrs {
		arrs[i] = new([2]any)
	}
	for i := range gs {
		gs[i] = make(gslice, 1+r.IntN(3))
	}
	for i := range gms {
		gms[i] = gmap{}
	}
	for i := range gas {
		gas[i] = &garr{}
	}
	for i := range gvs {
		gvs[i] = make([]gval, 1+r.IntN(3))
	}
	// a link target: rank keeps acyclic graphs acyclic
	total := 0
	rank := map[any]int{}
	type slot struct {
		kind byte
		i    int
	}
	var order []slot
	add := func(k byte, n int) {
		for i := 0; i < n; i++ {
			order = append(order, slot{k, i})
		}
	}
	add('n', nn)
	add('y', len(anys))
	add('l', len(lists))
	add('m', len(maps))
	add('r', len(arrs))
	add('g', len(gs))
	add('h', len(gms))
	add('a', len(gas))
	add('v', len(gvs))
	r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	pos := map[slot]int{}
	for i, s := range order {
		pos[s] = i
	}
	_ = rank
	pickOf := func(from slot, kinds string) (slot, bool) {
		for try := 0; try < 6; try++ {
			s := order[r.IntN(len(order))]
			if !strings.ContainsRune(kinds, rune(s.kind)) {
				continue
			}
			if pos[s] > pos[from] || back && r.IntN(3) == 0 {
				return s, true
			}
		}
		return slot{}, false
	}
	overlap := false
	sub := func(i int) []any {
		l := lists[i]
		if r.IntN(2) == 0 {
			overlap = true
			a := r.IntN(len(l))
			return l[a : a+1+r.IntN(len(l)-a)]
		}
		return l
	}
	toAny := func(s slot) any {
		switch s.kind {
		case 'n':
			if r.IntN(4) == 0 {
				return []*gnode{nodes[s.i]}
			}
			return nodes[s.i]
		case 'y':
			return &anys[s.i]
		case 'l':
			if r.IntN(4) == 0 {
				return &lists[s.i]
			}
			return sub(s.i)
		case 'm':
			if r.IntN(4) == 0 {
				return &maps[s.i]
			}
			return maps[s.i]
		case 'r':
			return arrs[s.i]
		case 'g':
			return gs[s.i]
		case 'h':
			return gms[s.i]
		case 'a':
			return gas[s.i]
		case 'v':
			if r.IntN(2) == 0 {
				return &gvs[s.i][0]
			}
			return gvs[s.i]
		}
		return nil
	}
	someAny := func(from slot) any {
		if r.IntN(4) == 0 {
			return gen.Pick[any](r, 1, "x", nil, true, []any{}, map[string]any{}, (*gnode)(nil), []any(nil))
		}
		s, ok := pickOf(from, "nylmrghav")
		if !ok {
			return r.IntN(10)
		}
		total++
		return toAny(s)
	}
	pn := func(from slot) *gnode {
		s, ok := pickOf(from, "n")
		if !ok {
			return nil
		}
		total++
		return nodes[s.i]
	}
	half := func() bool { return r.IntN(3) == 0 }
	for _, s := range order {
		switch s.kind {
		case 'n':
			n := nodes[s.i]
			if half() {
				n.P = pn(s)
			}
			if half() {
				n.A = someAny(s)
			}
			if half() {
				if x, ok := pickOf(s, "l"); ok {
					n.L = sub(x.i)
				}
			}
			if half() {
				if x, ok := pickOf(s, "m"); ok {
					n.M = maps[x.i]
				}
			}
			if half() {
				if x, ok := pickOf(s, "y"); ok {
					n.PA = &anys[x.i]
				}
			}
			if half() {
				n.NL = []*gnode{pn(s), pn(s), nil}
			}
			if half() {
				n.NM = map[int]*gnode{1: pn(s)}
			}
			if half() {
				if x, ok := pickOf(s, "r"); ok {
					n.R = arrs[x.i]
				}
			}
			if half() {
				n.S = [2]*gnode{pn(s), pn(s)}
			}
			if half() {
				if x, ok := pickOf(s, "g"); ok {
					n.LL = []gslice{gs[x.i], gs[x.i]}
					n.G = gs[x.i][:r.IntN(len(gs[x.i])+1)]
				}
			}
			if half() {
				if x, ok := pickOf(s, "h"); ok {
					n.MM = gms[x.i]
				}
			}
			if half() {
				if x, ok := pickOf(s, "l"); ok {
					n.PL = &lists[x.i]
				}
			}
			if half() {
				if x, ok := pickOf(s, "m"); ok {
					n.PM = &maps[x.i]
				}
			}
			if half() {
				if x, ok := pickOf(s, "a"); ok {
					n.PR = gas[x.i]
				}
			}
			if half() {
				if x, ok := pickOf(s, "v"); ok {
					n.V = gvs[x.i]
					n.MV = map[string][]gval{"k": gvs[x.i]}
				}
			}
		case 'y':
			anys[s.i] = someAny(s)
		case 'l':
			for k := range lists[s.i] {
				lists[s.i][k] = someAny(s)
			}
		case 'm':
			for k := r.IntN(3); k > 0; k-- {
				maps[s.i][strconv.Itoa(k)] = someAny(s)
			}
		case 'r':
			arrs[s.i][r.IntN(2)] = someAny(s)
		case 'g':
			for k := range gs[s.i] {
				if x, ok := pickOf(s, "g"); ok {
					g := gs[x.i]
					gs[s.i][k] = g[:r.IntN(len(g)+1)]
				}
			}
		case 'h':
			for k := r.IntN(3); k > 0; k-- {
				if x, ok := pickOf(s, "h"); ok {
					gms[s.i][strconv.Itoa(k)] = gms[x.i]
				}
			}
		case 'a':
			if x, ok := pickOf(s, "a"); ok {
				gas[s.i][0] = gas[x.i]
			}
		case 'v':
			for k := range gvs[s.i] {
				if x, ok := pickOf(s, "v"); ok && half() {
					gvs[s.i][k].X = gvs[x.i]
				}
				if x, ok := pickOf(s, "v"); ok && half() {
					gvs[s.i][k].Y = &gvs[x.i][r.IntN(len(gvs[x.i]))]
				}
				if half() {
					gvs[s.i][k].Z = someAny(s)
				}
			}
		}
	}
	for _, k := range []int{0, 1} {
		s := order[k%len(order)]
		root := toAny(s)
		switch r.IntN(4) {
		case 0:
			root = []any{root, root}
		case 1:
			root = map[string]any{"x": root}
		}
		judgeGraph(c, root, overlap, s.kind == 'y')
	}
	c.Sample("graph with %d links, cycles allowed: %v", total, back)
}

// judgeGraph marshals root and holds the outcome against the search.
func judgeGraph(c *C, root any, overlap, isAny bool) {
	{
		want, g := cyclic(reflect.ValueOf(root))
		size := 0
		if !want {
			if size = expanded(reflect.ValueOf(root), 200000); size > 200000 {
				c.Count("too_large")
				return
			}
		}
		b, err := c.Marshal(root)
		if want {
			c.Count("cyclic")
			switch g.cycleBy {
			case reflect.Pointer:
				c.Count("cycle_ptr")
			case reflect.Map:
				c.Count("cycle_map")
			case reflect.Slice:
				c.Count("cycle_slice")
			}
			if isAny {
				c.Count("cycle_any")
			}
			if err == nil {
				c.Fail("Marshal of a cyclic value (%T, cycle closed by a %s) returned no error", root, g.cycleBy)
			}
			if b != nil {
				c.Fail("Marshal of a cyclic value returned bytes with its error")
			}
		} else {
			c.Count("acyclic")
			if g.shared > 0 {
				c.Count("shared")
			}
			if overlap {
				c.Count("overlap")
			}
			if err != nil {
				c.Fail("Marshal of an acyclic value failed: %v\n%s (%d shared references, %d steps)", err, show(root), g.shared, g.steps)
			}
			if len(b) < 20000 {
				n := c.parse(root, b)
				if e := ref.CheckEnc(reflect.ValueOf(root), n); e != nil {
					c.Fail("Marshal of a value with shared parts is wrong: %v", e)
				}
			}
		}
		c.Eval(g.steps > 3, fmt.Sprint(want, g.steps, g.shared, g.cycleBy), clip(ShowValue(reflect.ValueOf(root)), 2000))
	}
}

// tie fills values of any type, now and then with a reference made before:
// one that is complete (shared), or one still being filled (a cycle).
type tie struct {
	r     gen.R
	pool  map[reflect.Type][]tieRef
	all   []reflect.Value
	back  bool
	left  int
	reuse int
	types []reflect.Type
}

type tieRef struct {
	v    reflect.Value
	open *bool
}

func (t *tie) pick(ty reflect.Type) (reflect.Value, bool) {
	l := t.pool[ty]
	if len(l) == 0 || t.r.IntN(2) == 0 {
		return reflect.Value{}, false
	}
	x := l[t.r.IntN(len(l))]
	if *x.open && (!t.back || t.r.IntN(2) == 0) {
		return reflect.Value{}, false
	}
	t.reuse++
	return x.v, true
}

func (t *tie) add(v reflect.Value) *bool {
	open := true
	t.pool[v.Type()] = append(t.pool[v.Type()], tieRef{v, &open})
	t.all = append(t.all, v)
	return &open
}

func (t *tie) fill(v reflect.Value) {
	ty, r := v.Type(), t.r
	t.left--
	switch ty.Kind() {
	case reflect.Pointer:
		if x, ok := t.pick(ty); ok {
			v.Set(x)
			return
		}
		if t.left < 0 || r.IntN(8) == 0 {
			return
		}
		p := reflect.New(ty.Elem())
		if ty.Name() != "" {
			p = p.Convert(ty)
		}
		open := t.add(p)
		v.Set(p)
		t.fill(p.Elem())
		*open = false
	case reflect.Slice:
		if x, ok := t.pick(ty); ok {
			if r.IntN(3) == 0 {
				a := r.IntN(x.Len() + 1)
				x = x.Slice(a, a+r.IntN(x.Len()-a+1))
			}
			v.Set(x)
			return
		}
		if t.left < 0 || r.IntN(8) == 0 {
			return
		}
		n := r.IntN(4)
		s := reflect.MakeSlice(ty, n, n+r.IntN(2))
		open := t.add(s)
		v.Set(s)
		for i := 0; i < n; i++ {
			t.fill(s.Index(i))
		}
		*open = false
	case reflect.Map:
		if x, ok := t.pick(ty); ok {
			v.Set(x)
			return
		}
		if t.left < 0 || r.IntN(8) == 0 {
			return
		}
		m := reflect.MakeMap(ty)
		open := t.add(m)
		v.Set(m)
		for k := r.IntN(3); k >= 0; k-- {
			key := gen.Value(r, ty.Key(), gen.Opt{Depth: 1})
			e := reflect.New(ty.Elem()).Elem()
			t.fill(e)
			m.SetMapIndex(key, e)
		}
		*open = false
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			t.fill(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				t.fill(v.Field(i))
			}
		}
	case reflect.Interface:
		if len(t.all) > 0 && r.IntN(2) == 0 {
			// any reference, of any type
			if x, ok := t.pick(t.all[r.IntN(len(t.all))].Type()); ok {
				v.Set(x)
			}
			return
		}
		if t.left < 0 {
			return
		}
		e := reflect.New(t.types[r.IntN(len(t.types))]).Elem()
		t.fill(e)
		v.Set(e)
	default:
		v.Set(gen.Value(r, ty, gen.Opt{Depth: 1}))
	}
}

func tied(c *C) {
	r := c.R
	t := &tie{r: r, pool: map[reflect.Type][]tieRef{}, back: r.IntN(3) > 0, left: 10 + r.IntN(60)}
	for i := 1 + r.IntN(3); i > 0; i-- {
		t.types = append(t.types, gen.Pick(r, gen.AnyCatalog...))
	}
	if r.IntN(4) == 0 {
		t.types = append(t.types, gen.Struct(r, gen.Opt{Depth: 2, Named: true, Recursive: true, Tags: true}, 2))
	}
	ty := gen.Pick(r, t.types...)
	if r.IntN(4) == 0 {
		ty = gen.Pick(r, reflect.SliceOf(ty), reflect.MapOf(reflect.TypeOf(""), ty), reflect.ArrayOf(2, ty), reflect.TypeOf([]any{}), reflect.TypeOf(map[string]any{}))
	}
	root := reflect.New(ty)
	if r.IntN(2) == 0 {
		t.add(root)
	}
	t.fill(root.Elem())
	x := root.Interface()
	if r.IntN(2) == 0 && ty.Kind() != reflect.Pointer || ty.Kind() == reflect.Pointer {
		x = root.Elem().Interface()
	}
	judgeGraph(c, x, false, false)
	c.Count("tied")
	if t.reuse > 0 {
		c.Count("tied_reused")
	}
	c.Sample("%s filled with %d references, %d reused, cycles allowed: %v", typeKey(ty), len(t.all), t.reuse, t.back)
}

func deepChain(c *C) {
	r := c.R
	d := gen.Pick(r, 100, 1000, 1001, 5000, 20000)
	if c.Deep() {
		d = gen.Pick(r, 1000, 20000, 60000, 100000)
	}
	var v any
	// the bottom of the chain: closing a cycle, open again, not encodable
	var shut, open, spoil func()
	kind := r.IntN(14)
	switch kind {
	case 9:
		bottom := gen.RSA{{}}
		x := bottom
		for i := 0; i < d; i++ {
			x = gen.RSA{{x}}
		}
		shut = func() {
			bottom[0][0] = x
		}
		open = func() { bottom[0][0] = nil }
		v = x
	case 10:
		bottom := gen.RMA{1: {}}
		x := bottom
		for i := 0; i < d; i++ {
			x = gen.RMA{1: {x}}
		}
		shut = func() {
			bottom[1] = [1]gen.RMA{x}
		}
		open = func() { bottom[1] = [1]gen.RMA{} }
		v = x
	case 11:
		bottom := gen.RSS{{}}
		x := bottom
		for i := 0; i < d; i++ {
			x = gen.RSS{{X: x}}
		}
		shut = func() { bottom[0].X = x }
		open = func() { bottom[0].X = nil }
		v = x
	case 12:
		bottom := &gen.ROneQ{A: &[1]gen.ROneQ{}}
		x := bottom
		for i := 0; i < d; i++ {
			x = &gen.ROneQ{A: &[1]gen.ROneQ{*x}}
		}
		shut = func() {
			bottom.A[0].A = bottom.A
		}
		open = func() { bottom.A[0].A = nil }
		v = x
	case 13:
		bottom := gen.RFar1{A: []gen.RFar2{{}}}
		x := bottom
		for i := 0; i < d/4; i++ {
			x = gen.RFar1{A: []gen.RFar2{{B: map[string]gen.RFar3{"k": {C: &gen.RFar4{D: [1]gen.RFar5{{E: []gen.RFar1{x}}}}}}}}}
		}
		shut = func() {
			bottom.A[0].B = map[string]gen.RFar3{"k": {C: &gen.RFar4{D: [1]gen.RFar5{{E: []gen.RFar1{x}}}}}}
		}
		open = func() { bottom.A[0].B = nil }
		v = x
	case 0: // list of structs
		var first, last *gen.RList
		for i := 0; i < d; i++ {
			first = &gen.RList{V: i, Next: first}
			if last == nil {
				last = first
			}
		}
		shut = func() {
			last.Next = first
		}
		open = func() { last.Next = nil }
		v = first
	case 1: // nested any slices
		bottom := []any{0}
		x := bottom
		for i := 0; i < d; i++ {
			x = []any{x}
		}
		shut = func() { bottom[0] = x }
		open = func() { bottom[0] = 0 }
		spoil = func() { bottom[0] = func() {} }
		v = x
	case 2: // nested maps
		bottom := map[string]any{}
		x := bottom
		for i := 0; i < d; i++ {
			x = map[string]any{"k": x}
		}
		shut = func() {
			bottom["k"] = x
		}
		open = func() { delete(bottom, "k") }
		spoil = func() { bottom["k"] = make(chan int) }
		v = x
	case 3:
		bottom := gslice{nil}
		x := bottom
		for i := 0; i < d; i++ {
			x = gslice{x}
		}
		shut = func() { bottom[0] = x }
		open = func() { bottom[0] = nil }
		v = x
	case 4:
		bottom := &garr{}
		x := bottom
		for i := 0; i < d; i++ {
			x = &garr{x}
		}
		shut = func() { bottom[0] = x }
		open = func() { bottom[0] = nil }
		v = x
	case 5: // pointer to interface holding pointer ...
		var bottom any = 5
		p := &bottom
		for i := 0; i < d; i++ {
			var a any = p
			p = &a
		}
		shut = func() {
			bottom = p
		}
		open = func() { bottom = 5 }
		spoil = func() { bottom = 1i }
		v = p
	case 6: // every slice holds an overlapping slice of one array
		l := make([]any, d+1)
		l[d] = 1
		for i := d - 1; i >= 0; i-- {
			l[i] = l[i+1 : i+2]
		}
		shut = func() {
			l[d] = l[:1]
		}
		open = func() { l[d] = 1 }
		spoil = func() { l[d] = struct{ F func() }{func() {}} }
		v = l[:1]
	case 7: // slices of values
		bottom := []gval{{}}
		x := bottom
		for i := 0; i < d; i++ {
			x = []gval{{X: x}}
		}
		shut = func() { bottom[0].X = x }
		open = func() { bottom[0].X = nil }
		v = x
	case 8: // many levels, each referring twice to one shared leaf
		leaf := &gnode{N: 1}
		first := leaf
		for i := 0; i < min(d, 3000); i++ {
			first = &gnode{P: first, A: leaf, NL: []*gnode{leaf, leaf}}
		}
		shut = func() {
			leaf.A = first
		}
		open = func() { leaf.A = nil }
		spoil = func() { leaf.A = func() {} }
		v = first
	}
	var first []byte
	history := ""
	for phase := 0; phase < 1+r.IntN(5); phase++ {
		what := r.IntN(5)
		switch {
		case what == 0 && spoil != nil:
			history += "unencodable "
			spoil()
			if b, err := c.Marshal(v); err == nil || b != nil {
				c.Fail("Marshal of an unencodable chain of length %d (kind %d, %s) returned %.100q, error %v", d, kind, history, b, err)
			}
			c.Count("spoiled")
		case what < 3:
			history += "cyclic "
			shut()
			if b, err := c.Marshal(v); err == nil || b != nil {
				c.Fail("Marshal of a cycle of length %d (kind %d, %s) returned %.100q, error %v", d, kind, history, b, err)
			}
			c.Count("cyclic")
		default:
			history += "acyclic "
			open()
			b, err := c.Marshal(v)
			if err != nil {
				c.Fail("Marshal of an acyclic chain of length %d (kind %d, %s) failed: %v", d, kind, history, err)
			}
			if first != nil && !bytes.Equal(first, b) {
				c.Fail("Marshal of a chain of length %d (kind %d, %s) gave another result than before", d, kind, history)
			}
			first = b
			open, shut := bytes.Count(b, []byte("{")), bytes.Count(b, []byte("}"))
			if open != shut || open == 0 || kind != 5 && open < min(d, 3000) {
				if kind != 5 {
					c.Fail("chain of length %d (kind %d) encoded with %d containers", d, kind, open)
				}
			}
			c.Count("acyclic")
		}
		open()
	}
	c.Count("deep")
	c.Max("depth", d)
	c.Eval(true, "deep", fmt.Sprint(kind, d, history))
}

// ---- C18 ---------------------------------------------------------------------

var badEnc = []reflect.Type{
	reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(unsafe.Pointer(nil)),
	reflect.TypeOf(map[float64]int{}), reflect.TypeOf(map[bool]string{}), reflect.TypeOf(map[[1]int]int{}), reflect.TypeOf(map[struct{ X int }]int{}), reflect.TypeOf(map[*int]int{}), reflect.TypeOf(map[chan int]int{}), reflect.TypeOf(map[uintptr]int{}), reflect.TypeOf(map[float32]any{}), reflect.TypeOf(map[complex64]int{}), reflect.TypeOf(map[fmt.Stringer]int{}),
	reflect.TypeOf(oddEmb{}), reflect.TypeOf(oddEmbPtr{}), reflect.TypeOf(oddEmb2{}), reflect.TypeOf(oddEmb3{}), reflect.TypeOf(oddEmb4{}), reflect.TypeOf(oddEmb5{}), reflect.TypeOf((**int)(nil)), reflect.TypeOf((***string)(nil)),
}

var badDec = []reflect.Type{
	reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(unsafe.Pointer(nil)),
	reflect.TypeOf(oddEmb{}), reflect.TypeOf(oddEmbPtr{}), reflect.TypeOf(oddEmb2{}), reflect.TypeOf(oddEmb3{}), reflect.TypeOf(oddEmb4{}), reflect.TypeOf(oddEmb5{}), reflect.TypeOf((**int)(nil)), reflect.TypeOf((***string)(nil)),
}

type OddE struct{ A, B int }
type OddG[T any] struct{ V T }
type oddEmb2 struct {
	*OddE `php:",omitempty"`
}
type oddEmb3 struct {
	X    int
	OddE `php:"named"`
}
type oddEmb4 struct {
	*OddE `php:"e,string,omitempty"`
	A     string
}
type oddEmb5 struct {
	Y         []int `php:"-"`
	OddG[int] `php:",omitempty"`
}

// reached fills v so that a non-nil value of type bad is encoded in it.
func reached(r gen.R, v reflect.Value, bad reflect.Type) bool {
	t := v.Type()
	if t == bad {
		switch t.Kind() {
		case reflect.Map:
			if k := r.IntN(6); k > 0 {
				v.Set(reflect.MakeMap(t))
				if k > 1 {
					v.SetMapIndex(reflect.Zero(t.Key()), reflect.Zero(t.Elem()))
				}
			}
		case reflect.Chan:
			v.Set(reflect.MakeChan(t, 0))
		case reflect.Func:
			v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return nil }))
		case reflect.Pointer:
			v.Set(reflect.New(t.Elem()))
			reached(r, v.Elem(), t.Elem())
		case reflect.Complex64, reflect.Complex128:
			v.SetComplex(1)
		case reflect.Uintptr:
			v.SetUint(1)
		}
		return true
	}
	switch t.Kind() {
	case reflect.Pointer:
		v.Set(reflect.New(t.Elem()))
		return reached(r, v.Elem(), bad)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, 1, 1))
		return reached(r, v.Index(0), bad)
	case reflect.Array:
		ok := false
		for i := 0; i < v.Len(); i++ {
			ok = reached(r, v.Index(i), bad) || ok
		}
		return ok
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		e := reflect.New(t.Elem()).Elem()
		ok := reached(r, e, bad)
		v.SetMapIndex(reflect.Zero(t.Key()), e)
		return ok
	case reflect.Struct:
		ok := false
		for i := 0; i < t.NumField(); i++ {
			ok = reached(r, v.Field(i), bad) || ok
		}
		return ok
	}
	return false
}

func runC18(c *C) {
	r := c.R
	// encoding
	bad := gen.Pick(r, badEnc...)
	t := wrapType(r, bad, r.IntN(4))
	if bad.Kind() == reflect.Pointer && t.Kind() == reflect.Pointer && t.Elem() == bad {
		t = bad
	}
	v := reflect.New(t).Elem()
	if reached(r, v, bad) {
		x := v.Interface()
		dyn := r.IntN(3)
		if bad.Kind() == reflect.Pointer && dyn > 0 && t == bad {
			dyn = 0
		}
		if bad.Kind() == reflect.Pointer && t == bad {
			// reached through an interface (the argument) a **T is allowed
			x = []any{}[:0:0]
			s := reflect.New(reflect.SliceOf(t)).Elem()
			s.Set(reflect.Append(s, v))
			x = s.Interface()
		}
		switch dyn {
		case 1:
			x = []any{1, x}
			c.Count("enc_dynamic")
		case 2:
			x = map[string]any{"k": struct{ A any }{x}}
			c.Count("enc_dynamic")
		}
		for i := 0; i < 3; i++ {
			b, err := c.Marshal(x)
			if err == nil {
				c.Fail("Marshal of a value containing %s returned %q (attempt %d): %s", bad, clip(string(b), 300), i, show(x))
			}
			if b != nil {
				c.Fail("Marshal returned bytes with error %v", err)
			}
			if err.Error() == "" {
				c.Fail("empty error message")
			}
		}
		c.Count("enc_refused")
		c.Eval(true, "enc", typeKey(reflect.TypeOf(x)), bad.String())
	}
	// decoding
	bad = gen.Pick(r, badDec...)
	t = wrapType(r, bad, r.IntN(4))
	for i := 0; i < 3; i++ {
		n := gen.DocFor(r, t, 4, 0, true)
		if n.K == 'N' && r.IntN(4) > 0 {
			continue
		}
		w := reflect.New(t).Elem()
		rerr := ref.Decode(n, w)
		if rerr == ref.ErrHuge || rerr == ref.ErrNegZero {
			continue
		}
		if rerr == nil {
			// the unsupported part was not stored to
			c.Count("not_reached")
			if bad.Kind() == reflect.Pointer || bad.Kind() == reflect.Struct {
				c.Fail("monitor: %s accepted by the reference", t)
			}
			_ = c.Unmarshal(n.Bytes(), reflect.New(t).Interface())
			continue
		}
		for k := 0; k < 3; k++ {
			if err := c.Unmarshal(n.Bytes(), reflect.New(t).Interface()); err == nil {
				c.Fail("Unmarshal(%q) into %s (contains %s) returned no error (attempt %d)", clip(n.String(), 400), t, bad, k)
			}
		}
		c.Count("dec_refused")
		c.Eval(true, "dec", typeKey(t), n.String())
		c.Sample("%s <- %q", typeKey(t), n)
	}
}

// ---- C21 ---------------------------------------------------------------------

func allocs(f func()) int {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return int(b.TotalAlloc - a.TotalAlloc)
}

// least of a few runs, the first of which warms caches up.
func least(f func()) int {
	f()
	m := allocs(f)
	for i := 0; i < 2; i++ {
		m = min(m, allocs(f))
	}
	return m
}

// footprint estimates the memory of a decoded value.
func footprint(v reflect.Value) int {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return 0
		}
		return int(v.Type().Elem().Size()) + footprint(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			return 0
		}
		return int(v.Elem().Type().Size()) + footprint(v.Elem())
	case reflect.String:
		return v.Len()
	case reflect.Slice:
		n := v.Cap() * int(v.Type().Elem().Size())
		for i := 0; i < v.Len(); i++ {
			n += footprint(v.Index(i))
		}
		return n
	case reflect.Array:
		n := 0
		for i := 0; i < v.Len(); i++ {
			n += footprint(v.Index(i))
		}
		return n
	case reflect.Map:
		n := 48 + 2*v.Len()*int(v.Type().Key().Size()+v.Type().Elem().Size()+2)
		it := v.MapRange()
		for it.Next() {
			n += footprint(it.Key()) + footprint(it.Value())
		}
		return n
	case reflect.Struct:
		n := 0
		for i := 0; i < v.NumField(); i++ {
			n += footprint(v.Field(i))
		}
		return n
	}
	return 0
}

type memBox struct {
	A []int
	B []string
	C map[string]int
	D []byte
	E any
	F [4]int
	G []memBox
	H *memBox
	U RawU
	J [][]byte
	K map[int]*memBox
}

func runC21(c *C) {
	r := c.R
	size := 1 << r.IntN(13)
	if c.Deep() {
		size = 1 << r.IntN(16)
	}
	const base = 24 << 10
	list := func(n int, f func(i int) *phpdoc.Node) *phpdoc.Node {
		d := phpdoc.Arr()
		for i := 0; i < n; i++ {
			d.Ent = append(d.Ent, phpdoc.Entry{Key: phpdoc.Int(int64(i)), Val: f(i)})
		}
		return d
	}
	strs := func(n int, f func(i int) *phpdoc.Node) *phpdoc.Node {
		d := phpdoc.Arr()
		for i := 0; i < n; i++ {
			d.Ent = append(d.Ent, phpdoc.Entry{Key: phpdoc.Str("k" + strconv.Itoa(i)), Val: f(i)})
		}
		return d
	}
	ints := func(i int) *phpdoc.Node { return phpdoc.Int(int64(i)) }
	decode := func(what string, doc []byte, t reflect.Type, k int) {
		var v reflect.Value
		var err error
		got := least(func() {
			v = reflect.New(t)
			err = c.Unmarshal(doc, v.Interface())
		})
		fp := footprint(v.Elem()) + int(t.Size())
		limit := base + k*(len(doc)+fp)
		c.Eval(true, "dec", what, t.String(), fmt.Sprint(len(doc)))
		c.Max("dec_permille_of_limit", got*1000/limit)
		if got > limit {
			c.Fail("Unmarshal of %d bytes (%s: %q) into %s allocated %d bytes for a value of about %d bytes (limit %d, error %v)", len(doc), what, clip(string(doc), 120), t, got, fp, limit, err)
		}
	}
	types := func(vs ...any) reflect.Type { return reflect.TypeOf(gen.Pick(r, vs...)) }
	if c.I%4 == 1 && r.IntN(16) == 0 || c.Deep() && r.IntN(4) == 0 {
		// large enough for every growth step that is not proportional to show
		n := 30000 + r.IntN(60000)
		switch r.IntN(7) {
		case 0:
			count := gen.Pick(r, "1", "2", "1000", strconv.Itoa(n/2), strconv.Itoa(n-1), strconv.Itoa(n))
			decode("long list", []byte("a:"+count+":"+strings.SplitN(list(n, ints).String(), ":", 3)[2]), types([]int{}, []uint8{}, []gen.NInt{}, []any{}, [][1]int{}, []struct{ X int }{}, map[int]int{}, []*int{}), 50)
		case 1:
			decode("long list in list", phpdoc.List(list(n, ints)).Bytes(), types([][]int{}, map[int][]int{}, [1][]int{}, []any{}), 50)
		case 2:
			decode("long list of strings", list(n, func(i int) *phpdoc.Node { return phpdoc.Str("ab") }).Bytes(), types([]string{}, [][]byte{}, []any{}, map[int]string{}), 50)
		case 3:
			decode("long map", strs(n, ints).Bytes(), types(map[string]int{}, map[string]any{}, map[any]any{}, struct{}{}, memBox{}), 50)
		case 4:
			decode("long list of structs", list(n, func(i int) *phpdoc.Node {
				return phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("A"), Val: phpdoc.Null()})
			}).Bytes(), types([]RawU{}, []struct{ A []int }{}, []any{}, []map[string]*int{}), 50)
		default:
			var v any
			switch r.IntN(6) {
			case 5: // many texts, none of them short
				text := strings.Repeat("t", gen.Pick(r, 70, 130, 260, 520, 1030, 4100, 16400))
				n = 4000000/len(text) + r.IntN(1000)
				switch r.IntN(3) {
				case 0:
					v = slices.Repeat([]string{text}, n)
				case 1:
					v = slices.Repeat([][]byte{[]byte(text)}, n)
				case 2:
					v = slices.Repeat([]any{text}, n)
				}
			case 0:
				v = make([]int, n)
			case 1:
				v = strings.Repeat(`"`, n*40)
			case 2:
				v = make([]any, n)
			case 3:
				v = make([]struct{ A, B string }, n)
			case 4:
				v = make([]byte, n*40)
			}
			if r.IntN(2) == 0 {
				v = []any{v, struct{ X any }{v}}
			}
			var out []byte
			var err error
			// also with no buffer kept from before
			runtime.GC()
			runtime.GC()
			got := allocs(func() { out, err = c.Marshal(v) })
			if limit := 4<<20 + 24*len(out); got > limit {
				c.Fail("the first Marshal of %T allocated %d bytes for %d bytes of output (limit %d, error %v)", v, got, len(out), limit, err)
			}
			got = least(func() { out, err = c.Marshal(v) })
			if limit := base + 24*len(out); err != nil || got > limit {
				c.Fail("Marshal of %T allocated %d bytes for %d bytes of output (limit %d, error %v)", v, got, len(out), limit, err)
			}
			c.Count("encode_scaling")
			c.Eval(true, "enc", fmt.Sprintf("%T %d", v, len(out)))
		}
		c.Count("large")
		return
	}
	switch c.I % 4 {
	case 0: // declared counts and lengths that are not there
		if r.IntN(3) == 0 {
			// in many containers, nested or next to each other
			t := types(gen.RSlice{}, gen.RMap{}, gen.RIMap{}, gen.RSS{}, gen.RSM{}, gen.RML{}, gen.RMA{}, gen.RMP{}, memBox{}, &memBox{}, []map[string]int{}, map[int]map[int]string{}, map[int][]string{}, []map[any]any{}, map[string]map[uint8][]byte{}, map[any]any{}, []any{}, map[string][]map[string]any{}, gen.RDeep{}, gen.RSP{}, map[int]struct{ M map[string]int }{}, gslice{}, gmap{})
			if r.IntN(4) == 0 {
				t = gen.AnyType
			}
			n := min(size, 2500)
			if r.IntN(10) == 0 {
				n = 9900
			}
			big := gen.Pick(r, "9223372036854775807", "99999999", strconv.Itoa(n), "1000000", strconv.Itoa(n*3))
			obj := r.IntN(3) == 0
			keys := gen.Pick(r, []string{"i:0;"}, []string{"i:0;"}, []string{`s:1:"k";`}, []string{`s:1:"G";`, "i:0;"}, []string{`s:1:"H";`}, []string{`s:1:"X";`, "i:0;"}, []string{"i:0;", `s:1:"a";`}, []string{`s:1:"m";`, `s:1:"k";`, "i:0;", "i:7;"}, []string{"i:0;", `s:1:"M";`})
			head := func(i int) string {
				if obj && i%2 == 1 {
					return `O:1:"A":` + big + ":{"
				}
				return "a:" + big + ":{"
			}
			var b []byte
			if r.IntN(3) == 0 { // a list of them
				b = append(b, head(0)...)
				for i := 0; i < n; i++ {
					b = fmt.Appendf(b, "i:%d;%s", i, head(i))
					if r.IntN(2) == 0 {
						b = append(b, keys[i%len(keys)]...)
						b = append(b, gen.Pick(r, "N;", "i:1;", "a:0:{}", head(i)+"}")...)
					}
					b = append(b, '}')
				}
				b = append(b, '}')
			} else {
				for i := 0; i < n; i++ {
					b = append(b, head(i)...)
					b = append(b, keys[i%len(keys)]...)
				}
				b = append(b, "N;"...)
				for i := 0; i < n; i++ {
					b = append(b, '}')
				}
			}
			decode("declared in many", b, t, 120)
			c.Count("hostile")
			return
		}
		big := gen.Pick(r, "9223372036854775807", "4611686018427387904", "1000000000000", "4294967295", "2147483647", "100000000", "16777216", "1000000")
		inner := gen.Pick(r, "", "i:0;i:1;", `s:1:"a";i:1;`, `i:0;a:`+big+`:{`, `i:0;O:1:"A":`+big+`:{`, `s:1:"G";a:`+big+`:{i:0;`, `s:1:"C";a:`+big+`:{`, `s:1:"E";a:`+big+`:{`, `s:1:"D";a:`+big+`:{`, `s:1:"Z";a:`+big+`:{`, `s:1:"D";s:`+big+`:"abc";`, `s:`+big+`:"x";`, `i:0;s:`+big+`:"`)
		doc := []byte(gen.Pick(r, "a:", `O:8:"stdClass":`) + big + ":{" + inner + gen.Pick(r, "", "}", "}}"))
		if r.IntN(6) == 0 {
			doc = []byte("s:" + big + `:"abc";`)
		}
		if r.IntN(6) == 0 {
			doc = []byte("O:" + big + `:"abc":1:{`)
		}
		t := types([]int{}, []string{}, map[string]int{}, map[int]int{}, map[any]any{}, memBox{}, []memBox{}, [3]int{}, [][]int{}, []map[string]int{}, "", []byte{}, map[string]any{}, []any{}, [2][]int{}, RawU{}, map[string][]memBox{}, []*memBox{}, struct{ Z, Y int }{})
		if r.IntN(4) == 0 {
			t = gen.AnyType
		}
		decode("declared", doc, t, 40)
		c.Count("hostile")
	case 1, 2:
		k := 14
		switch r.IntN(14) {
		case 0:
			decode("ints", list(size, ints).Bytes(), types([]int{}, []int8{}, []uint64{}, []gen.NInt{}, [8]int{}), k)
		case 1:
			decode("ints as any", list(size, ints).Bytes(), types([]any{}, map[any]any{}, map[int]any{}, map[int]int{}), 3*k)
		case 2:
			decode("strings", list(size, func(i int) *phpdoc.Node { return phpdoc.Str(gen.RandBytes(r, r.IntN(30))) }).Bytes(), types([]string{}, [][]byte{}, []*string{}, map[int]string{}, map[uint16]string{}), 2*k)
		case 3:
			decode("long string", phpdoc.Str(gen.RandBytes(r, size*16)).Bytes(), types("", []byte{}, gen.NString(""), RawU{}), k)
		case 4:
			decode("long string field", phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("D"), Val: phpdoc.Str(gen.RandBytes(r, size*16))}, phpdoc.Entry{Key: phpdoc.Str("U"), Val: phpdoc.Str(gen.RandBytes(r, size*16))}).Bytes(), types(memBox{}, &memBox{}, map[string]string{}, map[string][]byte{}, map[string]any{}), k)
		case 5:
			decode("skipped", strs(size, func(i int) *phpdoc.Node { return gen.Doc(r, 2, false) }).Bytes(), types(memBox{}, struct{}{}, &memBox{}), k)
		case 6:
			decode("records", list(min(size, 2000), func(i int) *phpdoc.Node {
				return phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("A"), Val: phpdoc.List(phpdoc.Int(1))}, phpdoc.Entry{Key: phpdoc.Str("H"), Val: phpdoc.Obj("B", phpdoc.Entry{Key: phpdoc.Str("D"), Val: phpdoc.Str("x")})})
			}).Bytes(), types([]memBox{}, []*memBox{}, map[int]memBox{}, map[int]*memBox{}), k)
		case 7: // nested slices of few elements
			n := phpdoc.List(phpdoc.Int(1))
			for i := 0; i < min(size, 5000); i++ {
				n = phpdoc.List(n)
			}
			decode("nested lists", n.Bytes(), types(gen.RSlice{}, []any{}, []gslice{}), 4*k)
			m := phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("G"), Val: phpdoc.Null()})
			for i := 0; i < min(size, 3000); i++ {
				m = phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str(gen.Pick(r, "H", "G")), Val: m})
				if m.Ent[0].Key.S == "G" {
					m.Ent[0].Val = phpdoc.List(m.Ent[0].Val)
				}
			}
			decode("nested structs", m.Bytes(), reflect.TypeOf(memBox{}), k)
		case 8:
			decode("string map", strs(size, ints).Bytes(), types(map[string]int{}, map[string]any{}, map[any]any{}), 3*k)
		case 9: // reversed dense keys: the first grows the list once
			n := list(size, ints)
			for i, j := 0, len(n.Ent)-1; i < j; i, j = i+1, j-1 {
				n.Ent[i], n.Ent[j] = n.Ent[j], n.Ent[i]
			}
			decode("reversed", n.Bytes(), types([]int{}, []string{}, []uint32{}), k)
		case 10: // lists inside lists
			w := int(1 + r.IntN(8))
			decode("lists of lists", list(size/w+1, func(i int) *phpdoc.Node { return list(w, ints) }).Bytes(), types([][]int{}, [][8]int{}, []map[int]int{}, [][]any{}), 4*k)
		case 11: // raw values for an Unmarshaler, nested in a list
			decode("raw", list(size, func(i int) *phpdoc.Node { return phpdoc.List(phpdoc.Int(1), phpdoc.Str("x")) }).Bytes(), types([]RawU{}, []*RawU{}, map[int]RawU{}), 2*k)
		case 12:
			decode("wrong declared count", []byte("a:"+gen.Pick(r, "9223372036854775807", "1", "2", strconv.Itoa(size/2+1))+":"+strings.SplitN(list(size, ints).String(), ":", 3)[2]), types([]int{}, map[int]int{}, []any{}), 3*k)
		case 13: // repeated keys
			n := phpdoc.Arr()
			for i := 0; i < size; i++ {
				n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Int(int64(i % 3)), Val: phpdoc.Int(1)})
			}
			decode("repeated keys", n.Bytes(), types([]int{}, map[int]int{}, [3]int{}, []any{}), 3*k)
		}
		c.Count("decode_scaling")
	case 3:
		var v any
		kind := r.IntN(22)
		switch kind {
		case 14:
			x := gen.RMap{"leaf": nil}
			for i := 0; i < size; i++ {
				x = gen.RMap{"k": x}
			}
			v = x
		case 15:
			x := gen.RIMap{5: nil}
			for i := 0; i < size; i++ {
				x = gen.RIMap{i % 3: x}
			}
			v = x
		case 16:
			x := &gen.RArr{}
			for i := 0; i < size; i++ {
				x = &gen.RArr{nil, x}
			}
			v = x
		case 17:
			x := gen.ROneM{}
			for i := 0; i < size; i++ {
				x = gen.ROneM{M: map[string]gen.ROneM{"k": x}}
			}
			v = x
		case 18:
			x := gen.RMA{}
			for i := 0; i < size; i++ {
				x = gen.RMA{1: {x}}
			}
			v = x
		case 19:
			x := &gen.RDeep{}
			for i := 0; i < size/3; i++ {
				x = &gen.RDeep{M: map[string][]map[int]*gen.RDeep{"m": {{1: x}}}}
			}
			v = x
		case 20:
			x := &gen.RMutA{X: 1}
			for i := 0; i < size/3; i++ {
				x = &gen.RMutA{X: 1, B: &gen.RMutB{S: "s", C: map[int]gen.RMutC{i: {P: x}}}}
			}
			v = x
		case 21:
			x := &gen.RAny{}
			for i := 0; i < size/2; i++ {
				x = &gen.RAny{V: map[int][]*gen.RAny{1: {x}}, M: map[string]any{"k": 1}}
			}
			v = x
		case 0:
			v = make([]int, size)
		case 1:
			x := make([]string, size)
			for i := range x {
				x[i] = gen.RandBytes(r, r.IntN(20))
			}
			v = x
		case 2:
			m := map[string]int{}
			for i := 0; i < size; i++ {
				m["k"+strconv.Itoa(i)] = i
			}
			v = m
		case 3:
			v = gen.RandBytes(r, size*8)
		case 4:
			v = []byte(gen.RandBytes(r, size*8))
		case 5:
			var l *gen.RList
			for i := 0; i < size; i++ {
				l = &gen.RList{V: i, Next: l}
			}
			v = l
		case 6:
			x := any(1)
			for i := 0; i < size; i++ {
				x = []any{x}
			}
			v = x
		case 7:
			x := map[string]any{}
			for i := 0; i < size; i++ {
				x = map[string]any{"k": x}
			}
			v = x
		case 8:
			v = make([]memBox, min(size, 2000))
		case 9:
			var x *memBox
			for i := 0; i < size; i++ {
				x = &memBox{G: []memBox{{H: x}}}
			}
			v = x
		case 10:
			x := make([]any, size)
			for i := range x {
				x[i] = map[string]any{"a": []int{1}, "b": "x"}
			}
			v = x
		case 11:
			x := gslice{}
			for i := 0; i < size; i++ {
				x = gslice{x}
			}
			v = x
		case 12:
			x := make([][]float64, size/4+1)
			for i := range x {
				x[i] = []float64{1.5, 2, 1e300, 0.1}
			}
			v = x
		case 13:
			t := gen.RTree{Name: "leaf"}
			for i := 0; i < min(size, 3000); i++ {
				t = gen.RTree{Name: "n", Kids: []gen.RTree{t}}
			}
			v = t
		}
		var out []byte
		var err error
		got := least(func() { out, err = c.Marshal(v) })
		if err != nil {
			c.Fail("Marshal: %v", err)
		}
		limit := base + 24*len(out) + 160*size
		c.Max("enc_permille_of_limit", got*1000/limit)
		c.Eval(true, "enc", fmt.Sprint(kind, len(out)))
		if got > limit {
			c.Fail("Marshal of %s (size %d) allocated %d bytes for %d bytes of output (limit %d)", reflect.TypeOf(v), size, got, len(out), limit)
		}
		c.Count("encode_scaling")
	}
	c.Sample("size %d case kind %d", size, c.I%4)
}

// ---- C22 ---------------------------------------------------------------------

type rp1 struct{ P *rp2 }
type rp2 *rp3
type rp3 *rp1

func runC22(c *C) {
	r := c.R
	t := gen.Pick(r, gen.Catalog...)
	switch r.IntN(4) {
	case 0:
		t = wrapType(r, t, 1+r.IntN(2))
	case 1:
		t = gen.Struct(r, gen.Opt{Depth: 2, Named: true, Recursive: true, Tags: true}, 2)
	}
	if c.I%50 == 0 {
		for i := 0; i < 2; i++ {
			for _, v := range []any{new(oddPtr), &oddPtrS{}, new(rp2), &rp1{}} {
				if err := c.Unmarshal([]byte("i:1;"), v); err == nil {
					c.Fail("Unmarshal into %T returned no error", v)
				}
				_, _ = c.Marshal(v)
				c.Count("refused_ptr")
			}
		}
	}
	o := gen.Opt{Depth: 3 + r.IntN(6), Named: true, Recursive: true, Tags: true}
	if ref.Decodable(t) != nil {
		return
	}
	dec := func() {
		n := gen.DocFor(r, t, 4, 0, true)
		c.against(n, reflect.New(t).Elem(), reflect.New(t).Elem(), lenient)
		c.Count("decoded")
	}
	if r.IntN(2) == 0 {
		dec()
	}
	for i := 0; i < 3; i++ {
		v := gen.Value(r, t, o)
		b, err := c.Marshal(addr(c, v))
		if err != nil {
			c.Fail("Marshal(%s): %v", show(v.Interface()), err)
		}
		n := c.parse(v.Interface(), b)
		if err := ref.CheckEnc(v, n); err != nil {
			c.Fail("Marshal(%s) = %q: %v", show(v.Interface()), clip(string(b), 600), err)
		}
		w := reflect.New(t)
		if err := c.Unmarshal(b, w.Interface()); err != nil {
			c.Fail("Unmarshal of Marshal output %q of %s: %v", clip(string(b), 600), show(v.Interface()), err)
		}
		if d := ref.Equal(v, w.Elem(), ref.EqOpt{NilSlice: true, NilPtr: true, Skipped: true, NegZero: true}); d != "" {
			c.Fail("round trip of %s through %q: %s", show(v.Interface()), clip(string(b), 600), d)
		}
		c.Count("roundtrips")
		c.Max("nesting", n.Depth())
		c.Eval(n.Depth() > 1, typeKey(t), string(b))
		c.Sample("%s <-> %q", typeKey(t), b)
	}
	if c.I%20 == 0 {
		// a deep value: every level carries content
		d := 50 + r.IntN(1500)
		var v any
		switch r.IntN(6) {
		case 0:
			var l *gen.RList
			for i := 0; i < d; i++ {
				l = &gen.RList{V: i, Next: l}
			}
			v = l
		case 1:
			x := gen.RTree{Name: "0"}
			for i := 0; i < d; i++ {
				x = gen.RTree{Name: strconv.Itoa(i), Kids: []gen.RTree{x, {Name: "s"}}, Attr: map[string]*gen.RTree{}}
			}
			x.Attr = map[string]*gen.RTree{"a": {Name: "z", Attr: map[string]*gen.RTree{}}}
			v = &x
		case 2:
			x := gen.RMap{}
			for i := 0; i < d; i++ {
				x = gen.RMap{strconv.Itoa(i): x}
			}
			v = &x
		case 3:
			x := gen.RSlice{nil}
			for i := 0; i < d; i++ {
				x = gen.RSlice{nil, x}
			}
			v = &x
		case 4:
			x := &gen.RMutA{X: 1}
			for i := 0; i < d; i++ {
				x = &gen.RMutA{X: int8(i), B: &gen.RMutB{S: "s" + strconv.Itoa(i), C: map[int]gen.RMutC{i: {P: x, F: float64(i)}}}}
			}
			v = x
		case 5:
			x := &gen.RArr{}
			for i := 0; i < d; i++ {
				x = &gen.RArr{nil, x}
			}
			v = x
		}
		b, err := c.Marshal(v)
		if err != nil {
			c.Fail("Marshal of deep %T: %v", v, err)
		}
		w := reflect.New(reflect.TypeOf(v).Elem())
		if err := c.Unmarshal(b, w.Interface()); err != nil {
			c.Fail("Unmarshal of deep %T: %v", v, err)
		}
		if d := ref.Equal(reflect.ValueOf(v), w, ref.EqOpt{NilSlice: true, NilMap: true, NilPtr: true}); d != "" {
			c.Fail("deep %T changed: %s", v, clip(d, 500))
		}
		c.Count("deep")
	}
	if r.IntN(2) == 0 {
		dec()
	}
}

// ---- C23 ---------------------------------------------------------------------

type nestS struct {
	X *nestS         `php:"x"`
	I int            `php:"i"`
	A any            `php:"a"`
	M map[string]any `php:"m"`
	L []nestS        `php:"l"`
	V *nestV         `php:"v"`
	R *[2]nestS      `php:"r"`
	U RawU           `php:"u"`
	W map[string]nestS
}
type nestV struct {
	L []*nestV          `php:"l"`
	M map[string]*nestV `php:"m"`
	R *[1]nestV         `php:"r"`
}
type nestMap map[string]nestMap
type nestIMap map[int]nestIMap
type nestSlice []nestSlice
type nestArr [1]*nestArr
type nestArrS [1][]nestArrS

type nestPM map[string]*nestPM
type nestPIM map[int16]*nestPIM
type nestPSl []*nestPSl
type nestPA [3]*nestPA
type nestMix struct {
	A map[string]*nestMix
	B []*nestMix
	C *[]nestMix
	D *map[uint8]nestMix
	E [2]map[string]*nestMix
	F []map[int][]*nestMix
	G *[2]*nestMix
	H []any
	I *any
	J map[string]any
	K [1]any
	U []RawU
	V map[string]*RawU
	W [2]*nestMix
	X map[string][]nestMix
	Y map[string]struct{ Z *nestMix }
	z int
}

var nestTypes = []reflect.Type{
	reflect.TypeFor[nestPM](), reflect.TypeFor[nestPIM](), reflect.TypeFor[nestPSl](), reflect.TypeFor[nestPA](),
	reflect.TypeFor[nestMix](), reflect.TypeFor[nestMix](), reflect.TypeFor[nestMix](), reflect.TypeFor[nestS](), reflect.TypeFor[nestV](),
}

// walk is a random infinite path through the containers of a type. A nil type
// is a value that is skipped or handed out raw.
type walk struct {
	r    gen.R
	t    reflect.Type
	live map[reflect.Type]bool
}

type leap struct {
	key  string
	obj  bool
	next reflect.Type
	free bool // not a container
}

var unmarshaler = reflect.TypeFor[php.Unmarshaler]()

// leaps lists the containers that can follow at a place of type t.
func leaps(t reflect.Type) []leap {
	if t == nil {
		return []leap{{"i:0;", false, nil, false}, {`s:1:"x";`, true, nil, false}, {"i:-3;", false, nil, false}}
	}
	if t.Kind() != reflect.Interface && reflect.PointerTo(t).Implements(unmarshaler) {
		return []leap{{next: nil, free: true}}
	}
	str := func(k string) string { return fmt.Sprintf("s:%d:\"%s\";", len(k), k) }
	switch t.Kind() {
	case reflect.Pointer:
		return []leap{{next: t.Elem(), free: true}}
	case reflect.Interface:
		if t.NumMethod() == 0 {
			return []leap{{"i:0;", false, t, false}, {`s:1:"x";`, true, t, false}, {"i:-3;", false, t, false}}
		}
	case reflect.Slice:
		return []leap{{"i:0;", false, t.Elem(), false}, {"i:2;", false, t.Elem(), false}}
	case reflect.Array:
		h := []leap{{fmt.Sprintf("i:%d;", t.Len()), false, nil, false}}
		for i := 0; i < min(t.Len(), 4); i++ {
			h = append(h, leap{fmt.Sprintf("i:%d;", i), false, t.Elem(), false})
		}
		return h
	case reflect.Map:
		if t.Key().Kind() == reflect.String {
			return []leap{{str("k"), true, t.Elem(), false}}
		}
		return []leap{{"i:5;", false, t.Elem(), false}}
	case reflect.Struct:
		h := []leap{{str("none such"), true, nil, false}}
		for i := 0; i < t.NumField(); i++ {
			fi := gen.Field(t.Field(i))
			if !fi.Skip && !fi.Str {
				h = append(h, leap{str(fi.Key), true, t.Field(i).Type, false})
			}
		}
		return h
	}
	return nil
}

// newWalk picks a type with a container path of any length, without using
// skipped values.
func newWalk(r gen.R) *walk {
	t := gen.Pick(r, nestTypes...)
	switch r.IntN(4) {
	case 0:
		t = gen.Pick(r, gen.Catalog...)
	case 1:
		t = gen.Struct(r, gen.Opt{Depth: 3, Named: true, Recursive: true, Tags: true, Any: true}, 3)
	}
	if r.IntN(3) == 0 {
		t = wrapType(r, t, 1+r.IntN(2))
	}
	if ref.Decodable(t) != nil {
		return nil
	}
	live := map[reflect.Type]bool{}
	var all func(t reflect.Type)
	all = func(t reflect.Type) {
		if t != nil && !live[t] {
			live[t] = true
			for _, h := range leaps(t) {
				all(h.next)
			}
		}
	}
	all(t)
	for again := true; again; {
		again = false
		for t := range live {
			ok := false
			for _, h := range leaps(t) {
				ok = ok || h.next != nil && live[h.next]
			}
			if !ok {
				delete(live, t)
				again = true
			}
		}
	}
	if !live[t] {
		return nil
	}
	return &walk{r, t, live}
}

// chain prints d nested containers; from level split on they may be skipped.
func (w *walk) chain(d, split int, leaf string) []byte {
	var b []byte
	t := w.t
	for i := 0; i < d; {
		var can []leap
		for _, h := range leaps(t) {
			if h.next != nil && w.live[h.next] || h.next == nil && (t == nil || i >= split && w.r.IntN(4) == 0) {
				can = append(can, h)
			}
		}
		h := gen.Pick(w.r, can...)
		t = h.next
		if h.free {
			continue
		}
		i++
		if h.obj && w.r.IntN(2) == 0 {
			b = append(b, `O:1:"}":1:{`...)
		} else {
			b = append(b, "a:1:{"...)
		}
		b = append(b, h.key...)
	}
	if t != nil || strings.HasSuffix(leaf, "{}") {
		leaf = "N;"
	}
	b = append(b, leaf...)
	return append(b, bytes.Repeat([]byte("}"), d)...)
}

// chain prints d nested containers around a leaf. pick returns the key text
// and whether the level is an object.
func chain(d int, pick func(i int) (key string, obj bool), leaf string) []byte {
	var b []byte
	for i := 0; i < d; i++ {
		k, obj := pick(i)
		if obj {
			b = append(b, `O:1:"}":1:{`...)
		} else {
			b = append(b, "a:1:{"...)
		}
		b = append(b, k...)
	}
	b = append(b, leaf...)
	return append(b, bytes.Repeat([]byte("}"), d)...)
}

// nesting is a document of some depth for a destination in which it is decoded,
// skipped or handed on in different ways.
type nesting struct {
	doc   []byte
	dst   any
	name  string
	route int
	split int
	leaf  string
}

func nested(r gen.R, d int) nesting {
	key := func(k string) string { return fmt.Sprintf(`s:%d:"%s";`, len(k), k) }
	const x0 = "i:0;"
	mixed := func(obj bool) func(int) (string, bool) {
		return func(int) (string, bool) {
			if obj && r.IntN(2) == 0 {
				return key("k"), true
			}
			if r.IntN(2) == 0 {
				return x0, false
			}
			return key("x"), false
		}
	}
	split := gen.Pick(r, 0, 1, 2, r.IntN(d), d/2, max(0, d-2), max(0, d-1))
	var doc []byte
	var dst any
	route := r.IntN(15)
	name := ""
	leafI := gen.Pick(r, "N;", "i:1;", `s:1:"}";`, "a:0:{}", `O:1:"A":0:{}`, "b:1;", "d:1.5;")
	dd := d
	if strings.HasSuffix(leafI, "{}") {
		dd = d - 1 // the leaf is a container itself
	}
	switch route {
	case 0:
		name = "any"
		doc = chain(dd, mixed(true), leafI)
		for bytes.Contains(doc, []byte(`O:1:"}":1:{i:0;`)) {
			break
		}
		dst = new(any)
	case 1:
		name = "map"
		doc, dst = chain(d, func(int) (string, bool) { return key("k"), r.IntN(2) == 0 }, "N;"), new(nestMap)
	case 2:
		name = "map"
		doc, dst = chain(d, func(int) (string, bool) { return "i:7;", false }, "N;"), new(nestIMap)
	case 3:
		name = "slice"
		doc, dst = chain(d, func(int) (string, bool) { return x0, false }, "N;"), new(nestSlice)
	case 4:
		name = "ptr"
		doc, dst = chain(d, func(int) (string, bool) { return key("x"), r.IntN(2) == 0 }, "N;"), new(nestS)
	case 5:
		name = "array"
		doc, dst = chain(d, func(int) (string, bool) { return x0, false }, "N;"), new(nestArr)
	case 6:
		name = "array"
		doc, dst = chain(d, func(int) (string, bool) { return x0, false }, "N;"), new(nestArrS)
	case 7, 8: // skipped below a struct chain
		name = "skip"
		m := mixed(true)
		split = max(split, 1)
		doc = chain(dd, func(i int) (string, bool) {
			if i < split-1 {
				return key("x"), false
			}
			if i == split-1 {
				return key("unknown"), r.IntN(2) == 0
			}
			return m(i)
		}, leafI)
		if split-1 >= dd {
			doc = chain(d, func(int) (string, bool) { return key("x"), false }, "N;")
		}
		dst = new(nestS)
	case 9: // skipped out of range elements
		name = "oob"
		split = max(split, 1)
		m := mixed(true)
		doc = chain(dd, func(i int) (string, bool) {
			if i < split-1 {
				return x0, false
			}
			if i == split-1 {
				return "i:1;", false
			}
			return m(i)
		}, leafI)
		if split-1 >= dd {
			doc = chain(d, func(int) (string, bool) { return x0, false }, "N;")
		}
		dst = new(nestArr)
	case 10, 11: // raw below a struct chain
		name = "unmarshaler"
		split = max(split, 1)
		m := mixed(true)
		doc = chain(dd, func(i int) (string, bool) {
			if i < split-1 {
				return key("x"), false
			}
			if i == split-1 {
				return key("u"), false
			}
			return m(i)
		}, leafI)
		if split-1 >= dd {
			doc = chain(d, func(int) (string, bool) { return key("x"), false }, "N;")
		}
		dst = new(nestS)
	case 12: // struct chain, then any
		name = "struct"
		split = max(split, 1)
		m := mixed(true)
		doc = chain(dd, func(i int) (string, bool) {
			if i < split-1 {
				return key("x"), false
			}
			if i == split-1 {
				return key("a"), false
			}
			return m(i)
		}, leafI)
		if split-1 >= dd {
			doc = chain(d, func(int) (string, bool) { return key("x"), false }, "N;")
		}
		dst = new(nestS)
	case 13: // struct, slice, map, pointer to array in turn
		name = "struct"
		if d%2 == 1 {
			doc = chain(d, func(i int) (string, bool) {
				if i == d-1 {
					return key("none"), false
				}
				if i%2 == 0 {
					return key(gen.Pick(r, "l", "r")), false
				}
				return x0, false
			}, "N;")
		} else {
			doc = chain(d, func(i int) (string, bool) {
				if i%2 == 0 {
					return key(gen.Pick(r, "l", "r")), false
				}
				return x0, false
			}, "N;")
		}
		dst = new(nestV)
	case 14: // an Unmarshaler at the top
		name = "unmarshaler"
		doc, dst = chain(dd, mixed(true), leafI), new(RawU)
	}
	return nesting{doc, dst, name, route, split, leafI}
}

func runC23(c *C) {
	r := c.R
	d := gen.Pick(r, 9998, 9999, 10000, 10000, 10000, 10001, 10001, 10001, 10002, 10003, 20000)
	huge := r.IntN(12) == 0
	if huge {
		d = gen.Pick(r, 100000, 1000000, 2000000)
		c.Count("huge")
	}
	n := nested(r, d)
	doc, dst, name, route, split, leafI := n.doc, n.dst, n.name, n.route, n.split, n.leaf
	// siblings must not count
	key := func(k string) string { return fmt.Sprintf(`s:%d:"%s";`, len(k), k) }
	if r.IntN(2) == 0 && !huge && (name == "any" || route == 1) {
		sib := `s:1:"z";` + "a:1:{" + key("q") + "a:1:{" + key("q") + "N;}}"
		doc = append([]byte("a:2:{"+sib+key("y")), doc...)
		doc = append(doc, '}')
		d++
	}
	if r.IntN(2) == 0 && d <= 20000 {
		if w := newWalk(r); w != nil {
			name, route = "walk", 15
			doc, dst = w.chain(d, split, leafI), reflect.New(w.t).Interface()
			leafI = w.t.String()
			if r.IntN(2) == 0 {
				name = "walk_held"
				reflect.ValueOf(dst).Elem().Set(gen.Value(r, w.t, gen.Opt{Depth: 3, Named: true, Recursive: true}))
			}
		}
	}
	err := c.Unmarshal(doc, dst)
	want := d <= ref.MaxDepth
	c.Count("route_" + name)
	c.Eval(true, fmt.Sprint(route, d, split, leafI))
	c.Sample("route %s depth %d split %d: %v", name, d, split, err == nil)
	if want {
		c.Count("accepted")
		if err != nil {
			c.Fail("document nested %d deep refused (route %s/%d, split %d, leaf %s): %v", d, name, route, split, leafI, err)
		}
		return
	}
	c.Count("refused")
	if err == nil {
		c.Fail("document nested %d deep accepted (route %s/%d, split %d, leaf %s)", d, name, route, split, leafI)
	}
}
