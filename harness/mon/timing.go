package mon

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"

	"vmon/gen"
	"vmon/ref"
)

func init() {
	register(&Monitor{
		ID: "C28", NoGiant: true, Quick: 700, Thorough: 21000, Chunk: 5, Procs: 6, CPU: 90,
		Rule: "the same workload at size n and 16n (both directions: long lists, maps, objects, structs and strings of random element types and values, deep nesting above a bulky leaf, skipped and raw and refused values, populated destinations, shared and interface-held parts); the CPU time, garbage collection off, must not grow more than four times faster than the size; non-trivial: a pair of timings",
		Need: []string{"unmarshal", "marshal", "deep", "flat", "refused", "wide_struct"},
		Run:  runC28,
	})
}

const growth = 16

// work is a call at one size, made afresh for each timing.
type work struct {
	name string
	call func() error
}

// pace is the least CPU time of k timings.
func pace(k int, w work) (least float64, err error) {
	runtime.GC()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	for i := 0; i < k; i++ {
		t0 := cpu()
		err = w.call()
		if t := cpu() - t0; i == 0 || t < least {
			least = t
		}
	}
	return least, err
}

func runC28(c *C) {
	s1, s2 := c.R.Uint64(), c.R.Uint64()
	dir := c.R.IntN(2)
	kind := c.R.IntN(12)
	make := func(n int) work {
		r := rand.New(rand.NewPCG(s1, s2))
		if dir == 0 {
			return c.decodeWork(r, kind, n)
		}
		return c.encodeWork(r, kind, n)
	}
	n := 4000
	if kind < 3 {
		n = 600 // levels
		if dir == 1 {
			n = 1500
		}
		c.Count("deep")
	} else {
		c.Count("flat")
	}
	c.Count([]string{"unmarshal", "marshal"}[dir])
	a, b := make(n), make(n*growth)
	ta, ea := pace(3, a)
	tb, eb := pace(2, b)
	if (ea != nil) != (eb != nil) {
		c.Count("unlike")
	}
	if ea != nil {
		c.Count("refused")
	}
	const slack = 0.3
	bad := func() bool { return tb > 4*growth*ta+slack }
	for i := 0; i < 4 && bad(); i++ {
		// noise passes
		c.Count("again")
		t, _ := pace(2, b)
		tb = min(tb, t)
		t, _ = pace(2, a)
		ta = max(ta, t)
	}
	c.Max("cpu_ms", int(tb*1000))
	if ta > 0.001 {
		c.Max("growth", int(tb/ta))
	}
	c.Eval(true, a.name, fmt.Sprint(dir, kind, s1))
	c.Sample("%s: size %d %.1f ms, size %d %.1f ms", a.name, n, ta*1000, n*growth, tb*1000)
	if bad() {
		c.Fail("%s: %.1f ms of CPU time at size %d, %.1f ms at size %d", a.name, ta*1000, n, tb*1000, n*growth)
	}
}

type (
	slowAny struct {
		X *slowAny `php:"x"`
		L []slowAny
		V any `php:"v,omitempty"`
		U *RawU
	}
	slowMap map[string]slowMap
	slowIdx []slowIdx
)

func slowType(r gen.R, o *gen.Opt) reflect.Type {
	*o = gen.Opt{Depth: 2, MaxLen: 3, MaxMap: 3, Named: true, Tags: true, Any: r.IntN(2) == 0}
	switch r.IntN(5) {
	case 0:
		return gen.Scalar(r, *o)
	case 1:
		return gen.Struct(r, *o, 2)
	case 2:
		return gen.Pick(r, gen.AnyType, reflect.TypeOf([]any{}), reflect.TypeOf(map[string]any{}), reflect.TypeOf(new(int)), reflect.TypeOf([]*string{}), reflect.TypeOf(RawU{}), reflect.TypeOf(new(RawU)))
	}
	return gen.Type(r, *o)
}

func (c *C) decodeWork(r *rand.Rand, kind, n int) work {
	var o gen.Opt
	et := slowType(r, &o)
	for ref.Decodable(et) != nil {
		et = slowType(r, &o)
	}
	t := et
	var doc []byte
	what := ""
	var docs [][]byte
	for i := 0; i < 40; i++ {
		b := gen.DocFor(r, et, 2, 0, false).Bytes()
		if len(b) > 300 {
			b = gen.DocFor(r, et, 0, 0, false).Bytes()
		}
		if len(b) > 300 {
			b = []byte("N;")
		}
		docs = append(docs, b)
	}
	str := func(k string) string { return fmt.Sprintf("s:%d:%q;", len(k), k) }
	list := func(n int, keyed bool) []byte {
		var b bytes.Buffer
		fmt.Fprintf(&b, "a:%d:{", n)
		for i := 0; i < n; i++ {
			if keyed {
				b.WriteString(str("k" + strconv.Itoa(i)))
			} else {
				fmt.Fprintf(&b, "i:%d;", i)
			}
			b.Write(docs[i%len(docs)])
		}
		b.WriteByte('}')
		return b.Bytes()
	}
	switch kind {
	case 0, 1, 2: // n levels, then something long
		route := r.IntN(8)
		n -= n % 2
		what = fmt.Sprintf("levels (route %d)", route)
		bulk := []byte(nil)
		var keys []string
		switch route {
		case 0:
			t, keys = gen.AnyType, []string{"i:0;", str("x"), "i:7;"}
		case 1:
			t, keys = reflect.TypeOf(struct{ X int }{}), []string{"i:0;", str("x"), str("v")}
		case 2:
			t, keys = reflect.TypeOf(RawU{}), []string{"i:0;", str("x")}
		case 3:
			t, keys = reflect.TypeOf([1]any{}), []string{"i:3;", "i:0;"}
		case 4:
			t, keys = reflect.TypeOf(slowAny{}), []string{str("x")}
		case 5:
			t, keys = reflect.TypeOf(slowMap{}), []string{str("x"), str("y")}
		case 6:
			t, keys = reflect.TypeOf(slowIdx{}), []string{"i:0;", "i:1;"}
		case 7:
			t, keys = reflect.TypeOf(slowAny{}), []string{str("L"), "i:0;"}
		}
		switch {
		case route == 5:
			docs = [][]byte{[]byte("a:0:{}"), []byte("N;")}
			bulk = list(8*n, true)
		case route == 6:
			docs = [][]byte{[]byte("a:0:{}"), []byte("N;")}
			bulk = list(8*n, false)
		case route == 4:
			bulk = []byte("a:2:{" + str("v") + string(list(8*n, r.IntN(2) == 0)) + str("unknown") + string(list(n, true)) + "}")
		case route == 7:
			bulk = []byte("a:2:{" + str("v") + string(list(8*n, r.IntN(2) == 0)) + str("U") + string(list(n, true)) + "}")
		default:
			bulk = list(8*n, r.IntN(2) == 0)
		}
		obj := r.IntN(2) == 0
		var b bytes.Buffer
		d := n
		if route == 1 || route == 3 {
			b.WriteString("a:1:{" + gen.Pick(r, str("none"), "i:3;") + "")
			if route == 1 {
				b.Reset()
				b.WriteString("a:1:{" + str("none"))
			}
		}
		for i := 0; i < d; i++ {
			k := keys[i%len(keys)]
			if obj && k[0] == 's' {
				b.WriteString(`O:2:"A;":1:{` + k)
			} else {
				b.WriteString("a:1:{" + k)
			}
		}
		b.Write(bulk)
		b.WriteString(strings.Repeat("}", d))
		if route == 1 || route == 3 {
			b.WriteByte('}')
		}
		doc = b.Bytes()
	case 3, 4:
		t, doc, what = reflect.SliceOf(et), list(n, false), "list"
		if r.IntN(2) == 0 {
			t = reflect.ArrayOf(n, et)
		}
	case 5:
		t, doc, what = reflect.MapOf(reflect.TypeOf(""), et), list(n, true), "map"
		if r.IntN(2) == 0 {
			doc = append([]byte(`O:2:"A}":`), doc[2:]...)
		}
	case 6:
		t, doc, what = reflect.MapOf(gen.Pick(r, reflect.TypeOf(0), reflect.TypeOf(uint64(0)), reflect.TypeOf(int32(0)), reflect.TypeOf("")), et), list(n, false), "integer map"
	case 7:
		t, doc, what = gen.AnyType, list(n, r.IntN(2) == 0), "any"
		if r.IntN(3) == 0 {
			t = reflect.TypeOf(RawU{})
		}
	case 8: // skipped, one by one or as a whole
		t, doc, what = reflect.TypeOf(struct{ K1, K5 any }{}), list(n, true), "unknown keys"
		switch r.IntN(3) {
		case 0:
			t, doc = reflect.TypeOf([2]any{}), list(n, false)
		case 1:
			doc = []byte("a:2:{" + str("none") + string(doc) + str("K1") + "N;}")
		}
	case 9: // long scalars
		x := strings.Repeat(gen.Pick(r, "a", `"`, ";", "}", `";`, "\x00", "é", "s:1:"), n*8)
		t, doc, what = gen.Pick(r, reflect.TypeOf(""), gen.BytesType, gen.AnyType, reflect.TypeOf(RawU{}), reflect.TypeOf([]byte{}), reflect.TypeOf([]string{})), fmt.Appendf(nil, "s:%d:\"%s\";", len(x), x), "long text"
		if r.IntN(3) == 0 {
			t, doc = gen.Pick(r, reflect.TypeOf(0), reflect.TypeOf(0.5), gen.AnyType), []byte(gen.Pick(r, "i:", "d:0.", "i:-", "d:")+strings.Repeat("0", n*4)+"1;")
		} else if r.IntN(2) == 0 {
			doc = []byte("a:2:{" + str("none") + string(doc) + fmt.Sprintf("s:%d:\"%s\";i:1;}", len(x), x))
			t = reflect.TypeOf(struct{ A int }{})
		}
	case 10: // struct of many fields, 16 times as many entries
		nf := n / 64
		if n > 4000 {
			nf = 1000
		}
		unknown := gen.Pick(r, 0, 0, 1, 3, 4) // of four keys
		if unknown > 0 {
			c.Count("unknown_keys")
			nf, et, docs = n/16, reflect.TypeOf(uint8(0)), [][]byte{[]byte("i:1;"), []byte("i:9;")}
		}
		fs := make([]reflect.StructField, nf)
		var b bytes.Buffer
		fmt.Fprintf(&b, "a:%d:{", n)
		for i := range fs {
			fs[i] = reflect.StructField{Name: "F" + strconv.Itoa(i), Type: et}
		}
		for i := 0; i < n; i++ {
			if unknown > 0 && i%4 < unknown {
				b.WriteString(str("U" + strconv.Itoa(i)))
			} else {
				b.WriteString(str("F" + strconv.Itoa(i%nf)))
			}
			b.Write(docs[i%nf%len(docs)])
		}
		b.WriteByte('}')
		t, doc, what = reflect.StructOf(fs), b.Bytes(), "struct of many fields"
		c.Count("wide_struct")
	case 11: // one key again and again
		var b bytes.Buffer
		k := gen.Pick(r, "i:0;", str("K1"), str("1"))
		fmt.Fprintf(&b, "a:%d:{", n)
		for i := 0; i < n; i++ {
			b.WriteString(k)
			b.Write(docs[i%len(docs)])
		}
		b.WriteByte('}')
		t, doc, what = gen.Pick(r, reflect.TypeOf(struct{ K1 any }{}), gen.AnyType, reflect.SliceOf(et), reflect.ArrayOf(1, et), reflect.MapOf(reflect.TypeOf(""), et), reflect.StructOf([]reflect.StructField{{Name: "K1", Type: et}})), b.Bytes(), "one key"
	}
	switch r.IntN(8) {
	case 0: // cut short
		doc = doc[:len(doc)-1]
		what += ", cut"
	case 1:
		doc = append(doc, ';')
		what += ", trailing"
	}
	old := r.IntN(4) == 0
	dst := reflect.New(t)
	if old {
		what += ", again"
		c.Unmarshal(doc, dst.Interface())
	}
	return work{fmt.Sprintf("Unmarshal of %s, %q into %s", what, clip(string(doc), 60), clip(t.String(), 100)), func() error {
		d := dst
		if !old {
			d = reflect.New(t)
		}
		return c.Unmarshal(doc, d.Interface())
	}}
}

func (c *C) encodeWork(r *rand.Rand, kind, n int) work {
	var o gen.Opt
	et := slowType(r, &o)
	var vals []reflect.Value
	for i := 0; i < 40; i++ {
		v := gen.Value(r, et, o)
		if b, _ := c.Marshal(v.Interface()); len(b) > 300 {
			v = reflect.Zero(et)
		}
		vals = append(vals, v)
	}
	fill := func(v reflect.Value) {
		for i := 0; i < n; i++ {
			v.Index(i).Set(vals[i%len(vals)])
		}
	}
	slice := func() reflect.Value {
		v := reflect.MakeSlice(reflect.SliceOf(et), n, n)
		fill(v)
		return v
	}
	anys := func(n int) []any {
		l := make([]any, n)
		for i := range l {
			l[i] = vals[i%len(vals)].Interface()
		}
		return l
	}
	var v any
	what := ""
	switch kind {
	case 0, 1, 2:
		route := r.IntN(8)
		what = fmt.Sprintf("levels (route %d)", route)
		switch route {
		case 0:
			x := any(anys(2 * n))
			for i := 0; i < n; i++ {
				x = []any{x}
			}
			v = x
		case 1:
			x := any(anys(2 * n))
			for i := 0; i < n; i++ {
				if i%2 == 0 {
					x = map[string]any{"k": x}
				} else {
					y := x
					x = struct{ A any }{&y}
				}
			}
			v = x
		case 2:
			x := &slowAny{V: anys(2 * n)}
			for i := 0; i < n; i++ {
				x = &slowAny{X: x, V: i}
			}
			v = x
		case 3:
			x := slowAny{V: anys(2 * n)}
			for i := 0; i < n; i++ {
				x = slowAny{L: []slowAny{x}}
			}
			v = x
		case 4:
			x := slowMap{}
			for i := 0; i < 2*n; i++ {
				x[strconv.Itoa(i)] = slowMap{}
			}
			for i := 0; i < n; i++ {
				x = slowMap{"k": x}
			}
			v = x
		case 5:
			x := make(slowIdx, 2*n)
			for i := 0; i < n; i++ {
				x = slowIdx{x}
			}
			v = x
		case 6: // deep, and a leaf everywhere
			x := &slowAny{V: 1}
			for i := 0; i < n; i++ {
				x = &slowAny{X: x, L: []slowAny{{}, {V: &slowAny{}}}, V: vals[i%len(vals)].Interface()}
			}
			v = x
		case 7: // an error at the bottom
			x := any(make(chan int))
			for i := 0; i < n; i++ {
				x = &slowAny{V: x}
			}
			v = x
		}
	case 3, 4:
		v, what = slice().Interface(), "slice"
		switch r.IntN(4) {
		case 0:
			a := reflect.New(reflect.ArrayOf(n, et))
			fill(a.Elem())
			v, what = a.Interface(), "array"
		case 1: // each element its own pointer
			p := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(et)), n, n)
			if et.Kind() != reflect.Pointer {
				for i := 0; i < n; i++ {
					x := reflect.New(et)
					x.Elem().Set(vals[i%len(vals)])
					p.Index(i).Set(x)
				}
				v, what = p.Interface(), "slice of pointers"
			}
		}
	case 5, 6:
		kt := gen.KeyType(r, gen.Opt{Named: true})
		m := reflect.MakeMap(reflect.MapOf(kt, et))
		if r.IntN(3) == 0 {
			m = reflect.MakeMap(reflect.MapOf(kt, gen.AnyType))
		}
		for i := 0; i < n; i++ {
			if k, ok := gen.WideKey(kt, i); ok {
				m.SetMapIndex(k, vals[i%len(vals)])
			}
		}
		if m.Len() < n && n > 4000 { // a small key type
			m = reflect.MakeMap(m.Type())
		}
		v, what = m.Interface(), "map"
	case 7:
		v, what = anys(n), "list of any"
	case 8: // one pointer, map and slice again and again
		l := make([]any, n)
		sh := []any{&vals, map[string]int{"a": 1}, []string{"x"}, &slowAny{V: 1}, &[2]int{}}
		sh[0] = &slowAny{X: &slowAny{}}
		for i := range l {
			l[i] = sh[i%len(sh)]
		}
		v, what = l, "shared parts"
	case 9:
		x := strings.Repeat(gen.Pick(r, "a", `"`, "\x00", "é"), n*8)
		v, what = gen.Pick[any](r, x, []byte(x), []any{x, x}, map[string]string{x: x}, struct{ A, B any }{x, []byte(x)}), "long text"
	case 10:
		nf := 60
		if n > 4000 {
			nf = 960
		}
		fs := make([]reflect.StructField, nf)
		for i := range fs {
			fs[i] = reflect.StructField{Name: "F" + strconv.Itoa(i), Type: et}
			if i%2 == 0 {
				fs[i].Tag = `php:",omitempty"`
			}
		}
		t := reflect.StructOf(fs)
		l := reflect.MakeSlice(reflect.SliceOf(t), 60, 60)
		for k := 0; k < l.Len(); k++ {
			for i := range fs {
				l.Index(k).Field(i).Set(vals[(i+k)%len(vals)])
			}
		}
		v, what = l.Interface(), "structs of many fields"
		c.Count("wide_struct")
	case 11: // small maps and slices in a long row
		l := make([]map[string][]map[int]any, n)
		for i := range l {
			l[i] = map[string][]map[int]any{"k": {{i: vals[i%len(vals)].Interface()}, nil}}
		}
		v, what = l, "row of maps"
	}
	if r.IntN(4) == 0 {
		v = &[]any{v}[0]
	}
	if r.IntN(10) == 0 { // refused at the end
		v = []any{v, gen.Pick[any](r, make(chan int), 1i, func() {})}
		what += ", refused"
	}
	return work{fmt.Sprintf("Marshal of %s of %s", what, clip(et.String(), 100)), func() error {
		_, err := c.Marshal(v)
		return err
	}}
}
