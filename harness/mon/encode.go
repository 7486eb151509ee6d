package mon

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"vmon/gen"
	"vmon/phpdoc"
	"vmon/ref"
)

var (
	static = gen.Opt{Depth: 3, Named: true, Recursive: true, Tags: true, Big: true}
	dynami = gen.Opt{Depth: 3, Any: true, Named: true, Recursive: true, Tags: true, AnyString: true, Big: true}
)

// randType varies depth and features from case to case.
func (c *C) randType(o gen.Opt) (reflect.Type, gen.Opt) {
	o = c.withPool(o)
	o.Depth = 1 + c.R.IntN(4)
	if c.R.IntN(8) == 0 {
		o.MaxLen = 12
	}
	t := gen.Type(c.R, o)
	if c.R.IntN(3) == 0 && o.Tags {
		t = gen.Struct(c.R, o, o.Depth)
	}
	return t, o
}

// kinds counts what a value is made of, as evidence of reach.
func (c *C) kinds(v reflect.Value) {
	n := 0
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if n++; n > 60 || !v.IsValid() || d > 12 {
			return
		}
		c.Counts["kind_"+v.Kind().String()]++
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				c.Counts["nil_"+v.Kind().String()]++
				return
			}
			walk(v.Elem(), d+1)
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len() && i < 4; i++ {
				walk(v.Index(i), d+1)
			}
		case reflect.Map:
			it := v.MapRange()
			for it.Next() {
				walk(it.Value(), d+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), d+1)
			}
		}
	}
	walk(v, 0)
}

func nontrivial(n *phpdoc.Node) bool {
	return len(n.Ent) > 0 || len(n.S) > 1 || len(n.T) > 1
}

func addr(c *C, v reflect.Value) any {
	if c.R.IntN(2) == 0 && v.Kind() != reflect.Pointer {
		return v.Addr().Interface()
	}
	return v.Interface()
}

func init() {
	register(&Monitor{
		ID: "C01", Quick: 160000, Thorough: 4800000, Chunk: 300,
		Rule: "random supported type (no interfaces; named kinds, recursive types, tag options) x 3 boundary-biased values; Unmarshal(Marshal(v)) compared deeply with v; non-trivial: document with content, counted by (type, document)",
		Need: []string{"roundtrips", "kind_struct", "kind_map", "kind_slice", "kind_array", "kind_ptr", "wide", "exact"},
		Run: func(c *C) {
			t, o := c.randType(static)
			if ref.Decodable(t) != nil {
				c.Fail("monitor generated an undecodable type %s", t)
			}
			wide := c.R.IntN(300) == 0
			for i := 0; i < 3; i++ {
				t := t
				v := gen.Value(c.R, t, o)
				if wide {
					v = gen.Wide(c.R, o, 70000)
					t = v.Type()
					c.Count("wide")
				} else if x, ok := gen.ExactIndex(c.I); i == 0 && ok {
					v = gen.Exact(c.R, o, x)
					t = v.Type()
					c.Count("exact")
				}
				b, err := c.Marshal(addr(c, v))
				if err != nil {
					c.Fail("Marshal(%s): %v", show(v.Interface()), err)
				}
				w := reflect.New(t)
				if err := c.Unmarshal(b, w.Interface()); err != nil {
					c.Fail("Unmarshal of Marshal output %q of %s: %v", clip(string(b), 600), show(v.Interface()), err)
				}
				if d := ref.Equal(v, w.Elem(), ref.EqOpt{NilSlice: true, NilPtr: true, Skipped: true, NegZero: true}); d != "" {
					c.Fail("round trip of %s through %q changed it: %s", show(v.Interface()), clip(string(b), 600), d)
				}
				c.Count("roundtrips")
				c.CountN("bytes", len(b))
				c.kinds(v)
				c.Eval(len(b) > 8, typeKey(t), string(b))
				c.Sample("%s <-> %q", typeKey(t), b)
			}
		},
	})

	register(&Monitor{
		ID: "C02", Quick: 240000, Thorough: 4800000, Chunk: 300,
		Rule: "random supported type incl. interfaces with dynamic values x 3 values; output parsed by a strict independent PHP parser and compared node by node with the Go value; non-trivial: document with content, counted by (type, document)",
		Need: []string{"documents", "wide", "exact", "kind_interface", "kind_map", "kind_struct"},
		Run: func(c *C) {
			t, o := c.randType(dynami)
			wide := c.R.IntN(300) == 0
			for i := 0; i < 3; i++ {
				t := t
				v := gen.Value(c.R, t, o)
				if wide {
					v = gen.Wide(c.R, o, 70000)
					t = v.Type()
					c.Count("wide")
				} else if x, ok := gen.ExactIndex(c.I); i == 0 && ok {
					v = gen.Exact(c.R, o, x)
					t = v.Type()
					c.Count("exact")
				}
				b, err := c.Marshal(addr(c, v))
				if err != nil {
					c.Fail("Marshal(%s): %v", show(v.Interface()), err)
				}
				n := c.parse(v.Interface(), b)
				if err := ref.CheckEnc(v, n); err != nil {
					c.Fail("Marshal(%s) = %q: %v", show(v.Interface()), clip(string(b), 600), err)
				}
				c.Count("documents")
				c.CountN("bytes", len(b))
				c.Max("bytes", len(b))
				c.kinds(v)
				c.Eval(nontrivial(n), typeKey(t), string(b))
				c.Sample("%s -> %q", typeKey(t), b)
			}
		},
	})

	register(&Monitor{
		ID: "C07", Quick: 12000, Thorough: 360000, Chunk: 150,
		Rule: "50 float64 and 50 float32 bit patterns per case (specials, boundaries, random bits) at 12 positions, plus decimal tokens; bit-exact both ways; non-trivial: distinct bit pattern or token",
		Need: []string{"f64", "f32", "tokens", "rounds_once", "overflow_tokens"},
		Run:  runC07,
	})

	register(&Monitor{
		ID: "C17", Quick: 32000, Thorough: 960000, Chunk: 250,
		Rule: "random type x value encoded alone and then statically and dynamically wrapped in 14 ways (pointer, interface, slice, array, map, struct field, pointer field, nested interface); the wrapped bytes must contain the same encoding (map entries sorted); non-trivial: counted by (type, document)",
		Need: []string{"placements", "unsupported_placements", "wide", "exact"},
		Run:  runC17,
	})
}

type fbox struct {
	F  float64  `php:"f"`
	S  float64  `php:"s,string"`
	P  *float64 `php:"p"`
	PS *float64 `php:"ps,string"`
	A  any      `php:"a"`
	L  []float64
	R  [1]float64
	M  map[string]float64
	D  []any
	N  gen.NFloat64
	NS gen.NFloat64 `php:"ns,string"`
	AS any          `php:"as,string"`
}

type gbox struct {
	F  float32  `php:"f"`
	S  float32  `php:"s,string"`
	P  *float32 `php:"p"`
	PS *float32 `php:"ps,string"`
	L  []float32
	R  [1]float32
	M  map[string]float32
	N  gen.NFloat32
	NS gen.NFloat32 `php:"ns,string"`
	A  any
	AS any `php:"as,string"`
	D  []any
}

func same64(a, b float64) bool {
	return math.IsNaN(a) && math.IsNaN(b) || math.Float64bits(a) == math.Float64bits(b)
}

func same32(a, b float32) bool {
	return a != a && b != b || math.Float32bits(a) == math.Float32bits(b)
}

func runC07(c *C) {
	for i := 0; i < 50; i++ {
		f := gen.Float64(c.R)
		b, err := c.Marshal(f)
		if err != nil {
			c.Fail("Marshal(%x): %v", f, err)
		}
		n := c.parse(f, b)
		if err := ref.CheckEnc(reflect.ValueOf(f), n); err != nil {
			c.Fail("float64 %x: %v", f, err)
		}
		var g float64
		if err := c.Unmarshal(b, &g); err != nil || !same64(f, g) {
			c.Fail("float64 bits %x through %q came back as %x (%v)", math.Float64bits(f), b, math.Float64bits(g), err)
		}
		x := fbox{F: f, S: f, P: &f, PS: &f, A: f, L: []float64{f}, R: [1]float64{f}, M: map[string]float64{"k": f}, D: []any{f}, N: gen.NFloat64(f), NS: gen.NFloat64(f), AS: f}
		b, err = c.Marshal(x)
		if err != nil {
			c.Fail("Marshal(%+v): %v", x, err)
		}
		if err := ref.CheckEnc(reflect.ValueOf(x), c.parse(x, b)); err != nil {
			c.Fail("float64 %x in %q: %v", f, b, err)
		}
		var y fbox
		if err := c.Unmarshal(b, &y); err != nil {
			c.Fail("Unmarshal(%q): %v", b, err)
		}
		y.AS = f // the string option does not apply when decoding interfaces
		if d := ref.Equal(reflect.ValueOf(x).Field(0), reflect.ValueOf(y).Field(0), ref.EqOpt{}); d != "" {
			c.Fail("float64 %x in struct: %s", f, d)
		}
		xv, yv := reflect.ValueOf(x), reflect.ValueOf(y)
		for k := 0; k < xv.NumField(); k++ {
			name := xv.Type().Field(k).Name
			if name == "D" {
				m, _ := y.D[0].(float64)
				if !same64(m, f) {
					c.Fail("float64 %x in []any came back as %v", f, y.D[0])
				}
				continue
			}
			if d := ref.Equal(xv.Field(k), yv.Field(k), ref.EqOpt{}); d != "" {
				c.Fail("float64 %x in field %s of %q: %s", f, name, b, d)
			}
		}
		c.Count("f64")
		c.Eval(true, "f64", strconv.FormatUint(math.Float64bits(f), 16))
		c.Sample("float64 bits %016x -> %q", math.Float64bits(f), b)
	}
	for i := 0; i < 50; i++ {
		f := gen.Float32(c.R)
		x := gbox{F: f, S: f, P: &f, PS: &f, L: []float32{f}, R: [1]float32{f}, M: map[string]float32{"k": f}, N: gen.NFloat32(f), NS: gen.NFloat32(f), A: f, AS: f, D: []any{f}}
		b, err := c.Marshal(x)
		if err != nil {
			c.Fail("Marshal(%+v): %v", x, err)
		}
		if err := ref.CheckEnc(reflect.ValueOf(x), c.parse(x, b)); err != nil {
			c.Fail("float32 %x in %q: %v", math.Float32bits(f), b, err)
		}
		var y gbox
		if err := c.Unmarshal(b, &y); err != nil {
			c.Fail("Unmarshal(%q): %v", b, err)
		}
		for _, g := range []float32{y.F, y.S, *y.P, *y.PS, y.L[0], y.R[0], y.M["k"], float32(y.N), float32(y.NS)} {
			if !same32(f, g) {
				c.Fail("float32 bits %x through %q came back as %x", math.Float32bits(f), b, math.Float32bits(g))
			}
		}
		// the shortest float32 text read as float64 rounds back to the same float32
		if g, ok := y.A.(float64); !ok || !same32(float32(g), f) {
			c.Fail("float32 %x in any came back as %v", math.Float32bits(f), y.A)
		}
		c.Count("f32")
		c.Eval(true, "f32", strconv.FormatUint(uint64(math.Float32bits(f)), 16))
	}
	for i := 0; i < 50; i++ {
		t := c.decimal()
		want, perr := strconv.ParseFloat(t, 64)
		doc := []byte("d:" + t + ";")
		var g float64
		err := c.Unmarshal(doc, &g)
		var a any
		err2 := c.Unmarshal(doc, &a)
		var s struct {
			S float64 `php:",string"`
		}
		err3 := c.Unmarshal(phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("S"), Val: phpdoc.Str(t)}).Bytes(), &s)
		if perr != nil {
			if err == nil || err2 == nil || err3 == nil {
				c.Fail("float token %q is out of range but accepted: %v %v %v", t, err, err2, err3)
			}
			c.Count("overflow_tokens")
		} else {
			if err != nil || !same64(g, want) {
				c.Fail("float token %q decoded to %v (%v), want %v", t, g, err, want)
			}
			if h, ok := a.(float64); err2 != nil || !ok || !same64(h, want) {
				c.Fail("float token %q decoded into any as %v (%v), want %v", t, a, err2, want)
			}
			if err3 != nil || !same64(s.S, want) {
				c.Fail("quoted float %q decoded to %v (%v), want %v", t, s.S, err3, want)
			}
			var f32 float32
			err := c.Unmarshal(doc, &f32)
			over := math.Abs(want) > 3.5e38 && !math.IsInf(want, 0)
			fits := math.Abs(want) <= math.MaxFloat32
			if over && err == nil || fits && err != nil {
				c.Fail("float token %q into float32: %v, %v", t, f32, err)
			}
			if over {
				c.Count("overflow_tokens")
			} else if w, perr := strconv.ParseFloat(t, 32); perr == nil {
				var q struct {
					S float32   `php:",string"`
					L []float32 `php:"l"`
				}
				err2 := c.Unmarshal(phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("S"), Val: phpdoc.Str(t)}, phpdoc.Entry{Key: phpdoc.Str("l"), Val: phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Int(0), Val: phpdoc.FloatText(t)})}).Bytes(), &q)
				if err != nil || !same32(f32, float32(w)) || err2 != nil || !same32(q.S, float32(w)) || !same32(q.L[0], float32(w)) {
					c.Fail("float token %q decoded into float32 as %x %x %x (%v, %v), want %x", t, f32, q.S, q.L, err, err2, float32(w))
				}
				if float32(want) != float32(w) {
					c.Count("rounds_once")
				}
			}
		}
		c.Count("tokens")
		c.Eval(true, "tok", t)
	}
}

// decimal generates decimal float text, often close to a rounding boundary.
func (c *C) decimal() string {
	r := c.R
	switch r.IntN(7) {
	case 0:
		return gen.Pick(r, "1e400", "-1e309", "1.7976931348623159e308", "1.7976931348623157e308", "1e-400", "2.4703282292062327e-324", "2.4703282292062328e-324", "1e39", "-3.5e38", "3.4028234e38", "9007199254740993", "9007199254740992.9999999999", "0.500000000000000166533453693773481063544750213623046875", "1e23", "8.5e22", "5e-324", "123456789012345678901234567890", "0.000001", "1E+25", "1.0E-10")
	case 1:
		// halfway between two adjacent floats, with many digits
		f := math.Abs(gen.Float64(r))
		if f > 1e300 || f < 1e-300 || math.IsNaN(f) {
			f = 1.5
		}
		return strconv.FormatFloat(f, 'f', 30, 64) + gen.Pick(r, "", "1", "5", "9")
	case 2:
		return fmt.Sprintf("%d.%de%d", r.IntN(1000), r.IntN(1000000), r.IntN(700)-350)
	case 3:
		return strconv.FormatInt(int64(r.Uint64()), 10)
	case 4:
		// next to the middle of two adjacent float32
		f := math.Abs(float64(gen.Float32(r)))
		if f > 1e30 || f < 1e-12 || math.IsNaN(f) {
			f = 1.5
		}
		m := (f + float64(math.Nextafter32(float32(f), math.MaxFloat32))) / 2
		t := strconv.FormatFloat(m, 'f', 120, 64) // exact
		switch r.IntN(3) {
		case 0:
			return t
		case 1:
			return t + "1"
		}
		// less by far less than a float64 can tell
		return strings.TrimRight(new(big.Float).SetPrec(400).Sub(big.NewFloat(m).SetPrec(400), big.NewFloat(m*1e-25)).Text('f', 90), "0") + "0"
	}
	f := gen.Float64(r)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		f = 0.1
	}
	return strconv.FormatFloat(f, gen.Pick(r, byte('e'), byte('g'), byte('G'), byte('E')), gen.Pick(r, -1, 17, 20, 5), 64)
}

// place builds every wrapping of v. Each returns the wrapped value and the
// expected bytes around the encoding of v.
type placement struct {
	name      string
	v         any
	pre, post string
}

func placements(v reflect.Value) []placement {
	t := v.Type()
	var ps []placement
	add := func(name string, x reflect.Value, pre, post string) {
		ps = append(ps, placement{name, x.Interface(), pre, post})
	}
	mk := func(t reflect.Type) reflect.Value { return reflect.New(t).Elem() }
	strukt := func(ft reflect.Type, opt string) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "F", Type: ft, Tag: reflect.StructTag(`php:"f` + opt + `"`)}})
	}
	const fpre, fpost = `a:1:{s:1:"f";`, `}`
	const lpre, lpost = `a:1:{i:0;`, `}`
	ptr := reflect.New(t)
	ptr.Elem().Set(v)
	isPtr := t.Kind() == reflect.Pointer
	if !isPtr {
		add("*T", ptr, "", "")
		s := mk(strukt(reflect.PointerTo(t), ""))
		s.Field(0).Set(ptr)
		add("struct{*T}", s, fpre, fpost)
		l := reflect.MakeSlice(reflect.SliceOf(ptr.Type()), 1, 1)
		l.Index(0).Set(ptr)
		add("[]*T", l, lpre, lpost)
		ps = append(ps, placement{"[]any{*T}", []any{ptr.Interface()}, lpre, lpost})
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), ptr.Type()))
		m.SetMapIndex(reflect.ValueOf("f"), ptr)
		add("map[string]*T", m, fpre, fpost)
	}
	s := mk(strukt(t, ""))
	s.Field(0).Set(v)
	add("struct{T}", s, fpre, fpost)
	add("*struct{T}", s.Addr(), fpre, fpost)
	l := reflect.MakeSlice(reflect.SliceOf(t), 1, 1)
	l.Index(0).Set(v)
	if t.Kind() != reflect.Uint8 {
		add("[]T", l, lpre, lpost)
		ps = append(ps, placement{"any([]T)", []any{l.Interface()}, lpre + lpre, lpost + lpost})
	}
	a := mk(reflect.ArrayOf(1, t))
	a.Index(0).Set(v)
	add("[1]T", a, lpre, lpost)
	ps = append(ps, placement{"any([1]T)", map[string]any{"f": a.Interface()}, fpre + lpre, lpost + fpost})
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), t))
	m.SetMapIndex(reflect.ValueOf("f"), v)
	add("map[string]T", m, fpre, fpost)
	ps = append(ps, placement{"any(map[string]T)", []any{m.Interface()}, lpre + fpre, fpost + lpost})
	mi := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(uint8(0)), t))
	mi.SetMapIndex(reflect.ValueOf(uint8(0)), v)
	add("map[uint8]T", mi, lpre, lpost)
	x := v.Interface()
	ps = append(ps,
		placement{"[]any{T}", []any{x}, lpre, lpost},
		placement{"map[string]any{T}", map[string]any{"f": x}, fpre, fpost},
		placement{"map[int]any{T}", map[int]any{0: x}, lpre, lpost},
		placement{"[1]any{T}", [1]any{x}, lpre, lpost},
		placement{"struct{any}", struct {
			F any `php:"f"`
		}{x}, fpre, fpost},
		placement{"*any", &x, "", ""},
		placement{"[]any{[]any{T}}", []any{[]any{x}}, lpre + lpre, lpost + lpost},
		placement{"map[string]any{struct{T}}", map[string]any{"f": s.Interface()}, fpre + fpre, fpost + fpost},
		placement{"[]any{*struct{T}}", []any{s.Addr().Interface()}, lpre + fpre, fpost + lpost},
		placement{"struct{*any}", struct {
			F *any `php:"f"`
		}{&x}, fpre, fpost},
	)
	return ps
}

func runC17(c *C) {
	t, o := c.randType(dynami)
	if c.R.IntN(3) == 0 {
		o.MaxMap = 1
	}
	for t.Kind() == reflect.Interface {
		t, o = c.randType(dynami)
	}
	if c.R.IntN(6) == 0 {
		// each scalar type in each simple shape
		s := gen.Pick(c.R, gen.Scalars()...)
		t = gen.Pick(c.R, s, s, reflect.SliceOf(s), reflect.ArrayOf(gen.Pick(c.R, 1, 4, 8, 12, 16, 16, 20, 32, 64), s), reflect.PointerTo(s), reflect.MapOf(gen.KeyType(c.R, o), s), reflect.StructOf([]reflect.StructField{{Name: "X", Type: s}}), reflect.ArrayOf(2, reflect.PointerTo(s)))
		c.Count("simple_shapes")
	}
	unsupported := c.I%40 == 0
	if unsupported {
		bad := gen.Pick(c.R, reflect.TypeOf(make(chan int)), reflect.TypeOf(func() {}), reflect.TypeOf(complex64(1)), reflect.TypeOf(uintptr(1)), reflect.TypeOf(map[float64]int{}), reflect.TypeOf(map[bool]int{}), reflect.TypeOf(map[[2]int]string{}), reflect.TypeOf(map[any]any{}), reflect.TypeOf(map[float32]any{}), reflect.TypeOf(map[struct{}][]int{}), reflect.TypeOf(map[*int]bool{}), reflect.TypeOf(struct{ gen.RList }{}))
		t = bad
		if c.R.IntN(2) == 0 {
			t = reflect.StructOf([]reflect.StructField{{Name: "X", Type: bad}})
		}
	}
	var v reflect.Value
	if unsupported && (t.Kind() == reflect.Map || t.Kind() == reflect.Struct && t.Field(0).Type.Kind() == reflect.Map) {
		v = reflect.New(t).Elem()
	} else {
		v = gen.Value(c.R, t, o)
	}
	if !unsupported && c.R.IntN(150) == 0 {
		v = gen.Wide(c.R, o, 20000)
		t = v.Type()
		c.Count("wide")
	} else if !unsupported && c.R.IntN(4) == 0 {
		v = gen.Exact(c.R, o, c.R.IntN(gen.ExactCases))
		t = v.Type()
		c.Count("exact")
	}
	if m := v; unsupported {
		if t.Kind() == reflect.Struct && t.Field(0).Name == "X" {
			m = v.Field(0)
		}
		// A key type is refused whatever the map holds.
		if m.Kind() == reflect.Map {
			switch mt := m.Type(); c.R.IntN(3) {
			case 0:
				m.SetZero()
			case 1:
				m.Set(reflect.MakeMap(mt))
			default:
				m.Set(reflect.MakeMap(mt))
				m.SetMapIndex(reflect.Zero(mt.Key()), reflect.Zero(mt.Elem()))
			}
		}
	}
	base, berr := c.Marshal(v.Interface())
	if unsupported {
		if berr == nil {
			c.Fail("Marshal(%s) of an unsupported type = %q", show(v.Interface()), base)
		}
		for _, p := range placements(v) {
			if b, err := c.Marshal(p.v); err == nil {
				c.Fail("%s is refused alone but accepted as %s: %q", t, p.name, clip(string(b), 300))
			}
			c.Count("unsupported_placements")
		}
		c.Eval(true, typeKey(t), "unsupported")
		return
	}
	if berr != nil {
		c.Fail("Marshal(%s): %v", show(v.Interface()), berr)
	}
	n := c.parse(v.Interface(), base)
	want := canon(n)
	for _, p := range placements(v) {
		b, err := c.Marshal(p.v)
		if err != nil {
			c.Fail("%s is accepted alone but refused as %s: %v", show(v.Interface()), p.name, err)
		}
		if len(b) < len(p.pre)+len(p.post) || !bytes.HasPrefix(b, []byte(p.pre)) || !bytes.HasSuffix(b, []byte(p.post)) {
			c.Fail("%s as %s: wrapping of %q is wrong", show(v.Interface()), p.name, clip(string(b), 400))
		}
		in := b[len(p.pre) : len(b)-len(p.post)]
		if !bytes.Equal(in, base) {
			m, err := phpdoc.Parse(in)
			if err != nil || !bytes.Equal(canon(m), want) {
				c.Fail("%s is %q alone but %q as %s", show(v.Interface()), clip(string(base), 300), clip(string(in), 300), p.name)
			}
		}
		c.Count("placements")
	}
	c.Eval(nontrivial(n), typeKey(t), string(want))
	c.Sample("%s: %q in %d placements", typeKey(t), base, len(placements(v)))
}
