package mon

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"reflect"
	"runtime"
	"strings"

	php "github.com/trim21/go-phpserialize"

	"vmon/gen"
	"vmon/phpdoc"
	"vmon/ref"
)

func init() {
	register(&Monitor{
		ID: "C12", NoGiant: true, Quick: 1170, Thorough: 54000, Chunk: 2, Cross: true,
		Rule: "groups of calls generated from one seed (ordinary, recursive, unsupported, mutually poisoning, cyclic and custom types, well-formed and malformed documents), each group run by 8 cases in different processes: other order, repetitions, other calls before and between (failures at depth, cycles, panics, re-entrant and erroring methods, huge outputs, deep documents, garbage collections); all outcomes of the same call are compared, within and across processes; non-trivial: distinct (call, predecessor) pairs",
		Need: []string{"calls", "repeated", "digests_compared", "outcome_ok", "outcome_error", "outcome_panic", "hostile", "deep_cycle", "mutated_in_place", "custom", "crowd", "storm"},
		Run:  runC12,
	})
}

// types of which some parts are refused
type (
	hBadC struct {
		X int
		C chan int
	}
	hA struct {
		B *hB `php:"b"`
		N int
	}
	hB struct {
		A *hA
		C hBadC `php:"c,omitempty"`
		S string
	}
	hC struct {
		L []hC
		M map[string]*hD
		N string
	}
	hD struct {
		C *hC
		P **int `php:"-"`
		F float64
	}
	hE struct {
		C *hC
		F func() `php:"f,omitempty"`
	}
	hG[T any] struct {
		V    T
		Next *hG[T]
	}
	hP struct {
		A *hP
		Q *hQ
	}
	hQ struct {
		P *hP
		Z **hP
	}
	hEmb struct {
		gen.RList
		X *hP
	}
	hK struct {
		M map[float64]int
		K *hK
		L []hG[int]
	}
	hL  []hL2
	hL2 struct {
		L hL
		U complex128 `php:",omitempty"`
	}
	hOK struct {
		G hG[string]
		A *hA
		L hL
		C hC
	}
)

var histTypes = []reflect.Type{
	reflect.TypeOf(hBadC{}), reflect.TypeOf(hA{}), reflect.TypeOf(&hA{}), reflect.TypeOf(hB{}), reflect.TypeOf(&hB{}), reflect.TypeOf(hC{}), reflect.TypeOf(hD{}), reflect.TypeOf([]hD{}), reflect.TypeOf(hE{}), reflect.TypeOf(hG[int]{}), reflect.TypeOf(hG[chan int]{}),
	reflect.TypeOf(hG[hA]{}), reflect.TypeOf(hG[hC]{}), reflect.TypeOf(hP{}), reflect.TypeOf(hQ{}), reflect.TypeOf(map[string]hP{}), reflect.TypeOf(hEmb{}), reflect.TypeOf(hK{}), reflect.TypeOf(hL{}), reflect.TypeOf(hL2{}), reflect.TypeOf(hOK{}),
	reflect.TypeOf([]*hB{}), reflect.TypeOf(map[string]hB{}), reflect.TypeOf([2]hA{}), reflect.TypeOf(struct{ H hC }{}), reflect.TypeOf(map[int]*hA{}), reflect.TypeOf(hG[**int]{}), reflect.TypeOf(hG[func()]{}), reflect.TypeOf(map[string]chan int{}), reflect.TypeOf([]chan int{}), reflect.TypeOf((*chan int)(nil)), reflect.TypeOf((**int)(nil)),
}

// sM is scripted by its value alone.
type sM struct {
	Mode int
	V    any
}

var lookalikes = gen.Twins()

var errScript = errors.New("scripted error")

func (m sM) MarshalPHP() ([]byte, error) {
	switch m.Mode {
	case 0:
		return php.Marshal(m.V)
	case 1:
		return []byte("partial"), errScript
	case 2:
		panic("scripted panic")
	case 3:
		php.Marshal(make(chan int))
		return []byte("i:3;"), nil
	case 4: // returns what it got although it failed
		b, err := php.Marshal([]any{m.V, func() {}})
		return b, err
	}
	return []byte(`s:1:"x";`), nil
}

// sU reacts to what it is given.
type sU struct{ S string }

func (u *sU) UnmarshalPHP(b []byte) error {
	u.S = "got " + string(b)
	switch b[0] {
	case 'b':
		return errScript
	case 'd':
		panic("scripted panic")
	case 's':
		var x int
		return php.Unmarshal(b, &x)
	case 'a':
		var x []sU
		err := php.Unmarshal(b, &x)
		u.S += fmt.Sprint(x, err)
	}
	return nil
}

func init() {
	gen.AnyDoc[reflect.TypeOf(sU{})] = true
	gen.Fillers[reflect.TypeOf(sM{})] = func(r gen.R, v reflect.Value) {
		v.Set(reflect.ValueOf(sM{Mode: gen.Pick(r, 0, 0, 0, 1, 2, 3, 4, 5), V: map[string]any{"n": r.IntN(9)}}))
	}
}

// deepWrap puts v below d levels of containers.
func deepWrap(r gen.R, v any, d int, kind int) any {
	for i := 0; i < d; i++ {
		switch (kind + i) % 4 {
		case 0:
			v = []any{v}
		case 1:
			v = map[string]any{"k": v}
		case 2:
			x := v
			v = &x
		case 3:
			v = &struct{ F any }{v}
		}
	}
	return v
}

type hop struct {
	key   string
	what  string
	run   func(c *C) string
	deps  []any // kept alive and at the same address
	plain *call
}

func outcome(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%s #%x", clip(s, 200), h.Sum64())
}

func canonOutcome(s string) string {
	if strings.HasPrefix(s, "ok a:") || strings.HasPrefix(s, "ok O:") {
		if n, err := phpdoc.Parse([]byte(s[3:])); err == nil {
			return "ok " + string(canon(n))
		}
	}
	return s
}

// fill gives a value of any type, leaving out what cannot be filled.
func fillAny(r gen.R, t reflect.Type, o gen.Opt) (v reflect.Value) {
	v = reflect.New(t).Elem()
	func() {
		defer func() { recover() }()
		gen.Fill(r, v, o, 3)
	}()
	return v
}

// group builds the calls of a group; the same in every process.
func (c *C) group(r *rand.Rand, g int) (ops []*hop) {
	o := dynami
	o.Depth = 1 + r.IntN(3)
	o.MaxMap = 1 // more entries would be visited in any order
	o.Dyn = gen.NewPool(rand.New(rand.NewPCG(uint64(g), 7)), o, 12)
	o.Leaf = []reflect.Type{reflect.TypeOf(sM{}), reflect.TypeOf(&sM{}), gen.AnyType, reflect.TypeOf(0), reflect.TypeOf("")}
	o.NoStr = true
	addCall := func(p *call) {
		ops = append(ops, &hop{key: fmt.Sprintf("%d/%d", g, len(ops)), what: p.what, plain: p, run: func(c *C) string { return canonOutcome(p.run()) }})
	}
	add := func(what string, f func(c *C) string) {
		ops = append(ops, &hop{key: fmt.Sprintf("%d/%d", g, len(ops)), what: what, run: f})
	}
	do := o
	do.Leaf = []reflect.Type{reflect.TypeOf(sU{}), reflect.TypeOf(&sU{}), gen.AnyType, reflect.TypeOf(0), gen.BytesType}
	doc := func(t reflect.Type) []byte {
		b := tame(gen.DocFor(r, t, 3, gen.Pick(r, 0, 0, 12), true).Bytes())
		if r.IntN(5) == 0 {
			b = tame(mutate(r, b))
		}
		return b
	}
	for i := 0; i < 3; i++ {
		t := gen.Type(r, o)
		addCall(&call{what: "value", val: fillAny(r, t, o).Addr().Interface()})
		t = gen.Type(r, do)
		addCall(&call{what: "document", doc: doc(t), typ: t})
	}
	for i := 0; i < 4; i++ { // related types, some refused
		t := gen.Pick(r, histTypes...)
		if r.IntN(3) == 0 {
			t = wrapType(r, t, 1+r.IntN(2))
		}
		addCall(&call{what: "value of related type", val: fillAny(r, t, o).Interface()})
		if r.IntN(2) == 0 {
			addCall(&call{what: "zero value of related type", val: reflect.Zero(t).Interface()})
		}
		addCall(&call{what: "document for related type", doc: doc(t), typ: t})
	}
	for i := 0; i < 2; i++ { // random struct with a bad part
		t := wrapType(r, gen.Pick(r, badEnc...), 1+r.IntN(3))
		addCall(&call{what: "value of unsupported type", val: reflect.Zero(t).Interface()})
		v := fillAny(r, t, o)
		if r.IntN(2) == 0 {
			addCall(&call{what: "value of unsupported type in any", val: []any{1, v.Interface()}})
		}
		t = wrapType(r, gen.Pick(r, oddTypes...), 1+r.IntN(3))
		addCall(&call{what: "document for unsupported type", doc: doc(t), typ: t})
	}
	for i := 0; i < 2; i++ {
		t := gen.Pick(r, recTypes...)
		addCall(&call{what: "value of recursive type", val: fillAny(r, t, o).Interface()})
		addCall(&call{what: "document for recursive type", doc: doc(t), typ: t})
	}
	// different types that print alike, in the same places
	family, shape, wrap := gen.Pick(r, lookalikes[:]...), r.Uint64(), r.IntN(3)
	for _, t := range family {
		if ref.Decodable(t) == nil && (t.Kind() == reflect.String || t.Kind() >= reflect.Int && t.Kind() <= reflect.Uint64) && shape%2 == 0 {
			t = reflect.MapOf(t, reflect.TypeOf(0))
		}
		t = wrapType(rand.New(rand.NewPCG(shape, 5)), t, wrap)
		addCall(&call{what: "value of a type that looks like others", val: fillAny(r, t, o).Interface()})
		addCall(&call{what: "document for a type that looks like others", doc: gen.DocFor(r, t, 3, 0, true).Bytes(), typ: t})
	}
	// the same memory, broken and repaired
	seed, d, kind := r.Uint64(), gen.Pick(r, 3, 990, 1000, 1001, 1100, 2100), r.IntN(4)
	add("value broken and repaired", func(c *C) string {
		c.Count("mutated_in_place")
		q := rand.New(rand.NewPCG(seed, 3))
		leaf := []any{1, "x", map[string]any{"y": 2}, nil}
		x := deepWrap(q, leaf, d, kind)
		var out []string
		do := func() {
			b, err, p := safeMarshal(x)
			if p != nil {
				out = append(out, "panic "+fmt.Sprint(p.V))
				return
			}
			if err != nil {
				out = append(out, "error "+err.Error())
				return
			}
			h := fnv.New64a()
			h.Write(b)
			out = append(out, fmt.Sprintf("ok %d %x", len(b), h.Sum64()))
		}
		for _, bad := range []any{nil, make(chan int), leaf, nil, sM{Mode: 2}, x, 5, sM{Mode: 1}, func() {}, sM{Mode: 3}, []any{sM{Mode: 4}}, "end"} {
			leaf[3] = bad
			do()
		}
		leaf[3] = nil
		return strings.Join(out, "\n")
	})
	// a shared part that others use while failing
	shared := []any{map[string]any{"s": []any{1, 2}}, &gen.RAny{V: 1, Next: &gen.RAny{V: "t"}}, []int{1, 2, 3}, map[string][]any{"z": {nil}}}
	ops[len(ops)-1].deps = []any{shared}
	d2, k2 := gen.Pick(r, 1, 500, 1001, 1500), r.IntN(4)
	add("deep value with shared parts", func(c *C) string {
		// for every process the depth is the same, the parts are where other calls failed
		x := deepWrap(nil, shared, d2, k2)
		return canonOutcome((&call{val: x}).run())
	})
	ops[len(ops)-1].deps = []any{shared}
	// erroring and panicking methods at the top and inside
	for i := 0; i < 2; i++ {
		m := sM{Mode: r.IntN(6), V: []any{"v", r.IntN(100)}}
		var v any = gen.Pick[any](r, m, &m, []any{1, m}, map[string]sM{"k": m}, struct{ M *sM }{&m}, [1]any{&m})
		addCall(&call{what: "custom", val: v})
		addCall(&call{what: "custom", doc: []byte(gen.Pick(r, `b:1;`, `d:1;`, `s:1:"x";`, `a:1:{i:0;s:1:"x";}`, `a:2:{i:0;i:1;i:1;d:1;}`, `a:2:{i:0;i:1;i:1;b:0;}`, `N;`, `i:7;`)), typ: gen.Pick(r, reflect.TypeOf(sU{}), reflect.TypeOf([]sU{}), reflect.TypeOf([]*sU{}), reflect.TypeOf([2]sU{}))})
	}
	return ops
}

// disturb makes a call whose only purpose is to leave traces.
func (c *C) disturb(r *rand.Rand, ops []*hop) string {
	c.Count("hostile")
	kind := r.IntN(12)
	switch r.IntN(3000) {
	case 0, 1, 4:
		c.crowd(r)
		return "crowd"
	case 2, 3:
		c.storm(r)
		return "storm"
	}
	switch kind {
	case 0: // a long cycle
		n := gen.Pick(r, 2, 10, 1002, 3000)
		first := &gen.RAny{V: 0}
		x := first
		for i := 0; i < n; i++ {
			x.Next = &gen.RAny{V: i}
			x = x.Next
		}
		x.Next = first
		safeMarshal(first)
		x.Next = nil
		if b, err, p := safeMarshal(first); err != nil || p != nil || len(b) == 0 {
			c.Fail("a list of %d elements that was cyclic before: %v %v", n, err, p)
		}
		c.Count("deep_cycle")
	case 1: // fails below many levels, with parts other calls use
		var parts []any
		for _, o := range ops {
			parts = append(parts, o.deps...)
			if o.plain != nil && o.plain.doc == nil && r.IntN(3) == 0 {
				parts = append(parts, o.plain.val)
			}
		}
		bad := gen.Pick[any](r, make(chan int), sM{Mode: 1}, sM{Mode: 2}, complex(1, 1), &sM{Mode: 4})
		safeMarshal(deepWrap(r, []any{parts, bad}, gen.Pick(r, 0, 5, 999, 1002, 1500), r.IntN(4)))
		nested := any(bad)
		for _, p := range parts {
			nested = []any{p, nested}
		}
		safeMarshal(deepWrap(r, nested, gen.Pick(r, 0, 1001), r.IntN(4)))
	case 2:
		safeMarshal(strings.Repeat("h", 1<<uint(r.IntN(19))))
	case 3:
		var x any
		safeUnmarshal(deepDoc(r, gen.Pick(r, 10, 10, 100, 1000, 1000, 10001), "as").Bytes(), &x)
	case 4:
		h := hostile(r)
		h[r.IntN(len(h))].run()
	case 5: // truncated document of a call of the group
		o := ops[r.IntN(len(ops))]
		if o.plain != nil && o.plain.doc != nil && len(o.plain.doc) > 0 {
			safeUnmarshal(o.plain.doc[:r.IntN(len(o.plain.doc))], reflect.New(o.plain.typ).Interface())
			safeUnmarshal(tame(mutate(r, bytes.Clone(o.plain.doc))), reflect.New(o.plain.typ).Interface())
		}
	case 6: // types made of the types of the group
		o := ops[r.IntN(len(ops))]
		if o.plain != nil && o.plain.typ != nil {
			t := wrapType(r, o.plain.typ, 1+r.IntN(2))
			safeMarshal(reflect.Zero(t).Interface())
			safeUnmarshal([]byte(gen.Pick(r, "a:0:{}", "N;", `a:1:{s:1:"B";i:1;}`, `a:1:{i:0;a:0:{}}`)), reflect.New(t).Interface())
		}
	case 7:
		if r.IntN(5) == 0 {
			runtime.GC()
		}
	case 8: // an unsupported type that contains supported ones
		o := ops[r.IntN(len(ops))]
		if o.plain != nil {
			in := o.plain.typ
			if in == nil {
				in = reflect.TypeOf(o.plain.val)
			}
			if in != nil {
				t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: in}, {Name: "B", Type: gen.Pick(r, badEnc...)}, {Name: "C", Type: in}})
				safeMarshal(reflect.Zero(t).Interface())
				safeMarshal(reflect.New(t).Interface())
				safeUnmarshal([]byte(`a:2:{s:1:"A";N;s:1:"B";i:1;}`), reflect.New(t).Interface())
			}
		}
	case 9:
		safeMarshal(reflect.Zero(gen.Pick(r, histTypes...)).Interface())
	case 10:
		safeUnmarshal([]byte(gen.Pick(r, "a:0:{}", "N;", `a:1:{s:1:"b";a:0:{}}`, `a:1:{s:1:"C";a:0:{}}`)), reflect.New(gen.Pick(r, histTypes...)).Interface())
	case 11:
		safeMarshal([]any{sM{Mode: 0, V: sM{Mode: 0, V: []any{1, sM{Mode: 1}}}}})
		var x []sU
		safeUnmarshal([]byte(`a:2:{i:0;a:2:{i:0;s:1:"x";i:1;a:1:{i:0;d:1;}}i:1;b:1;}`), &x)
	}
	return fmt.Sprint("d", kind)
}

var crowded int

// crowd has very many types used by one process, each twice in both directions.
func (c *C) crowd(r *rand.Rand) {
	n := gen.Pick(r, 300, 600, 1100, 1500, 2100, 2100)
	if crowded += n; crowded > 2500 {
		return // the cost of a new type may grow with the number of types in use
	}
	c.Count("crowd")
	type member struct {
		v   reflect.Value
		doc string
	}
	var ms []member
	base := r.IntN(1 << 30)
	elem := []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint64(0))}
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("F%d", base+i)
		et := elem[r.IntN(len(elem))]
		num := r.IntN(100)
		doc := fmt.Sprintf("a:1:{s:%d:%q;i:%d;}", len(name), name, num)
		x := reflect.New(reflect.StructOf([]reflect.StructField{{Name: name, Type: et}})).Elem()
		if et.Kind() == reflect.Uint8 || et.Kind() == reflect.Uint64 {
			x.Field(0).SetUint(uint64(num))
		} else {
			x.Field(0).SetInt(int64(num))
		}
		switch r.IntN(8) {
		case 0:
			y := reflect.New(reflect.SliceOf(x.Type())).Elem()
			y.Set(reflect.Append(y, x))
			x, doc = y, "a:1:{i:0;"+doc+"}"
		case 1:
			y := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), x.Type()))
			y.SetMapIndex(reflect.ValueOf("k"), x)
			x, doc = y, `a:1:{s:1:"k";`+doc+"}"
		case 2:
			y := reflect.New(x.Type())
			y.Elem().Set(x)
			x = y
		case 3:
			y := reflect.New(reflect.ArrayOf(1, x.Type())).Elem()
			y.Index(0).Set(x)
			x, doc = y, "a:1:{i:0;"+doc+"}"
		case 4: // recursion is not needed for a type to be new: a second field
			y := reflect.New(reflect.StructOf([]reflect.StructField{{Name: name, Type: et, Tag: reflect.StructTag(fmt.Sprintf(`php:"t%d"`, i))}})).Elem()
			y.Field(0).Set(x.Field(0))
			t := fmt.Sprintf("t%d", i)
			x, doc = y, fmt.Sprintf("a:1:{s:%d:%q;i:%d;}", len(t), t, num)
		}
		ms = append(ms, member{x, doc})
	}
	pass := func(i int, when string) {
		m := ms[i]
		b, err, p := safeMarshal(m.v.Interface())
		if err != nil || p != nil || string(b) != m.doc {
			c.Fail("type %d of %d used in one process (%s): Marshal of %s = %q, %v, %v, want %q", i, n, when, m.v.Type(), b, err, p, m.doc)
		}
		x := reflect.New(m.v.Type())
		err, p = safeUnmarshal([]byte(m.doc), x.Interface())
		if err != nil || p != nil || !reflect.DeepEqual(x.Elem().Interface(), m.v.Interface()) {
			c.Fail("type %d of %d used in one process (%s): Unmarshal of %q into %s gave %s, %v, %v", i, n, when, m.doc, m.v.Type(), show(x.Elem().Interface()), err, p)
		}
	}
	for i := range ms {
		pass(i, "first use")
		if r.IntN(10) == 0 {
			pass(r.IntN(i+1), "used before")
		}
	}
	for _, i := range r.Perm(n) {
		pass(i, "second use")
	}
}

// storm repeats a call more often than small counters can count.
func (c *C) storm(r *rand.Rand) {
	c.Count("storm")
	n := gen.Pick(r, 300, 1100, 5000, 33000, 66000, 66000)
	var val any = gen.Pick[any](r, 1, "x", []int{1, 2}, map[string]int{"a": 1}, &gen.RAny{V: 1}, struct{ F any }{[]any{"s"}}, []any{1, "x", nil}, hC{}, hG[int]{V: 1})
	bad := r.IntN(4) == 0
	if bad {
		val = []any{val, make(chan int)}
	}
	first, ferr, p := safeMarshal(val)
	if p != nil || (ferr != nil) != bad {
		c.Fail("Marshal(%s): %v %v", show(val), ferr, p)
	}
	doc := first
	if bad {
		doc = []byte(`a:1:{i:0;i:x;}`)
	}
	t := reflect.TypeOf(val)
	x := reflect.New(t)
	uerr, p := safeUnmarshal(doc, x.Interface())
	want := fmt.Sprint(uerr, p, show(x.Interface()))
	for i := 1; i < n; i++ {
		b, err, p := safeMarshal(val)
		if p != nil || !bytes.Equal(b, first) || (err != nil) != bad || err != nil && err.Error() != ferr.Error() {
			c.Fail("call %d of Marshal(%s) = %q, %v, %v; the first gave %q, %v", i, show(val), b, err, p, first, ferr)
		}
		if i%2 == 0 {
			y := reflect.New(t)
			err, p := safeUnmarshal(doc, y.Interface())
			if i%64 == 0 || i > n-300 {
				if got := fmt.Sprint(err, p, show(y.Interface())); got != want {
					c.Fail("call %d of Unmarshal(%q) into %s: %s; the first gave %s", i, doc, t, got, want)
				}
			} else if p != nil || (err != nil) != (uerr != nil) {
				c.Fail("call %d of Unmarshal(%q) into %s: %v, %v; the first gave %v", i, doc, t, err, p, uerr)
			}
		}
	}
}

func runC12(c *C) {
	r := c.R
	g := c.I / 8
	ops := c.group(rand.New(rand.NewPCG(mix(c.Seed, "C12 group"), uint64(g))), g)
	prev := "start"
	n := len(ops) + r.IntN(len(ops))
	var order []int
	order = append(order, r.Perm(len(ops))...)
	for len(order) < n {
		order = append(order, r.IntN(len(ops)))
	}
	calm := r.IntN(4) == 0
	seen := map[string]string{}
	for _, i := range order {
		for k := r.IntN(4); k > 0 && !calm; k-- {
			prev = c.disturb(r, ops)
		}
		o := ops[i]
		got := outcome(o.run(c))
		c.Count("calls")
		switch {
		case strings.HasPrefix(got, "panic"):
			c.Count("outcome_panic")
		case strings.HasPrefix(got, "error"):
			c.Count("outcome_error")
		default:
			c.Count("outcome_ok")
		}
		if o.what == "custom" {
			c.Count("custom")
		}
		desc := o.what
		if o.plain != nil && o.plain.doc == nil {
			desc += " " + show(o.plain.val)
		} else if o.plain != nil {
			desc += fmt.Sprintf(" %q into %s", clip(string(o.plain.doc), 300), o.plain.typ)
		}
		if old, ok := seen[o.key]; ok {
			c.Count("repeated")
			if old != got {
				c.Fail("call %s (%s) gave different results in one process:\n%s\nlater, after %s\n%s", o.key, clip(desc, 1500), old, prev, got)
			}
		}
		seen[o.key] = got
		if old, ok := c.Digests[o.key]; ok && old != got {
			c.Fail("call %s (%s) gave different results in one process:\n%s\nlater, after %s\n%s", o.key, clip(desc, 1500), old, prev, got)
		}
		c.Digests[o.key] = got
		if c.Verbose {
			c.Sample("%s %s -> %s", o.key, desc, got)
		}
		if strings.HasPrefix(got, "panic") && !strings.HasPrefix(got, "panic scripted") {
			c.Fail("call %s (%s): %s", o.key, clip(desc, 1500), got)
		}
		c.Eval(true, o.key, prev)
		prev = o.key
	}
	c.Sample("group %d: %d calls, last %s -> %s", g, len(order), prev, clip(seen[prev], 200))
}
