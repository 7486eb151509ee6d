package mon

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"strings"

	php "github.com/trim21/go-phpserialize"

	"vmon/gen"
	"vmon/phpdoc"
	"vmon/ref"
)

func init() {
	register(&Monitor{
		ID: "C29", NoGiant: true, Quick: 800, Thorough: 16000, Chunk: 20, CPU: 90,
		Rule: "rounds of calls on fresh data of one type, results and errors dropped; the live heap after collections, with and without calls in between, and the number of goroutines must not grow with the number of rounds; or pieces of results kept while the rest is dropped: what stays alive is bounded by the pieces; non-trivial: a pair of heap measurements",
		Need: []string{"marshal", "unmarshal", "failing", "panicking", "cyclic", "cut", "pieces", "errors", "outputs", "long", "short"},
		Run:  runC29,
	})
}

// live is the number of bytes reachable. Pools that nobody uses are empty by then.
func live(use func()) int {
	var s runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
		if use != nil {
			use()
		}
	}
	runtime.GC()
	runtime.ReadMemStats(&s)
	return int(s.HeapAlloc)
}

type (
	panicU struct {
		Data []byte
		Mode int
	}
	keepBox struct {
		N    int
		Self *keepBox
		V    any
		M    map[string]any
		U    *panicU
		L    []keepBox
	}
)

var errKeep = errors.New("no")

func (u panicU) MarshalPHP() ([]byte, error) {
	switch u.Mode % 3 {
	case 1:
		return nil, errKeep
	case 2:
		panic(errKeep)
	}
	return u.Data, nil
}

func (u *panicU) UnmarshalPHP(b []byte) error {
	u.Data = append([]byte(nil), b...)
	switch len(b) % 3 {
	case 1:
		return errKeep
	case 2:
		panic(errKeep)
	}
	return nil
}

func quietly(f func()) {
	defer func() { recover() }()
	f()
}

func runC29(c *C) {
	if c.I%4 == 3 {
		c.pieces()
		return
	}
	r := c.R
	o := c.withPool(gen.Opt{Depth: 2, MaxLen: 4, MaxMap: 4, Named: true, Tags: true, Any: true})
	et := gen.Type(r, o)
	for ref.Decodable(et) != nil {
		et = gen.Type(r, o)
	}
	n, rounds := 300, 40
	switch r.IntN(3) {
	case 0:
		c.Count("long")
	case 1:
		n, rounds = 10, 700
	default:
		n, rounds = 0, 5000
		c.Count("short")
	}
	shape := r.IntN(10)
	salt := r.Uint64()
	// the value of round i
	value := func(i int) any {
		q := rand.New(rand.NewPCG(salt, uint64(i)))
		v := gen.Value(q, et, o)
		name := fmt.Sprint(i, q.Uint64())
		m := map[string]any{name: v.Interface()}
		var l []any
		s := reflect.MakeSlice(reflect.SliceOf(et), n, n)
		for k := 0; k < n; k++ {
			x := gen.Value(q, et, o)
			s.Index(k).Set(x)
			l = append(l, x.Interface())
			m[fmt.Sprint(name, k)] = x.Interface()
		}
		switch shape {
		case 0:
			return v.Interface()
		case 1:
			return s.Interface()
		case 2:
			p := reflect.New(s.Type())
			p.Elem().Set(s)
			return p.Interface()
		case 3:
			return m
		case 4:
			return l
		case 5:
			return keepBox{V: l, M: m, Self: &keepBox{V: v.Interface(), N: i}}
		case 6: // refused at the end
			return append(l, name, func() {})
		case 7: // cycles
			b := &keepBox{V: l, M: m, N: i}
			switch q.IntN(4) {
			case 0:
				b.Self = b
			case 1:
				m["self"] = m
			case 2:
				l = append(l, nil)
				l[len(l)-1] = l
				b.V = l
			case 3:
				b.L = []keepBox{{}, {}}
				b.L[1].L = b.L
			}
			return b
		case 8:
			return append(l, m, []any{&panicU{Data: []byte("s:3:\"abc\";"), Mode: i}, &keepBox{U: &panicU{Mode: i + 1}}})
		}
		// deep: tracked by the cycle check
		b := &keepBox{V: l}
		for k := 0; k < 1100; k++ {
			b = &keepBox{Self: b}
			if k%7 == 0 {
				b = &keepBox{M: map[string]any{"x": b}}
			}
		}
		return b
	}
	if shape == 9 {
		rounds = min(rounds, 60)
	}
	dir := r.IntN(2)
	what := ""
	var call func(i int)
	size := 0
	if dir == 0 {
		c.Count("marshal")
		what = "Marshal"
		switch shape {
		case 6:
			c.Count("failing")
		case 7:
			c.Count("cyclic")
		case 8:
			c.Count("panicking")
		}
		call = func(i int) {
			quietly(func() {
				b, _ := php.Marshal(value(i))
				size = max(size, len(b))
			})
		}
	} else {
		c.Count("unmarshal")
		what = "Unmarshal"
		mode := r.IntN(5)
		into := []reflect.Type{gen.AnyType, et, reflect.SliceOf(et), reflect.TypeOf(keepBox{}), reflect.TypeOf(map[string]any{}), reflect.MapOf(reflect.TypeOf(""), et), reflect.TypeOf([]panicU{}), reflect.TypeOf(struct{ X int }{})}
		t := gen.Pick(r, into...)
		what += " into " + clip(t.String(), 80)
		objects := r.IntN(3) == 0
		if objects {
			c.Count("objects")
		}
		if mode == 0 {
			c.Count("cut")
			what += ", cut documents"
		}
		call = func(i int) {
			q := rand.New(rand.NewPCG(salt, uint64(i)))
			d := phpdoc.Arr()
			for k := 0; k <= n/2; k++ {
				e := phpdoc.Entry{Key: phpdoc.Str(fmt.Sprint("key", i, "-", k)), Val: gen.DocFor(q, et, 1, 0, true)}
				if t.Kind() == reflect.Slice || shape < 4 && t.Kind() != reflect.Struct && t.Kind() != reflect.Map {
					e.Key = phpdoc.Int(int64(k))
				}
				if q.IntN(4) == 0 {
					e.Val = phpdoc.Str(fmt.Sprint("some text ", i, q.Uint64()))
				}
				d.Ent = append(d.Ent, e)
			}
			doc := d.Bytes()
			if t.Kind() != reflect.Slice && shape >= 4 && objects {
				name := fmt.Sprint("Class", i, q.Uint64())
				doc = append(fmt.Appendf(nil, "O:%d:%q:", len(name), name), doc[2:]...)
			}
			if t == et {
				doc = gen.DocFor(q, et, 2, 0, true).Bytes()
			}
			if mode == 0 {
				doc = doc[:q.IntN(len(doc))]
			}
			size = max(size, len(doc))
			quietly(func() { php.Unmarshal(doc, reflect.New(t).Interface()) })
		}
	}
	small := func() {
		php.Marshal([]any{1, "x"})
		php.Unmarshal([]byte("a:1:{i:0;i:1;}"), new([]int))
	}
	for i := 0; i < rounds/4+3; i++ {
		call(i)
	}
	goroutines := runtime.NumGoroutine()
	used0, idle0 := live(small), live(nil)
	for i := 0; i < rounds; i++ {
		call(rounds + i)
	}
	used1, idle1 := live(small), live(nil)
	g := runtime.NumGoroutine()
	// an output buffer may be kept for the next call
	const slack = 64 << 10
	used, idle := used1-used0, idle1-idle0
	c.Max("growth_idle", idle)
	c.Max("growth_used", used-8*size)
	c.Eval(true, what, et.String(), fmt.Sprint(n, shape, dir))
	c.Sample("%s, shape %d, %d rounds of %d bytes: heap %+d bytes (%+d idle)", what, shape, rounds, size, used, idle)
	if idle > slack || used > slack+8*size {
		c.Fail("%s (shape %d, element type %s): %d calls with up to %d bytes each, results dropped, left %d more bytes alive (%d when nobody calls)", what, shape, clip(et.String(), 300), rounds, size, used, idle)
	}
	if g > goroutines {
		c.Fail("%s: %d goroutines more after %d calls", what, g-goroutines, rounds)
	}
}

// pieces keeps small parts of large documents' results, or small outputs.
func (c *C) pieces() {
	r := c.R
	const rounds = 60
	var keep []any
	outputs := r.IntN(4) == 0
	route := r.IntN(10)
	pad := strings.Repeat(gen.Pick(r, "padding ", "\x00\x00", "é", `";`), 16000)
	one := func(i int) (any, int) {
		big := phpdoc.Str(fmt.Sprint(i, pad))
		text := strings.Repeat(fmt.Sprint("piece ", i, ";"), 1+i%20)
		if outputs {
			php.Marshal([]string{pad, text})
			b, err := php.Marshal(text)
			if err != nil {
				c.Fail("Marshal of a string failed: %v", err)
			}
			return b, len(b)
		}
		part := phpdoc.Str(text)
		d := phpdoc.Arr()
		add := func(k string, v *phpdoc.Node) { d.Ent = append(d.Ent, phpdoc.Entry{Key: phpdoc.Str(k), Val: v}) }
		list := phpdoc.List(part, big, part)
		try := func(n *phpdoc.Node, v any) {
			if err := php.Unmarshal(n.Bytes(), v); err != nil {
				c.Fail("Unmarshal of %q failed: %v", clip(n.String(), 100), err)
			}
		}
		switch route {
		case 0: // the rest is skipped
			add("rest", big)
			add("A", part)
			add("B", part)
			add("more", big)
			var v struct {
				A string
				B []byte
			}
			try(d, &v)
			return v, len(text) * 2
		case 1:
			var v []string
			try(list, &v)
			return v[2*(i%2)], len(text)
		case 2:
			var v any
			try(list, &v)
			return v.(map[any]any)[int64(2*(i%2))], len(text)
		case 3: // keys
			add(text, big)
			v := map[string]any{}
			try(d, &v)
			for k := range v {
				return k, len(k)
			}
		case 4:
			var v [1]any
			try(phpdoc.List(phpdoc.List(part, phpdoc.Int(4)), big), &v)
			return v, len(text) + 400
		case 5:
			var v [][]byte
			try(list, &v)
			return v[0], len(text)
		case 6:
			add(text, part)
			add("rest", phpdoc.Int(3))
			v := struct{ X any }{}
			o := phpdoc.Arr()
			o.Ent = append(o.Ent, phpdoc.Entry{Key: phpdoc.Str("pad"), Val: big}, phpdoc.Entry{Key: phpdoc.Str("X"), Val: d})
			try(o, &v)
			return v.X, 2*len(text) + 800
		case 8: // an error
			bad := gen.Pick(r, phpdoc.Str(text[:min(len(text), 40)]), phpdoc.Int(int64(i+1)<<40), phpdoc.FloatText("1e999"), phpdoc.List(part))
			var dst any = new([]struct{ B int8 })
			switch r.IntN(4) {
			case 0, 1:
				if r.IntN(2) == 0 {
					bad = phpdoc.FloatText(gen.Pick(r, "1e300", "-1e39", "1e999", "3.5e38", "x", ""))
				}
				dst = gen.Pick[any](r, new([]struct{ B float32 }), new([]struct{ B []float32 }), new([]struct{ B *float32 }), new([]map[string]float32))
			case 2:
				dst = gen.Pick[any](r, new([]struct{ B bool }), new([]struct{ B uint64 }), new([]struct{ B chan int }), new([]struct{ B map[int8]int8 }), new([]struct{ B [3]uint8 }), new([]map[string]int), new([]struct {
					B int16 `php:",string"`
				}), new([]struct{ B struct{ X int } }))
			}
			x := phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("pad"), Val: big}, phpdoc.Entry{Key: phpdoc.Str("B"), Val: bad})
			doc := phpdoc.List(x, x).Bytes()
			if r.IntN(3) == 0 {
				doc = doc[:len(doc)-1-r.IntN(20)]
			}
			err := php.Unmarshal(doc, dst)
			if err == nil {
				return nil, 0 // the value fits
			}
			c.Count("errors")
			return err, len(err.Error()) + 300
		case 9:
			v := []any{pad + text, map[string]any{text: pad, "x": gen.Pick[any](r, func() {}, 1i, &[]chan int{nil}, map[bool]int{true: 1})}}
			if r.IntN(3) == 0 {
				v = append(v[:1], any(nil))
				v[1] = v
			}
			_, err := php.Marshal(v)
			if err == nil {
				c.Fail("Marshal of %T succeeded", v[1])
			}
			c.Count("errors")
			return err, len(err.Error()) + 300
		case 7:
			var v []struct {
				N int
				S *string
				T []string
			}
			add("N", phpdoc.Int(int64(i)))
			add("S", part)
			add("T", phpdoc.List(part, part))
			try(phpdoc.List(d, phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("S"), Val: big})), &v)
			return v[0].S, len(text)
		}
		return nil, 0
	}
	for i := 0; i < 5; i++ {
		one(i)
	}
	before := live(nil)
	own := 0
	for i := 0; i < rounds; i++ {
		v, n := one(i)
		keep = append(keep, v)
		own += n
	}
	after := live(nil)
	c.Count("pieces")
	if outputs {
		c.Count("outputs")
	}
	got := after - before
	c.Eval(true, "pieces", fmt.Sprint(route, outputs, len(pad)))
	limit := 64<<10 + 4*own + 256*rounds
	c.Max("pieces_permille_of_limit", got*1000/limit)
	c.Sample("pieces of %d results (%d bytes, each from %d bytes): heap %+d bytes", rounds, own, len(pad), got)
	if got > limit {
		c.Fail("keeping %d pieces of %d bytes in all (route %d, outputs %v), each of a result of %d bytes, kept %d bytes alive", rounds, own, route, outputs, len(pad), got)
	}
	runtime.KeepAlive(keep)
}
