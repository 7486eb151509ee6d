package mon

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	php "github.com/trim21/go-phpserialize"

	"vmon/gen"
	"vmon/phpdoc"
	"vmon/ref"
)

func init() {
	register(&Monitor{
		ID: "C11", NoGiant: true, Quick: 900, Thorough: 54000, Chunk: 10, Race: true, Procs: 4, CPU: 120,
		Rule: "2 to 16 goroutines released together run shuffled lists of Marshal and Unmarshal calls on shared values, shared inputs and types never used before in the process (random struct types, recursive and mutually recursive named types), with failing, cyclic, malformed, panicking, re-entrant and yielding calls among them; built with the race detector (every third process without, for speed), every result compared with the same call made alone afterwards and with the reference models; non-trivial: distinct observed interleavings (order of starts and ends of calls) with overlapping calls",
		Need: []string{"calls", "overlapping_calls", "first_use_recursive", "first_use_struct", "marshal_ok", "unmarshal_ok", "errors", "panics", "custom", "oracle_checked", "gomaxprocs_many", "hammered"},
		Run:  runC11,
	})
	gen.AnyDoc[reflect.TypeOf(gU{})] = true
}

// gM and gU yield in the middle of a call and re-enter the package.
type gM struct{ N int }

func (m gM) MarshalPHP() ([]byte, error) {
	runtime.Gosched()
	b, err := php.Marshal([]any{m.N, map[string]int{"x": m.N}})
	runtime.Gosched()
	if m.N%11 == 3 {
		return nil, fmt.Errorf("gM %d", m.N)
	}
	return b, err
}

type gU struct {
	N int
	S string
}

func (u *gU) UnmarshalPHP(b []byte) error {
	u.N = len(b)
	runtime.Gosched()
	var x any
	err := php.Unmarshal(b, &x)
	runtime.Gosched()
	u.S = fmt.Sprint(err) + string(b)
	return nil
}

// pM panics.
type pM struct{ N int }

func (m pM) MarshalPHP() ([]byte, error) {
	runtime.Gosched()
	panic(fmt.Sprint("pM ", m.N))
}

type pU struct{ N int }

func (u *pU) UnmarshalPHP(b []byte) error {
	runtime.Gosched()
	panic("pU")
}

// a call of the package with what is needed to judge it
type call struct {
	what   string
	val    any // Marshal
	multi  bool
	doc    []byte // Unmarshal
	typ    reflect.Type
	oracle bool
}

// run makes the call and renders the outcome.
func (o *call) run() string {
	if o.doc == nil {
		b, err, p := safeMarshal(o.val)
		switch {
		case p != nil:
			return "panic " + fmt.Sprint(p.V)
		case err != nil && o.multi:
			return "error"
		case err != nil:
			return "error " + err.Error()
		}
		return "ok " + string(b)
	}
	dst := reflect.New(o.typ)
	err, p := safeUnmarshal(o.doc, dst.Interface())
	switch {
	case p != nil:
		return "panic " + fmt.Sprint(p.V)
	case err != nil:
		return "error " + err.Error()
	}
	return "ok " + imageOf(dst.Elem(), false, 0)
}

func (o *call) same(a, b string) bool {
	if a == b {
		return true
	}
	if o.doc == nil && strings.HasPrefix(a, "ok ") && strings.HasPrefix(b, "ok ") {
		return sameDoc([]byte(a[3:]), []byte(b[3:]))
	}
	return false
}

// check compares an outcome with the reference.
func (o *call) check(c *C, got string) {
	if !o.oracle {
		return
	}
	if o.doc == nil {
		if !strings.HasPrefix(got, "ok ") {
			c.Fail("%s: Marshal(%s): %s", o.what, show(o.val), got)
		}
		n := c.parse(o.val, []byte(got[3:]))
		if err := ref.CheckEnc(reflect.ValueOf(o.val), n); err != nil {
			c.Fail("%s: Marshal(%s) wrong: %v\n%q", o.what, show(o.val), err, clip(got, 500))
		}
		c.Count("oracle_checked")
		return
	}
	n, err := phpdoc.Parse(o.doc)
	if err != nil {
		return
	}
	want := reflect.New(o.typ)
	rerr := ref.Decode(n, want.Elem())
	if rerr == ref.ErrHuge || rerr == ref.ErrNegZero {
		return
	}
	if (rerr == nil) != strings.HasPrefix(got, "ok ") {
		c.Fail("%s: Unmarshal(%q) into %s: %s, want error %v", o.what, clip(string(o.doc), 500), o.typ, clip(got, 300), rerr)
	}
	if rerr == nil {
		dst := reflect.New(o.typ)
		if err, p := safeUnmarshal(o.doc, dst.Interface()); err == nil && p == nil {
			if d := ref.Equal(want.Elem(), dst.Elem(), lenient); d != "" {
				c.Fail("%s: Unmarshal(%q) into %s is wrong: %s", o.what, clip(string(o.doc), 500), o.typ, d)
			}
		}
	}
	c.Count("oracle_checked")
}

// calls on one type
func (c *C) callsOn(t reflect.Type, o gen.Opt, n int) (out []*call) {
	r := c.R
	for i := 0; i < n; i++ {
		v := gen.Value(r, t, o)
		var arg any = v.Interface()
		if r.IntN(3) == 0 && t.Kind() != reflect.Pointer {
			arg = v.Addr().Interface()
		}
		out = append(out, &call{what: "value of " + typeKey(t), val: arg, multi: true, oracle: true})
		doc := tame(gen.DocFor(r, t, 3, gen.Pick(r, 0, 0, 10), true).Bytes())
		out = append(out, &call{what: "document for " + typeKey(t), doc: doc, typ: t, oracle: true})
		if r.IntN(3) == 0 {
			b := tame(mutate(r, bytes.Clone(doc)))
			if len(b) > 0 {
				out = append(out, &call{what: "malformed document", doc: b, typ: t})
			}
		}
	}
	return
}

var recTypes = func() []reflect.Type {
	var out []reflect.Type
	out = append(out, gen.AnyCatalog...)
	out = append(out, genericTypes...)
	return out
}()

var genericTypes = []reflect.Type{
	reflect.TypeOf(gen.RGen[int8]{}), reflect.TypeOf(gen.RGen[gen.RTree]{}), reflect.TypeOf(gen.RGen[[3]string]{}), reflect.TypeOf(gen.RGen[gen.RGen[bool]]{}), reflect.TypeOf(gen.RGen[*gen.RList]{}),
	reflect.TypeOf(gen.RGen[map[int]gen.RMap]{}), reflect.TypeOf(gen.RGen[gen.RLeft]{}), reflect.TypeOf(gen.RGen[uint16]{}), reflect.TypeOf(gen.RGen[float32]{}), reflect.TypeOf(gen.RGen[[]uint16]{}),
	reflect.TypeOf(gen.RGen[gen.RMutA]{}), reflect.TypeOf(gen.RGen[gen.RGen[gen.RGen[string]]]{}), reflect.TypeOf(gen.RGen[struct{ A, B int }]{}), reflect.TypeOf(gen.RGen[map[string]*gen.RMutB]{}), reflect.TypeOf(gen.RGen[gen.RDeep]{}),
}

func hostile(r gen.R) []*call {
	cyc := map[string]any{}
	cyc["a"] = []any{cyc}
	l := &gen.RList{V: 1}
	l.Next = &gen.RList{2, l}
	return []*call{
		{what: "channel", val: make(chan int)},
		{what: "struct with function", val: struct{ F func() }{}},
		{what: "any func", val: []any{1, func() {}}},
		{what: "pointer to pointer", val: struct{ P **int }{}},
		{what: "embedded", val: struct{ gen.RList }{}},
		{what: "cycle", val: cyc},
		{what: "cyclic list", val: l},
		{what: "custom", val: []gM{{1}, {2}, {r.IntN(5) + 4}}},
		{what: "custom error", val: map[string]gM{"a": {3}}},
		{what: "panic", val: []any{1, pM{2}}},
		{what: "custom", doc: []byte(`a:2:{i:0;a:1:{i:0;s:1:"x";}i:1;i:5;}`), typ: reflect.TypeOf([]gU{})},
		{what: "panic", doc: []byte(`a:1:{s:1:"a";i:1;}`), typ: reflect.TypeOf(map[string]pU{})},
		{what: "refused", doc: []byte(`i:1;`), typ: reflect.TypeOf(make(chan int))},
		{what: "refused", doc: []byte(`a:1:{s:1:"C";i:1;}`), typ: reflect.TypeOf(struct{ C chan int }{})},
		{what: "overflow", doc: []byte(`i:300;`), typ: reflect.TypeOf(int8(0))},
		{what: "any", doc: []byte(`a:2:{i:0;O:1:"A":1:{s:1:"x";d:0.5;}s:1:"k";a:0:{}}`), typ: gen.AnyType},
	}
}

var usedRec = map[reflect.Type]bool{}

// sink has every kind of leaf, with and without the string option, so that a
// scratch area shared by two calls shows.
type sink struct {
	B   bool
	I   int
	I8  int8
	U   uint
	U64 uint64 `php:"u64"`
	F32 float32
	F   float64
	S   string
	Y   []byte
	A   any
	Bs  bool    `php:"bs,string"`
	Is  int     `php:"is,string"`
	I8s int8    `php:"i8s,string"`
	Us  uint64  `php:"us,string"`
	Fs  float64 `php:"fs,string"`
	Gs  float32 `php:"gs,string"`
	Ss  string  `php:"ss,string"`
	PI  *int
	PF  *float64 `php:"pf,string"`
	L   []float64
	LF  []float32
	LS  []string
	R   [3]uint16
	MS  map[string]float64
	MI  map[int16]string
	MU  map[uint64][]float32
	LA  []any
	MA  map[string]any
	N   *sink `php:"n,omitempty"`
	V   []gM2
}

// gM2 is a custom value without any yielding.
type gM2 struct{ N int }

func (m gM2) MarshalPHP() ([]byte, error) { return php.Marshal(m.N) }
func (m *gM2) UnmarshalPHP(b []byte) error {
	return php.Unmarshal(b, &m.N)
}

// hammer lets every goroutine make its own call over and over, with values of
// one type which differ between the goroutines, after first use: what a call
// returns must be what it returns alone, whatever the others do.
func hammer(c *C, loops int) {
	r := c.R
	o := dynami
	o.Depth, o.MaxLen = 3, 4
	G := 2 + r.IntN(9)
	runtime.GOMAXPROCS(gen.Pick(r, 2, 4, 8))
	t := reflect.TypeOf(sink{})
	oracle := false
	if r.IntN(3) == 0 {
		o = c.withPool(o)
		t, oracle = gen.Struct(r, o, 3), true
	}
	ops := make([][]*call, G)
	alone := make([][]string, G)
	for g := range ops {
		for k := 0; k < 2; k++ {
			v := gen.Value(r, t, o)
			ops[g] = append(ops[g], &call{what: "value of " + typeKey(t), val: v.Addr().Interface(), multi: true, oracle: oracle})
			b, err := c.Marshal(v.Interface())
			doc := gen.DocFor(r, t, 3, 0, true).Bytes()
			if err == nil && r.IntN(2) == 0 {
				doc = b
			}
			ops[g] = append(ops[g], &call{what: "document for " + typeKey(t), doc: tame(doc), typ: t, oracle: oracle})
		}
		for _, op := range ops[g] {
			s := op.run()
			op.check(c, s)
			alone[g] = append(alone[g], s)
		}
	}
	type diff struct {
		op        *call
		got, want string
	}
	diffs := make([]diff, G)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < loops; i++ {
				k := i % len(ops[g])
				s := ops[g][k].run()
				if !ops[g][k].same(alone[g][k], s) {
					diffs[g] = diff{ops[g][k], s, alone[g][k]}
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, d := range diffs {
		if d.op != nil {
			c.Fail("%s: run by %d goroutines at once the result was\n%s\nalone it is\n%s", d.op.what, G, clip(d.got, 500), clip(d.want, 500))
		}
	}
	c.CountN("hammered", loops*G)
	c.Sample("%d goroutines, each %d calls of its own on %s", G, loops, typeKey(t))
}

func runC11(c *C) {
	r := c.R
	if c.I%5 == 2 {
		n := 60
		if !raceBuild {
			n = 1200
		}
		hammer(c, n)
		return
	}
	o := dynami
	o.Dyn = nil
	o.Depth = 1 + r.IntN(3)
	o.Big = r.IntN(8) == 0
	o = c.withPool(o)
	var calls []*call
	// types this process has not used yet
	for i := 1 + r.IntN(3); i > 0; i-- {
		calls = append(calls, c.callsOn(gen.Struct(r, o, o.Depth), o, 1+r.IntN(2))...)
		c.Count("first_use_struct")
	}
	for i := 1 + r.IntN(3); i > 0; i-- {
		t := gen.Pick(r, recTypes...)
		if !usedRec[t] {
			usedRec[t] = true
			c.Count("first_use_recursive")
		}
		if r.IntN(2) == 0 {
			t = reflect.StructOf([]reflect.StructField{{Name: gen.Pick(r, "A", "B", "C", "D"), Type: t}, {Name: "Z", Type: gen.Pick(r, recTypes...)}})
		}
		calls = append(calls, c.callsOn(t, o, 1+r.IntN(2))...)
	}
	h := hostile(r)
	for i := r.IntN(6); i > 0; i-- {
		calls = append(calls, gen.Pick(r, h...))
	}
	procs := gen.Pick(r, 1, 2, 3, 4, 8, 16)
	if procs > 2 {
		c.Count("gomaxprocs_many")
	}
	runtime.GOMAXPROCS(procs)
	if r.IntN(4) == 0 {
		debug.SetGCPercent(5)
		defer debug.SetGCPercent(100)
	}
	G := 2 + r.IntN(15)
	if G > 8 && len(calls) > 16 {
		G = 8
	}
	type done struct {
		op         *call
		res        string
		start, end time.Duration
	}
	results := make([][]done, G)
	stampede := r.IntN(2) == 0
	order := r.Perm(len(calls))
	rounds := 1 + r.IntN(2)
	for g := range results {
		p := order
		if !stampede {
			p = r.Perm(len(calls))
		}
		for k := 0; k < rounds; k++ {
			for _, i := range p {
				results[g] = append(results[g], done{op: calls[i]})
			}
		}
	}
	seeds := make([]uint64, G)
	for g := range seeds {
		seeds[g] = r.Uint64()
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	t0 := time.Now()
	for g := range results {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := results[g]
			jit := rand.New(rand.NewPCG(seeds[g], 1))
			<-start
			for i := range mine {
				// no synchronisation in here: it would hide races
				if jit.IntN(8) == 0 {
					runtime.Gosched()
				}
				mine[i].start = time.Since(t0)
				mine[i].res = mine[i].op.run()
				mine[i].end = time.Since(t0)
			}
		}()
	}
	close(start)
	wg.Wait()
	// what was observed
	type ev struct {
		at time.Duration
		g  int
	}
	var evs []ev
	over := 0
	for g := range results {
		for i := range results[g] {
			evs = append(evs, ev{results[g][i].start, g}, ev{results[g][i].end, -g - 1})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].at < evs[j].at })
	var trace []byte
	open := map[int]bool{}
	for _, e := range evs {
		if e.g >= 0 {
			if len(open) > 0 {
				over++
			}
			open[e.g] = true
		} else {
			delete(open, -e.g-1)
		}
		trace = append(trace, byte(e.g))
	}
	c.CountN("overlapping_calls", over)
	// judge
	alone := map[*call]string{}
	for _, op := range calls {
		if _, ok := alone[op]; ok {
			continue
		}
		alone[op] = op.run()
		op.check(c, alone[op])
	}
	for g := range results {
		for _, d := range results[g] {
			c.Count("calls")
			want := alone[d.op]
			if !d.op.same(want, d.res) {
				c.Fail("%s: run by %d goroutines the result was\n%s\nalone it is\n%s", d.op.what, G, clip(d.res, 500), clip(want, 500))
			}
			switch {
			case strings.HasPrefix(d.res, "panic"):
				if d.op.what != "panic" {
					c.Fail("%s: %s", d.op.what, clip(d.res, 800))
				}
				c.Count("panics")
			case strings.HasPrefix(d.res, "error"):
				c.Count("errors")
			case d.op.doc == nil:
				c.Count("marshal_ok")
			default:
				c.Count("unmarshal_ok")
			}
			if strings.HasPrefix(d.op.what, "custom") {
				c.Count("custom")
			}
		}
	}
	c.Eval(over > 0, fmt.Sprint(c.I), string(trace))
	c.Sample("%d goroutines, GOMAXPROCS %d, %d calls, %d overlapping", G, procs, len(evs)/2, over)
}
