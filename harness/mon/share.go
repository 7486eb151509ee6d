package mon

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"

	php "github.com/trim21/go-phpserialize"

	"vmon/gen"
	"vmon/phpdoc"
)

func init() {
	register(&Monitor{
		ID: "C09", ShortLists: true, Quick: 100000, Thorough: 3000000, Chunk: 1000,
		Rule: "random types rich in byte slices, strings and retaining Unmarshalers x random (also malformed) documents in a buffer with patterned spare capacity; the address ranges of everything reachable from two results of the same input are compared with each other and with the input; results are frozen, then the input is overwritten, hostile further calls and garbage collections run, every byte slice is scrambled up to its capacity, other parts must stay; non-trivial: result with two or more writable regions, counted by (type, document)",
		Need: []string{"regions", "byte_slices", "strings", "retained", "failed_docs", "errors_kept", "further_calls", "scrambled", "appended", "gc", "prefilled"},
		Run:  runC09,
	})
	register(&Monitor{
		ID: "C10", ShortLists: true, FewGiants: true, Quick: 37500, Thorough: 1500000, Chunk: 500,
		Rule: "random values with patterned spare capacity (also failing ones, cyclic, with erroring, retaining or re-entrant Marshalers); memory image of the value before and after each Marshal, a history of returned slices checked after every later call, results overwritten up to their capacity before encoding again; address ranges of results disjoint from the value and each other; non-trivial: distinct (type, output)",
		Need: []string{"images", "history_checked", "scrambled", "failures", "errors_kept", "nil_on_error", "retained", "reentrant", "big", "appended"},
		Run:  runC10,
	})
	gen.AnyDoc[reflect.TypeOf(RetU{})] = true
	gen.AnyDoc[reflect.TypeOf(ScrU{})] = true
	gen.AnyDoc[reflect.TypeOf(&RetU{})] = true
}

// RetU keeps the bytes it is given.
type RetU struct{ B []byte }

func (u *RetU) UnmarshalPHP(b []byte) error { u.B = b; return nil }

// ScrU keeps a copy and destroys what it was given.
type ScrU struct{ S string }

func (u *ScrU) UnmarshalPHP(b []byte) error {
	u.S = string(b)
	full := b[:cap(b)]
	for i := range full {
		full[i] = '}'
	}
	return nil
}

// ---- memory regions -----------------------------------------------------------

type region struct {
	lo, hi uintptr
	w      bool
	path   string
}

type regions struct {
	r     []region
	bytes []reflect.Value // byte slices
	strs  int
	ret   int
	seen  map[[2]uintptr]bool
}

func (m *regions) add(p uintptr, size int, w bool, path string) {
	if size > 0 && p != 0 {
		m.r = append(m.r, region{p, p + uintptr(size), w, path})
	}
}

var retT = reflect.TypeOf(RetU{})

func (m *regions) walk(v reflect.Value, path string) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			m.walk(v.Elem(), path+"(any)")
		}
	case reflect.Pointer:
		if !v.IsNil() {
			if !m.once(v.Pointer(), 1) {
				return
			}
			m.add(v.Pointer(), int(v.Type().Elem().Size()), true, "*"+path)
			m.walk(v.Elem(), "*"+path)
		}
	case reflect.Struct:
		if v.Type() == retT && v.Field(0).Len() > 0 {
			m.ret++
		}
		for i := 0; i < v.NumField(); i++ {
			m.walk(v.Field(i), path+"."+v.Type().Field(i).Name)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			m.walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		size := int(v.Type().Elem().Size()) * v.Cap()
		if size > 0 {
			if !m.once(v.Pointer(), 2) {
				// the same slice twice is an overlap: both are recorded
				m.add(v.Pointer(), size, true, path)
				return
			}
		}
		m.add(v.Pointer(), size, true, path)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			m.bytes = append(m.bytes, v)
			return
		}
		for i := 0; i < v.Len(); i++ {
			m.walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		m.add(v.Pointer(), 1, true, path)
		if !m.once(v.Pointer(), 3) {
			return
		}
		it := v.MapRange()
		for it.Next() {
			m.walk(it.Key(), path+"[key]")
			m.walk(it.Value(), path+"["+clip(ShowValue(it.Key()), 40)+"]")
		}
	case reflect.String:
		if v.Len() > 0 {
			m.strs++
			m.add(strData(v), v.Len(), false, path)
		}
	}
}

func (m *regions) once(p uintptr, kind uintptr) bool {
	if m.seen == nil {
		m.seen = map[[2]uintptr]bool{}
	}
	k := [2]uintptr{p, kind}
	if m.seen[k] {
		return false
	}
	m.seen[k] = true
	return true
}

// overlap returns the first pair of regions that share memory, at least one of
// them writable.
func overlap(rs []region) (a, b region, ok bool) {
	s := append([]region{}, rs...)
	sort.Slice(s, func(i, j int) bool { return s[i].lo < s[j].lo })
	var w, any region // reaching furthest
	for _, x := range s {
		if x.w && any.hi > x.lo && any.path != "" {
			return any, x, true
		}
		if !x.w && w.hi > x.lo && w.path != "" {
			return w, x, true
		}
		if x.hi > any.hi {
			any = x
		}
		if x.w && x.hi > w.hi {
			w = x
		}
	}
	return
}

// ---- memory images ------------------------------------------------------------

// image renders a value, with the spare capacity of slices; with addr also the
// addresses. The memory at mask is left out.
type image struct {
	strings.Builder
	addr bool
	mask uintptr
	open map[[2]uintptr]bool
}

func (m *image) walk(v reflect.Value) {
	if !v.IsValid() {
		m.WriteString("nil;")
		return
	}
	enter := func(kind, p uintptr) bool {
		k := [2]uintptr{kind, p}
		if m.open == nil {
			m.open = map[[2]uintptr]bool{}
		}
		if m.open[k] {
			m.WriteString("^;")
			return false
		}
		m.open[k] = true
		return true
	}
	leave := func(kind, p uintptr) { delete(m.open, [2]uintptr{kind, p}) }
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			m.WriteString("nil;")
			return
		}
		fmt.Fprintf(m, "%s:", v.Elem().Type())
		m.walk(v.Elem())
	case reflect.Pointer:
		if m.addr {
			fmt.Fprintf(m, "&%x", v.Pointer())
		} else {
			m.WriteString("&")
		}
		if v.IsNil() {
			m.WriteString("nil;")
			return
		}
		if enter(1, v.Pointer()) {
			m.walk(v.Elem())
			leave(1, v.Pointer())
		}
	case reflect.Struct:
		m.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			m.walk(v.Field(i))
		}
		m.WriteByte('}')
	case reflect.Array:
		m.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			m.walk(v.Index(i))
		}
		m.WriteByte(']')
	case reflect.Slice:
		if m.addr {
			fmt.Fprintf(m, "#%x,%d,%d", v.Pointer(), v.Len(), v.Cap())
		} else {
			fmt.Fprintf(m, "#%d", v.Len())
		}
		if v.IsNil() {
			m.WriteString("nil;")
			return
		}
		if m.mask != 0 && v.Pointer() == m.mask {
			m.WriteString("masked;")
			return
		}
		if !enter(2+uintptr(v.Len())<<8, v.Pointer()) {
			return
		}
		full := v
		if m.addr {
			full = v.Slice3(0, v.Cap(), v.Cap())
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(m, "%q", full.Bytes())
		} else {
			for i := 0; i < full.Len(); i++ {
				m.walk(full.Index(i))
			}
		}
		leave(2+uintptr(v.Len())<<8, v.Pointer())
		m.WriteByte(';')
	case reflect.Map:
		if m.addr {
			fmt.Fprintf(m, "%x", v.Pointer())
		}
		if v.IsNil() {
			m.WriteString("nil;")
			return
		}
		if !enter(3, v.Pointer()) {
			return
		}
		var ent []string
		it := v.MapRange()
		for it.Next() {
			sub := image{addr: m.addr, mask: m.mask, open: m.open}
			sub.walk(it.Key())
			sub.WriteString("=>")
			sub.walk(it.Value())
			ent = append(ent, sub.String())
		}
		sort.Strings(ent)
		fmt.Fprintf(m, "map%d%s;", len(ent), ent)
		leave(3, v.Pointer())
	case reflect.String:
		fmt.Fprintf(m, "%q", v.String())
		if m.addr && v.Len() > 0 {
			fmt.Fprintf(m, "@%x", strData(v))
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprintf(m, "%x;", v.Pointer())
	default:
		fmt.Fprintf(m, "%v;", v)
	}
}

func imageOf(v reflect.Value, addr bool, mask uintptr) string {
	m := image{addr: addr, mask: mask}
	m.walk(v)
	return m.String()
}

// differ shows where two images part.
func differ(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("was ...%s\nnow ...%s", clip(a[min(from, len(a)):], 200), clip(b[min(from, len(b)):], 200))
}

// ---- C09 ------------------------------------------------------------------------

var shareLeafs = []reflect.Type{
	reflect.TypeOf([]byte{}), reflect.TypeOf([]byte{}), reflect.TypeOf(gen.NBytes{}), reflect.TypeOf(""), reflect.TypeOf(RetU{}), reflect.TypeOf(&RetU{}), reflect.TypeOf(ScrU{}),
	reflect.TypeOf([][]byte{}), reflect.TypeOf(map[string][]byte{}), reflect.TypeOf([2][]byte{}), reflect.TypeOf(&[]byte{}), reflect.TypeOf(map[string]string{}), reflect.TypeOf([]string{}), reflect.TypeOf(map[int]RetU{}),
	reflect.TypeOf([]map[string]int{}), reflect.TypeOf([]*int{}), reflect.TypeOf([][]int{}), reflect.TypeOf(map[gen.NString]*string{}), reflect.TypeOf([]*[2]int{}), reflect.TypeOf(map[string][]int8{}),
}

// junk makes further calls that a wrong implementation could let interfere.
func (c *C) junk(n int, t reflect.Type, doc []byte) {
	r := c.R
	if len(doc) == 0 {
		doc = []byte("i:1;")
	}
	for ; n > 0; n-- {
		c.Count("further_calls")
		switch r.IntN(9) {
		case 0, 1: // the same type, other data of about the same size
			b := bytes.Clone(doc)
			for i := range b {
				if b[i] >= 'a' && b[i] <= 'z' && b[i] != 'a' && b[i] != 's' && b[i] != 'i' && b[i] != 'd' && b[i] != 'b' {
					b[i] = 'Q'
				} else if b[i] >= '1' && b[i] <= '9' && i > 3 && b[i-1] != ':' {
					b[i] = '7'
				}
			}
			c.Unmarshal(tame(b), reflect.New(t).Interface())
		case 2: // malformed
			b := tame(mutate(r, bytes.Clone(doc)))
			c.Unmarshal(b, reflect.New(t).Interface())
		case 3:
			var x any
			c.Unmarshal(phpdoc.Str(strings.Repeat("Z", len(doc))).Bytes(), &x)
		case 4:
			b := tame(gen.DocFor(r, t, 3, 8, true).Bytes())
			c.Unmarshal(b, reflect.New(t).Interface())
		case 5:
			c.Marshal(map[string]any{"k": strings.Repeat("W", len(doc)), "l": []int{1, 2, 3}})
		case 6:
			c.Marshal(struct{ C chan int }{make(chan int)})
		case 7:
			var u []RetU
			c.Unmarshal(phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Int(0), Val: phpdoc.Str(strings.Repeat("Y", len(doc)))}).Bytes(), &u)
		case 8:
			if r.IntN(20) == 0 {
				runtime.GC()
				c.Count("gc")
			}
		}
	}
}

// pastErr is an error with the text it had.
type pastErr struct {
	err  error
	text string
}

var pastErrs []pastErr

// keepErr remembers an error; its text must stay.
func (c *C) keepErr(err error) {
	if err == nil {
		return
	}
	if len(pastErrs) > 40 {
		pastErrs = pastErrs[1:]
	}
	c.Count("errors_kept")
	pastErrs = append(pastErrs, pastErr{err, strings.Clone(err.Error())})
}

func (c *C) checkErrs(call string) {
	for _, e := range pastErrs {
		if now := e.err.Error(); now != e.text {
			c.Fail("an error of %s said %q, later %q", call, clip(e.text, 300), clip(now, 300))
		}
	}
}

func runC09(c *C) {
	r := c.R
	defer c.checkErrs("Unmarshal")
	o := staticDec
	if r.IntN(3) == 0 {
		o = dynDec
	}
	o.Leaf, o.NoStr = shareLeafs, true
	o.Recursive = r.IntN(4) == 0
	t, o := c.randType(o)
	if r.IntN(6) == 0 {
		t = gen.Pick(r, shareLeafs...)
	}
	if gen.IsGiant() {
		t = gen.Around(r, t)
	}
	doc := gen.DocFor(r, t, 4, gen.Pick(r, 0, 0, 6, 30), true).Bytes()
	if r.IntN(6) == 0 {
		doc = mutate(r, doc)
	}
	doc = tame(doc)
	// input in a buffer with room behind it
	buf := make([]byte, len(doc)+r.IntN(40))
	copy(buf, doc)
	for i := len(doc); i < len(buf); i++ {
		buf[i] = byte(i*7) | 1
	}
	img := bytes.Clone(buf)
	in := buf[:len(doc)]
	v1, v2 := reflect.New(t), reflect.New(t)
	if r.IntN(3) == 0 {
		a, b := c.twin(t, o)
		v1.Elem().Set(a)
		v2.Elem().Set(b)
		c.Count("prefilled")
	}
	err1 := c.Unmarshal(in, v1.Interface())
	if !bytes.Equal(buf, img) {
		c.Fail("Unmarshal(%q) into %s modified its input or the memory behind it:\n%q", clip(string(img), 600), t, clip(string(buf), 600))
	}
	err2 := c.Unmarshal(in, v2.Interface())
	if (err1 == nil) != (err2 == nil) {
		c.Fail("Unmarshal(%q) into %s: first %v, then %v", clip(string(img), 600), t, err1, err2)
	}
	c.keepErr(err1)
	c.keepErr(err2)
	if err1 != nil {
		c.Count("failed_docs")
	}
	// nothing writable may be shared, also by what a failed call stored
	var m regions
	m.walk(v1, "first")
	n1 := len(m.r)
	m.walk(v2, "second")
	if len(buf) > 0 {
		m.add(reflect.ValueOf(buf).Pointer(), cap(buf), true, "input")
	}
	if a, b, bad := overlap(m.r); bad {
		c.Fail("Unmarshal(%q) into %s: memory is shared by %s [%x,%x) and %s [%x,%x)", clip(string(img), 600), t, a.path, a.lo, a.hi, b.path, b.lo, b.hi)
	}
	c.CountN("regions", len(m.r))
	c.CountN("byte_slices", len(m.bytes))
	c.CountN("strings", m.strs)
	c.CountN("retained", m.ret)
	w := 0
	for _, x := range m.r[:n1] {
		if x.w {
			w++
		}
	}
	c.Eval(w > 2, typeKey(t), string(img))
	c.Max("regions", n1)
	i1, i2 := imageOf(v1, true, 0), imageOf(v2, true, 0)
	for i := range buf {
		buf[i] = 'J'
	}
	c.junk(1+r.IntN(6), t, img[:len(doc)])
	runtime.KeepAlive(buf)
	if now := imageOf(v1, true, 0); now != i1 {
		c.Fail("the result of Unmarshal(%q) into %s changed after overwriting the input and further calls:\n%s", clip(string(img), 500), t, differ(i1, now))
	}
	if now := imageOf(v2, true, 0); now != i2 {
		c.Fail("the second result of Unmarshal(%q) into %s changed after overwriting the input and further calls:\n%s", clip(string(img), 500), t, differ(i2, now))
	}
	// write to byte slices one after the other, up to their capacity
	for k := 0; k < 6 && len(m.bytes) > 0; k++ {
		b := m.bytes[r.IntN(len(m.bytes))]
		if b.Cap() == 0 {
			continue
		}
		i1, i2 := imageOf(v1, false, b.Pointer()), imageOf(v2, false, b.Pointer())
		raw := b.Bytes()
		if r.IntN(2) == 0 {
			for i := range raw {
				raw[i] ^= 0x55
			}
			raw = append(raw, `";i:5;}}}}s:3:"xyz"`...)
			c.Count("appended")
		}
		raw = raw[:min(cap(raw), b.Cap())]
		full := b.Slice3(0, b.Cap(), b.Cap()).Bytes()
		for i := range full {
			full[i] ^= 0xa5
		}
		c.Count("scrambled")
		if imageOf(v1, false, b.Pointer()) != i1 || imageOf(v2, false, b.Pointer()) != i2 {
			c.Fail("Unmarshal(%q) into %s: writing to or appending to one decoded byte slice changed another part", clip(string(img), 600), t)
		}
	}
	if len(m.bytes) > 0 {
		c.Sample("%s %q", typeKey(t), img)
	}
}

// ---- C10 ------------------------------------------------------------------------

// kM returns a buffer it keeps, with spare capacity.
type kM struct{ full *[]byte }

func (k kM) MarshalPHP() ([]byte, error) {
	if k.full == nil {
		return []byte("N;"), nil
	}
	return (*k.full)[:len(*k.full)/2], nil
}

var errK = errors.New("kE failed")

// kE returns bytes together with an error.
type kE struct{ N int }

func (k kE) MarshalPHP() ([]byte, error) { return []byte("i:1;"), errK }

// kR marshals inside MarshalPHP and keeps the results.
type kR struct{ V any }

type kept struct{ buf, full []byte }

var kRkept []kept

func keep(b []byte) {
	kRkept = append(kRkept, kept{b, bytes.Clone(b)})
}

func (k kR) MarshalPHP() ([]byte, error) {
	a, err := php.Marshal(k.V)
	if err != nil {
		return nil, err
	}
	keep(a)
	php.Marshal([]any{k.V, make(chan int)})
	b, err := php.Marshal(map[string]any{"again": k.V})
	keep(b)
	return a, err
}

// roomy gives slices inside v spare capacity with a pattern.
func roomy(r gen.R, v reflect.Value, d int) {
	if d > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			roomy(r, v.Elem(), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				roomy(r, v.Field(i), d+1)
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			roomy(r, v.Index(i), d+1)
		}
	case reflect.Interface:
		if !v.IsNil() && v.CanSet() && v.NumMethod() == 0 {
			n := reflect.New(v.Elem().Type()).Elem()
			n.Set(v.Elem())
			roomy(r, n, d+1)
			v.Set(n)
		}
	case reflect.Slice:
		if v.IsNil() || !v.CanSet() {
			return
		}
		for i := 0; i < v.Len(); i++ {
			roomy(r, v.Index(i), d+1)
		}
		if r.IntN(2) == 0 {
			return
		}
		n := reflect.MakeSlice(v.Type(), v.Len()+1+r.IntN(70), v.Len()+80)
		reflect.Copy(n, v)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := v.Len(); i < n.Len(); i++ {
				n.Index(i).SetUint(uint64(0x80 | i))
			}
		}
		v.Set(n.Slice(0, v.Len()))
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			n := reflect.New(v.Type().Elem()).Elem()
			n.Set(v.MapIndex(k))
			roomy(r, n, d+1)
			v.SetMapIndex(k, n)
		}
	}
}

func runC10(c *C) {
	r := c.R
	o := dynami
	if r.IntN(4) == 0 {
		o = static
	}
	o.Big = true
	o.Recursive = r.IntN(4) == 0
	one := r.IntN(2) == 0
	if one {
		o.MaxMap = 1
	}
	kRkept = kRkept[:0]
	var hist []kept
	remember := func(b []byte, what string) {
		hist = append(hist, kept{b[:cap(b)], bytes.Clone(b[:cap(b)])})
	}
	check := func(after string) {
		for i, h := range hist {
			if !bytes.Equal(h.buf, h.full) {
				c.Fail("result number %d changed after %s:\nwas %q\nnow %q", i, after, clip(string(h.full), 400), clip(string(h.buf), 400))
			}
			c.Count("history_checked")
		}
		for _, h := range kRkept {
			if !bytes.Equal(h.buf, h.full) {
				c.Fail("result of a call inside MarshalPHP changed after %s:\nwas %q\nnow %q", after, clip(string(h.full), 400), clip(string(h.buf), 400))
			}
		}
	}
	var bufs [][]byte
	outs := func(m *regions) {
		for i, h := range hist {
			if cap(h.buf) > 0 {
				m.add(reflect.ValueOf(h.buf).Pointer(), cap(h.buf), true, fmt.Sprintf("result %d", i))
			}
		}
		for i, b := range bufs {
			m.add(reflect.ValueOf(b).Pointer(), cap(b), false, fmt.Sprintf("buffer of MarshalPHP %d", i))
		}
	}
	steps := 2 + r.IntN(5)
	for s := 0; s < steps; s++ {
		t, oo := c.randType(o)
		v := gen.Value(r, t, oo)
		if v.CanAddr() {
			roomy(r, v, 0)
		}
		arg := addr(c, v)
		bad := ""
		switch r.IntN(14) {
		case 0:
			full := phpdoc.Str(gen.RandBytes(r, r.IntN(60))).Bytes()
			full = append(full, bytes.Repeat([]byte("K"), len(full))...)
			bufs = append(bufs, full)
			arg = gen.Pick[any](r, kM{&full}, []any{kM{&full}, arg}, map[string]any{"m": kM{&full}}, &struct {
				A kM
				B any
			}{kM{&full}, arg}, []kM{{&full}, {&full}})
			c.Count("retained")
		case 1:
			arg = gen.Pick[any](r, kE{1}, &kE{1}, []any{arg, kE{1}, arg}, map[string]any{"m": kE{}}, []kE{{}, {}}, map[int]*kE{1: {}}, struct {
				B any
				A kE
			}{arg, kE{}})
			bad = "erroring Marshaler"
		case 2:
			ch := make(chan int)
			arg = gen.Pick[any](r, ch, []any{arg, ch}, map[string]any{"a": func() {}}, struct {
				A any
				B any
			}{arg, complex(1, 2)}, []any{strings.Repeat("x", 3000), uintptr(1)})
			bad = "unsupported type"
		case 3:
			cyc := []any{arg, nil}
			cyc[1] = cyc
			mc := map[string]any{"v": arg}
			mc["m"] = mc
			l := &gen.RAny{V: arg}
			l.Next = &gen.RAny{Next: l}
			arg = gen.Pick[any](r, cyc, mc, l, []any{cyc, mc})
			bad = "cycle"
		case 4:
			arg = gen.Pick[any](r, kR{arg}, []any{kR{arg}, kR{kR{arg}}}, map[string]kR{"x": {arg}}, struct{ K *kR }{&kR{arg}})
			c.Count("reentrant")
		case 5:
			if r.IntN(4) == 0 {
				arg = []any{strings.Repeat("B", 1<<uint(8+r.IntN(12))), arg}
				c.Count("big")
			}
		}
		kRkept = kRkept[:0]
		av := reflect.ValueOf(arg)
		before := imageOf(av, true, 0)
		out, err := c.Marshal(arg)
		if now := imageOf(av, true, 0); now != before {
			c.Fail("Marshal(%s) modified the value:\n%s", show(arg), differ(before, now))
		}
		c.Count("images")
		c.Eval(true, typeKey(reflect.TypeOf(arg)), string(out))
		check("Marshal")
		if bad != "" && err == nil {
			c.Fail("Marshal(%s) succeeded (%s)", show(arg), bad)
		}
		if err != nil {
			if bad == "" {
				c.Fail("Marshal(%s): %v", show(arg), err)
			}
			c.Count("failures")
			c.keepErr(err)
			defer c.checkErrs("Marshal")
			if out != nil {
				c.Fail("Marshal(%s) failed with %v but returned %q (len %d, cap %d)", show(arg), err, clip(string(out), 200), len(out), cap(out))
			}
			c.Count("nil_on_error")
			continue
		}
		want := string(out)
		remember(out, "")
		var m regions
		if bad == "" {
			m.walk(av, "value")
		}
		// only results and buffers against the value: values may share
		var vs []region
		for _, x := range m.r {
			x.w = false
			vs = append(vs, x)
		}
		m.r = vs
		outs(&m)
		if a, b, over := overlap(m.r); over {
			c.Fail("Marshal(%s): memory is shared by %s and %s", show(arg), a.path, b.path)
		}
		// destroy a result, encode again
		if r.IntN(2) == 0 {
			h := hist[len(hist)-1]
			hist = hist[:len(hist)-1]
			if r.IntN(2) == 0 {
				_ = append(out[:0], strings.Repeat("#", 1+r.IntN(100))...)
				_ = append(out, "########################"...)
				c.Count("appended")
			}
			for i := range h.buf {
				h.buf[i] = '#'
			}
			c.Count("scrambled")
			if now := imageOf(av, true, 0); now != before {
				c.Fail("writing to the result of Marshal(%s) modified the value:\n%s", show(arg), differ(before, now))
			}
			check("overwriting another result")
			again, err := c.Marshal(arg)
			if err != nil {
				c.Fail("Marshal(%s): second call: %v", show(arg), err)
			}
			if string(again) != want && !sameDoc([]byte(want), again) {
				c.Fail("Marshal(%s) after overwriting its first result:\nfirst %q\nthen  %q", show(arg), clip(want, 500), clip(string(again), 500))
			}
			out = again
			remember(out, "")
			check("Marshal")
		}
		// other calls
		switch r.IntN(6) {
		case 0:
			in := bytes.Clone(out)
			var x any
			c.Unmarshal(tame(in), &x)
			check("Unmarshal")
		case 1:
			x := reflect.New(t)
			c.Unmarshal(tame(bytes.Clone(out)), x.Interface())
			check("Unmarshal")
		case 2:
			if r.IntN(30) == 0 {
				runtime.GC()
				check("garbage collection")
			}
		case 3:
			c.Marshal([]any{strings.Repeat("y", r.IntN(5000)), make(chan int)})
			check("failing Marshal")
		}
		if s == 0 {
			c.Sample("%s -> %q", typeKey(reflect.TypeOf(arg)), want)
		}
	}
}

// sameDoc compares two documents up to the order of array entries.
func sameDoc(a, b []byte) bool {
	x, err1 := phpdoc.Parse(a)
	y, err2 := phpdoc.Parse(b)
	return err1 == nil && err2 == nil && bytes.Equal(canon(x), canon(y))
}
