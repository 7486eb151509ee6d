package mon

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	php "github.com/trim21/go-phpserialize"

	"vmon/gen"
	"vmon/phpdoc"
	"vmon/ref"
)

func init() {
	register(&Monitor{
		ID: "C14", Quick: 400000, Thorough: 6000000, Chunk: 400,
		Rule: "types of every kind with MarshalPHP (value and pointer receivers, interfaces, promoted methods) at random positions of random types; the log of calls is compared with an independent walk of the value (each occurrence once), the output with an independent encoder that splices the returned bytes; scripted results: documents, arbitrary bytes, empty, errors together with bytes, re-entrant calls; non-trivial: case with at least one call, counted by (type, output)",
		Need: []string{"calls", "spliced_doc", "spliced_raw", "errors", "nil_null", "pos_top", "pos_field", "pos_elem", "pos_map", "pos_iface", "pos_ptr", "reentrant", "wide", "exact"},
		Run:  runC14,
	})
	register(&Monitor{
		ID: "C15", Quick: 400000, Thorough: 6000000, Chunk: 400,
		Rule: "types of every kind with UnmarshalPHP at random positions of random types, random documents; the log of raw bytes received is compared in order with the spans of an independent parse, the result with the reference decoder, errors by identity; methods overwrite, append to, keep the bytes, re-enter the package; non-trivial: case with at least one call, counted by (type, document)",
		Need: []string{"calls", "null_reset", "errors", "mutated", "appended", "kept", "reentrant", "iface", "skipped_uncalled", "old_slices", "wide", "exact"},
		Run:  runC15,
	})
	register(&Monitor{
		ID: "C16", Quick: 120000, Thorough: 3600000, Chunk: 400,
		Rule: "random structs of 0 to 257 fields with valid, invalid and odd tags, unexported, ignored and embedded fields; written keys and omitted fields compared with an independent reading of the tags, each key and near misses of it decoded alone, in random order and together over pre-set fields; non-trivial: distinct (struct type, keys)",
		Need: []string{"encoded", "omitted", "zero_kept", "nonzero_kept", "own_key", "near_miss", "ignored_key", "order", "embedded_refused", "embedded_ok", "wide", "exact"},
		Run:  runC16,
	})
	fill := func(v any, f func(r gen.R, v reflect.Value)) { gen.Fillers[reflect.TypeOf(v).Elem()] = f }
	id := func(r gen.R) int { return r.IntN(1 << 20) }
	fill((*mV)(nil), func(r gen.R, v reflect.Value) { v.Set(reflect.ValueOf(mV{ID: id(r), X: "x"})) })
	fill((**mP)(nil), func(r gen.R, v reflect.Value) { v.Set(reflect.ValueOf(&mP{ID: id(r)})) })
	fill((**mPS)(nil), func(r gen.R, v reflect.Value) { s := mPS(fmt.Sprint(id(r))); v.Set(reflect.ValueOf(&s)) })
	fill((*mM)(nil), func(r gen.R, v reflect.Value) { v.Set(reflect.ValueOf(mM{"k": id(r)})) })
	fill((*mL)(nil), func(r gen.R, v reflect.Value) { v.Set(reflect.ValueOf(mL{fmt.Sprint(id(r))})) })
	fill((*mB)(nil), func(r gen.R, v reflect.Value) { v.Set(reflect.ValueOf(mB(fmt.Sprint(id(r))))) })
	fill((*mF)(nil), func(r gen.R, v reflect.Value) { n := id(r); v.Set(reflect.ValueOf(mF(func() int { return n }))) })
	fill((*mC)(nil), func(r gen.R, v reflect.Value) { v.Set(reflect.ValueOf(make(mC, 1+r.IntN(1000)))) })
	fill((*mEmb)(nil), func(r gen.R, v reflect.Value) { v.Set(reflect.ValueOf(mEmb{mV{ID: id(r)}})) })
	fill((*mOdd)(nil), func(r gen.R, v reflect.Value) { v.Set(reflect.ValueOf(mOdd{ID: id(r)})) })
	some := func(r gen.R) php.Marshaler {
		switch r.IntN(13) {
		case 11:
			return gen.Pick[php.Marshaler](r, mZ{}, &mZ{}, &mPZ{}, mZA{})
		case 0:
			return mV{ID: id(r)}
		case 1:
			return &mV{ID: id(r)}
		case 2:
			return &mP{ID: id(r)}
		case 3:
			return mS(fmt.Sprint(id(r)))
		case 4:
			return mI(r.IntN(100))
		case 5:
			return mM{"q": id(r)}
		case 6:
			return mL{fmt.Sprint(id(r))}
		case 7:
			return mB(fmt.Sprint(id(r)))
		case 8:
			return mA{id(r), 1}
		case 9:
			return (*mV)(nil) // nil pointer, value receiver
		case 10:
			return mEmb{mS(fmt.Sprint(id(r)))}
		}
		return mF(func() int { return 77 })
	}
	fill((*php.Marshaler)(nil), func(r gen.R, v reflect.Value) {
		if r.IntN(4) > 0 {
			v.Set(reflect.ValueOf(some(r)))
		}
	})
	fill((*mIface)(nil), func(r gen.R, v reflect.Value) {
		switch r.IntN(4) {
		case 0:
			v.Set(reflect.ValueOf(mS(fmt.Sprint(id(r)))))
		case 1:
			v.Set(reflect.ValueOf(&mP{ID: id(r)}))
		case 2:
			v.Set(reflect.ValueOf(mV{ID: id(r)}))
		}
	})
	fill((*tokIface)(nil), func(r gen.R, v reflect.Value) {
		switch r.IntN(5) {
		case 0:
			v.Set(reflect.ValueOf(mS(fmt.Sprint(id(r)))))
		case 1:
			v.Set(reflect.ValueOf(&mP{ID: id(r)}))
		case 2:
			v.Set(reflect.ValueOf(tokPlain{N: id(r)}))
		case 3:
			v.Set(reflect.ValueOf(mV{ID: id(r)}))
		}
	})
	// destinations
	for _, t := range uLeafs {
		if t.Kind() != reflect.Interface {
			gen.AnyDoc[t] = true
		}
	}
	gen.AnyDoc[reflect.TypeOf((*uIface)(nil)).Elem()] = true
	gen.AnyDoc[reflect.TypeOf((*php.Unmarshaler)(nil)).Elem()] = true
	gen.AnyDoc[reflect.TypeOf((*uP)(nil))] = true
	fillU := func(r gen.R, v reflect.Value) {
		switch r.IntN(4) {
		case 0, 1:
			v.Set(reflect.ValueOf(&uP{Raw: "old"}))
		case 2:
			s := uS("old")
			v.Set(reflect.ValueOf(&s))
		}
	}
	fill((*php.Unmarshaler)(nil), fillU)
	fill((*uIface)(nil), fillU)
	fill((*uC)(nil), func(r gen.R, v reflect.Value) {})
	fill((*uF)(nil), func(r gen.R, v reflect.Value) {})
}

// ---- scripted Marshalers ------------------------------------------------------

type script struct {
	mu     sync.Mutex
	on     bool
	mode   int // 0: documents 1: arbitrary bytes
	errMod uint32
	events []string
	errs   map[string]error
	kept   []keptBuf
	re     int
	c      *C
}

type keptBuf struct{ buf, full []byte }

var ms script

func hash32(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return h.Sum32() >> 3
}

type custErr struct{ tok string }

func (e *custErr) Error() string { return "custom " + e.tok }

func (s *script) errOf(tok string) error {
	if s.errMod == 0 || hash32("e"+tok)%s.errMod != 0 {
		return nil
	}
	e := s.errs[tok]
	if e == nil {
		e = &custErr{tok}
		switch hash32("w"+tok) % 6 {
		case 0, 1:
			e = fmt.Errorf("wrapped %w", e)
		case 2:
			// an error of the package itself, from a re-entrant call
			if _, err := php.Marshal([]any{func() {}}); err != nil {
				e = err
			}
		}
		s.errs[tok] = e
	}
	return e
}

// result is what MarshalPHP of the value identified by tok returns.
func (s *script) result(tok string) ([]byte, error) {
	h := hash32(tok)
	err := s.errOf(tok)
	if err != nil && h%2 == 0 {
		return nil, err
	}
	if s.mode == 1 {
		switch h % 5 {
		case 0:
			return nil, err
		case 1:
			return []byte{}, err
		case 2:
			return []byte("\x00\xff{}{" + tok), err
		case 3:
			return []byte(strings.Repeat(tok, int(h%97))), err
		}
	}
	switch h % 4 {
	case 0:
		return phpdoc.Str(tok).Bytes(), err
	case 1:
		return phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("tok"), Val: phpdoc.Str(tok)}).Bytes(), err
	case 2:
		return phpdoc.Obj("A", phpdoc.Entry{Key: phpdoc.Str("tok"), Val: phpdoc.Str(strings.Repeat(tok, 1+int(h%300)))}).Bytes(), err
	}
	return phpdoc.Int(int64(h)).Bytes(), err
}

func (s *script) marshal(kind, tok string) ([]byte, error) {
	tok = kind + "/" + tok
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.on {
		return phpdoc.Str(tok).Bytes(), nil
	}
	s.events = append(s.events, tok)
	b, err := s.result(tok)
	h := hash32("k" + tok)
	if b != nil && h%2 == 0 {
		// the caller keeps its buffer, with room behind it
		full := make([]byte, len(b)+int(h%40))
		for i := copy(full, b); i < len(full); i++ {
			full[i] = 0x5a
		}
		b = full[:len(b)]
		s.kept = append(s.kept, keptBuf{full, append([]byte{}, full...)})
	}
	if h%7 == 0 && s.c != nil {
		s.re++
		s.mu.Unlock()
		rb, rerr := php.Marshal(map[string]any{"re": []any{1, "two", struct{ X int }{3}}})
		php.Marshal(make(chan int))
		var x any
		uerr := php.Unmarshal(rb, &x)
		s.mu.Lock()
		if rerr != nil || uerr != nil || string(rb) != `a:1:{s:2:"re";a:3:{i:0;i:1;i:1;s:3:"two";i:2;a:1:{s:1:"X";i:3;}}}` {
			s.c.report("re-entrant call inside MarshalPHP: %q %v %v", rb, rerr, uerr)
		}
	}
	return b, err
}

type (
	mV struct {
		ID int
		X  string
	}
	mP   struct{ ID int }
	mS   string
	mI   int8
	mU   uint64
	mFl  float64
	mBo  bool
	mM   map[string]int
	mL   []string
	mB   []byte
	mA   [2]int
	mF   func() int
	mC   chan int
	mZ   struct{} // nothing to encode, but a method
	mPZ  struct{}
	mZA  [0]string
	mPS  string
	mEmb struct{ php.Marshaler }
	mOdd struct {
		ID int
		C  chan int
		F  func()
		P  **int
	}
	mIface interface {
		php.Marshaler
		Tok() string
	}
	tokIface interface{ Tok() string }
	tokPlain struct{ N int }
)

func (m mV) Tok() string {
	return strconv.Itoa(m.ID)
}
func (m mV) MarshalPHP() ([]byte, error) { return ms.marshal("mV", m.Tok()) }
func (m *mP) Tok() string {
	if m == nil {
		return "nil"
	}
	return strconv.Itoa(m.ID)
}
func (m *mP) MarshalPHP() ([]byte, error) { return ms.marshal("mP", m.Tok()) }
func (m mS) Tok() string                  { return string(m) }
func (m mS) MarshalPHP() ([]byte, error)  { return ms.marshal("mS", m.Tok()) }
func (m mI) Tok() string                  { return strconv.Itoa(int(m)) }
func (m mI) MarshalPHP() ([]byte, error)  { return ms.marshal("mI", m.Tok()) }
func (m mU) Tok() string                  { return strconv.FormatUint(uint64(m), 10) }
func (m mU) MarshalPHP() ([]byte, error)  { return ms.marshal("mU", m.Tok()) }
func (m mFl) Tok() string                 { return strconv.FormatFloat(float64(m), 'x', -1, 64) }
func (m mFl) MarshalPHP() ([]byte, error) { return ms.marshal("mFl", m.Tok()) }
func (m mBo) Tok() string                 { return strconv.FormatBool(bool(m)) }
func (m mBo) MarshalPHP() ([]byte, error) { return ms.marshal("mBo", m.Tok()) }
func (m mM) Tok() string                  { return fmt.Sprint(map[string]int(m)) }
func (m mM) MarshalPHP() ([]byte, error)  { return ms.marshal("mM", m.Tok()) }
func (m mL) Tok() string                  { return fmt.Sprint([]string(m)) }
func (m mL) MarshalPHP() ([]byte, error)  { return ms.marshal("mL", m.Tok()) }
func (m mB) Tok() string                  { return string(m) }
func (m mB) MarshalPHP() ([]byte, error)  { return ms.marshal("mB", m.Tok()) }
func (m mA) Tok() string                  { return fmt.Sprint([2]int(m)) }
func (m mA) MarshalPHP() ([]byte, error)  { return ms.marshal("mA", m.Tok()) }
func (m mF) Tok() string {
	if m == nil {
		return "nil"
	}
	return strconv.Itoa(m())
}
func (m mF) MarshalPHP() ([]byte, error) { return ms.marshal("mF", m.Tok()) }
func (m mC) Tok() string                 { return strconv.Itoa(cap(m)) }
func (m mC) MarshalPHP() ([]byte, error) { return ms.marshal("mC", m.Tok()) }
func (m mZ) Tok() string                 { return "" }
func (m mZ) MarshalPHP() ([]byte, error) { return ms.marshal("mZ", "") }
func (m *mPZ) Tok() string               { return "" }
func (m *mPZ) MarshalPHP() ([]byte, error) {
	if m == nil {
		return ms.marshal("mPZ", "nil")
	}
	return ms.marshal("mPZ", "")
}
func (m mZA) Tok() string                 { return "" }
func (m mZA) MarshalPHP() ([]byte, error) { return ms.marshal("mZA", "") }
func (m *mPS) Tok() string {
	if m == nil {
		return "nil"
	}
	return string(*m)
}
func (m *mPS) MarshalPHP() ([]byte, error) { return ms.marshal("mPS", m.Tok()) }
func (m mOdd) Tok() string                 { return strconv.Itoa(m.ID) }
func (m mOdd) MarshalPHP() ([]byte, error) { return ms.marshal("mOdd", m.Tok()) }
func (t tokPlain) Tok() string             { return "plain" }

var mLeafs = []reflect.Type{
	reflect.TypeOf(mV{}), reflect.TypeOf(&mV{}), reflect.TypeOf(&mP{}), reflect.TypeOf(mP{}), reflect.TypeOf(mS("")), reflect.TypeOf(mI(0)), reflect.TypeOf(mU(0)), reflect.TypeOf(mFl(0)), reflect.TypeOf(mBo(false)),
	reflect.TypeOf(mM{}), reflect.TypeOf(mL{}), reflect.TypeOf(mB{}), reflect.TypeOf(mA{}), reflect.TypeOf(mF(nil)), reflect.TypeOf(mC(nil)), reflect.TypeOf((*mPS)(nil)), reflect.TypeOf(mEmb{}), reflect.TypeOf(mOdd{}), reflect.TypeOf(mZ{}), reflect.TypeOf(&mZ{}), reflect.TypeOf(&mPZ{}), reflect.TypeOf(mZA{}), reflect.TypeOf(map[string]*mPZ{}),
	reflect.TypeOf((*php.Marshaler)(nil)).Elem(), reflect.TypeOf((*mIface)(nil)).Elem(), reflect.TypeOf((*tokIface)(nil)).Elem(), gen.AnyType, reflect.TypeOf(new(mS)), reflect.TypeOf(new(mA)), reflect.TypeOf(new(php.Marshaler)),
}

var marshalerT = reflect.TypeOf((*php.Marshaler)(nil)).Elem()

// wanted is the independent encoder that knows Marshalers.
type wanted struct {
	c      *C
	calls  []string
	unspec string
	errs   []error
}

func (w *wanted) enc(v reflect.Value, pos string) *phpdoc.Node {
	if !v.IsValid() {
		return phpdoc.Null()
	}
	t := v.Type()
	if t.Kind() == reflect.Interface {
		if v.IsNil() {
			if t.Implements(marshalerT) {
				w.c.Count("nil_null")
			}
			return phpdoc.Null()
		}
		return w.enc(v.Elem(), "iface")
	}
	if t.Implements(marshalerT) {
		switch t.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				if t.Elem().Implements(marshalerT) {
					w.c.Count("nil_null")
					return phpdoc.Null()
				}
				w.unspec = "nil pointer with pointer receiver"
				return phpdoc.Null()
			}
		case reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
			if v.IsNil() {
				w.unspec = "nil " + t.String()
				return phpdoc.Null()
			}
		}
		if e, ok := v.Interface().(mEmb); ok && (e.Marshaler == nil || reflect.ValueOf(e.Marshaler).Kind() == reflect.Pointer && reflect.ValueOf(e.Marshaler).IsNil()) {
			w.unspec = "promoted method of a nil embedded interface" // panics in the user's code
			return phpdoc.Null()
		}
		w.c.Count("pos_" + pos)
		n := len(ms.events)
		b, err := v.Interface().(php.Marshaler).MarshalPHP()
		w.calls = append(w.calls, ms.events[n:]...)
		if err != nil {
			w.errs = append(w.errs, err)
		}
		return phpdoc.Raw(string(b))
	}
	switch t.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return phpdoc.Null()
		}
		return w.enc(v.Elem(), "ptr")
	case reflect.Bool:
		return phpdoc.Bool(v.Bool())
	case reflect.String:
		return phpdoc.Str(v.String())
	case reflect.Float32, reflect.Float64:
		b, err, p := safeMarshal(v.Interface())
		if err != nil || p != nil {
			w.c.Fail("Marshal(%s): %v %v", show(v.Interface()), err, p)
		}
		return phpdoc.Raw(string(b))
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice {
			if t == gen.BytesType {
				return phpdoc.Str(string(v.Bytes()))
			}
			if v.IsNil() {
				return phpdoc.Null()
			}
		}
		n := phpdoc.Arr()
		for i := 0; i < v.Len(); i++ {
			n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Int(int64(i)), Val: w.enc(v.Index(i), "elem")})
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return phpdoc.Null()
		}
		n := phpdoc.Arr()
		it := v.MapRange()
		for it.Next() {
			n.Ent = append(n.Ent, phpdoc.Entry{Key: w.enc(it.Key(), "key"), Val: w.enc(it.Value(), "map")})
		}
		return n
	case reflect.Struct:
		n := phpdoc.Arr()
		for i := 0; i < t.NumField(); i++ {
			fi := gen.Field(t.Field(i))
			if fi.Skip || fi.Omit && ref.IsZero(v.Field(i)) {
				continue
			}
			n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Str(fi.Key), Val: w.field(v.Field(i), fi.Str)})
		}
		return n
	}
	if v.CanInt() {
		return phpdoc.Int(v.Int())
	}
	if v.CanUint() {
		return phpdoc.Uint(v.Uint())
	}
	w.unspec = t.String()
	return phpdoc.Null()
}

// field handles the string option of the catalogue types.
func (w *wanted) field(v reflect.Value, str bool) *phpdoc.Node {
	n := w.enc(v, "field")
	if !str {
		return n
	}
	switch n.K {
	case 'i':
		return phpdoc.Str(n.T)
	case 'b':
		return phpdoc.Str(strconv.FormatBool(n.B))
	}
	return n
}

func runC14(c *C) {
	r := c.R
	o := dynami
	o.NoStr, o.AnyString, o.Leaf = true, false, mLeafs
	o.Recursive = r.IntN(4) == 0
	multi := r.IntN(3) == 0
	if !multi {
		o.MaxMap = 1
	}
	t, o := c.randType(o)
	if r.IntN(5) == 0 {
		t = gen.Pick(r, mLeafs...)
	}
	var v reflect.Value
	if r.IntN(400) == 0 {
		v = gen.Wide(r, o, 3000)
		t, multi = v.Type(), true
		c.Count("wide")
	} else if x, ok := gen.ExactIndex(c.I); ok {
		v = gen.Exact(r, o, x)
		t, multi = v.Type(), true
		c.Count("exact")
	} else {
		v = gen.Value(r, t, o)
	}
	mode := 0
	if !multi && r.IntN(2) == 0 {
		mode = 1
	}
	errMod := uint32(gen.Pick(r, 0, 0, 3, 10, 40))
	ms.mu.Lock()
	ms.on, ms.mode, ms.errMod, ms.events, ms.errs, ms.kept, ms.re, ms.c = true, mode, errMod, nil, map[string]error{}, nil, 0, nil
	ms.mu.Unlock()
	defer func() { ms.on = false }()
	w := &wanted{c: c}
	arg := addr(c, v)
	if r.IntN(8) == 0 && t.Kind() == reflect.Pointer {
		p := reflect.New(t)
		p.Elem().Set(v)
		arg = gen.Pick[any](r, []any{p.Interface()}, map[string]any{"p": p.Interface()}, struct{ F any }{p.Interface()})
	}
	want := w.enc(reflect.ValueOf(arg), "top")
	if w.unspec != "" {
		c.Count("skipped_unspecified")
		return
	}
	ms.events, ms.kept, ms.c = nil, nil, c
	out, err := c.Marshal(arg)
	got := append([]string{}, ms.events...)
	c.CountN("calls", len(got))
	if ms.re > 0 {
		c.Count("reentrant")
	}
	for _, k := range ms.kept {
		if !bytes.Equal(k.buf, k.full) {
			c.Fail("Marshal(%s) modified the buffer returned by MarshalPHP: %q, was %q", show(arg), k.buf, k.full)
		}
	}
	c.Eval(len(w.calls) > 0, typeKey(t), string(out), fmt.Sprint(errMod, mode))
	if len(w.errs) > 0 {
		c.Count("errors")
		if err == nil {
			c.Fail("Marshal(%s) returned %q although MarshalPHP failed with %v", show(arg), clip(string(out), 300), w.errs[0])
		}
		if out != nil {
			c.Fail("Marshal(%s) failed (%v) but returned %d bytes", show(arg), err, len(out))
		}
		ok := false
		for _, e := range w.errs {
			ok = ok || e == err
		}
		if !ok {
			c.Fail("Marshal(%s) returned error %#v, want the error of MarshalPHP %#v", show(arg), err, w.errs[0])
		}
		left := map[string]int{}
		for _, k := range w.calls {
			left[k]++
		}
		for _, k := range got {
			if left[k]--; left[k] < 0 {
				c.Fail("Marshal(%s): MarshalPHP of %q called too often", show(arg), k)
			}
		}
		return
	}
	if err != nil {
		c.Fail("Marshal(%s): %v", show(arg), err)
	}
	a, b := append([]string{}, w.calls...), got
	sort.Strings(a)
	sort.Strings(b)
	if strings.Join(a, "|") != strings.Join(b, "|") {
		c.Fail("Marshal(%s): MarshalPHP calls %q, want %q", show(arg), b, a)
	}
	exp := want.Bytes()
	if multi {
		n := c.parse(arg, out)
		m, perr := phpdoc.Parse(exp)
		if perr != nil {
			panic(perr)
		}
		out, exp = canon(n), canon(m)
	}
	if !bytes.Equal(out, exp) {
		c.Fail("Marshal(%s) =\n%q, want\n%q", show(arg), clip(string(out), 800), clip(string(exp), 800))
	}
	if len(w.calls) > 0 {
		if mode == 1 {
			c.Count("spliced_raw")
		} else {
			c.Count("spliced_doc")
		}
		c.Sample("%s -> %q", typeKey(t), out)
	}
}

// ---- scripted Unmarshalers ----------------------------------------------------

type uscript struct {
	on     bool
	plain  bool // reference side: only log
	errMod uint32
	salt   string
	events []string
	errs   map[string]error
	kept   []keptBuf
	n      map[string]int
	c      *C
}

var us uscript

func (s *uscript) errOf(raw string) error {
	if s.errMod == 0 || hash32("e"+s.salt+raw)%s.errMod != 0 {
		return nil
	}
	if e := s.errs[raw]; e != nil {
		return e
	}
	var e error
	// errors of the package itself come back too, for example from a re-entrant call
	own := func(doc string, v any) {
		if err, p := safeUnmarshal([]byte(doc), v); p != nil {
			e = p
		} else {
			e = err
		}
	}
	switch hash32(raw) % 8 {
	case 0:
		e = errors.New("plain " + raw)
	case 3:
		own("x", new(string))
	case 4:
		own(`a:1:{i:0;i:1;}`, new([]string))
	case 5:
		own(`s:1:"x";`, nil)
	case 6:
		e = io.EOF
	case 7:
		own(`a:1:{s:1:"V";N;}`, new(struct{ V **int }))
	case 1:
		e = fmt.Errorf("wrapped %w", &custErr{raw})
	case 2:
		own("i:300;", new(int8))
	}
	if e == nil {
		e = &custErr{raw}
	}
	s.errs[raw] = e
	return e
}

func (s *uscript) take(kind string, b []byte) (string, error) {
	raw := string(b)
	if !s.on {
		return raw, nil
	}
	s.events = append(s.events, kind+" "+raw)
	if s.plain {
		return raw, s.errOf(raw)
	}
	h := hash32("b" + s.salt + raw)
	act := func(name string) { s.n[name]++ }
	if h%5 == 0 {
		act("reentrant")
		var x any
		err := php.Unmarshal(b, &x)
		var bad int
		php.Unmarshal([]byte("i:1"), &bad)
		out, merr := php.Marshal([]any{raw, 1})
		if err != nil && !errors.Is(err, ref.ErrHuge) {
			s.c.Count("reentrant_refused")
		}
		if merr != nil || len(out) == 0 {
			s.c.report("re-entrant Marshal inside UnmarshalPHP: %v", merr)
		}
	}
	switch h / 5 % 6 {
	case 0:
		act("mutated")
		for i := range b {
			b[i] ^= 0x55
		}
	case 1:
		act("appended")
		_ = append(b, `";}}}}i:5;N;garbage`...)
	case 2:
		act("mutated")
		act("appended")
		for i := range b {
			b[i] = '}'
		}
		b = append(b, "}}}}"...)
		full := b[:cap(b)]
		for i := range full {
			full[i] = 'X'
		}
	case 3:
		act("kept")
		s.kept = append(s.kept, keptBuf{b, append([]byte{}, b...)})
	}
	return raw, s.errOf(raw)
}

type (
	uP struct {
		Raw string
		N   int
	}
	uS  string
	uI  int16
	uL  []string
	uM  map[string]string
	uB  []byte
	uA  [2]string
	uBo bool
	uBy uint8
	uFl float32
	uC  chan int
	uZ  struct{} // only the method sees anything
	uZA [0]int
	uF  func()
	uV  struct{ X int }
	uE  struct {
		uPE
		Y int
	}
	uPE  struct{ Raw string }
	uOdd struct {
		Raw string
		F   func()
		P   **int
	}
	uIface interface {
		php.Unmarshaler
		Other() int
	}
)

func (u *uP) Other() int { return 1 }
func (u *uP) UnmarshalPHP(b []byte) (err error) {
	u.Raw, err = us.take("uP", b)
	u.N++
	return
}
func (u *uS) Other() int { return 2 }
func (u *uS) UnmarshalPHP(b []byte) error {
	raw, err := us.take("uS", b)
	*u = uS(raw)
	return err
}
func (u *uI) UnmarshalPHP(b []byte) error {
	raw, err := us.take("uI", b)
	*u = uI(len(raw))
	return err
}
func (u *uL) UnmarshalPHP(b []byte) error {
	raw, err := us.take("uL", b)
	*u = append(*u, raw)
	return err
}
func (u *uM) UnmarshalPHP(b []byte) error {
	raw, err := us.take("uM", b)
	*u = uM{"raw": raw}
	return err
}
func (u *uB) UnmarshalPHP(b []byte) error {
	raw, err := us.take("uB", b)
	*u = append(*u, raw...)
	return err
}
func (u *uA) UnmarshalPHP(b []byte) error {
	raw, err := us.take("uA", b)
	u[1] = raw
	return err
}
func (u *uZ) UnmarshalPHP(b []byte) error {
	_, err := us.take("uZ", b)
	return err
}
func (u *uZA) UnmarshalPHP(b []byte) error {
	_, err := us.take("uZA", b)
	return err
}
func (u *uBo) UnmarshalPHP(b []byte) error {
	raw, err := us.take("uBo", b)
	*u = len(raw)%2 == 0
	return err
}
func (u *uBy) UnmarshalPHP(b []byte) error {
	raw, err := us.take("uBy", b)
	*u = uBy(len(raw))
	return err
}
func (u *uFl) UnmarshalPHP(b []byte) error {
	raw, err := us.take("uFl", b)
	*u = uFl(len(raw))
	return err
}
func (u *uC) UnmarshalPHP(b []byte) error { _, err := us.take("uC", b); return err }
func (u *uF) UnmarshalPHP(b []byte) error { _, err := us.take("uF", b); return err }
func (u uV) UnmarshalPHP(b []byte) error  { _, err := us.take("uV", b); return err }
func (u *uPE) UnmarshalPHP(b []byte) (err error) {
	u.Raw, err = us.take("uPE", b)
	return
}
func (u *uOdd) UnmarshalPHP(b []byte) (err error) {
	u.Raw, err = us.take("uOdd", b)
	return
}

var uLeafs = []reflect.Type{
	reflect.TypeOf(uP{}), reflect.TypeOf(&uP{}), reflect.TypeOf(uS("")), reflect.TypeOf(new(uS)), reflect.TypeOf(uI(0)), reflect.TypeOf(uL{}), reflect.TypeOf(&uL{}), reflect.TypeOf(uM{}), reflect.TypeOf(&uM{}), reflect.TypeOf(uB{}), reflect.TypeOf(uA{}), reflect.TypeOf(uBo(false)), reflect.TypeOf(uFl(0)),
	reflect.TypeOf(uC(nil)), reflect.TypeOf(uF(nil)), reflect.TypeOf(uV{}), reflect.TypeOf(uE{}), reflect.TypeOf(uOdd{}), reflect.TypeOf(uZ{}), reflect.TypeOf(&uZ{}), reflect.TypeOf(uZA{}), reflect.TypeOf([]uZ{}), reflect.TypeOf([2]uZ{}), reflect.TypeOf(map[string]uZ{}), reflect.TypeOf([]uB{}), reflect.TypeOf(uBy(0)), reflect.TypeOf([]uBy{}), reflect.TypeOf([2]uBy{}), reflect.TypeOf(map[uint8]uBy{}), reflect.TypeOf([]*uBy{}), reflect.TypeOf(map[string]uP{}), reflect.TypeOf(map[int]*uP{}), reflect.TypeOf([3]uS{}),
	reflect.TypeOf((*php.Unmarshaler)(nil)).Elem(), reflect.TypeOf((*uIface)(nil)).Elem(), reflect.TypeOf(new(php.Unmarshaler)),
}

func runC15(c *C) {
	r := c.R
	o := staticDec
	if r.IntN(3) == 0 {
		o = dynDec
	}
	o.NoStr, o.Leaf = true, uLeafs
	o.Recursive = r.IntN(4) == 0
	t, o := c.randType(o)
	if r.IntN(5) == 0 {
		t = gen.Pick(r, uLeafs...)
	}
	a, b := c.twin(t, o)
	if r.IntN(3) == 0 && t.Kind() != reflect.Interface {
		a, b = reflect.New(t).Elem(), reflect.New(t).Elem()
	}
	if t.Kind() == reflect.Interface && reflect.TypeFor[*uP]().Implements(t) && r.IntN(2) == 0 {
		a.Set(reflect.ValueOf(&uP{Raw: "old"}))
		b.Set(reflect.ValueOf(&uP{Raw: "old"}))
	}
	if gen.IsGiant() {
		t = gen.Around(r, t, gen.Pick(r, uLeafs...), gen.Pick(r, uLeafs...), gen.Pick(r, uLeafs...))
		a, b = reflect.New(t).Elem(), reflect.New(t).Elem()
	}
	n := gen.DocFor(r, t, 3, gen.Pick(r, 0, 0, 60), true)
	if r.IntN(400) == 0 {
		t, n = gen.WideDoc(r, o, 3000)
		a, b = reflect.New(t).Elem(), reflect.New(t).Elem()
		c.Count("wide")
	} else if x, ok := gen.ExactIndex(c.I); ok {
		t, n = gen.ExactDoc(r, o, x)
		a, b = reflect.New(t).Elem(), reflect.New(t).Elem()
		c.Count("exact")
	}
	if len(n.Ent) > 0 && t.Kind() == reflect.Struct && n.K != 'N' {
		// an unknown entry around the others
		e := phpdoc.Entry{Key: phpdoc.Str("no such key"), Val: gen.Doc(r, 3, false)}
		k := r.IntN(len(n.Ent) + 1)
		n.Ent = append(n.Ent[:k:k], append([]phpdoc.Entry{e}, n.Ent[k:]...)...)
		c.Count("skipped_uncalled")
	}
	var hs []held
	frozen(a, clone(b), false, &hs, 0)
	us = uscript{on: true, plain: true, errMod: uint32(gen.Pick(r, 0, 0, 0, 4, 15)), salt: strconv.Itoa(c.I), errs: map[string]error{}, n: map[string]int{}, c: c}
	defer func() { us.on = false }()
	rerr := ref.Decode(n, b)
	if rerr == ref.ErrHuge || rerr == ref.ErrNegZero {
		return
	}
	want := us.events
	us.events, us.plain = nil, false
	doc := n.Bytes()
	in := append([]byte{}, doc...)
	err := c.Unmarshal(in, a.Addr().Interface())
	got := us.events
	us.plain = true
	c.CountN("calls", len(got))
	for k, x := range us.n {
		c.CountN(k, x)
	}
	c.Eval(len(want) > 0, typeKey(t), n.String())
	d := fmt.Sprintf("Unmarshal(%q) into %s", clip(string(doc), 800), clip(t.String(), 800))
	if !bytes.Equal(in, doc) {
		c.Fail("%s: an Unmarshaler changed the caller's input: %q", d, in)
	}
	for i := range got {
		if i >= len(want) || got[i] != want[i] {
			w := "nothing"
			if i < len(want) {
				w = want[i]
			}
			c.Fail("%s: call %d of UnmarshalPHP got %q, want %q", d, i, clip(got[i], 400), clip(w, 400))
		}
	}
	custom := false
	for _, e := range us.errs {
		custom = custom || e == rerr
	}
	if custom {
		c.Count("errors")
		if err != rerr {
			c.Fail("%s: got error %#v, want the error of UnmarshalPHP %#v", d, err, rerr)
		}
	}
	if (err != nil) != (rerr != nil) {
		c.Fail("%s: error %v, want %v", d, err, rerr)
	}
	if err == nil && len(got) != len(want) || custom && len(got) != len(want) {
		c.Fail("%s: %d calls of UnmarshalPHP, want %d: %q", d, len(got), len(want), want)
	}
	for _, k := range us.kept {
		if !bytes.Equal(k.buf, k.full) {
			c.Fail("%s: bytes kept by an Unmarshaler changed from %q to %q", d, k.full, k.buf)
		}
	}
	for _, h := range hs {
		if h.what != "slice" {
			continue
		}
		c.Count("old_slices")
		if d2 := ref.Equal(h.was, h.now, ref.EqOpt{}); d2 != "" {
			c.Fail("%s: the memory of an old slice changed (was vs now): %s", d, d2)
		}
	}
	if strings.Contains(string(doc), "N;") {
		c.Count("null_reset")
	}
	if t.Kind() == reflect.Interface && len(got) > 0 {
		c.Count("iface")
	}
	if err == nil {
		if x := ref.Equal(b, a, ref.EqOpt{NilMap: true, NilSlice: true}); x != "" {
			c.Fail("%s is wrong (want vs got): %s\ngot %s", d, x, show(a.Interface()))
		}
		c.Sample("%s <- %q: %q", typeKey(t), doc, got)
	}
}

// ---- C16 ---------------------------------------------------------------------

type embPlain struct{ X int }
type EmbExp struct{ X int }
type embIface interface{ Tok() string }

type (
	embA struct {
		EmbExp
		Y int
	}
	embB struct {
		*EmbExp
		Y int
	}
	embC struct {
		EmbExp `php:"named"`
		Y      int
	}
	embD struct {
		Y       int
		*EmbExp `php:"x,omitempty"`
	}
	embE struct {
		gen.NInt
		gen.NString `php:"s"`
		gen.NSlice  `php:",omitempty"`
		gen.NMap
		gen.NBytes `php:"-"`
		Z          int
	}
	embF struct {
		embPlain
		Y int
	}
	embG struct {
		EmbExp `php:"-"`
		Y      int
	}
	embH struct {
		*gen.NInt
		Y int
	}
)

// fields which are not zero, though nothing of them is serialised
type (
	hid1 struct {
		n int
		A int
	}
	hid2 struct {
		s string
		B []int `php:"-"`
		H hid1
	}
	hid3 struct {
		f float64
		b bool
	}
	hidTop struct {
		Z int             `php:",omitempty"`
		H hid1            `php:"h,omitempty"`
		I hid2            `php:",omitempty"`
		J [2]hid1         `php:"j,omitempty"`
		K hid3            `php:",omitempty"`
		L []hid3          `php:"l,omitempty"`
		M map[string]hid1 `php:",omitempty"`
		P *hid3           `php:"p,omitempty"`
		Q [0]hid1         `php:"q,omitempty"`
		R struct{}        `php:"r,omitempty"`
		S [1][1]hid3      `php:",omitempty"`
	}
)

var embRefused = []reflect.Type{reflect.TypeOf(embA{}), reflect.TypeOf(embB{}), reflect.TypeOf(embC{}), reflect.TypeOf(embD{}), reflect.TypeOf(&embA{}), reflect.TypeOf([]embB{}), reflect.TypeOf(map[string]embA{}), reflect.TypeOf(struct{ A []embC }{}), reflect.TypeOf([2]*embD{})}
var embOK = []reflect.Type{reflect.TypeOf(embE{}), reflect.TypeOf(embF{}), reflect.TypeOf(embG{}), reflect.TypeOf(embH{}), reflect.TypeOf(&embE{}), reflect.TypeOf([]embG{})}

func runC16(c *C) {
	r := c.R
	o := staticDec
	o.Depth = 1 + r.IntN(2)
	if r.IntN(3) == 0 {
		o = c.withPool(dynDec)
		o.Depth = 1
	}
	if r.IntN(10) == 0 {
		embedded(c, o)
		return
	}
	t := gen.Struct(r, o, o.Depth)
	if r.IntN(12) == 0 {
		t = gen.Pick(r, reflect.TypeOf(hidTop{}), reflect.TypeOf(hid2{}))
		c.Count("hidden_content")
	} else if r.IntN(30) == 0 {
		// two structs joined: very wide
		var fs []reflect.StructField
		keys := map[string]bool{}
		names := map[string]bool{}
		for k := 0; len(fs) < 40 && k < 40; k++ {
			x := gen.Struct(r, gen.Opt{Depth: 1, Tags: true, Named: true}, 1)
			for i := 0; i < x.NumField(); i++ {
				f := x.Field(i)
				f.Index, f.Offset = nil, 0
				f.Name = fmt.Sprintf("%s%d", f.Name, k)
				fi := gen.Field(f)
				if names[f.Name] || !fi.Skip && keys[fi.Key] {
					continue
				}
				names[f.Name] = true
				if !fi.Skip {
					keys[fi.Key] = true
				}
				fs = append(fs, f)
			}
		}
		t = reflect.StructOf(fs)
	}
	if t.NumField() > 30 {
		c.Count("wide")
	}
	v := gen.Value(r, t, o)
	if i, ok := gen.ExactStruct(c.I); ok {
		v = gen.Exact(r, o, i)
		t = v.Type()
		c.Count("exact")
	}
	// encode: exactly the expected keys in order
	arg := addr(c, v)
	out, err := c.Marshal(arg)
	if err != nil {
		c.Fail("Marshal(%s): %v", show(arg), err)
	}
	n := c.parse(arg, out)
	var keys []string
	for i := 0; i < t.NumField(); i++ {
		fi := gen.Field(t.Field(i))
		if fi.Skip {
			continue
		}
		z := ref.IsZero(v.Field(i))
		if fi.Omit && z {
			c.Count("omitted")
			continue
		}
		if z {
			c.Count("zero_kept")
		} else {
			c.Count("nonzero_kept")
		}
		keys = append(keys, fi.Key)
	}
	var got []string
	for _, e := range n.Ent {
		if e.Key.K != 's' {
			c.Fail("Marshal(%s): key %s", show(arg), e.Key)
		}
		got = append(got, e.Key.S)
	}
	if n.K != 'a' || strings.Join(keys, "\x00|") != strings.Join(got, "\x00|") {
		c.Fail("Marshal(%s) wrote keys %q, want %q\ntype %s", show(arg), got, keys, t)
	}
	if err := ref.CheckEnc(v, n); err != nil {
		c.Fail("Marshal(%s) is wrong: %v", show(arg), err)
	}
	c.Count("encoded")
	c.Eval(len(keys) > 0, typeKey(t), strings.Join(keys, "|"))
	c.Sample("%s: %q", typeKey(t), got)
	if t.NumField() == 0 {
		return
	}
	// decode: one key at a time, and what is nearly a key
	for k := 0; k < 6; k++ {
		f := t.Field(r.IntN(t.NumField()))
		fi := gen.Field(f)
		var key string
		switch r.IntN(8) {
		case 0, 1, 2:
			key = fi.Key
			if fi.Skip {
				key = f.Name
			}
		case 3:
			key = f.Name
		case 4:
			name, _, _ := strings.Cut(f.Tag.Get("php"), ",")
			key = name
		case 5:
			key = flipCase(r, fi.Key)
		case 6:
			key = gen.Pick(r, "\x00*\x00", "\x00A\x00", " ", "") + fi.Key + gen.Pick(r, "", " ", "\x00", ",omitempty", ",string")
		default:
			key = f.Tag.Get("php")
		}
		field := -1
		for i := 0; i < t.NumField(); i++ {
			x := gen.Field(t.Field(i))
			if !x.Skip && x.Key == key {
				field = i
			}
		}
		var val *phpdoc.Node
		if field >= 0 {
			one := gen.DocFor(r, reflect.StructOf([]reflect.StructField{{Name: "Q", Type: t.Field(field).Type, Tag: tagOpts(t.Field(field))}}), 2, 0, true)
			for _, e := range one.Ent {
				if e.Key.S == "Q" {
					val = e.Val
				}
			}
			c.Count("own_key")
		} else if fi.Skip {
			c.Count("ignored_key")
		} else {
			c.Count("near_miss")
		}
		if val == nil {
			val = gen.Doc(r, 2, false)
			if field >= 0 {
				continue
			}
		}
		doc := phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str(key), Val: val})
		if r.IntN(3) == 0 {
			doc.K, doc.S = 'O', "A"
		}
		a, b := c.twin(t, o)
		if field < 0 {
			if err := c.Unmarshal(doc.Bytes(), a.Addr().Interface()); err != nil {
				c.Fail("Unmarshal(%q) into %s with only an unknown key: %v", doc, t, err)
			}
			if d := ref.Equal(b, a, ref.EqOpt{}); d != "" {
				c.Fail("Unmarshal(%q) into %s: key %q is no key of the struct, but: %s", doc, t, key, d)
			}
		} else {
			c.against(doc, a, b, lenient)
		}
		c.Eval(true, typeKey(t), doc.String())
	}
	// order
	full := gen.DocFor(r, t, 2, 0, true)
	if len(full.Ent) > 1 && full.K != 'N' {
		sh := full.Clone()
		r.Shuffle(len(sh.Ent), func(i, j int) { sh.Ent[i], sh.Ent[j] = sh.Ent[j], sh.Ent[i] })
		a, b := c.twin(t, o)
		e1 := c.Unmarshal(full.Bytes(), a.Addr().Interface())
		e2 := c.Unmarshal(sh.Bytes(), b.Addr().Interface())
		if (e1 != nil) != (e2 != nil) {
			c.Fail("order of keys matters for %s:\n%q: %v\n%q: %v", t, full, e1, sh, e2)
		}
		if e1 == nil {
			if d := ref.Equal(a, b, ref.EqOpt{}); d != "" {
				c.Fail("order of keys matters for %s:\n%q\n%q\n%s", t, full, sh, d)
			}
		}
		c.Count("order")
	}
}

func tagOpts(f reflect.StructField) reflect.StructTag {
	if gen.Field(f).Str {
		return `php:",string"`
	}
	return ""
}

func flipCase(r gen.R, s string) string {
	b := []byte(s)
	for i := range b {
		if (b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z') && r.IntN(2) == 0 {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

func embedded(c *C, o gen.Opt) {
	r := c.R
	if r.IntN(2) == 0 {
		t := gen.Pick(r, embOK...)
		v := gen.Value(r, t, o)
		arg := addr(c, v)
		out, err := c.Marshal(arg)
		if err != nil {
			c.Fail("Marshal(%s): %v", show(arg), err)
		}
		n := c.parse(arg, out)
		if err := ref.CheckEnc(v, n); err != nil {
			c.Fail("Marshal(%s) is wrong: %v", show(arg), err)
		}
		a, b := c.twin(t, o)
		c.against(n, a, b, lenient)
		c.Count("embedded_ok")
		c.Eval(true, typeKey(t), string(out))
		return
	}
	var t reflect.Type
	if r.IntN(2) == 0 {
		t = gen.Pick(r, embRefused...)
	} else {
		// an embedded struct among random fields
		x := gen.Struct(r, gen.Opt{Depth: 1, Tags: true}, 1)
		e := reflect.StructField{Name: "EmbExp", Anonymous: true, Type: reflect.TypeOf(EmbExp{}), Tag: reflect.StructTag(gen.Pick(r, "", `php:"e"`, `php:",omitempty"`, `php:"-,"`))}
		if r.IntN(2) == 0 {
			e.Type = reflect.PointerTo(e.Type)
		}
		fs := []reflect.StructField{e}
		for i := 0; i < x.NumField(); i++ {
			f := x.Field(i)
			f.Index, f.Offset = nil, 0
			fs = append(fs, f)
		}
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		t = reflect.StructOf(fs)
	}
	for k := 0; k < 2; k++ {
		v := reflect.New(t).Elem()
		if t.Kind() == reflect.Slice {
			v.Set(reflect.MakeSlice(t, 1, 1))
		}
		if t.Kind() == reflect.Map {
			v.Set(reflect.MakeMap(t))
			v.SetMapIndex(reflect.ValueOf("k"), reflect.Zero(t.Elem()))
		}
		arg := addr(c, v)
		out, err := c.Marshal(arg)
		if err == nil || out != nil {
			c.Fail("Marshal of a type with an embedded struct returned %q, %v (type %s)", out, err, t)
		}
		doc := gen.Pick(r, "a:0:{}", `a:1:{s:1:"Y";i:1;}`, "N;", "a:1:{i:0;a:0:{}}")
		if err := c.Unmarshal([]byte(doc), reflect.New(t).Interface()); err == nil {
			c.Fail("Unmarshal(%q) into a type with an embedded struct succeeded (type %s)", doc, t)
		}
	}
	c.Count("embedded_refused")
	c.Eval(true, typeKey(t))
}
