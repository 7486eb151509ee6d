package mon

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"reflect"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"unsafe"

	"vmon/gen"
	"vmon/phpdoc"
	"vmon/ref"
)

// twin builds two equal but separate values.
func (c *C) twin(t reflect.Type, o gen.Opt) (a, b reflect.Value) {
	s1, s2 := c.R.Uint64(), c.R.Uint64()
	a = gen.Value(rand.New(rand.NewPCG(s1, s2)), t, o)
	b = gen.Value(rand.New(rand.NewPCG(s1, s2)), t, o)
	return
}

var lenient = ref.EqOpt{NilSlice: true, NilMap: true, Skipped: true}

// against decodes doc with the library into a and with the reference into b
// and compares. It reports whether the reference accepted the document.
func (c *C) against(n *phpdoc.Node, a, b reflect.Value, o ref.EqOpt) bool {
	rerr := ref.Decode(n, b)
	if rerr == ref.ErrHuge || rerr == ref.ErrNegZero {
		c.Count("skipped")
		return false
	}
	doc := n.Bytes()
	err := c.Unmarshal(doc, a.Addr().Interface())
	if (err != nil) != (rerr != nil) {
		c.Fail("Unmarshal(%q) into %s: got error %v, want error %v", clip(string(doc), 800), a.Type(), err, rerr)
	}
	if err != nil {
		c.Count("refused")
		return false
	}
	c.Count("accepted")
	if d := ref.Equal(b, a, o); d != "" {
		c.Fail("Unmarshal(%q) into %s is wrong (want vs got): %s\ngot %s", clip(string(doc), 800), a.Type(), d, show(a.Interface()))
	}
	return true
}

func countNodes(c *C, n *phpdoc.Node) {
	n.Walk(func(m *phpdoc.Node) { c.Counts["node_"+string(m.K)]++ })
}

func hasSlice(t reflect.Type, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Slice:
		return true
	case reflect.Pointer, reflect.Array:
		return hasSlice(t.Elem(), seen)
	case reflect.Map:
		return hasSlice(t.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasSlice(t.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

var bigIndex = regexp.MustCompile(`i:0*[1-9][0-9]{4,14};`)

// tame rewrites list indexes that would need a lot of memory, which is the
// one documented exception, keeping the length of the document.
func tame(b []byte) []byte {
	if !bigIndex.Match(b) {
		return b
	}
	return bigIndex.ReplaceAllFunc(b, func(m []byte) []byte {
		d := []byte(strings.Repeat("0", len(m)-3) + strconv.Itoa(len(m)%10))
		return []byte("i:" + string(d[1:]) + ";")
	})
}

var staticDec = gen.Opt{Depth: 3, Named: true, Recursive: true, Tags: true, Big: true}
var dynDec = gen.Opt{Depth: 3, Any: true, Named: true, Recursive: true, Tags: true, Big: true}

func init() {
	register(&Monitor{
		ID: "C03", Quick: 160000, Thorough: 4800000, Chunk: 500,
		Rule: "random destination type (interfaces, named and recursive types, tag options included) x 3 documents: fitting, with a few misfits, unrelated; outcome and stored value compared with an independent reference decoder; non-trivial: accepted document with content, counted by (type, document)",
		Need: []string{"accepted", "refused", "node_O", "node_a", "node_s", "node_i", "node_d", "node_b", "node_N", "wide", "exact"},
		Run: func(c *C) {
			t, o := c.randType(dynDec)
			wide := c.R.IntN(400) == 0
			for i := 0; i < 4; i++ {
				var n *phpdoc.Node
				switch i {
				case 0:
					n = gen.DocFor(c.R, t, 3, 0, true)
				case 1:
					n = gen.DocFor(c.R, t, 3, 40, true)
				case 2:
					n = gen.DocFor(c.R, t, 3, 10, true)
				default:
					n = gen.Doc(c.R, 3, true)
				}
				t := t
				if wide {
					t, n = gen.WideDoc(c.R, o, 70000)
					c.Count("wide")
				} else if x, ok := gen.ExactIndex(c.I); i == 0 && ok {
					t, n = gen.ExactDoc(c.R, o, x)
					c.Count("exact")
				}
				countNodes(c, n)
				a, b := reflect.New(t).Elem(), reflect.New(t).Elem()
				if i == 2 {
					a, b = c.twin(t, o)
				}
				ok := c.against(n, a, b, lenient)
				if i == 0 && !ok {
					c.Count("fit_refused")
				}
				c.Eval(ok && nontrivial(n), typeKey(t), n.String())
				if ok {
					c.Sample("%s <- %q", typeKey(t), n)
				}
			}
		},
	})

	register(&Monitor{
		ID: "C05", Quick: 16000, Thorough: 480000, Chunk: 100,
		Rule: "well-formed documents into fitting, any, skipping and Unmarshaler destinations, then damaged: every prefix, trailing bytes, each token replaced or removed or duplicated, non int/string keys, random byte edits; the tokens at both ends of a document of each exact size damaged; whatever an independent lenient parser refuses must be refused; non-trivial: distinct refused input",
		Need: []string{"prefix", "trailing", "token", "key", "edit", "span", "still_wellformed", "valid_accepted", "long"},
		Run:  runC05,
	})

	register(&Monitor{
		ID: "C06", Quick: 8000, Thorough: 240000, Chunk: 20,
		Rule: "integer texts (all type boundaries, +-1, wrapped and saturating multiples, leading zeros, random up to 26 digits) x all 20 integer types x 11 positions, against big.Int arithmetic; non-trivial: distinct (type, position, text)",
		Need: []string{"in_range", "out_of_range", "pos_top", "pos_f", "pos_p", "pos_s", "pos_r", "pos_m", "pos_k", "pos_q", "pos_qp", "pos_any", "pos_anykey"},
		Run:  runC06,
	})

	register(&Monitor{
		ID: "C08", Quick: 150000, Thorough: 6000000, Chunk: 400,
		Rule: "random document (depth <= 5, objects, duplicates, hostile strings) into any at 14 positions over pre-held contents; dynamic result compared with the fixed mapping; non-trivial: document with content, counted by document",
		Need: []string{"positions", "preheld_pointer", "preheld_random", "preheld_empty", "duplicates", "node_O", "node_a", "wide", "exact"},
		Run:  runC08,
	})

	register(&Monitor{
		ID: "C19", Quick: 120000, Thorough: 3600000, Chunk: 500,
		Rule: "random type, pre-populated destination, 2 documents with some parts missing; result, identity of maps and pointers, and untouched old slices and map elements compared with the reference; non-trivial: destination had content and document had content",
		Need: []string{"accepted", "identity", "old_slices", "old_entries", "fresh_slices", "wide", "exact"},
		Run:  runC19,
	})

	register(&Monitor{
		ID: "C20", Quick: 360000, Thorough: 7200000, Chunk: 500,
		Rule: "random type without interfaces, documents whose arrays with string keys are toggled to objects with hostile class names and back; both spellings must give the same outcome; non-trivial: at least one toggle, counted by both documents",
		Need: []string{"toggles", "equal", "both_refused", "wide", "exact"},
		Run:  runC20,
	})

	register(&Monitor{
		ID: "C24", Quick: 160000, Thorough: 4800000, Chunk: 500,
		Rule: "key sequences (permuted, gaps, up to 300) x element types x slices and arrays of length 0-12 x declared counts; length, placement and zeroing compared with the reference; bad keys refused; non-trivial: distinct (type, document)",
		Need: []string{"slices", "arrays", "oob", "gaps", "counts", "bad_keys", "wide", "exact"},
		Run:  runC24,
	})

	register(&Monitor{
		ID: "C25", Quick: 160000, Thorough: 4800000, Chunk: 400,
		Rule: "random document with extra entries (unknown struct keys, out-of-range array indexes) holding arbitrary well-formed values; result must equal that of the document without them, damaged extra values must be refused; non-trivial: distinct document with extra entries",
		Need: []string{"extra", "damaged", "extra_container", "extra_object", "wide", "exact"},
		Run:  runC25,
	})

	register(&Monitor{
		ID: "C26", Quick: 36000, Thorough: 1800000, Chunk: 400,
		Rule: "null at 9 positions of random types over random previous contents (strict nil check), and Marshal of nil-heavy values parsed strictly; non-trivial: distinct (type, position) or document",
		Need: []string{"mixed", "zeroed", "kept", "enc_null"},
		Run:  runC26,
	})

	register(&Monitor{
		ID: "C27", Quick: 200000, Thorough: 6000000, Chunk: 400,
		Rule: "all scalar types (plain, named, pointers, interface when encoding) with the string option: exact text out, same value back; damaged numeric texts and non-string tokens refused; non-trivial: distinct (type, text)",
		Need: []string{"roundtrips", "damaged", "nonstring", "nulls", "iface"},
		Run:  runC27,
	})
}

// ---- C05 ---------------------------------------------------------------------

// RawU stores what it is given.
type RawU struct{ Raw string }

func (u *RawU) UnmarshalPHP(b []byte) error { u.Raw = string(b); return nil }

func runC05(c *C) {
	t, _ := c.randType(dynDec)
	n := gen.DocFor(c.R, t, 3, 0, true)
	switch c.R.IntN(8) {
	case 0:
		t, n = gen.AnyType, gen.Doc(c.R, 4, false)
	case 1: // skipped
		t, n = reflect.TypeOf(struct{ X int }{}), phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("unknown"), Val: gen.Doc(c.R, 4, false)}, phpdoc.Entry{Key: phpdoc.Str("X"), Val: phpdoc.Int(7)})
	case 2: // out of range
		t, n = reflect.TypeOf([1]int{}), phpdoc.List(phpdoc.Int(1), gen.Doc(c.R, 4, false))
	case 3:
		t, n = reflect.TypeOf(struct{ U RawU }{}), phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("U"), Val: gen.Doc(c.R, 4, false)})
		if n.Ent[0].Val.K == 'N' {
			n.Ent[0].Val = phpdoc.Bool(true)
		}
	case 4: // every structural form once
		t = reflect.TypeOf(map[string]any{})
		n = phpdoc.Arr()
		for i := 0; i < 3; i++ {
			n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Str(strconv.Itoa(i)), Val: gen.Doc(c.R, 3, false)})
		}
	}
	doc, toks := n.Tokens()
	if len(doc) > 1500 {
		c.Count("too_long")
		return
	}
	if err := c.Unmarshal(doc, reflect.New(t).Interface()); err == nil {
		c.Count("valid_accepted")
	} else {
		c.Count("valid_refused")
	}
	check := func(kind string, b []byte) {
		b = tame(b)
		if phpdoc.Accept(b) == nil {
			c.Count("still_wellformed")
			return
		}
		c.Count(kind)
		if err := c.Unmarshal(b, reflect.New(t).Interface()); err == nil {
			c.Fail("Unmarshal accepted malformed input (%s) into %s:\n%q\nfrom %q\nwhy malformed: %v", kind, t, clip(string(b), 900), clip(string(doc), 900), phpdoc.Accept(b))
		}
		c.Eval(true, typeKey(t), string(b))
	}
	cut := func(a, z int, mid string) []byte {
		return append(append(append([]byte{}, doc[:a]...), mid...), doc[z:]...)
	}
	step := 1
	if len(doc) > 300 {
		step = 1 + c.R.IntN(6)
	}
	for i := 0; i < len(doc); i += step {
		check("prefix", doc[:i])
	}
	for _, s := range []string{";", "}", " ", "\n", "\x00", "N;", "i:1;", "a", "0", `"`, string(doc[:1+c.R.IntN(len(doc))]), string([]byte{byte(c.R.IntN(256))})} {
		check("trailing", append(append([]byte{}, doc...), s...))
	}
	for _, s := range []string{" ", "\n", ";", "\x00", "\xef\xbb\xbf"} {
		check("trailing", append([]byte(s), doc...))
	}
	for _, k := range toks {
		if len(toks) > 120 && c.R.IntN(4) > 0 {
			continue
		}
		s := string(doc[k.Start:k.End])
		check("token", cut(k.Start, k.End, ""))
		check("token", cut(k.Start, k.End, s+s))
		check("token", cut(k.Start, k.End, string([]byte{byte(c.R.IntN(256))})))
		for _, x := range damages(k.Kind, s) {
			check("token", cut(k.Start, k.End, x))
		}
	}
	// keys that are neither integers nor strings
	for i := 0; i < 6; i++ {
		m := n.Clone()
		var conts []*phpdoc.Node
		m.Walk(func(x *phpdoc.Node) {
			if len(x.Ent) > 0 {
				conts = append(conts, x)
			}
		})
		if len(conts) == 0 {
			break
		}
		x := conts[c.R.IntN(len(conts))]
		x.Ent[c.R.IntN(len(x.Ent))].Key = gen.Pick(c.R, phpdoc.Null(), phpdoc.Bool(true), phpdoc.Bool(false), phpdoc.FloatText("1"), phpdoc.Arr(), phpdoc.Obj("A"), phpdoc.List(phpdoc.Int(1)), phpdoc.Raw(""))
		check("key", m.Bytes())
	}
	// pieces removed: all of a short document, some of a long one
	if len(doc) <= 40 || len(doc) <= 70 && c.R.IntN(4) == 0 {
		for i := range doc {
			for j := i + 1; j <= len(doc); j++ {
				check("span", cut(i, j, ""))
				if c.R.IntN(4) == 0 {
					check("span", cut(i, j, gen.Pick(c.R, ";", "}", ":", "N;", "{}", `"`, ":0:{}")))
				}
			}
		}
	} else {
		for k := 0; k < 60; k++ {
			i := c.R.IntN(len(doc))
			check("span", cut(i, i+1+c.R.IntN(len(doc)-i), gen.Pick(c.R, "", "", ";", "}", "N;")))
		}
	}
	for i := 0; i < 60; i++ {
		b := append([]byte{}, doc...)
		for k := 1 + c.R.IntN(3); k > 0 && len(b) > 1; k-- {
			b = mutate(c.R, b)
		}
		check("edit", b)
	}
	c.Sample("%s <- damaged %q", typeKey(t), doc)
	damageLong(c)
}

// damages are malformed spellings of one token.
func damages(kind, s string) []string {
	switch kind {
	case "tag":
		return strings.Split("bidsaONCrREUx", "")
	case "len":
		v, _ := strconv.Atoi(s)
		return []string{strconv.Itoa(v + 1), strconv.Itoa(v - 1), "-1", "-" + s, "+" + s, " " + s, s + " ", s + "0", "0", "9223372036854775807", "9223372036854775806", "18446744073709551616", "18446744073709551616" + s, "99999999999999999999", "0x" + s, s + ".0", s + "e0"}
	case "count":
		return []string{"-" + s, "+" + s, "-1", "x", " ", s + "x"}
	case "bool":
		return []string{"2", "true", "-1", "01", "11", "00", "t", " 1", "1 ", "\x01"}
	case "int":
		return []string{"-", "+" + s, "--" + s, s + "-", " " + s, s + " ", "0x" + s, s + ".0", s + "e0", "1_0", "\u0663", ".", s + ":", s + "\x00"}
	case "quote":
		return []string{"'", `\"`}
	case "open", "close":
		return []string{"(", ")", "[", "]", "{", "}", "};", ";}", ","}
	case "sep", "term":
		return []string{";", ":", ",", "", " ", "=", "::", ": "}
	}
	return []string{""}
}

// damageLong damages a document of an exact size in a few places.
func damageLong(c *C) {
	r := c.R
	t, n := gen.ExactDoc(r, dynDec, c.I*7919%gen.ExactCases)
	switch r.IntN(5) {
	case 0:
		t = gen.AnyType
	case 1:
		t = reflect.TypeOf(RawU{})
	case 2:
		t, n = reflect.TypeOf(struct{ X int }{}), phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("unknown"), Val: n}, phpdoc.Entry{Key: phpdoc.Str("X"), Val: phpdoc.Int(7)})
	}
	doc, toks := n.Tokens()
	if len(doc) > 60000 {
		c.Count("too_long")
		return
	}
	seen := map[int]bool{}
	for i := 0; i < 24; i++ {
		k := toks[r.IntN(len(toks))]
		if i < 8 {
			k = toks[min(i, len(toks)-1)]
		} else if i < 16 {
			k = toks[max(0, len(toks)-1-(i-8))]
		}
		if i < 16 && seen[k.Start] {
			continue
		}
		seen[k.Start] = true
		var b []byte
		switch a, z := k.Start, k.End; r.IntN(6) {
		case 0: // ends here
			b = doc[:a+r.IntN(z-a+1)]
		case 1: // nothing here
			b = slices.Concat(doc[:a], doc[z:])
		case 2: // something more
			b = slices.Concat(doc[:z], []byte{byte(r.IntN(256))}, doc[z:])
		default:
			b = slices.Concat(doc[:a], []byte(gen.Pick(r, damages(k.Kind, string(doc[a:z]))...)), doc[z:])
		}
		b = tame(b)
		why := phpdoc.Accept(b)
		if why == nil {
			continue
		}
		c.Count("long")
		if err := c.Unmarshal(b, reflect.New(t).Interface()); err == nil {
			c.Fail("Unmarshal accepted malformed input into %s: %v\n%q\nfrom %q", t, why, clip(string(b), 900), clip(string(doc), 900))
		}
		c.Eval(true, typeKey(t), string(b))
	}
}

func mutate(r gen.R, b []byte) []byte {
	p := r.IntN(len(b))
	ch := func() byte {
		if r.IntN(3) == 0 {
			return byte(r.IntN(256))
		}
		return `"";;::{}0123456789aObidsN-.`[r.IntN(27)]
	}
	switch r.IntN(6) {
	case 0, 1:
		b[p] = ch()
	case 2:
		b = append(b[:p], append([]byte{ch()}, b[p:]...)...)
	case 3:
		b = append(b[:p], b[p+1:]...)
	case 4: // move or repeat a piece
		q := r.IntN(len(b))
		z := min(len(b), q+1+r.IntN(12))
		b = append(b[:p], append(append([]byte{}, b[q:z]...), b[p:]...)...)
	case 5: // remove a piece
		z := min(len(b), p+1+r.IntN(12))
		b = append(b[:p], b[z:]...)
	}
	return b
}

// ---- C06 ---------------------------------------------------------------------

var c06types = map[reflect.Type]reflect.Type{}

func intBox(t reflect.Type) reflect.Type {
	if b := c06types[t]; b != nil {
		return b
	}
	f := func(name string, ft reflect.Type, opt string) reflect.StructField {
		return reflect.StructField{Name: strings.ToUpper(name), Type: ft, Tag: reflect.StructTag(fmt.Sprintf(`php:"%s%s"`, name, opt))}
	}
	b := reflect.StructOf([]reflect.StructField{
		f("f", t, ""), f("p", reflect.PointerTo(t), ""), f("s", reflect.SliceOf(t), ""), f("r", reflect.ArrayOf(2, t), ""),
		f("m", reflect.MapOf(reflect.TypeOf(""), t), ""), f("k", reflect.MapOf(t, reflect.TypeOf("")), ""),
		f("q", t, ",string"), f("qp", reflect.PointerTo(t), ",string"),
	})
	c06types[t] = b
	return b
}

func inRange(v *big.Int, t reflect.Type) bool {
	if gen.IsInt(t) {
		lo := new(big.Int).Lsh(big.NewInt(1), uint(t.Bits()-1))
		hi := new(big.Int).Sub(lo, big.NewInt(1))
		lo.Neg(lo)
		return v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0
	}
	hi := new(big.Int).Lsh(big.NewInt(1), uint(t.Bits()))
	return v.Sign() >= 0 && v.Cmp(hi) < 0
}

func runC06(c *C) {
	r := c.R
	var texts []string
	for i := 0; i < 12; i++ {
		switch r.IntN(5) {
		case 0, 1:
			texts = append(texts, gen.Pick(r, gen.EdgeInts...))
		case 2: // near a boundary or a multiple of 2^w
			v := new(big.Int).Lsh(big.NewInt(int64(r.IntN(5)+1)), uint(gen.Pick(r, 7, 8, 15, 16, 31, 32, 63, 64, 65)))
			v.Add(v, big.NewInt(int64(r.IntN(5)-2)))
			if r.IntN(2) == 0 {
				v.Neg(v)
			}
			texts = append(texts, v.String())
		default:
			texts = append(texts, gen.IntText(r, true))
		}
	}
	ints := gen.Ints()
	for _, text := range texts {
		v, ok := new(big.Int).SetString(text, 10)
		if !ok {
			c.Fail("monitor: bad text %q", text)
		}
		canonical := phpdoc.CanonInt(text)
		negZero := v.Sign() == 0 && text[0] == '-'
		judge := func(pos string, t reflect.Type, err error, got func() string) {
			c.Count("pos_" + pos)
			in := inRange(v, t)
			if in {
				c.Count("in_range")
			} else {
				c.Count("out_of_range")
			}
			c.Eval(true, pos, t.String(), text)
			if err != nil {
				if in && canonical {
					c.Fail("integer %s is in range of %s but refused at %s: %v", text, t, pos, err)
				}
				return
			}
			g := got()
			if !in {
				c.Fail("integer %s is out of range of %s but was stored as %s at %s", text, t, g, pos)
			}
			if g != v.String() {
				c.Fail("integer %s into %s at %s was stored as %s", text, t, pos, g)
			}
		}
		str := func(x reflect.Value) string {
			if x.Kind() == reflect.Pointer {
				x = x.Elem()
			}
			return fmt.Sprintf("%d", x.Interface())
		}
		tok := phpdoc.IntText(text)
		for _, t := range ints {
			if negZero && gen.IsUint(t) {
				continue
			}
			top := reflect.New(t)
			top.Elem().Set(reflect.ValueOf(7).Convert(t))
			judge("top", t, c.Unmarshal(tok.Bytes(), top.Interface()), func() string { return str(top) })
			bt := intBox(t)
			one := func(key string, val *phpdoc.Node, get func(reflect.Value) reflect.Value) {
				d := reflect.New(bt)
				doc := phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str(key), Val: val}).Bytes()
				err := c.Unmarshal(doc, d.Interface())
				judge(key, t, err, func() string {
					x := get(d.Elem().FieldByName(strings.ToUpper(key)))
					if !x.IsValid() {
						return "nothing"
					}
					return str(x)
				})
			}
			id := func(x reflect.Value) reflect.Value { return x }
			one("f", tok, id)
			one("p", tok, id)
			one("s", phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Int(1), Val: tok}), func(x reflect.Value) reflect.Value { return x.Index(1) })
			one("r", phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Int(1), Val: tok}), func(x reflect.Value) reflect.Value { return x.Index(1) })
			one("m", phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("x"), Val: tok}), func(x reflect.Value) reflect.Value { return x.MapIndex(reflect.ValueOf("x")) })
			one("k", phpdoc.Arr(phpdoc.Entry{Key: tok, Val: phpdoc.Str("x")}), func(x reflect.Value) reflect.Value {
				k := x.MapKeys()
				if len(k) != 1 {
					return reflect.Value{}
				}
				return k[0]
			})
			one("q", phpdoc.Str(text), id)
			one("qp", phpdoc.Str(text), id)
		}
		i64 := reflect.TypeOf(int64(0))
		var a any
		judge("any", i64, c.Unmarshal(tok.Bytes(), &a), func() string { return fmt.Sprintf("%T", a)[:0] + fmt.Sprintf("%d", a) })
		var m any
		judge("anykey", i64, c.Unmarshal(phpdoc.Arr(phpdoc.Entry{Key: tok, Val: phpdoc.Null()}).Bytes(), &m), func() string {
			for k := range m.(map[any]any) {
				return fmt.Sprintf("%d", k)
			}
			return "nothing"
		})
		c.Sample("%s into %d types at 11 positions", text, len(ints))
	}
}

// ---- C08 ---------------------------------------------------------------------

type anyBox struct {
	A  any            `php:"a"`
	P  *any           `php:"p"`
	L  []any          `php:"l"`
	R  [2]any         `php:"r"`
	M  map[string]any `php:"m"`
	I  map[int]any    `php:"i"`
	N  gen.NAny       `php:"n"`
	S  struct{ X any }
	MA map[any]any         `php:"ma"`
	LL [][]any             `php:"ll"`
	ML []map[string]any    `php:"ml"`
	RP [1]*any             `php:"rp"`
	NN map[string]gen.NAny `php:"nn"`
}

func dupKeys(c *C, n *phpdoc.Node) {
	n.Walk(func(m *phpdoc.Node) {
		if len(m.Ent) > 0 && c.R.IntN(3) == 0 {
			e := m.Ent[c.R.IntN(len(m.Ent))]
			m.Ent = append(m.Ent, phpdoc.Entry{Key: e.Key, Val: gen.Doc(c.R, 1, false)})
			c.Count("duplicates")
		}
	})
}

func runC08(c *C) {
	n := gen.Doc(c.R, 1+c.R.IntN(5), true)
	if c.R.IntN(4) == 0 {
		dupKeys(c, n)
	}
	if c.R.IntN(30) == 0 {
		n = phpdoc.IntText(gen.IntText(c.R, true))
	}
	if c.R.IntN(500) == 0 {
		_, n = gen.WideDoc(c.R, dynDec, 20000)
		c.Count("wide")
	} else if x, ok := gen.ExactIndex(c.I); ok {
		_, n = gen.ExactDoc(c.R, dynDec, x)
		c.Count("exact")
	}
	if c.R.IntN(4) == 0 && n.K == 'O' {
		// integer property names cannot go into map[string]any
		m := n.Clone()
		m.Ent = append(m.Ent, phpdoc.Entry{Key: phpdoc.Int(1), Val: phpdoc.Null()})
		var a any
		if err := c.Unmarshal(m.Bytes(), &a); err == nil {
			if _, ok := a.(map[string]any); !ok {
				c.Fail("object %q decoded as %T", m, a)
			}
		}
	}
	countNodes(c, n)
	want, werr := ref.Dynamic(n, 1)
	doc := n.String()
	o := ref.EqOpt{NilMap: true}
	verify := func(pos string, got any, err error) {
		c.Count("positions")
		if (err != nil) != (werr != nil) {
			c.Fail("%q into any at %s: error %v, want %v", clip(doc, 600), pos, err, werr)
		}
		if err != nil {
			return
		}
		if d := ref.Equal(reflect.ValueOf(&want).Elem(), reflect.ValueOf(&got).Elem(), o); d != "" {
			c.Fail("%q into any at %s (want vs got): %s", clip(doc, 600), pos, d)
		}
	}
	// what the interface held before
	hint, hstr, hmap, hst := 41, "held", map[string]any{"old": 1}, &anyBox{A: "old"}
	hslice := []any{1, "x"}
	var held any
	var was any // an equal copy
	var heldRoom []any
	switch c.R.IntN(16) {
	case 0:
	case 9, 10, 11, 12, 13:
		ht, ho := c.randType(dynDec)
		ha, hb := c.twin(ht, ho)
		held, was = ha.Interface(), hb.Interface()
		if c.R.IntN(3) == 0 {
			held, was = ha.Addr().Interface(), hb.Addr().Interface()
		}
		c.Count("preheld_random")
	case 1:
		held = &hint
		c.Count("preheld_pointer")
	case 2:
		held = &hstr
		c.Count("preheld_pointer")
	case 3:
		held = hmap
	case 4:
		held = hst
		c.Count("preheld_pointer")
	case 5:
		held = hslice
	case 6:
		held = int64(3)
	case 7:
		held = &hmap
		c.Count("preheld_pointer")
	case 8:
		held = map[any]any{"old": 1, int64(0): 2}
	case 14:
		// empty, but somebody else's
		e := func() any {
			switch doc[0] % 7 {
			case 0:
				return map[string]any{}
			case 1:
				return &map[any]any{}
			case 2:
				return make(map[any]any, 100)
			}
			return map[any]any{}
		}
		held, was = e(), e()
		c.Count("preheld_empty")
	case 15:
		sl := make([]any, 6)
		heldRoom = sl
		held = sl[:0]
		c.Count("preheld_empty")
	}
	heldWas := held
	check := func(pos string) {
		if hint != 41 || hstr != "held" || len(hmap) != 1 || hmap["old"] != 1 || hst.A != "old" || hslice[0] != 1 || hslice[1] != "x" {
			c.Fail("%q into any at %s wrote through the value it held before (%T)", clip(doc, 600), pos, heldWas)
		}
		for _, x := range heldRoom {
			if x != nil {
				c.Fail("%q into any at %s wrote behind the end of the slice it held before: %v", clip(doc, 600), pos, heldRoom)
			}
		}
		if was != nil {
			if d := ref.Equal(reflect.ValueOf(&was).Elem(), reflect.ValueOf(&heldWas).Elem(), ref.EqOpt{}); d != "" {
				c.Fail("%q into any at %s wrote through the %T it held before (was vs now): %s", clip(doc, 600), pos, heldWas, d)
			}
		} else if m, ok := heldWas.(map[any]any); ok && len(m) != 2 {
			c.Fail("%q into any at %s changed the map it held before", clip(doc, 600), pos)
		}
	}
	a := held
	err := c.Unmarshal([]byte(doc), &a)
	verify("top", a, err)
	check("top")
	na := gen.NAny(held)
	err = c.Unmarshal([]byte(doc), &na)
	verify("named top", na, err)
	wrap := func(key string, val *phpdoc.Node, get func(*anyBox) any) {
		h1, h2, h3 := held, held, held
		x := anyBox{A: held, P: &h1, L: []any{held}, R: [2]any{held, held}, M: map[string]any{"k": held}, I: map[int]any{0: held}, N: held, MA: map[any]any{"k": held}, RP: [1]*any{&h2}}
		x.S.X = h3
		err := c.Unmarshal(phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str(key), Val: val}).Bytes(), &x)
		var got any
		if err == nil {
			got = get(&x)
		}
		verify(key, got, err)
		check(key)
	}
	item := phpdoc.List(n)
	ent := phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("k"), Val: n})
	deref := func(p *any) any {
		if p == nil {
			return nil
		}
		return *p
	}
	wrap("a", n, func(x *anyBox) any { return x.A })
	wrap("p", n, func(x *anyBox) any { return deref(x.P) })
	wrap("l", item, func(x *anyBox) any { return x.L[0] })
	wrap("r", item, func(x *anyBox) any { return x.R[0] })
	wrap("m", ent, func(x *anyBox) any { return x.M["k"] })
	wrap("i", item, func(x *anyBox) any { return x.I[0] })
	wrap("n", n, func(x *anyBox) any { return x.N })
	wrap("S", phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("X"), Val: n}), func(x *anyBox) any { return x.S.X })
	wrap("ma", ent, func(x *anyBox) any { return x.MA["k"] })
	wrap("ll", phpdoc.List(item), func(x *anyBox) any { return x.LL[0][0] })
	wrap("ml", phpdoc.List(ent), func(x *anyBox) any { return x.ML[0]["k"] })
	wrap("rp", item, func(x *anyBox) any { return deref(x.RP[0]) })
	wrap("nn", ent, func(x *anyBox) any { return x.NN["k"] })
	c.Eval(werr == nil && nontrivial(n), doc)
	c.Sample("%q -> %s", clip(doc, 200), show(want))
}

// ---- C19 ---------------------------------------------------------------------

type held struct {
	now, was reflect.Value // same variable or slice, and an equal copy
	what     string
}

// frozen collects what decoding must not write to: the backing arrays of
// slices, and everything reachable from map elements and interfaces.
func frozen(a, b reflect.Value, inside bool, out *[]held, d int) {
	if d > 30 || !a.IsValid() {
		return
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() {
			return
		}
		if inside {
			*out = append(*out, held{a.Elem(), b.Elem(), "pointee"})
		}
		frozen(a.Elem(), b.Elem(), inside, out, d+1)
	case reflect.Interface:
		if !a.IsNil() {
			frozen(a.Elem(), b.Elem(), true, out, d+1)
		}
	case reflect.Slice:
		if a.IsNil() {
			return
		}
		fa, fb := a.Slice(0, a.Cap()), b.Slice(0, min(a.Cap(), b.Cap()))
		fa = fa.Slice(0, fb.Len())
		*out = append(*out, held{fa, fb, "slice"})
		if gen.IsScalar(a.Type().Elem()) {
			return
		}
		for i := 0; i < a.Len(); i++ {
			frozen(a.Index(i), b.Index(i), true, out, d+1)
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			// arrays are zeroed before decoding, so pointers in them are not followed
			frozen(a.Index(i), b.Index(i), true, out, d+1)
		}
	case reflect.Map:
		if inside {
			// no write to this map
			m := reflect.New(a.Type()).Elem() // the map itself, not the variable
			m.Set(a)
			*out = append(*out, held{m, b, "map"})
		}
		it := a.MapRange()
		for it.Next() {
			bv := b.MapIndex(it.Key())
			if bv.IsValid() {
				frozen(it.Value(), bv, true, out, d+1)
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if gen.Field(a.Type().Field(i)).Skip {
				continue
			}
			frozen(a.Field(i), b.Field(i), inside, out, d+1)
		}
	}
}

// spots lists the maps and pointers that are updated in place, in a fixed order.
func spots(v reflect.Value, out *[]unsafe.Pointer, d int) {
	if d > 30 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		*out = append(*out, v.UnsafePointer())
		if !v.IsNil() {
			spots(v.Elem(), out, d+1)
		}
	case reflect.Map:
		*out = append(*out, v.UnsafePointer())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			spots(v.Field(i), out, d+1)
		}
	}
}

// slot is the storage of a slice.
type slot struct {
	at unsafe.Pointer // keeps the storage alive, so that no new one gets its address
	n  uintptr
}

func (s slot) touches(old []slot) bool {
	p := uintptr(s.at)
	for _, o := range old {
		q := uintptr(o.at)
		if s.n > 0 && o.n > 0 && p < q+o.n && q < p+s.n {
			return true
		}
	}
	return false
}

// slots lists the slices that are fields or behind pointers, in a fixed order.
func slots(v reflect.Value, out *[]slot, d int) {
	if d > 30 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			slots(v.Elem(), out, d+1)
		}
	case reflect.Slice:
		*out = append(*out, slot{v.UnsafePointer(), uintptr(v.Cap()) * v.Type().Elem().Size()})
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			slots(v.Index(i), out, d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			slots(v.Field(i), out, d+1)
		}
	}
}

// same says which spots still hold what they held.
func same(before []unsafe.Pointer, v reflect.Value) string {
	old := map[unsafe.Pointer]bool{}
	for _, p := range before {
		if p != nil {
			old[p] = true
		}
	}
	var after []unsafe.Pointer
	spots(v, &after, 0)
	var b strings.Builder
	for _, p := range after {
		switch {
		case p == nil:
			b.WriteByte('0')
		case old[p]:
			b.WriteByte('k')
		default:
			b.WriteByte('n')
		}
	}
	return b.String()
}

func runC19(c *C) {
	t, o := c.randType(dynDec)
	wide := c.R.IntN(400) == 0
	for i := 0; i < 2; i++ {
		t := t
		var n *phpdoc.Node
		if wide {
			t, n = gen.WideDoc(c.R, o, 5000)
			c.Count("wide")
		} else if x, ok := gen.ExactIndex(c.I); i == 0 && ok {
			t, n = gen.ExactDoc(c.R, o, x)
			c.Count("exact")
		}
		a, b := c.twin(t, o)
		var hs []held
		frozen(a, b, false, &hs, 0)
		// the reference decodes into a third copy, so that b stays the picture of before
		var sa, sr []unsafe.Pointer
		rr := clone(b)
		spots(a, &sa, 0)
		spots(rr, &sr, 0)
		var oldA, oldR []slot
		slots(a, &oldA, 0)
		slots(rr, &oldR, 0)
		if n == nil {
			n = gen.DocFor(c.R, t, 3, gen.Pick(c.R, 0, 0, 30), true)
		}
		if !c.against(n, a, rr, ref.EqOpt{NilSlice: true, NilMap: true, Skipped: false}) {
			continue
		}
		if x, y := same(sr, rr), same(sa, a); x != y {
			c.Fail("Unmarshal(%q) into a populated %s replaced or kept the wrong pointers or maps (k kept, n new, 0 nil):\nwant %s\ngot  %s", clip(n.String(), 600), t, x, y)
		}
		// new slices have storage of their own, also behind their end
		var fr, fa []slot
		slots(rr, &fr, 0)
		slots(a, &fa, 0)
		if len(fr) != len(fa) {
			c.Fail("Unmarshal(%q) into %s: the result has %d slices, want %d", clip(n.String(), 600), t, len(fa), len(fr))
		}
		for i := range fa {
			if kr, ka := fr[i].touches(oldR), fa[i].touches(oldA); ka && !kr {
				c.Fail("Unmarshal(%q) into a populated %s: slice %d of the result reuses the storage of an old slice", clip(n.String(), 600), t, i)
			} else if !ka && fa[i].n > 0 {
				c.Count("fresh_slices")
			}
		}
		c.Count("identity")
		for _, h := range hs {
			if h.what == "slice" {
				c.Count("old_slices")
			} else {
				c.Count("old_entries")
			}
			if d := ref.Equal(h.was, h.now, ref.EqOpt{}); d != "" {
				c.Fail("Unmarshal(%q) into a populated %s wrote to an old %s (was vs now): %s", clip(n.String(), 600), t, h.what, d)
			}
		}
		c.Eval(len(sa) > 0 && nontrivial(n), typeKey(t), n.String(), show(b.Interface()))
		c.Sample("%s over %s", n, show(b.Interface()))
	}
}

// clone copies a value deeply (acyclic data).
func clone(v reflect.Value) reflect.Value {
	w := reflect.New(v.Type()).Elem()
	cloneInto(w, v)
	return w
}

func cloneInto(w, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			w.Set(reflect.New(v.Type().Elem()))
			cloneInto(w.Elem(), v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			w.Set(clone(v.Elem()))
		}
	case reflect.Slice:
		if !v.IsNil() {
			w.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Cap()))
			if gen.IsScalar(v.Type().Elem()) {
				reflect.Copy(w, v)
				return
			}
			for i := 0; i < v.Len(); i++ {
				cloneInto(w.Index(i), v.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			cloneInto(w.Index(i), v.Index(i))
		}
	case reflect.Map:
		if !v.IsNil() {
			w.Set(reflect.MakeMap(v.Type()))
			it := v.MapRange()
			for it.Next() {
				w.SetMapIndex(it.Key(), clone(it.Value()))
			}
		}
	case reflect.Struct:
		w.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if w.Field(i).CanSet() {
				f := reflect.New(v.Field(i).Type()).Elem()
				cloneInto(f, v.Field(i))
				w.Field(i).Set(f)
			}
		}
	default:
		w.Set(v)
	}
}

func addrAny(x any) *any { return &x }

// ---- C20 ---------------------------------------------------------------------

func toggle(c *C, n *phpdoc.Node, empties bool) int {
	k := 0
	n.Walk(func(m *phpdoc.Node) {
		if m.K != 'a' && m.K != 'O' || c.R.IntN(3) == 0 {
			return
		}
		if len(m.Ent) == 0 && !(empties && m.K == 'O') {
			return
		}
		for _, e := range m.Ent {
			if e.Key.K != 's' {
				return
			}
		}
		k++
		if m.K == 'O' && c.R.IntN(3) > 0 {
			m.K, m.S = 'a', ""
		} else {
			m.K, m.S = 'O', gen.ClassName(c.R)
		}
	})
	return k
}

func runC20(c *C) {
	t, o := c.randType(staticDec)
	miss := gen.Pick(c.R, 0, 0, 25)
	n := gen.DocFor(c.R, t, 3, miss, true)
	if c.R.IntN(400) == 0 {
		t, n = gen.WideDoc(c.R, o, 20000)
		c.Count("wide")
	} else if x, ok := gen.ExactIndex(c.I); ok {
		t, n = gen.ExactDoc(c.R, o, x)
		c.Count("exact")
	}
	m := n.Clone()
	k := toggle(c, m, miss == 0)
	if k == 0 {
		return
	}
	c.CountN("toggles", k)
	scratch := reflect.New(t).Elem()
	if err := ref.Decode(n, scratch); err == ref.ErrHuge {
		return
	}
	a, b := c.twin(t, o)
	if c.R.IntN(2) == 0 {
		a, b = reflect.New(t).Elem(), reflect.New(t).Elem()
	}
	e1 := c.Unmarshal(n.Bytes(), a.Addr().Interface())
	e2 := c.Unmarshal(m.Bytes(), b.Addr().Interface())
	if (e1 != nil) != (e2 != nil) {
		c.Fail("array and object spellings differ for %s:\n%q: %v\n%q: %v", t, clip(n.String(), 600), e1, clip(m.String(), 600), e2)
	}
	if e1 == nil {
		c.Count("equal")
		if d := ref.Equal(a, b, ref.EqOpt{NilMap: true, NilSlice: true}); d != "" {
			c.Fail("array and object spellings differ for %s:\n%q\n%q\n%s", t, clip(n.String(), 600), clip(m.String(), 600), d)
		}
	} else {
		c.Count("both_refused")
	}
	c.Eval(true, typeKey(t), n.String(), m.String())
	c.Sample("%q ~ %q", n, m)
}

// ---- C24 ---------------------------------------------------------------------

func runC24(c *C) {
	r := c.R
	et, o := c.randType(dynDec)
	if x, ok := gen.ExactIndex(c.I); ok {
		t, n := gen.ExactDoc(r, o, x)
		c.Count("exact")
		a, b := c.twin(t, o)
		c.against(n, a, b, lenient)
		c.Eval(true, typeKey(t), n.String())
		return
	}
	if r.IntN(400) == 0 {
		for {
			t, n := gen.WideDoc(r, o, 70000)
			if t.Kind() != reflect.Slice && t.Kind() != reflect.Array {
				continue
			}
			c.Count("wide")
			a, b := c.twin(t, o)
			c.against(n, a, b, lenient)
			c.Eval(true, typeKey(t), n.String())
			return
		}
	}
	if r.IntN(2) == 0 {
		et = gen.Scalar(r, gen.Opt{Named: true})
	}
	isArr := r.IntN(2) == 0
	t := reflect.SliceOf(et)
	if isArr {
		t = reflect.ArrayOf(gen.Pick(r, 0, 1, 2, 3, 4, 5, 8, 12), et)
		c.Count("arrays")
	} else {
		c.Count("slices")
	}
	if !isArr && et.Kind() == reflect.Uint8 {
		o.Any = false
	}
	// keys
	limit := gen.Pick(r, 3, 6, 12, 40)
	if r.IntN(12) == 0 {
		limit = 300
	}
	n := phpdoc.Arr()
	used := map[int]bool{}
	maxKey := -1
	for k := r.IntN(8); k > 0; k-- {
		i := r.IntN(limit)
		if isArr && r.IntN(6) == 0 {
			i = int(gen.Pick(r, 1<<31, 1<<40, 1<<62, 1<<32, int64(t.Len()), int64(t.Len())+1, 65536) & math.MaxInt)
		}
		if used[i] {
			continue
		}
		used[i] = true
		maxKey = max(maxKey, i)
		val := gen.DocFor(r, et, 2, 0, true)
		if isArr && i >= t.Len() {
			c.Count("oob")
			val = gen.Doc(r, 3, false)
		}
		n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Int(int64(i)), Val: val})
	}
	if maxKey >= len(n.Ent) {
		c.Count("gaps")
	}
	if r.IntN(2) == 0 { // dense, in order
		for i := range n.Ent {
			if !isArr || i < t.Len() {
				n.Ent[i] = phpdoc.Entry{Key: phpdoc.Int(int64(i)), Val: gen.DocFor(r, et, 2, 0, true)}
			} else {
				n.Ent[i].Key = phpdoc.Int(int64(i))
			}
		}
		maxKey = len(n.Ent) - 1
	}
	a, b := c.twin(t, o)
	if !c.against(n, a, b, lenient) {
		return // an element does not fit
	}
	if !isArr && a.Len() != maxKey+1 {
		c.Fail("Unmarshal(%q) into %s has length %d, want %d", clip(n.String(), 600), t, a.Len(), maxKey+1)
	}
	doc := n.String()
	c.Eval(len(n.Ent) > 0, typeKey(t), doc)
	c.Sample("%s <- %q", typeKey(t), doc)
	if len(n.Ent) == 0 {
		return
	}
	// declared counts
	for i := 0; i < 3; i++ {
		cnt := gen.Pick(r, "1", "2", "7", "9", "10", "100", "65536", "4294967296", "1000000000000", "9223372036854775807", strconv.Itoa(1+r.IntN(50)))
		if _, err := strconv.Atoi(cnt); err != nil {
			cnt = "65536" // no int on this platform
		}
		body := doc[strings.IndexByte(doc, '{'):]
		d2 := "a:" + cnt + ":" + body
		x, _ := c.twin(t, o)
		if err := c.Unmarshal([]byte(d2), x.Addr().Interface()); err != nil {
			c.Fail("declared count %s made %q fail: %v", cnt, clip(doc, 600), err)
		}
		if d := ref.Equal(b, x, lenient); d != "" {
			c.Fail("declared count %s changed the result of %q into %s: %s", cnt, clip(doc, 600), t, d)
		}
		c.Count("counts")
	}
	// keys that are not list positions
	m := n.Clone()
	e := &m.Ent[r.IntN(len(m.Ent))]
	e.Key = gen.Pick(r, phpdoc.Int(-1), phpdoc.Int(-2), phpdoc.IntText("-9223372036854775808"), phpdoc.IntText("9223372036854775808"), phpdoc.IntText("18446744073709551616"), phpdoc.IntText("18446744073709551617"), phpdoc.Str("0"), phpdoc.Str(""), phpdoc.Str("x"), phpdoc.Null(), phpdoc.Bool(true), phpdoc.FloatText("1"), phpdoc.IntText("-4294967296"), phpdoc.IntText("-00001"))
	if isArr || true {
		x := reflect.New(t).Elem()
		if err := c.Unmarshal(m.Bytes(), x.Addr().Interface()); err == nil {
			c.Fail("Unmarshal(%q) into %s accepted a key that is no list position", clip(m.String(), 600), t)
		}
		c.Count("bad_keys")
	}
}

// ---- C25 ---------------------------------------------------------------------

// extras inserts entries that do not belong to t into n.
func extras(c *C, n *phpdoc.Node, t reflect.Type, val func() *phpdoc.Node, d int) int {
	k := 0
	switch {
	case t.Kind() == reflect.Pointer:
		return extras(c, n, t.Elem(), val, d)
	case n.K != 'a' && n.K != 'O':
		return 0
	case t.Kind() == reflect.Struct:
		keys := map[string]bool{}
		for i := 0; i < t.NumField(); i++ {
			fi := gen.Field(t.Field(i))
			if fi.Skip {
				continue
			}
			keys[fi.Key] = true
			for _, e := range n.Ent {
				if e.Key.S == fi.Key {
					k += extras(c, e.Val, t.Field(i).Type, val, d+1)
				}
			}
		}
		for j := c.R.IntN(3); j > 0; j-- {
			key := gen.String(c.R, false)
			if c.R.IntN(2) == 0 && t.NumField() > 0 {
				key = gen.Pick(c.R, "x", "\x00*\x00", "\x00A\x00", " ", "_") + t.Field(0).Name
			}
			if keys[key] {
				continue
			}
			k++
			p := c.R.IntN(len(n.Ent) + 1)
			n.Ent = append(n.Ent[:p], append([]phpdoc.Entry{{Key: phpdoc.Str(key), Val: val()}}, n.Ent[p:]...)...)
		}
	case t.Kind() == reflect.Array:
		for _, e := range n.Ent {
			if i, err := strconv.Atoi(e.Key.T); err == nil && i < t.Len() {
				k += extras(c, e.Val, t.Elem(), val, d+1)
			}
		}
		for j := c.R.IntN(3); j > 0; j-- {
			k++
			p := c.R.IntN(len(n.Ent) + 1)
			n.Ent = append(n.Ent[:p], append([]phpdoc.Entry{{Key: phpdoc.Int(int64(t.Len()) + gen.Pick[int64](c.R, 0, 0, 1, 2, 1<<20, 1<<40, 1<<62)), Val: val()}}, n.Ent[p:]...)...)
		}
	case t.Kind() == reflect.Slice || t.Kind() == reflect.Map:
		for _, e := range n.Ent {
			k += extras(c, e.Val, t.Elem(), val, d+1)
		}
	}
	return k
}

func runC25(c *C) {
	t, o := c.randType(dynDec)
	if c.R.IntN(3) == 0 {
		t = reflect.ArrayOf(1+c.R.IntN(3), t)
	}
	n := gen.DocFor(c.R, t, 3, 0, true)
	if c.R.IntN(400) == 0 {
		t, n = gen.WideDoc(c.R, o, 5000)
		c.Count("wide")
	} else if x, ok := gen.ExactIndex(c.I); ok {
		t, n = gen.ExactDoc(c.R, o, x)
		c.Count("exact")
	}
	m := n.Clone()
	k := extras(c, m, t, func() *phpdoc.Node {
		v := gen.Doc(c.R, 1+c.R.IntN(4), true)
		if c.R.IntN(40) == 0 {
			v = deepDoc(c.R, 50+c.R.IntN(400), "aO")
		}
		switch v.K {
		case 'a':
			c.Count("extra_container")
		case 'O':
			c.Count("extra_object")
		}
		return v
	}, 0)
	if k == 0 {
		return
	}
	c.CountN("extra", k)
	a, b := c.twin(t, o)
	e1 := c.Unmarshal(n.Bytes(), a.Addr().Interface())
	e2 := c.Unmarshal(m.Bytes(), b.Addr().Interface())
	if (e1 != nil) != (e2 != nil) {
		c.Fail("skipped entries changed the outcome for %s:\n%q: %v\n%q: %v", t, clip(n.String(), 600), e1, clip(m.String(), 600), e2)
	}
	if e1 == nil {
		if d := ref.Equal(a, b, ref.EqOpt{NilMap: true, NilSlice: true}); d != "" {
			c.Fail("skipped entries changed the result for %s:\n%q\n%q\n%s", t, clip(n.String(), 600), clip(m.String(), 600), d)
		}
	}
	c.Eval(true, typeKey(t), m.String())
	c.Sample("%q vs %q", n, m)
	// one extra value is damaged
	for i := 0; i < 4; i++ {
		m := n.Clone()
		bad := 0
		k := extras(c, m, t, func() *phpdoc.Node {
			v := gen.Doc(c.R, 1+c.R.IntN(3), false)
			s := []byte(v.String())
			if bad == 0 {
				bad++
				for j := 0; j < 20; j++ {
					x := mutate(c.R, append([]byte{}, s...))
					if len(x) > 0 && phpdoc.Accept(x) != nil {
						return phpdoc.Raw(string(x))
					}
				}
			}
			return v
		}, 0)
		doc := tame(m.Bytes())
		if k == 0 || bad == 0 || phpdoc.Accept(doc) == nil {
			continue
		}
		c.Count("damaged")
		x := reflect.New(t)
		if err := c.Unmarshal(doc, x.Interface()); err == nil {
			c.Fail("malformed skipped value accepted for %s: %q", t, clip(string(doc), 900))
		}
		c.Eval(true, typeKey(t), string(doc))
	}
}

// deepDoc nests containers of the given kinds.
func deepDoc(r gen.R, d int, kinds string) *phpdoc.Node {
	n := phpdoc.Int(1)
	for i := 0; i < d; i++ {
		if kinds[r.IntN(len(kinds))] == 'O' {
			n = phpdoc.Obj(gen.Pick(r, "A", "", `"`, "{"), phpdoc.Entry{Key: phpdoc.Str("x"), Val: n})
		} else {
			n = phpdoc.List(n)
		}
	}
	return n
}

// ---- C26 ---------------------------------------------------------------------

func runC26(c *C) {
	t, o := c.randType(dynDec)
	null := phpdoc.Null()
	a, b := c.twin(t, o)
	mk := func(w reflect.Type, fill func(reflect.Value, reflect.Value), v reflect.Value) reflect.Value {
		x := reflect.New(w).Elem()
		fill(x, v)
		return x
	}
	judge := func(pos string, n *phpdoc.Node, w reflect.Value, get func(reflect.Value) reflect.Value, zero bool, was reflect.Value) {
		if err := c.Unmarshal(n.Bytes(), w.Addr().Interface()); err != nil {
			c.Fail("null for %s at %s refused: %v", t, pos, err)
		}
		g := get(w)
		if zero {
			c.Count("zeroed")
			if !g.IsValid() || !g.IsZero() {
				c.Fail("null for %s at %s left %s", t, pos, show(g.Interface()))
			}
			return
		}
		c.Count("kept")
		if d := ref.Equal(was, g, ref.EqOpt{}); d != "" {
			c.Fail("null for %s at %s changed it (was vs now): %s", t, pos, d)
		}
	}
	resets := false
	switch t.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Interface:
		resets = true
	}
	id := func(v reflect.Value) reflect.Value { return v }
	strukt := reflect.StructOf([]reflect.StructField{{Name: "X", Type: reflect.TypeOf(0)}, {Name: "F", Type: t}, {Name: "Y", Type: reflect.TypeOf("")}})
	st := reflect.StructOf([]reflect.StructField{{Name: "S", Type: strukt}})
	fdoc := phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("F"), Val: null}, phpdoc.Entry{Key: phpdoc.Str("Y"), Val: phpdoc.Str("y")})
	setF := func(x, v reflect.Value) { x.Field(1).Set(v) }
	judge("field", fdoc, mk(strukt, setF, clone(a)), func(v reflect.Value) reflect.Value {
		if v.Field(2).String() != "y" {
			c.Fail("field after null not decoded")
		}
		return v.Field(1)
	}, resets, b)
	judge("nested field", phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("S"), Val: fdoc}), mk(st, func(x, v reflect.Value) { x.Field(0).Field(1).Set(v) }, clone(a)), func(v reflect.Value) reflect.Value { return v.Field(0).Field(1) }, resets, b)
	ps := reflect.New(strukt)
	setF(ps.Elem(), clone(a))
	pp := reflect.New(ps.Type()).Elem()
	pp.Set(ps)
	judge("field behind pointer", fdoc, pp, func(v reflect.Value) reflect.Value {
		if v.Pointer() != ps.Pointer() {
			c.Fail("pointer replaced")
		}
		return v.Elem().Field(1)
	}, resets, b)
	judge("top", null, clone(a), id, resets, b)
	if t.Kind() != reflect.Pointer {
		p := reflect.New(reflect.PointerTo(t)).Elem()
		p.Set(reflect.New(t))
		p.Elem().Set(clone(a))
		judge("*T", null, p, id, true, b)
	}
	judge("[]T", phpdoc.List(null, null), mk(reflect.SliceOf(t), func(x, v reflect.Value) {
		x.Set(reflect.Append(reflect.MakeSlice(x.Type(), 0, 4), v, v))
	}, clone(a)), func(v reflect.Value) reflect.Value {
		if v.Len() != 2 {
			c.Fail("list of two nulls has length %d", v.Len())
		}
		return v.Index(1)
	}, true, b)
	judge("[2]T", phpdoc.List(null, null), mk(reflect.ArrayOf(2, t), func(x, v reflect.Value) { x.Index(1).Set(v) }, clone(a)), func(v reflect.Value) reflect.Value { return v.Index(1) }, true, b)
	key := reflect.ValueOf("k")
	judge("map[string]T", phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str("k"), Val: null}), mk(reflect.MapOf(key.Type(), t), func(x, v reflect.Value) {
		x.Set(reflect.MakeMap(x.Type()))
		x.SetMapIndex(key, v)
	}, clone(a)), func(v reflect.Value) reflect.Value { return v.MapIndex(key) }, true, b)
	anyb := reflect.New(gen.AnyType).Elem()
	anyb.Set(clone(a))
	judge("any holding T", null, anyb, id, true, b)
	c.Eval(true, "dec", typeKey(t))
	// nulls among other values: every element, entry and field by itself
	for i := 0; i < 2; i++ {
		w := gen.Pick(c.R, reflect.SliceOf(t), reflect.MapOf(gen.KeyType(c.R, gen.Opt{}), t), reflect.MapOf(key.Type(), t), reflect.ArrayOf(2+c.R.IntN(3), t), strukt, reflect.MapOf(key.Type(), strukt), reflect.SliceOf(reflect.ArrayOf(2, t)))
		n := gen.DocFor(c.R, w, 3, 0, true)
		nulls(c, n)
		x, y := reflect.New(w).Elem(), reflect.New(w).Elem()
		if c.R.IntN(2) == 0 {
			x, y = c.twin(w, o)
		}
		if c.against(n, x, y, lenient) {
			c.Count("mixed")
		}
		c.Eval(nontrivial(n), "mixed", typeKey(w), n.String())
	}
	// encoding, biased to nils
	v := clone(b)
	nilify(c, v, 0)
	out, err := c.Marshal(v.Interface())
	if err != nil {
		c.Fail("Marshal(%s): %v", show(v.Interface()), err)
	}
	n := c.parse(v.Interface(), out)
	n.Walk(func(m *phpdoc.Node) {
		if m.K == 'N' {
			c.Count("enc_null")
		}
	})
	if err := ref.CheckEnc(v, n); err != nil {
		c.Fail("Marshal(%s) = %q: %v", show(v.Interface()), clip(string(out), 600), err)
	}
	c.Eval(nontrivial(n), typeKey(t), string(out))
	c.Sample("null over %s", show(b.Interface()))
}

// nulls puts null in place of some of the values in containers.
func nulls(c *C, n *phpdoc.Node) {
	for i := range n.Ent {
		if c.R.IntN(3) == 0 {
			n.Ent[i].Val = phpdoc.Null()
		} else {
			nulls(c, n.Ent[i].Val)
		}
	}
}

// nilify sets parts to nil, typed nils in interfaces included.
func nilify(c *C, v reflect.Value, d int) {
	if d > 20 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Interface:
		if c.R.IntN(3) == 0 && v.CanSet() {
			v.SetZero()
			if v.Kind() == reflect.Interface && v.NumMethod() == 0 && c.R.IntN(2) == 0 {
				v.Set(gen.Pick(c.R, reflect.ValueOf((*int)(nil)), reflect.ValueOf(map[string]int(nil)), reflect.ValueOf([]int(nil)), reflect.ValueOf([]byte(nil)), reflect.ValueOf((*struct{ X int })(nil)), reflect.ValueOf([]any{nil, (*string)(nil), []string(nil)}), reflect.ValueOf((*any)(nil)), reflect.ValueOf((*map[string]int)(nil)), reflect.ValueOf(map[int]any(nil))))
			}
			return
		}
		if v.IsNil() {
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer:
		nilify(c, v.Elem(), d+1)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			nilify(c, v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !gen.Field(v.Type().Field(i)).Str {
				nilify(c, v.Field(i), d+1)
			}
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(it.Value())
			nilify(c, e, d+1)
			v.SetMapIndex(it.Key(), e)
		}
	}
}

// ---- C27 ---------------------------------------------------------------------

var ambiguous = regexp.MustCompile(`(?i)^[+-]?(inf|infinity|nan|0x.*|0b.*|0o.*)$|^\+[0-9.]|_`)

func runC27(c *C) {
	r := c.R
	t := gen.Pick(r, gen.Scalars()...)
	tag := gen.Pick(r, `php:"v,string"`, `php:",string"`, `php:"v,omitempty,string"`, `php:"v,string,omitempty"`)
	key := "v"
	if strings.HasPrefix(tag, `php:",`) {
		key = "V"
	}
	ptr := r.IntN(3) == 0
	ft := t
	if ptr {
		ft = reflect.PointerTo(t)
	}
	extra := r.IntN(2) == 0
	fs := []reflect.StructField{{Name: "V", Type: ft, Tag: reflect.StructTag(tag)}}
	if extra {
		fs = append(fs, reflect.StructField{Name: "W", Type: ft}, reflect.StructField{Name: "Z", Type: reflect.TypeOf(""), Tag: `php:"z"`})
	}
	st := reflect.StructOf(fs)
	for i := 0; i < 6; i++ {
		v := gen.Value(r, st, gen.Opt{Depth: 2, Big: true})
		b, err := c.Marshal(addr(c, v))
		if err != nil {
			c.Fail("Marshal(%s): %v", show(v.Interface()), err)
		}
		if err := ref.CheckEnc(v, c.parse(v.Interface(), b)); err != nil {
			c.Fail("Marshal(%s) = %q: %v", show(v.Interface()), b, err)
		}
		w := reflect.New(st)
		if err := c.Unmarshal(b, w.Interface()); err != nil {
			c.Fail("Unmarshal(%q) into %s: %v", b, st, err)
		}
		if d := ref.Equal(v, w.Elem(), ref.EqOpt{NegZero: strings.Contains(tag, "omitempty")}); d != "" {
			c.Fail("string option round trip of %s through %q: %s", show(v.Interface()), b, d)
		}
		c.Count("roundtrips")
		c.Eval(true, st.String(), string(b))
		c.Sample("%s -> %q", show(v.Interface()), b)
	}
	// interface fields when encoding
	type ib struct {
		A any      `php:"a,string"`
		B gen.NAny `php:"b,string,omitempty"`
		C []int    `php:"c"`
	}
	x := ib{C: []int{1}}
	gen.ScalarIface(r, reflect.ValueOf(&x).Elem().Field(0))
	gen.ScalarIface(r, reflect.ValueOf(&x).Elem().Field(1))
	b, err := c.Marshal(x)
	if err != nil {
		c.Fail("Marshal(%s): %v", show(x), err)
	}
	if err := ref.CheckEnc(reflect.ValueOf(x), c.parse(x, b)); err != nil {
		c.Fail("Marshal(%s) = %q: %v", show(x), b, err)
	}
	c.Count("iface")
	// the text is the same for a field of the type and one of an interface type
	sv := gen.Value(r, t, gen.Opt{})
	type one[T any] struct {
		V T `php:"v,string"`
	}
	static := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "V", Type: t, Tag: `php:"v,string"`}})).Elem()
	static.Field(0).Set(sv)
	b1, err1 := c.Marshal(static.Interface())
	b2, err2 := c.Marshal(one[any]{sv.Interface()})
	b3, err3 := c.Marshal(one[*any]{addrAny(sv.Interface())})
	if err1 != nil || err2 != nil || err3 != nil || !bytes.Equal(b1, b2) || !bytes.Equal(b1, b3) {
		c.Fail("string option: %s is written as %q (%v) in a field of type %s, as %q (%v) in an interface field and %q (%v) in a pointer to one", show(sv.Interface()), b1, err1, t, b2, err2, b3, err3)
	}
	c.Count("same_text")
	// damaged text
	doc := func(val *phpdoc.Node) []byte {
		n := phpdoc.Arr(phpdoc.Entry{Key: phpdoc.Str(key), Val: val})
		if extra {
			n.Ent = append(n.Ent, phpdoc.Entry{Key: phpdoc.Str("z"), Val: phpdoc.Str("end")})
		}
		return n.Bytes()
	}
	get := func(w reflect.Value) reflect.Value {
		f := w.Elem().Field(0)
		if ptr {
			if f.IsNil() {
				c.Fail("pointer is nil")
			}
			f = f.Elem()
		}
		return f
	}
	numeric := gen.IsInt(t) || gen.IsUint(t) || t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64
	for i := 0; i < 8 && numeric; i++ {
		base := reflect.New(t).Elem()
		gen.Fill(r, base, gen.Opt{}, 0)
		text := digits(base)
		if base.CanFloat() {
			text = strconv.FormatFloat(base.Float(), 'g', -1, t.Bits())
		}
		switch r.IntN(4) {
		case 0:
			p := r.IntN(len(text) + 1)
			text = text[:p] + string([]byte{byte(r.IntN(256))}) + text[p:]
		case 1:
			text = gen.Pick(r, "", " ", "-", "--1", "1-", text+" ", " "+text, text+"\n", text+"\x00", "\x00"+text, text+"x", "x"+text, text+";", `"`+text+`"`, text+".", text+",", "1e", "e1", ".", "-.", "1.2.3", "1e5e5", "true", "null", "N;", "i:1;", "٣", text+"f", "1 2", "0 ", "\t1", "-"+text, "- 1", "+-"+text, "-+"+text, "--"+text, "++"+text, "+"+text, "0x"+text, "0b1", "0o7", "1_000", "1__0", "_1", "1e3", "1.0", text+".0", text+"e0")
		case 2:
			text = gen.IntText(r, true)
		default:
			text = gen.FloatText(r)
		}
		w := reflect.New(st)
		err := c.Unmarshal(doc(phpdoc.Str(text)), w.Interface())
		c.Eval(true, st.String(), text)
		if base.CanFloat() {
			if ambiguous.MatchString(text) && text != "INF" && text != "-INF" && text != "NAN" {
				continue
			}
			valid := phpdoc.PHPFloat(text)
			want, perr := strconv.ParseFloat(text, t.Bits())
			if valid && perr == nil {
				if err != nil {
					c.Fail("string %q is a float but refused: %v", text, err)
				}
				if g := get(w).Float(); g != want && want == want {
					c.Fail("string %q decoded to %v, want %v", text, g, want)
				}
				continue
			}
			c.Count("damaged")
			if err == nil {
				c.Fail("string %q accepted as %s: %v", text, ft, get(w))
			}
			continue
		}
		if !phpdoc.CanonInt(text) {
			d := strings.TrimPrefix(text, "-")
			if d != "" && strings.Trim(d, "0123456789") == "" {
				continue // leading zeros, negative zero
			}
			c.Count("damaged")
			if err == nil {
				c.Fail("string %q accepted as %s: %v", text, ft, get(w))
			}
			continue
		}
		v, _ := new(big.Int).SetString(text, 10)
		if inRange(v, t) {
			if err != nil {
				c.Fail("string %q is a %s but refused: %v", text, ft, err)
			}
			if g := digits(get(w)); g != text {
				c.Fail("string %q decoded to %s", text, g)
			}
		} else {
			c.Count("damaged")
			if err == nil {
				c.Fail("string %q out of range accepted as %s: %v", text, ft, get(w))
			}
		}
	}
	// other tokens
	for _, n := range []*phpdoc.Node{phpdoc.Int(1), phpdoc.FloatText("1"), phpdoc.Bool(true), phpdoc.Arr(), phpdoc.List(phpdoc.Str("1")), phpdoc.Obj("A")} {
		w := reflect.New(st)
		if t.Kind() == reflect.String || t.Kind() == reflect.Bool {
			if n.K == 'b' && t.Kind() == reflect.Bool {
				continue
			}
		}
		c.Count("nonstring")
		if err := c.Unmarshal(doc(n), w.Interface()); err == nil {
			c.Fail("%s accepted for a %s field with the string option: %s", n, ft, show(w.Interface()))
		}
	}
	a, bb := c.twin(st, gen.Opt{Depth: 2})
	if err := c.Unmarshal(doc(phpdoc.Null()), a.Addr().Interface()); err != nil {
		c.Fail("null refused for a %s field with the string option: %v", ft, err)
	}
	c.Count("nulls")
	if ptr {
		if !a.Field(0).IsNil() {
			c.Fail("null left pointer %v", a.Field(0))
		}
	} else if d := ref.Equal(bb.Field(0), a.Field(0), ref.EqOpt{}); d != "" {
		c.Fail("null changed a field with the string option: %s", d)
	}
}

// digits is the text of a number, whatever methods its type has.
func digits(v reflect.Value) string {
	switch {
	case v.CanInt():
		return strconv.FormatInt(v.Int(), 10)
	case v.CanUint():
		return strconv.FormatUint(v.Uint(), 10)
	}
	return ""
}
