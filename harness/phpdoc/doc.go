// Package phpdoc is an independent model of the PHP serialize() format: an
// AST, a strict parser and a printer. Nothing here shares code with the
// library under test.
package phpdoc

import (
	"fmt"
	"strconv"
	"strings"
)

// Node is one PHP value.
type Node struct {
	K   byte   // 'N' 'b' 'i' 'd' 's' 'a' 'O'
	B   bool   // b
	T   string // text of i and d
	S   string // bytes of s, class name of O
	Ent []Entry
}

type Entry struct{ Key, Val *Node }

func Null() *Node              { return &Node{K: 'N'} }
func Bool(b bool) *Node        { return &Node{K: 'b', B: b} }
func Int(i int64) *Node        { return &Node{K: 'i', T: strconv.FormatInt(i, 10)} }
func Uint(i uint64) *Node      { return &Node{K: 'i', T: strconv.FormatUint(i, 10)} }
func IntText(t string) *Node   { return &Node{K: 'i', T: t} }
func FloatText(t string) *Node { return &Node{K: 'd', T: t} }
func Str(s string) *Node       { return &Node{K: 's', S: s} }
func Arr(e ...Entry) *Node     { return &Node{K: 'a', Ent: e} }
func Obj(class string, e ...Entry) *Node {
	return &Node{K: 'O', S: class, Ent: e}
}

// List builds an array with keys 0..n-1.
func List(vs ...*Node) *Node {
	n := &Node{K: 'a'}
	for i, v := range vs {
		n.Ent = append(n.Ent, Entry{Int(int64(i)), v})
	}
	return n
}

// Append prints the document.
func (n *Node) Append(b []byte) []byte {
	switch n.K {
	case 'R':
		return append(b, n.S...)
	case 'N':
		return append(b, "N;"...)
	case 'b':
		if n.B {
			return append(b, "b:1;"...)
		}
		return append(b, "b:0;"...)
	case 'i', 'd':
		b = append(b, n.K, ':')
		b = append(b, n.T...)
		return append(b, ';')
	case 's':
		b = append(b, 's', ':')
		b = strconv.AppendInt(b, int64(len(n.S)), 10)
		b = append(b, ':', '"')
		b = append(b, n.S...)
		return append(b, '"', ';')
	case 'O':
		b = append(b, 'O', ':')
		b = strconv.AppendInt(b, int64(len(n.S)), 10)
		b = append(b, ':', '"')
		b = append(b, n.S...)
		b = append(b, '"', ':')
	case 'a':
		b = append(b, 'a', ':')
	default:
		panic("phpdoc: bad kind")
	}
	b = strconv.AppendInt(b, int64(len(n.Ent)), 10)
	b = append(b, ':', '{')
	for _, e := range n.Ent {
		b = e.Key.Append(b)
		b = e.Val.Append(b)
	}
	return append(b, '}')
}

func (n *Node) Bytes() []byte  { return n.Append(nil) }
func (n *Node) String() string { return string(n.Append(nil)) }

// Token is one lexical piece of a printed document.
type Token struct {
	Start, End int
	Kind       string // tag sep len quote body term count brace num bool
}

// Tokens prints the document and records where each piece is.
func (n *Node) Tokens() ([]byte, []Token) {
	var b []byte
	var ts []Token
	put := func(kind, s string) {
		if s != "" {
			ts = append(ts, Token{len(b), len(b) + len(s), kind})
		}
		b = append(b, s...)
	}
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.K == 'R' {
			put("raw", n.S)
			return
		}
		put("tag", string(n.K))
		switch n.K {
		case 'N':
			put("term", ";")
			return
		case 'b':
			put("sep", ":")
			if n.B {
				put("bool", "1")
			} else {
				put("bool", "0")
			}
			put("term", ";")
			return
		case 'i':
			put("sep", ":")
			put("int", n.T)
			put("term", ";")
			return
		case 'd':
			put("sep", ":")
			put("float", n.T)
			put("term", ";")
			return
		case 's':
			put("sep", ":")
			put("len", strconv.Itoa(len(n.S)))
			put("sep", ":")
			put("quote", `"`)
			put("body", n.S)
			put("quote", `"`)
			put("term", ";")
			return
		case 'O':
			put("sep", ":")
			put("len", strconv.Itoa(len(n.S)))
			put("sep", ":")
			put("quote", `"`)
			put("body", n.S)
			put("quote", `"`)
		}
		put("sep", ":")
		put("count", strconv.Itoa(len(n.Ent)))
		put("sep", ":")
		put("open", "{")
		for _, e := range n.Ent {
			walk(e.Key)
			walk(e.Val)
		}
		put("close", "}")
	}
	walk(n)
	return b, ts
}

// Depth is the number of nested containers.
func (n *Node) Depth() int {
	d := 0
	for _, e := range n.Ent {
		d = max(d, e.Val.Depth())
	}
	if n.K == 'a' || n.K == 'O' {
		d++
	}
	return d
}

// ---- strict parser -------------------------------------------------------

type parser struct {
	b []byte
	p int
}

// Parse accepts exactly one complete, canonical document.
func Parse(b []byte) (*Node, error) {
	p := &parser{b: b}
	n, err := p.value(0)
	if err != nil {
		return nil, err
	}
	if p.p != len(b) {
		return nil, fmt.Errorf("offset %d: %d trailing bytes", p.p, len(b)-p.p)
	}
	return n, nil
}

func (p *parser) errf(f string, a ...any) error {
	return fmt.Errorf("offset %d: %s", p.p, fmt.Sprintf(f, a...))
}

func (p *parser) lit(s string) error {
	if p.p+len(s) > len(p.b) || string(p.b[p.p:p.p+len(s)]) != s {
		return p.errf("expected %q", s)
	}
	p.p += len(s)
	return nil
}

// digits reads a canonical non-negative decimal number.
func (p *parser) digits() (int, error) {
	st := p.p
	for p.p < len(p.b) && p.b[p.p] >= '0' && p.b[p.p] <= '9' {
		p.p++
	}
	t := string(p.b[st:p.p])
	if t == "" || (len(t) > 1 && t[0] == '0') {
		return 0, p.errf("bad length %q", t)
	}
	return strconv.Atoi(t)
}

func (p *parser) until(c byte) (string, error) {
	st := p.p
	for p.p < len(p.b) && p.b[p.p] != c {
		p.p++
	}
	if p.p == len(p.b) {
		return "", p.errf("unterminated token")
	}
	return string(p.b[st:p.p]), nil
}

func (p *parser) quoted() (string, error) {
	n, err := p.digits()
	if err != nil {
		return "", err
	}
	if err := p.lit(`:"`); err != nil {
		return "", err
	}
	if p.p+n > len(p.b) {
		return "", p.errf("string length %d too long", n)
	}
	s := string(p.b[p.p : p.p+n])
	p.p += n
	return s, p.lit(`"`)
}

// CanonInt reports whether t is how PHP writes an integer.
func CanonInt(t string) bool {
	d := strings.TrimPrefix(t, "-")
	if d == "" || (len(d) > 1 && d[0] == '0') || (d == "0" && t != "0") {
		return false
	}
	for _, c := range d {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// PHPFloat reports whether t is a float unserialize() understands.
func PHPFloat(t string) bool {
	switch t {
	case "INF", "-INF", "NAN":
		return true
	}
	i := 0
	dig := func() int {
		s := i
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
		}
		return i - s
	}
	if i < len(t) && (t[i] == '-' || t[i] == '+') {
		i++
	}
	n := dig()
	if i < len(t) && t[i] == '.' {
		i++
		n += dig()
	}
	if n == 0 {
		return false
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '-' || t[i] == '+') {
			i++
		}
		if dig() == 0 {
			return false
		}
	}
	return i == len(t)
}

func (p *parser) value(depth int) (*Node, error) {
	if p.p >= len(p.b) {
		return nil, p.errf("unexpected end")
	}
	c := p.b[p.p]
	p.p++
	if c == 'N' {
		return Null(), p.lit(";")
	}
	if err := p.lit(":"); err != nil {
		return nil, err
	}
	n := &Node{K: c}
	switch c {
	case 'b':
		t, err := p.until(';')
		if err != nil {
			return nil, err
		}
		if t != "0" && t != "1" {
			return nil, p.errf("bad bool %q", t)
		}
		n.B = t == "1"
		return n, p.lit(";")
	case 'i', 'd':
		t, err := p.until(';')
		if err != nil {
			return nil, err
		}
		if c == 'i' && !CanonInt(t) {
			return nil, p.errf("bad int %q", t)
		}
		if c == 'd' && !PHPFloat(t) {
			return nil, p.errf("bad float %q", t)
		}
		n.T = t
		return n, p.lit(";")
	case 's':
		s, err := p.quoted()
		if err != nil {
			return nil, err
		}
		n.S = s
		return n, p.lit(";")
	case 'O':
		s, err := p.quoted()
		if err != nil {
			return nil, err
		}
		n.S = s
		if err := p.lit(":"); err != nil {
			return nil, err
		}
	case 'a':
	default:
		return nil, p.errf("bad type tag %q", c)
	}
	cnt, err := p.digits()
	if err != nil {
		return nil, err
	}
	if err := p.lit(":{"); err != nil {
		return nil, err
	}
	for i := 0; i < cnt; i++ {
		k, err := p.value(depth + 1)
		if err != nil {
			return nil, err
		}
		if k.K != 'i' && k.K != 's' {
			return nil, p.errf("bad key tag %q", k.K)
		}
		v, err := p.value(depth + 1)
		if err != nil {
			return nil, err
		}
		n.Ent = append(n.Ent, Entry{k, v})
	}
	return n, p.lit("}")
}

// ---- lenient acceptor ------------------------------------------------------

// Accept reports whether b is one complete document, without judging element
// counts, leading zeros or the text of floats. What it refuses is malformed
// under every reading of the format.
func Accept(b []byte) error {
	p := &parser{b: b}
	if err := p.loose(0); err != nil {
		return err
	}
	if p.p != len(b) {
		return p.errf("%d trailing bytes", len(b)-p.p)
	}
	return nil
}

func (p *parser) number() (string, error) {
	st := p.p
	for p.p < len(p.b) && p.b[p.p] >= '0' && p.b[p.p] <= '9' {
		p.p++
	}
	if st == p.p {
		return "", p.errf("number expected")
	}
	return string(p.b[st:p.p]), nil
}

func (p *parser) looseQuoted() error {
	t, err := p.number()
	if err != nil {
		return err
	}
	if err := p.lit(`:"`); err != nil {
		return err
	}
	n, err := strconv.ParseUint(t, 10, 62)
	if err != nil || n > uint64(len(p.b)-p.p) {
		return p.errf("string length %s too long", t)
	}
	p.p += int(n)
	return p.lit(`"`)
}

func (p *parser) loose(depth int) error {
	if depth > 20000 {
		return p.errf("too deep")
	}
	if p.p >= len(p.b) {
		return p.errf("unexpected end")
	}
	c := p.b[p.p]
	p.p++
	if c == 'N' {
		return p.lit(";")
	}
	if err := p.lit(":"); err != nil {
		return err
	}
	switch c {
	case 'b':
		if p.p < len(p.b) && (p.b[p.p] == '0' || p.b[p.p] == '1') {
			p.p++
			return p.lit(";")
		}
		return p.errf("bad bool")
	case 'i':
		if p.p < len(p.b) && p.b[p.p] == '-' {
			p.p++
		}
		if _, err := p.number(); err != nil {
			return err
		}
		return p.lit(";")
	case 'd':
		t, err := p.until(';')
		if err != nil {
			return err
		}
		if t == "" {
			return p.errf("empty float")
		}
		return p.lit(";")
	case 's':
		if err := p.looseQuoted(); err != nil {
			return err
		}
		return p.lit(";")
	case 'O':
		if err := p.looseQuoted(); err != nil {
			return err
		}
		if err := p.lit(":"); err != nil {
			return err
		}
	case 'a':
	default:
		return p.errf("bad type tag %q", c)
	}
	if _, err := p.number(); err != nil {
		return err
	}
	if err := p.lit(":{"); err != nil {
		return err
	}
	for {
		if p.p >= len(p.b) {
			return p.errf("unexpected end")
		}
		if p.b[p.p] == '}' {
			p.p++
			return nil
		}
		if k := p.b[p.p]; k != 'i' && k != 's' {
			return p.errf("bad key tag %q", k)
		}
		if err := p.loose(depth + 1); err != nil {
			return err
		}
		if err := p.loose(depth + 1); err != nil {
			return err
		}
	}
}

// Clone copies a document deeply.
func (n *Node) Clone() *Node {
	m := *n
	m.Ent = make([]Entry, len(n.Ent))
	for i, e := range n.Ent {
		m.Ent[i] = Entry{e.Key.Clone(), e.Val.Clone()}
	}
	return &m
}

// Walk visits every value node (not keys).
func (n *Node) Walk(f func(*Node)) {
	f(n)
	for _, e := range n.Ent {
		e.Val.Walk(f)
	}
}

// Raw is printed verbatim.
func Raw(s string) *Node { return &Node{K: 'R', S: s} }
