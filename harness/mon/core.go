// Package mon runs the library under generated workloads and watches every
// execution with an oracle. One monitor per property.
package mon

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	php "github.com/trim21/go-phpserialize"

	"vmon/gen"
	"vmon/phpdoc"
)

// Monitor decides one property.
type Monitor struct {
	ID       string
	Quick    int // number of cases in the quick tier
	Thorough int
	Chunk    int // cases per worker process
	Race     bool
	CPU      float64 // CPU seconds one case may use (default 20)
	NoLimit  bool    // no address space limit
	Rule     string
	Need     []string // counters that must be non-zero for a verdict
	Run      func(c *C)
	Env      []string
	Procs    int  // parallel workers (default 8)
	NoGiant  bool // no cases with very long texts
	// ShortLists: no very long lists in the cases with very long texts.
	ShortLists bool
	// FewGiants: few texts in a case are very long.
	FewGiants bool
	// Cross compares the digests that cases reported, over all workers.
	Cross bool
	// Share names the monitors whose cases are run in other builds; Quick and
	// Thorough then say one in how many chunks.
	Share []string
}

var All = map[string]*Monitor{}

func register(m *Monitor) { All[m.ID] = m }

// Violation is one observed violation.
type Violation struct {
	Prop string `json:"property"`
	Case int    `json:"case"`
	Seed uint64 `json:"seed"`
	Tier string `json:"tier"`
	Msg  string `json:"what"`
	Sig  string `json:"sig,omitempty"`
	// of a case of another monitor run in another build (C30)
	Inner string `json:"inner,omitempty"`
	Build string `json:"build,omitempty"`
}

// Worker is the state of one worker process.
type Worker struct {
	M        *Monitor
	Seed     uint64
	Tier     string
	From, To int
	Counts   map[string]int
	Evals    int
	Hashes   map[uint64]struct{}
	Samples  []string
	Viol     []Violation
	Digests  map[string]string
	Verbose  bool
	progress *os.File
	pools    map[string]*gen.Pool
	mu       sync.Mutex
	caseCPU  float64
	caseWall time.Time
	cur      int
}

// C is one case.
type C struct {
	*Worker
	R      *rand.Rand
	I      int
	failed bool
}

type stop struct{}

func mix(seed uint64, id string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", seed, id)
	return h.Sum64()
}

func cpu() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

// HangExit is the exit status of a worker whose case used too much CPU time.
const HangExit = 77

func (w *Worker) Start(progress *os.File) {
	w.progress = progress
	w.Counts = map[string]int{}
	w.Hashes = map[uint64]struct{}{}
	w.Digests = map[string]string{}
	w.pools = map[string]*gen.Pool{}
	limit := w.M.CPU
	if limit == 0 {
		limit = 20
	}
	if os.Getenv("VMON_SLOW") != "" {
		limit *= 4
	}
	debug.SetMaxStack(512 << 20)
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			w.mu.Lock()
			used := cpu() - w.caseCPU
			idle := time.Since(w.caseWall) > 10*time.Minute
			i := w.cur
			w.mu.Unlock()
			if i >= 0 && (used > limit && !(gen.IsGiant() && used < 4*limit) || idle) {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "VMON-HANG case %d used %.1f CPU seconds\n%s\n", i, used, buf)
				os.Exit(HangExit)
			}
		}
	}()
	for i := w.From; i < w.To; i++ {
		w.RunCase(i)
		if len(w.Viol) >= 5 {
			break
		}
	}
	w.mu.Lock()
	w.cur = -1
	w.mu.Unlock()
}

func (w *Worker) RunCase(i int) {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(i))
	if w.progress != nil {
		w.progress.WriteAt(b[:], 0)
	}
	w.mu.Lock()
	w.caseCPU = cpu()
	w.caseWall = time.Now()
	w.cur = i
	w.mu.Unlock()
	c := &C{Worker: w, I: i, R: rand.New(rand.NewPCG(mix(w.Seed, w.M.ID), uint64(i)))}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			// a panic outside the guarded calls is a bug of the monitor,
			// unless it was provoked by what the library stored
			c.report("panic in case: %v\n%s", r, debug.Stack())
		}
	}()
	if every := max(1, w.M.Quick/150); !w.M.NoGiant && c.I%every == every/2 {
		c.Count("giant")
		defer gen.Giant(gen.Giant(true))
		gen.NewGiants(1 << 30)
		if w.M.FewGiants {
			gen.NewGiants(6)
		}
		gen.LongLists(!w.M.ShortLists)
	}
	w.M.Run(c)
}

func (c *C) report(f string, a ...any) {
	c.failed = true
	for i, x := range a {
		if t, ok := x.(reflect.Type); ok && len(t.String()) > 900 {
			a[i] = clip(t.String(), 900)
		}
	}
	msg := fmt.Sprintf(f, a...)
	if len(msg) > 4000 {
		msg = msg[:4000] + "..."
	}
	c.mu.Lock()
	c.Viol = append(c.Viol, Violation{Prop: c.M.ID, Case: c.I, Seed: c.Seed, Tier: c.Tier, Msg: msg})
	c.mu.Unlock()
}

// Fail records a violation and ends the case.
func (c *C) Fail(f string, a ...any) {
	c.report(f, a...)
	panic(stop{})
}

func (c *C) Count(name string) { c.Counts[name]++ }

func (c *C) CountN(name string, n int) { c.Counts[name] += n }

// Max keeps a maximum.
func (c *C) Max(name string, n int) { c.Counts["max_"+name] = max(c.Counts["max_"+name], n) }

// Eval counts one oracle decision over something identified by parts.
func (c *C) Eval(nontrivial bool, parts ...string) {
	c.Evals++
	if !nontrivial {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xff, 0})
	}
	c.Hashes[h.Sum64()] = struct{}{}
}

func (c *C) Sample(f string, a ...any) {
	if len(c.Samples) < 3 && c.I%7 == 0 || c.Verbose {
		s := fmt.Sprintf(f, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		if c.Verbose {
			fmt.Fprintln(os.Stderr, "sample:", s)
		}
		c.Samples = append(c.Samples, s)
	}
}

// Thorough reports the tier.
func (c *C) Deep() bool { return c.Tier == "thorough" }

// ---- guarded calls ----------------------------------------------------------

// PanicError is a panic of the library.
type PanicError struct {
	V     any
	Stack string
}

func (p *PanicError) Error() string { return fmt.Sprintf("panic: %v\n%s", p.V, p.Stack) }

// stack skips the trace of panics that the monitors raise on purpose: it is
// expensive for deep values.
func stack(r any) string {
	if s, ok := r.(string); ok && (strings.HasPrefix(s, "scripted") || strings.HasPrefix(s, "pM") || strings.HasPrefix(s, "pU")) {
		return ""
	}
	return string(debug.Stack())
}

func safeMarshal(v any) (b []byte, err error, p *PanicError) {
	defer func() {
		if r := recover(); r != nil {
			p = &PanicError{r, stack(r)}
		}
	}()
	b, err = php.Marshal(v)
	return
}

func safeUnmarshal(b []byte, v any) (err error, p *PanicError) {
	defer func() {
		if r := recover(); r != nil {
			p = &PanicError{r, stack(r)}
		}
	}()
	err = php.Unmarshal(b, v)
	return
}

// Marshal calls the library; a panic is a violation.
func (c *C) Marshal(v any) ([]byte, error) {
	b, err, p := safeMarshal(v)
	if p != nil {
		c.Fail("Marshal(%s) panicked: %s", show(v), p)
	}
	return b, err
}

// Unmarshal calls the library; a panic is a violation.
func (c *C) Unmarshal(b []byte, v any) error {
	err, p := safeUnmarshal(b, v)
	if p != nil {
		c.Fail("Unmarshal(%q, %T) panicked: %s", clip(string(b), 600), v, p)
	}
	return err
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// show prints a value without following cycles.
func show(v any) string { return clip(ShowValue(reflect.ValueOf(v)), 800) }

func ShowValue(v reflect.Value) string {
	var b strings.Builder
	n := 0
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		n++
		if !v.IsValid() {
			b.WriteString("nil")
			return
		}
		if d > 8 || n > 150 {
			b.WriteString("..")
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			if v.Kind() == reflect.Pointer {
				b.WriteString("&")
			} else {
				fmt.Fprintf(&b, "%s:", v.Elem().Type())
			}
			walk(v.Elem(), d+1)
		case reflect.Struct:
			b.WriteString("{")
			for i := 0; i < v.NumField(); i++ {
				fmt.Fprintf(&b, "%s:", v.Type().Field(i).Name)
				walk(v.Field(i), d+1)
				b.WriteString(" ")
			}
			b.WriteString("}")
		case reflect.Slice, reflect.Array:
			if v.Kind() == reflect.Slice && v.IsNil() {
				b.WriteString("nil")
				return
			}
			if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
				fmt.Fprintf(&b, "%q", clip(string(v.Bytes()), 60))
				return
			}
			b.WriteString("[")
			for i := 0; i < v.Len() && i < 20; i++ {
				walk(v.Index(i), d+1)
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.Map:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			b.WriteString("map[")
			it := v.MapRange()
			for it.Next() && n < 150 {
				walk(it.Key(), d+1)
				b.WriteString(":")
				walk(it.Value(), d+1)
				b.WriteString(" ")
			}
			b.WriteString("]")
		case reflect.String:
			fmt.Fprintf(&b, "%q", clip(v.String(), 60))
		case reflect.Func, reflect.Chan, reflect.UnsafePointer:
			b.WriteString(v.Type().String())
		default:
			fmt.Fprintf(&b, "%v", v)
		}
	}
	if v.IsValid() {
		fmt.Fprintf(&b, "(%s) ", clip(v.Type().String(), 300))
	}
	walk(v, 0)
	return b.String()
}

// ---- helpers shared by monitors ----------------------------------------------

// parse runs the strict parser on Marshal output.
func (c *C) parse(v any, b []byte) *phpdoc.Node {
	n, err := phpdoc.Parse(b)
	if err != nil {
		c.Fail("Marshal(%s) wrote a malformed document: %v\n%q", show(v), err, clip(string(b), 600))
	}
	return n
}

// pool returns the dynamic types of this case; cases of one block share them.
func (c *C) pool(o gen.Opt) *gen.Pool {
	key := fmt.Sprintf("%d/%+v", c.I/64, o)
	p := c.pools[key]
	if p == nil {
		p = gen.NewPool(rand.New(rand.NewPCG(mix(c.Seed, c.M.ID+"pool"), uint64(c.I/64))), o, 40)
		c.pools[key] = p
	}
	return p
}

// withPool completes options that allow interfaces.
func (c *C) withPool(o gen.Opt) gen.Opt {
	if o.Any {
		o.Dyn = c.pool(o)
	}
	return o
}

func typeKey(t reflect.Type) string {
	if t == nil {
		return "nil"
	}
	return clip(t.String(), 500)
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

// canon sorts entries of all arrays, to compare outputs up to map order.
func canon(n *phpdoc.Node) []byte {
	var rec func(n *phpdoc.Node)
	rec = func(n *phpdoc.Node) {
		for _, e := range n.Ent {
			rec(e.Val)
		}
		sort.SliceStable(n.Ent, func(i, j int) bool {
			return bytes.Compare(n.Ent[i].Key.Bytes(), n.Ent[j].Key.Bytes()) < 0
		})
	}
	rec(n)
	return n.Bytes()
}
