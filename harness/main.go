// Command vmon checks one property by running the library under generated
// workloads in short-lived worker processes and judging every execution.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"vmon/mon"
)

type result struct {
	Counts  map[string]int
	Evals   int
	Samples []string
	Viol    []mon.Violation
	Digests map[string]string
	Cases   int
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vmon check|worker|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "list":
		var ids []string
		for id := range mon.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	default:
		os.Exit(2)
	}
}

// ---- worker -----------------------------------------------------------------

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	dir := fs.String("dir", "", "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	m := mon.All[*prop]
	if m == nil {
		os.Exit(2)
	}
	if !m.NoLimit && !m.Race {
		lim := uint64(8 << 30)
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	var pf *os.File
	if *dir != "" {
		var err error
		pf, err = os.OpenFile(filepath.Join(*dir, "progress"), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	if f := os.Getenv("VMON_PROF"); f != "" {
		o, _ := os.Create(f)
		pprof.StartCPUProfile(o)
		defer pprof.StopCPUProfile()
	}
	w := &mon.Worker{M: m, Seed: *seed, Tier: *tier, From: *from, To: *to, Verbose: *verbose}
	w.Start(pf)
	res := result{w.Counts, w.Evals, w.Samples, w.Viol, w.Digests, *to - *from}
	if *dir == "" {
		for _, v := range w.Viol {
			fmt.Printf("case %d: %s\n", v.Case, v.Msg)
		}
		fmt.Println(w.Counts, w.Evals, len(w.Hashes))
		if len(w.Viol) > 0 {
			os.Exit(1)
		}
		return
	}
	b, _ := json.Marshal(res)
	hs := make([]byte, 0, 8*len(w.Hashes))
	for h := range w.Hashes {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	os.WriteFile(filepath.Join(*dir, "hashes"), hs, 0o644)
	os.WriteFile(filepath.Join(*dir, "result"), b, 0o644)
}

// ---- parent -----------------------------------------------------------------

type parent struct {
	m        *mon.Monitor
	seed     uint64
	tier     string
	exe      string
	tmp      string
	verif    string
	mu       sync.Mutex
	res      result
	hashes   map[uint64]struct{}
	viol     []mon.Violation
	procs    int
	crashes  int
	aborted  []string
	race     int
	plain    int
	n        int
	stopping bool
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	verif := fs.String("verif", "/verif", "")
	fs.Parse(args)
	m := mon.All[*prop]
	if m == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tmp, err := os.MkdirTemp("", "vmon-"+m.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := &parent{m: m, seed: seed, tier: tier, exe: exe, tmp: tmp, verif: *verif, hashes: map[uint64]struct{}{}}
	p.res.Counts = map[string]int{}
	p.res.Digests = map[string]string{}
	start := time.Now()
	n := m.Quick
	if tier == "thorough" {
		n = m.Thorough
	}
	if s := os.Getenv("VMON_CASES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if d, _ := strconv.Atoi(os.Getenv("VMON_DIV")); d > 1 { // development: fewer cases
		n = max(n/d, 1)
	}
	p.n = n
	chunk := m.Chunk
	if chunk == 0 {
		chunk = 250
	}
	var list []job
	for f := 0; f < n; f += chunk {
		list = append(list, job{m: m, exe: exe, from: f, to: min(f+chunk, n)})
	}
	if len(m.Share) > 0 {
		list = variants(m, n, seed, tier)
	}
	jobs := make(chan job, len(list))
	for _, j := range list {
		jobs <- j
	}
	close(jobs)
	procs := m.Procs
	if procs == 0 {
		procs = 8
	}
	if k := runtime.NumCPU(); procs > k && m.Procs == 0 {
		procs = k
	}
	var wg sync.WaitGroup
	for i := 0; i < procs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				p.mu.Lock()
				s := p.stopping
				p.mu.Unlock()
				if s {
					continue
				}
				p.chunk(j)
			}
		}()
	}
	wg.Wait()
	os.RemoveAll(tmp)
	os.Exit(p.finish(time.Since(start)))
}

// job is a range of cases of a monitor, for one worker process.
type job struct {
	m        *mon.Monitor
	exe      string
	tag      string // the build, when it is not the usual one
	from, to int
}

// variants shares the cases of the other monitors out to other builds of the
// same code (VMON_VARIANTS="name=executable ..."): one in n chunks each.
func variants(m *mon.Monitor, n int, seed uint64, tier string) (list []job) {
	for v, s := range strings.Fields(os.Getenv("VMON_VARIANTS")) {
		name, exe, _ := strings.Cut(s, "=")
		for k, id := range m.Share {
			o := mon.All[id]
			total, chunk := o.Quick, o.Chunk
			if tier == "thorough" {
				total = o.Thorough
			}
			if chunk == 0 {
				chunk = 250
			}
			part := max(chunk/4, 1)
			for f, i := 0, uint64(v+k)+seed; f < total; f, i = f+part, i+1 {
				if i%uint64(n) == 0 || total/part < n && f == 0 {
					list = append(list, job{m: o, exe: exe, tag: name, from: f, to: min(f+part, total)})
				}
			}
		}
	}
	return list
}

// run starts one worker process over [from,to).
func (p *parent) run(j job, from, to int) (res *result, last int, out string, err error) {
	p.mu.Lock()
	p.procs++
	dir := filepath.Join(p.tmp, fmt.Sprint(p.procs))
	p.mu.Unlock()
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	exe := j.exe
	if alt := os.Getenv("VMON_PLAIN"); alt != "" && from/max(j.m.Chunk, 1)%3 == 2 {
		exe = alt // built without the race detector
		p.mu.Lock()
		p.plain++
		p.mu.Unlock()
	}
	cmd := exec.Command(exe, "worker", "-prop", j.m.ID, "-seed", fmt.Sprint(p.seed), "-tier", p.tier,
		"-from", fmt.Sprint(from), "-to", fmt.Sprint(to), "-dir", dir)
	errf, _ := os.Create(filepath.Join(dir, "stderr"))
	cmd.Stderr = errf
	cmd.Stdout = errf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMEMLIMIT=3GiB", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 log_path="+filepath.Join(dir, "race"))
	cmd.Env = append(cmd.Env, j.m.Env...)
	if j.tag == "unoptimised" {
		cmd.Env = append(cmd.Env, "VMON_SLOW=1")
	}
	err = cmd.Run()
	errf.Close()
	last = from
	if b, e := os.ReadFile(filepath.Join(dir, "progress")); e == nil && len(b) == 8 {
		last = int(binary.LittleEndian.Uint64(b))
	}
	out = readHead(filepath.Join(dir, "stderr"), 6000)
	logs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, l := range logs {
		rep := readHead(l, 6000)
		k := strings.Count(rep, "WARNING: DATA RACE")
		p.mu.Lock()
		p.race += k
		if k > 0 && len(p.viol) < 20 {
			p.viol = append(p.viol, mon.Violation{Prop: p.m.ID, Case: from, Seed: p.seed, Tier: p.tier, Msg: fmt.Sprintf("data race detected while running cases %d..%d:\n%s", from, to-1, rep)})
		}
		p.mu.Unlock()
	}
	if err != nil {
		return nil, last, out, err
	}
	b, e := os.ReadFile(filepath.Join(dir, "result"))
	if e != nil {
		return nil, last, out, fmt.Errorf("worker wrote no result: %v", e)
	}
	res = &result{}
	if e := json.Unmarshal(b, res); e != nil {
		return nil, last, out, e
	}
	if hb, e := os.ReadFile(filepath.Join(dir, "hashes")); e == nil {
		p.mu.Lock()
		for i := 0; i+8 <= len(hb); i += 8 {
			p.hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
		p.mu.Unlock()
	}
	return res, last, out, nil
}

func readHead(path string, n int) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	b := make([]byte, n)
	k, _ := bufio.NewReaderSize(f, n).Read(b)
	return string(b[:k])
}

func (p *parent) merge(j job, r *result) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if j.tag != "" {
		c := map[string]int{"build_" + j.tag: r.Evals, "cases_" + j.m.ID: r.Cases}
		r.Counts = c
		for i := range r.Viol {
			r.Viol[i].Prop, r.Viol[i].Inner, r.Viol[i].Build = p.m.ID, j.m.ID, j.tag
			r.Viol[i].Msg = "(" + j.m.ID + ", build " + j.tag + ") " + r.Viol[i].Msg
		}
		for i := range r.Samples {
			r.Samples[i] = j.tag + " " + j.m.ID + ": " + r.Samples[i]
		}
		if len(r.Samples) > 1 {
			r.Samples = r.Samples[:1]
		}
	}
	for k, v := range r.Counts {
		if strings.HasPrefix(k, "max_") {
			p.res.Counts[k] = max(p.res.Counts[k], v)
		} else {
			p.res.Counts[k] += v
		}
	}
	p.res.Evals += r.Evals
	p.res.Cases += r.Cases
	if len(p.res.Samples) < 6 {
		p.res.Samples = append(p.res.Samples, r.Samples...)
	}
	p.viol = append(p.viol, r.Viol...)
	for k, d := range r.Digests {
		k = strings.TrimSpace(j.tag + " " + k)
		if old, ok := p.res.Digests[k]; ok && old != d {
			p.viol = append(p.viol, mon.Violation{Prop: p.m.ID, Seed: p.seed, Tier: p.tier,
				Msg: fmt.Sprintf("operation %s gave different results after different histories:\n  %s\n  %s", k, old, d)})
		} else {
			p.res.Digests[k] = d
			if ok {
				p.res.Counts["digests_compared"]++
			}
		}
	}
	if len(p.viol) >= 8 {
		p.stopping = true
	}
}

// chunk runs cases [from,to), isolating the case that kills a worker.
func (p *parent) chunk(j job) {
	from, to := j.from, j.to
	for from < to {
		res, last, out, err := p.run(j, from, to)
		if err == nil {
			p.merge(j, res)
			return
		}
		if last < from || last >= to {
			last = from
		}
		p.mu.Lock()
		p.crashes++
		p.mu.Unlock()
		desc := strings.TrimSpace(out)
		fatal := strings.Contains(out, "fatal error:") || strings.Contains(out, "SIGSEGV") || strings.Contains(out, "unexpected fault") || strings.HasPrefix(out, "panic:") || strings.Contains(out, "\npanic:")
		hang := strings.Contains(out, "VMON-HANG")
		oom := strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate memory")
		// run the suspect alone: it decides between a violation and noise
		_, _, out2, err2 := p.run(j, last, last+1)
		switch {
		case j.tag != "" && (oom || strings.Contains(out2, "out of memory") || strings.Contains(out2, "cannot allocate memory")):
			// a smaller address space than the case was made for
		case err2 != nil && (strings.Contains(out2, "fatal error:") || strings.Contains(out2, "VMON-HANG") || strings.Contains(out2, "panic:") || strings.Contains(out2, "fault")):
			p.add(j, last, "the worker process died running this case alone ("+err2.Error()+"):\n"+strings.TrimSpace(out2))
		case fatal && !oom && !hang:
			p.add(j, last, "the worker process died during this case ("+err.Error()+"):\n"+desc)
		default:
			p.mu.Lock()
			p.aborted = append(p.aborted, fmt.Sprintf("case %d: %v %s", last, err, firstLine(desc)))
			p.mu.Unlock()
		}
		p.mu.Lock()
		s := len(p.viol) >= 8 || len(p.aborted) > 20
		if s {
			p.stopping = true
		}
		p.mu.Unlock()
		if s {
			return
		}
		// cases before the crash are run again for their results, the crashing one is skipped
		if last > from {
			if res, _, _, err := p.run(j, from, last); err == nil {
				p.merge(j, res)
			}
		}
		from = last + 1
	}
}

func firstLine(s string) string {
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func (p *parent) add(j job, i int, msg string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	v := mon.Violation{Prop: p.m.ID, Case: i, Seed: p.seed, Tier: p.tier, Msg: msg}
	if j.tag != "" {
		v.Inner, v.Build, v.Msg = j.m.ID, j.tag, "("+j.m.ID+", build "+j.tag+") "+msg
	}
	p.viol = append(p.viol, v)
}

// known reads the committed list of findings that are not repaired.
func (p *parent) known() map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(p.verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "known: property="+p.m.ID+" sig="); ok {
			sig, what, _ := strings.Cut(rest, " ")
			out[sig] = what
		}
	}
	return out
}

func (p *parent) finish(wall time.Duration) int {
	var miss []string
	for _, n := range p.m.Need {
		if p.res.Counts[n] == 0 {
			miss = append(miss, n)
		}
	}
	known := p.known()
	var open []mon.Violation
	for _, v := range p.viol {
		if what, ok := known[v.Sig]; ok && v.Sig != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.m.ID, what)
			continue
		}
		open = append(open, v)
	}
	status := 0
	if len(open) > 0 {
		status = 1
		sort.Slice(open, func(i, j int) bool { return open[i].Case < open[j].Case })
		dir := filepath.Join(p.verif, "replays")
		os.MkdirAll(dir, 0o755)
		for i, v := range open {
			if i >= 5 {
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.m.ID, v.Case))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("case %d: %s\n", v.Case, v.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.m.ID, path)
		}
	} else if p.res.Evals == 0 || p.res.Cases == 0 || len(miss) > 0 || len(p.aborted) > 0 {
		status = 2
		fmt.Printf("INCONCLUSIVE property=%s: evaluations=%d, events never observed: %v, aborted: %v\n", p.m.ID, p.res.Evals, miss, p.aborted)
	}
	cov := map[string]any{
		"evaluations":         p.res.Evals,
		"distinct_nontrivial": len(p.hashes),
		"rule":                p.m.Rule,
		"samples":             p.res.Samples,
		"cases":               p.res.Cases,
		"worker_processes":    p.procs,
		"events":              p.res.Counts,
	}
	if p.m.Race {
		cov["race_reports"] = p.race
		cov["processes_without_race_detector"] = p.plain
		cov["sanitizer"] = "Go race detector (-race, implies checkptr)"
	}
	ev := map[string]any{
		"property": p.m.ID, "tier": p.tier, "seed": p.seed, "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": len(open),
		"assumptions": []string{"Go toolchain and runtime (reflect, strconv, race detector) are correct", "the reference model in harness/ref and harness/phpdoc states the property correctly"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(p.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(p.verif, "evidence", p.m.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct, %d processes, %d violations, %.1fs, status %d\n", p.m.ID, p.tier, p.seed, p.res.Cases, p.res.Evals, len(p.hashes), p.procs, len(open), wall.Seconds(), status)
	return status
}

func replay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v mon.Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if v.Inner != "" {
		v.Prop = v.Inner
		fmt.Println("seen in build", v.Build)
	}
	worker([]string{"-prop", v.Prop, "-seed", fmt.Sprint(v.Seed), "-tier", v.Tier, "-from", fmt.Sprint(v.Case), "-to", fmt.Sprint(v.Case + 1), "-v"})
}
