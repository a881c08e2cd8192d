package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is the executable form of one listed property.
type Prop struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // cases of the quick tier, over all shards
	Thorough int
	Shards   int
	Procs    int  // GOMAXPROCS of a worker, 0: 2
	Race     bool // needs the race detector
	NoLimit  bool // no address space limit
	Known    func() []string
	Cover    *Cover // coverage-guided search in the thorough tier
	newCase  func() any
	gen      func(t *rapid.T) any
	check    func(c any, x *Ctx) error
}

var props = map[string]*Prop{}

func register[C any](p Prop, gen func(t *rapid.T) *C, check func(c *C, x *Ctx) error) {
	p.newCase = func() any { return new(C) }
	p.gen = func(t *rapid.T) any { return gen(t) }
	p.check = func(c any, x *Ctx) error { return check(c.(*C), x) }
	if p.Shards == 0 {
		p.Shards = 8
	}
	if p.Procs == 0 {
		p.Procs = 2
	}
	if p.Cover == nil && !p.Race && p.ID != "C33" {
		p.Cover = &Cover{Seconds: 150}
	}
	if props[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	props[p.ID] = &p
}

// Ctx collects what a case covered.
type Ctx struct {
	labels map[string]int
	nt     bool
	replay bool
	dir    string // scratch directory of the worker
}

func (x *Ctx) label(f string, a ...any) {
	if len(a) > 0 {
		f = fmt.Sprintf(f, a...)
	}
	x.labels[f]++
}
func (x *Ctx) count(name string, n int) { x.labels["#"+name] += n }
func (x *Ctx) nontrivial()              { x.nt = true }
func (x *Ctx) nontrivialIf(b bool) {
	if b {
		x.nt = true
	}
}

// harnessError is a failure of the check itself, never a violation.
type harnessError struct{ msg string }

func (e harnessError) Error() string { return "HARNESS: " + e.msg }

func harnessFail(format string, a ...any) { panic(harnessError{fmt.Sprintf(format, a...)}) }

type replayFile struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type result struct {
	Evals     int
	NonTriv   []uint64
	Labels    map[string]int
	Samples   []json.RawMessage
	Violation *replayFile
	Harness   string
}

const pkgPath = "github.com/dmitryikh/leaves"

// blame tells whose code is the innermost in a stack trace: "leaves",
// "harness" or "".
func blame(stack string) string {
	lines := strings.Split(stack, "\n")
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "created by ") {
			continue
		}
		if strings.HasPrefix(l, pkgPath) {
			return "leaves"
		}
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "leavesverif") {
			return "harness"
		}
	}
	return ""
}

// runCase runs the check on one case. Panics of the library are violations.
func runCase(p *Prop, c any, x *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				err = h
				return
			}
			st := string(debug.Stack())
			// drop the part above the panic call
			if i := strings.Index(st, "\npanic("); i >= 0 {
				st = st[i+1:]
				if j := strings.Index(st, "\n"); j >= 0 {
					st = st[j+1:]
				}
			}
			if blame(st) == "leaves" {
				err = fmt.Errorf("panic: %v\n%s", r, trim(st, 1500))
			} else {
				err = harnessError{fmt.Sprintf("panic: %v\n%s", r, trim(st, 3000))}
			}
		}
	}()
	return p.check(c, x)
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// tb is the testing.TB that rapid needs.
type tb struct {
	failed bool
	log    strings.Builder
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "check" }
func (t *tb) Logf(f string, a ...any)   { fmt.Fprintf(&t.log, f+"\n", a...) }
func (t *tb) Log(a ...any)              { fmt.Fprintln(&t.log, a...) }
func (t *tb) Skipf(f string, a ...any)  { t.Logf(f, a...); runtime.Goexit() }
func (t *tb) Skip(a ...any)             { t.Log(a...); runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *tb) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Logf(f, a...); t.FailNow() }
func (t *tb) Fatal(a ...any)            { t.Log(a...); t.FailNow() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func setFlag(k, v string) {
	if err := flag.Set(k, v); err != nil {
		panic(err)
	}
}

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	v := h.Sum64() & 0x7fffffffffffffff
	if v == 0 {
		v = 1
	}
	return v
}

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	exitRace = 66
	exitHang = 67
)

// watchdog ends the worker when one case takes more than hangCPU of processor
// time, or stays without any for a long time.
func watchdog(caseNo *atomic.Int64) {
	const hangCPU = 40 * time.Second
	var last int64 = -1
	var cpu0, prev time.Duration
	idle := 0
	for {
		time.Sleep(time.Second)
		n := caseNo.Load()
		c := cpuNow()
		if n != last {
			last, cpu0, prev, idle = n, c, c, 0
			continue
		}
		if n == 0 {
			continue
		}
		if c-prev < 20*time.Millisecond {
			idle++
		} else {
			idle = 0
		}
		prev = c
		if c-cpu0 > hangCPU || idle > 120 {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "HANG: case %d, %v of processor time, %d idle seconds\n%s\n", n, c-cpu0, idle, buf)
			os.Exit(exitHang)
		}
	}
}

func worker(p *Prop, shard, checks int, seed uint64, deadline time.Duration, outDir string) {
	if !p.Race && !p.NoLimit {
		lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	runtime.GOMAXPROCS(p.Procs)
	res := &result{Labels: map[string]int{}}
	testing.Init()
	flag.CommandLine.Parse(nil)
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.checks", strconv.Itoa(checks))
	setFlag("rapid.nofailfile", "true")
	setFlag("rapid.shrinktime", "20s")
	setFlag("test.short", "false")
	end := time.Now().Add(deadline)
	inflight, err := os.Create(filepath.Join(outDir, fmt.Sprintf("inflight%d", shard)))
	if err != nil {
		panic(err)
	}
	dir := filepath.Join(outDir, fmt.Sprintf("w%d", shard))
	os.MkdirAll(dir, 0o755)
	var caseNo atomic.Int64
	go watchdog(&caseNo)
	seen := map[uint64]bool{}
	t := &tb{}
	done := make(chan bool)
	go func() {
		defer close(done)
		rapid.Check(t, func(rt *rapid.T) {
			if res.Harness != "" || (res.Violation == nil && time.Now().After(end)) {
				return
			}
			caseNo.Store(0)
			c := p.gen(rt)
			js, err := json.Marshal(c)
			if err != nil {
				res.Harness = "marshal: " + err.Error()
				return
			}
			inflight.Truncate(0)
			inflight.WriteAt(js, 0)
			x := &Ctx{labels: res.Labels, dir: dir}
			if res.Violation != nil {
				x.labels = map[string]int{}
			}
			caseNo.Store(int64(res.Evals + 1))
			err = runCase(p, c, x)
			caseNo.Store(0)
			if h, ok := err.(harnessError); ok {
				res.Harness = h.Error() + "\ncase: " + trim(string(js), 3000)
				return
			}
			if res.Violation == nil {
				res.Evals++
				if x.nt {
					h := fnv.New64a()
					h.Write(js)
					v := h.Sum64()
					if !seen[v] {
						seen[v] = true
						if len(res.Samples) < 3 && len(js) < 3000 {
							res.Samples = append(res.Samples, js)
						}
					}
				}
			}
			if err != nil {
				res.Violation = &replayFile{p.ID, err.Error(), js}
				rt.Fatalf("violation")
			}
		})
	}()
	<-done
	for h := range seen {
		res.NonTriv = append(res.NonTriv, h)
	}
	if res.Violation == nil && t.failed && res.Harness == "" {
		res.Harness = "rapid failed: " + trim(t.log.String(), 3000)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(outDir, fmt.Sprintf("res%d", shard)), b, 0o644); err != nil {
		panic(err)
	}
}

type outcome struct {
	res    *result
	stderr string
	code   int
	err    error
}

// crashViolation decides whether the end of a process shows a violation.
func crashViolation(p *Prop, code int, stderr string) (string, bool) {
	switch {
	case code == exitHang:
		if strings.Contains(stderr, pkgPath) {
			return "the call does not return: " + trim(stderr, 2500), true
		}
	case p.Race && strings.Contains(stderr, "WARNING: DATA RACE"):
		i := strings.Index(stderr, "WARNING: DATA RACE")
		if strings.Contains(stderr[i:], pkgPath) {
			return trim(stderr[i:], 2500), true
		}
	case code == 2 || code == -1 || code > 128:
		for _, mark := range []string{"panic: ", "fatal error: ", "runtime: goroutine stack exceeds", "SIGSEGV"} {
			if i := strings.Index(stderr, mark); i >= 0 {
				st := stderr[i:]
				// the first goroutine is the one that failed
				if j := strings.Index(st, "\ngoroutine "); j >= 0 {
					g := st[j+1:]
					if k := strings.Index(g, "\n\n"); k >= 0 {
						g = g[:k]
					}
					if blame(g) == "leaves" {
						return "crash: " + trim(st, 2500), true
					}
				}
			}
		}
	}
	return "", false
}

func exeCmd(p *Prop, args ...string) *exec.Cmd {
	cmd := exec.Command("/proc/self/exe", args...)
	if e, err := os.Executable(); err == nil {
		cmd = exec.Command(e, args...)
	}
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	return cmd
}

func runSupervisor(p *Prop, verif string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seedN, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seedN = 1
	}
	total, deadline := p.Quick, 300*time.Second
	if tier == "thorough" {
		total, deadline = p.Thorough, 780*time.Second
		if p.Cover != nil {
			deadline -= time.Duration(p.Cover.Seconds+60) * time.Second
		}
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_CASES")); err == nil {
		total = v
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_DEADLINE")); err == nil {
		deadline = time.Duration(v) * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && v > 0 {
		p.Shards = v
	}
	dir, err := os.MkdirTemp("", "leavesverif")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	per := (total + p.Shards - 1) / p.Shards
	outs := make([]outcome, p.Shards)
	var wg sync.WaitGroup
	sem := make(chan bool, max(1, runtime.NumCPU()))
	for s := 0; s < p.Shards; s++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			o := &outs[s]
			cmd := exeCmd(p, "worker", p.ID, strconv.Itoa(s), strconv.Itoa(per), strconv.FormatUint(mix(seedN, "/", p.ID, "/", s), 10), strconv.Itoa(int(deadline/time.Second)), dir)
			var eb bytes.Buffer
			cmd.Stderr = &eb
			o.err = cmd.Run()
			o.stderr = eb.String()
			o.code = cmd.ProcessState.ExitCode()
			if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res%d", s))); err == nil {
				r := &result{}
				if json.Unmarshal(b, r) == nil {
					o.res = r
				}
			}
		}()
	}
	wg.Wait()
	labels := map[string]int{}
	seen := map[uint64]bool{}
	evals := 0
	var samples []json.RawMessage
	var viol *replayFile
	harness := ""
	violations := 0
	for s := range outs {
		o := &outs[s]
		if o.res == nil || o.code != 0 {
			js, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("inflight%d", s)))
			if msg, ok := crashViolation(p, o.code, o.stderr); ok && json.Valid(js) {
				violations++
				js, msg = shrinkCrash(p, dir, js, msg)
				if viol == nil {
					viol = &replayFile{p.ID, msg, js}
				}
			} else if harness == "" {
				harness = fmt.Sprintf("worker %d ended with %v\n%s", s, o.err, trim(o.stderr, 4000))
			}
			continue
		}
		r := o.res
		evals += r.Evals
		for k, v := range r.Labels {
			labels[k] += v
		}
		for _, h := range r.NonTriv {
			seen[h] = true
		}
		if len(samples) < 4 && len(r.Samples) > 0 {
			samples = append(samples, r.Samples[0])
		}
		if r.Violation != nil {
			violations++
			if viol == nil || len(r.Violation.Case) < len(viol.Case) {
				viol = r.Violation
			}
		}
		if r.Harness != "" && harness == "" {
			harness = r.Harness
		}
	}
	if p.Cover != nil && tier == "thorough" && viol == nil && harness == "" {
		n, fresh, v, failed := runCover(p, dir)
		evals += n
		labels["coverage-guided"] += n
		labels["coverage-guided, reached new code"] += fresh
		if viol = v; v != nil {
			violations++
		}
		harness = failed
	}
	writeEvidence(p, verif, tier, seedN, evals, len(seen), labels, samples, violations, time.Since(start))
	if viol != nil {
		rd := filepath.Join(verif, "replays")
		os.MkdirAll(rd, 0o755)
		b, _ := json.Marshal(viol)
		path := filepath.Join(rd, fmt.Sprintf("%s-%016x.json", p.ID, mix(string(viol.Case))))
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Println("error:", err)
			return 2
		}
		fmt.Println(trim(viol.Message, 3000))
		fmt.Printf("case: %s\n", trim(string(viol.Case), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if harness != "" {
		fmt.Println("error of the check:", harness)
		return 2
	}
	if p.Known != nil {
		for _, k := range p.Known() {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
		}
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %.1f s\n", p.ID, evals, len(seen), time.Since(start).Seconds())
	if os.Getenv("VERIF_LABELS") != "" {
		for _, k := range sortedKeys(labels) {
			fmt.Printf("  %-50s %d\n", k, labels[k])
		}
	}
	return 0
}

func writeEvidence(p *Prop, verif, tier string, seed, evals, nt int, labels map[string]int, samples []json.RawMessage, violations int, wall time.Duration) {
	lab := map[string]int{}
	counts := map[string]int{}
	for k, v := range labels {
		if strings.HasPrefix(k, "#") {
			counts[k[1:]] = v
		} else {
			lab[k] = v
		}
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": nt, "rule": p.Rule, "samples": samples,
			"case_classes": lab, "measured": counts,
		},
		"wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0o644); err != nil {
		fmt.Println("error:", err)
		os.Exit(2)
	}
}

// runReplayFile runs one case in this process. 0: holds, 1: violated.
func runReplay(js []byte, quiet bool) int {
	var rf replayFile
	if err := json.Unmarshal(js, &rf); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	p := props[rf.Property]
	if p == nil {
		fmt.Println("error: unknown property", rf.Property)
		return 2
	}
	c := p.newCase()
	if err := json.Unmarshal(rf.Case, c); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	if !p.Race && !p.NoLimit {
		lim := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	runtime.GOMAXPROCS(p.Procs)
	dir, err := os.MkdirTemp("", "leavesverif")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(dir)
	var no atomic.Int64
	no.Store(1)
	go watchdog(&no)
	n := 1
	if p.Race {
		n = 30
	}
	for i := 0; i < n; i++ {
		err := runCase(p, c, &Ctx{labels: map[string]int{}, replay: true, dir: dir})
		if h, ok := err.(harnessError); ok {
			fmt.Println(h.Error())
			return 2
		}
		if err != nil {
			if !quiet {
				fmt.Println(trim(err.Error(), 4000))
			}
			return 1
		}
	}
	return 0
}

// shrinkCrash simplifies the case of a crash (which rapid cannot shrink, as
// the process is gone) by simplifying its JSON form, each try in a process of
// its own.
func shrinkCrash(p *Prop, dir string, js []byte, msg string) ([]byte, string) {
	end := time.Now().Add(40 * time.Second)
	try := func(c []byte) (string, bool) {
		f := filepath.Join(dir, "shrink.json")
		b, _ := json.Marshal(replayFile{p.ID, "", c})
		os.WriteFile(f, b, 0o644)
		cmd := exeCmd(p, "replay1", f)
		var eb bytes.Buffer
		cmd.Stderr = &eb
		if err := cmd.Start(); err != nil {
			return "", false
		}
		tm := time.AfterFunc(20*time.Second, func() { cmd.Process.Kill() })
		cmd.Wait()
		tm.Stop()
		return crashViolation(p, cmd.ProcessState.ExitCode(), eb.String())
	}
	if _, ok := try(js); !ok {
		return js, msg // not every crash happens again at once
	}
	var v any
	d := json.NewDecoder(bytes.NewReader(js))
	d.UseNumber()
	if d.Decode(&v) != nil {
		return js, msg
	}
	for changed := true; changed && time.Now().Before(end); {
		changed = false
		for i := 0; time.Now().Before(end); i++ {
			n := i
			w, ok := simplify(v, &n)
			if !ok {
				break
			}
			c, _ := json.Marshal(w)
			if p.newCase() != nil && json.Unmarshal(c, p.newCase()) != nil {
				continue
			}
			if m, bad := try(c); bad {
				v, js, msg, changed = w, c, m, true
				i--
			}
		}
	}
	return js, msg
}

// simplify makes the n-th simplification of a JSON value: an array element
// removed.
func simplify(v any, n *int) (any, bool) {
	switch x := v.(type) {
	case []any:
		if *n < len(x) && len(x) > 1 {
			out := append(append([]any{}, x[:*n]...), x[*n+1:]...)
			*n = -1
			return out, true
		}
		if len(x) > 1 {
			*n -= len(x)
		}
		for i := range x {
			if w, ok := simplify(x[i], n); ok {
				out := append([]any{}, x...)
				out[i] = w
				return out, true
			}
		}
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if w, ok := simplify(x[k], n); ok {
				out := map[string]any{}
				for a, b := range x {
					out[a] = b
				}
				out[k] = w
				return out, true
			}
		}
	}
	return nil, false
}

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: run ID | replay FILE")
		os.Exit(2)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	switch os.Args[1] {
	case "run":
		p := props[os.Args[2]]
		if p == nil {
			fmt.Println("unknown property", os.Args[2])
			os.Exit(2)
		}
		os.Exit(runSupervisor(p, verif))
	case "worker":
		a := os.Args[2:]
		shard, _ := strconv.Atoi(a[1])
		checks, _ := strconv.Atoi(a[2])
		seed, _ := strconv.ParseUint(a[3], 10, 64)
		dl, _ := strconv.Atoi(a[4])
		worker(props[a[0]], shard, checks, seed, time.Duration(dl)*time.Second, a[5])
	case "replay1":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			os.Exit(2)
		}
		os.Exit(runReplay(b, true))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var rf replayFile
		json.Unmarshal(b, &rf)
		p := props[rf.Property]
		if p == nil {
			fmt.Println("unknown property")
			os.Exit(2)
		}
		cmd := exeCmd(p, "replay2", os.Args[2])
		var eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = os.Stdout, &eb
		cmd.Run()
		code := cmd.ProcessState.ExitCode()
		if msg, ok := crashViolation(p, code, eb.String()); ok {
			fmt.Println(msg)
			code = 1
		} else if code != 0 && code != 1 {
			fmt.Println(trim(eb.String(), 4000))
			code = 2
		}
		if code == 1 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, os.Args[2])
		}
		if code == 0 {
			fmt.Println("the property holds on this case")
		}
		os.Exit(code)
	case "replay2":
		b, _ := os.ReadFile(os.Args[2])
		os.Exit(runReplay(b, false))
	case "emit": // the file of a model given as JSON
		b, err := os.ReadFile(os.Args[2])
		m := &Model{}
		if err == nil {
			err = json.Unmarshal(b, m)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Stdout.Write(m.prepare().bytes())
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	}
}
