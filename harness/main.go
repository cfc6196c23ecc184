// Command harness is the property-based testing machinery for akhenakh/oureadb.
//
//	harness run    -property ID [-tier quick|thorough] [-seed N]   generate, execute, shrink, report
//	harness replay FILE                                            run one saved case, no generator involved
//	harness list                                                   list the properties with a check
//
// "run" is the parent: it starts one worker process per shard, merges what they
// measured into evidence/<ID>.json and turns a shrunk failure into a replay file.
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is one executable property.
type Prop struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // generated cases, all shards together
	Thorough int
	Gen      func(*rapid.T) any
	New      func() any
	Run      func(any, *Ctx) error
	Assume   []string
	HangSecs int // a single case that takes longer than this is examined for a deadlock
	Shards   int // 0: one per core
	Race     bool
}

// Ctx collects what one case did.
type Ctx struct {
	labels     map[string]int
	nontrivial bool
	excluded   map[string]int
	scratch    string
	n          int
	thorough   bool
	shrinking  bool
}

// Label counts a class of cases or events.
func (c *Ctx) Label(s string) { c.labels[s]++ }

// NonTrivial marks the current case as non-trivial.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Dir returns a new empty directory, removed when the case ends.
func (c *Ctx) Dir() string {
	c.n++
	d := filepath.Join(c.scratch, "d"+strconv.Itoa(c.n))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(harnessError{err})
	}
	return d
}

// harnessError is a failure of the machinery itself (never a violation).
type harnessError struct{ err error }

func (h harnessError) Error() string { return "harness: " + h.err.Error() }

var props = map[string]*Prop{}

func register[C any](p Prop, gen func(*rapid.T) *C, run func(*C, *Ctx) error) {
	p.Gen = func(t *rapid.T) any { return gen(t) }
	p.New = func() any { return new(C) }
	p.Run = func(c any, x *Ctx) error { return run(c.(*C), x) }
	if p.HangSecs == 0 {
		p.HangSecs = 40
	}
	if _, dup := props[p.ID]; dup {
		panic("duplicate " + p.ID)
	}
	props[p.ID] = &p
}

// failf builds a violation.
func failf(format string, a ...any) error {
	err := fmt.Errorf(format, a...)
	if s := err.Error(); len(s) > 4000 {
		return errors.New(s[:3000] + " ... " + s[len(s)-900:])
	}
	return err
}

// Replay is the file a violation leaves.
type Replay struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Note     string          `json:"note,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// Result is what a worker writes.
type Result struct {
	Evaluations int            `json:"evaluations"`
	Planned     int            `json:"planned"`
	Nontrivial  []uint64       `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Violation   *Replay        `json:"violation,omitempty"`
	Error       string         `json:"error,omitempty"`
}

const (
	exitOK        = 0
	exitViolation = 1
	exitError     = 2
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|replay|list|worker ...")
		os.Exit(exitError)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "israce":
		p := props[os.Args[2]]
		if p == nil {
			os.Exit(exitError)
		}
		fmt.Println(p.Race)
	case "run":
		os.Exit(parent(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "replaychild":
		replayChild(os.Args[2], os.Args[3])
	case "crashchild":
		crashChild(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(exitError)
	}
}

// ---------------------------------------------------------------- parent

func scratchRoot() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		t, err := os.MkdirTemp(d, "oureaverif-")
		if err == nil {
			return t
		}
	}
	fmt.Fprintln(os.Stderr, "no scratch directory")
	os.Exit(exitError)
	return ""
}

func parent(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	id := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	verif := fs.String("verif", "/verif", "")
	cases := fs.Int("cases", 0, "override the number of cases")
	fs.Parse(args)
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return exitError
	}
	start := time.Now()
	root := scratchRoot()
	defer os.RemoveAll(root)

	total := p.Quick
	if *tier == "thorough" {
		total = p.Thorough
	}
	if *cases > 0 {
		total = *cases
	}
	shards := p.Shards
	if shards == 0 {
		shards = 8
	}
	if shards > total {
		shards = 1
	}

	// Replay tier: minimal inputs of defects found earlier, as plain regressions.
	os.Setenv("OUREAVERIF_DIR", *verif)
	regress, rerr := filepath.Glob(filepath.Join(*verif, "corpus", *id, "*.json"))
	if rerr != nil {
		fmt.Fprintln(os.Stderr, rerr)
		return exitError
	}
	sort.Strings(regress)

	results := make([]*Result, shards+1)
	codes := make([]int, shards+1)
	errs := make([]string, shards+1)
	sem := make(chan struct{}, runtime.NumCPU())
	var wg sync.WaitGroup
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	for i := 0; i <= shards; i++ {
		if i == shards && len(regress) == 0 {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			dir := filepath.Join(root, fmt.Sprintf("w%d", i))
			if err := os.MkdirAll(dir, 0o755); err != nil {
				errs[i] = err.Error()
				return
			}
			n := total / shards
			if i < total%shards {
				n++
			}
			a := []string{"worker", "-property", *id, "-shard", strconv.Itoa(i), "-checks", strconv.Itoa(n),
				"-seed", strconv.FormatInt(*seed, 10), "-tier", *tier, "-dir", dir}
			if i == shards {
				a = append(a, "-regress", strings.Join(regress, ":"))
			}
			cmd := exec.Command(self, a...)
			ef, _ := os.Create(filepath.Join(dir, "stderr"))
			of, _ := os.Create(filepath.Join(dir, "stdout"))
			cmd.Stderr, cmd.Stdout = ef, of
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0", "GOTRACEBACK=all")
			werr := cmd.Run()
			ef.Close()
			of.Close()
			codes[i] = cmd.ProcessState.ExitCode()
			if b, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
				var r Result
				if json.Unmarshal(b, &r) == nil {
					results[i] = &r
				}
			}
			if results[i] == nil {
				eb, _ := os.ReadFile(filepath.Join(dir, "stderr"))
				if v := classifyDeath(p, string(eb), filepath.Join(dir, "current.json")); v != nil {
					results[i] = &Result{Violation: v}
					return
				}
				tail := string(eb)
				if len(tail) > 4000 {
					tail = tail[:2000] + "\n...\n" + tail[len(tail)-2000:]
				}
				errs[i] = fmt.Sprintf("worker %d died (%v)\n%s", i, werr, tail)
			} else if p.Race && results[i].Violation == nil {
				eb, _ := os.ReadFile(filepath.Join(dir, "stderr"))
				if rep := raceReport(string(eb)); rep != "" {
					cur, _ := os.ReadFile(filepath.Join(dir, "current.json"))
					results[i].Violation = &Replay{Property: p.ID, Message: "data race in the code under test:\n" + rep,
						Note: "schedule dependent; replay repeats the case under the race detector", Case: cur}
				}
			}
		}(i)
	}
	wg.Wait()

	labels := map[string]int{}
	nontriv := map[uint64]bool{}
	evals, planned := 0, 0
	var samples []any
	var violation *Replay
	for i, r := range results {
		if r == nil {
			continue
		}
		evals += r.Evaluations
		planned += r.Planned
		for k, v := range r.Labels {
			labels[k] += v
		}
		for _, h := range r.Nontrivial {
			nontriv[h] = true
		}
		if len(samples) < 6 && len(r.Samples) > 0 {
			samples = append(samples, r.Samples[0])
			if i == 0 && len(r.Samples) > 1 {
				samples = append(samples, r.Samples[1])
			}
		}
		if r.Violation != nil && (violation == nil || len(r.Violation.Case) < len(violation.Case)) {
			violation = r.Violation
		}
		if r.Error != "" {
			errs[i] = r.Error
		}
	}
	nviol := 0
	if violation != nil {
		nviol = 1
	}
	ev := map[string]any{
		"property": *id, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": len(nontriv), "rule": p.Rule, "samples": samples,
			"planned_cases": planned, "labels": labels, "regression_inputs": len(regress), "shards": shards,
		},
		"assumptions": append([]string{"third-party modules (badger, bolt, goleveldb, gtreap, golang/geo, go-geom, protobuf) behave as pinned in go.sum",
			"generated search only: absence of a violation is not a proof"}, p.Assume...),
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	if violation != nil {
		ev["coverage"].(map[string]any)["violation_message"] = violation.Message
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "cannot write evidence:", err)
		return exitError
	}

	if violation != nil {
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0o755)
		vb, _ := json.MarshalIndent(violation, "", " ")
		h := fnv.New32a()
		h.Write(vb)
		path := filepath.Join(dir, fmt.Sprintf("%s-%08x.json", *id, h.Sum32()))
		if err := os.WriteFile(path, append(vb, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "cannot write replay:", err)
			return exitError
		}
		fmt.Println(violation.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, path)
		return exitViolation
	}
	bad := false
	for _, e := range errs {
		if e != "" {
			fmt.Fprintln(os.Stderr, "CHECK ERROR:", e)
			bad = true
		}
	}
	if bad {
		return exitError
	}
	for _, k := range knownFindings(*verif, *id) {
		fmt.Println(k)
	}
	if evals == 0 || len(nontriv) == 0 {
		fmt.Fprintln(os.Stderr, "CHECK ERROR: no non-trivial case was generated")
		return exitError
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d nontrivial=%d wall=%.1fs\n", *id, *tier, *seed, evals, len(nontriv), time.Since(start).Seconds())
	return exitOK
}

// listedFinding reports whether known_findings.txt lists [name] under a property.
func listedFinding(id, name string) bool {
	dir := os.Getenv("OUREAVERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	for _, l := range knownFindings(dir, id) {
		if strings.Contains(l, "["+name+"]") {
			return true
		}
	}
	return false
}

func knownFindings(verif, id string) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: property="+id+" ") {
			out = append(out, l)
		}
	}
	return out
}

// classifyDeath decides whether a dead worker is the fault of the code under test:
// a Go panic or runtime fatal error whose crashing goroutine runs oureadb code.
// Anything else (out of memory, killed, a bug here) is an error of the check.
func classifyDeath(p *Prop, stderr, current string) *Replay {
	if strings.Contains(stderr, "runtime: out of memory") || strings.Contains(stderr, "cannot allocate memory") {
		return nil
	}
	re := regexp.MustCompile(`(?m)^(panic: |fatal error: |unexpected fault address |SIGSEGV)`)
	loc := re.FindStringIndex(stderr)
	if loc == nil {
		return nil
	}
	rest := stderr[loc[0]:]
	if strings.Contains(rest, "main.harnessError") {
		return nil
	}
	// first goroutine block after the message is the one that crashed
	g := strings.Index(rest, "\ngoroutine ")
	if g < 0 {
		return nil
	}
	block := rest[g+1:]
	if e := strings.Index(block, "\n\n"); e >= 0 {
		block = block[:e]
	}
	if !strings.Contains(block, "akhenakh/oureadb/") {
		return nil
	}
	cur, err := os.ReadFile(current)
	if err != nil {
		return nil
	}
	msg := rest
	if len(msg) > 3000 {
		msg = msg[:3000]
	}
	return &Replay{Property: p.ID, Message: "the process crashed in the code under test:\n" + msg, Case: cur}
}

// raceReport returns the first race detector report in which one of the two
// racing accesses happens directly in oureadb code.
func raceReport(s string) string {
	for _, blk := range strings.Split(s, "==================") {
		if !strings.Contains(blk, "WARNING: DATA RACE") {
			continue
		}
		lines := strings.Split(blk, "\n")
		for i, l := range lines {
			if (strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous ")) && i+1 < len(lines) {
				if strings.Contains(lines[i+1], "akhenakh/oureadb/") {
					if len(blk) > 3000 {
						blk = blk[:3000]
					}
					return blk
				}
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- worker

type wtb struct{ failed bool }

func (t *wtb) Helper()              {}
func (t *wtb) Name() string         { return "verif" }
func (t *wtb) Logf(string, ...any)  {}
func (t *wtb) Log(...any)           {}
func (t *wtb) Skipf(string, ...any) { runtime.Goexit() }
func (t *wtb) Skip(...any)          { runtime.Goexit() }
func (t *wtb) SkipNow()             { runtime.Goexit() }
func (t *wtb) Errorf(f string, a ...any) {
	t.failed = true
	lastTB = fmt.Sprintf(f, a...)
}
func (t *wtb) Error(a ...any)            { t.failed = true; lastTB = fmt.Sprint(a...) }
func (t *wtb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *wtb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *wtb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *wtb) Fail()                     { t.failed = true }
func (t *wtb) Failed() bool              { return t.failed }

var lastTB string

func mixSeed(seed int64, id string, shard int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, shard)
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9E3779B97F4A7C15
	v ^= v >> 29
	if v == 0 {
		v = 0x5bd1e995
	}
	return v
}

type runner struct {
	p        *Prop
	dir      string
	thorough bool
	res      *Result
	nontriv  map[uint64]bool
	caseNo   int
	errOff   int64
}

type outcome struct {
	err  error
	harn error
}

// exec runs one case with panics turned into violations and a deadlock watch.
func (r *runner) exec(c any, cj []byte, counting bool) error {
	r.caseNo++
	x := &Ctx{labels: map[string]int{}, scratch: filepath.Join(r.dir, "s"), thorough: r.thorough, shrinking: !counting}
	os.RemoveAll(x.scratch)
	if err := os.WriteFile(filepath.Join(r.dir, "current.json"), cj, 0o644); err != nil {
		r.die("cannot write current.json: " + err.Error())
	}
	ch := make(chan outcome, 1)
	go caseGoroutine(r.p, c, x, ch)
	var o outcome
	tm := time.NewTimer(time.Duration(r.p.HangSecs) * time.Second)
	mem := time.NewTicker(100 * time.Millisecond)
	defer mem.Stop()
again:
	select {
	case o = <-ch:
		tm.Stop()
	case <-mem.C:
		// cases need some hundred megabytes at most
		if inUse() > 2<<30 {
			if c := stuckIn(); c != "" {
				b, _ := caseStack()
				r.res.Violation = &Replay{Property: r.p.ID, Message: "operation takes memory without end:\n" + c + "\n" + b, Case: cj}
				r.finish()
				os.Exit(exitViolation)
			}
		}
		goto again
	case <-tm.C:
		// Not a time limit: a violation only if the goroutine is provably parked.
		a, st := caseStack()
		select {
		case o = <-ch:
		case <-time.After(15 * time.Second):
			b, st2 := caseStack()
			if st == st2 && (parked(st) || (st == "sleep" && strings.Contains(a, "bolt.flock("))) && strings.Contains(a, "akhenakh/oureadb/") && framesOnly(a) == framesOnly(b) {
				r.res.Violation = &Replay{Property: r.p.ID, Message: "operation never returns; its goroutine is parked:\n" + b, Case: cj}
				r.finish()
				os.Exit(exitViolation)
			}
			done := false
			// Cases take milliseconds. One that stays inside the same call into the code under
			// test for minutes, however often it is looked at, does not return from it.
			same, call := 0, stuckIn()
			for n := 0; n < 60 && !done; n++ {
				select {
				case o = <-ch:
					done = true
				case <-time.After(10 * time.Second):
					b, _ = caseStack()
					if c := stuckIn(); c != "" && c == call {
						same++
					} else {
						same, call = 0, c
					}
					if same >= 15 {
						r.res.Violation = &Replay{Property: r.p.ID, Message: "operation never returns:\n" + call + "\n" + b, Case: cj}
						r.finish()
						os.Exit(exitViolation)
					}
				}
			}
			if !done {
				r.die("a case did not finish (inconclusive):\n" + b)
			}
		}
	}
	if o.harn != nil {
		r.die(o.harn.Error())
	}
	if r.p.Race {
		if rep := raceReport(r.newStderr()); rep != "" {
			// the detector reports a pair of accesses once per process: no shrinking
			r.res.Violation = &Replay{Property: r.p.ID, Message: "data race in the code under test:\n" + rep,
				Note: "schedule dependent; replay repeats the case under the race detector", Case: cj}
			r.finish()
			os.Exit(exitViolation)
		}
	}
	if counting {
		r.res.Evaluations++
		for k, v := range x.labels {
			r.res.Labels[k] += v
		}
		if x.nontrivial {
			h := fnv.New64a()
			h.Write(cj)
			r.nontriv[h.Sum64()] = true
			if len(r.res.Samples) < 2 && len(cj) < 2500 {
				r.res.Samples = append(r.res.Samples, json.RawMessage(cj))
			}
		}
	}
	os.RemoveAll(x.scratch)
	return o.err
}

// newStderr returns what was written to this process's error output since the last call.
func (r *runner) newStderr() string {
	f, err := os.Open(filepath.Join(r.dir, "stderr"))
	if err != nil {
		return ""
	}
	defer f.Close()
	if _, err := f.Seek(r.errOff, io.SeekStart); err != nil {
		return ""
	}
	b, _ := io.ReadAll(f)
	r.errOff += int64(len(b))
	return string(b)
}

func caseGoroutine(p *Prop, c any, x *Ctx, ch chan outcome) {
	debug.SetPanicOnFault(true)
	defer func() {
		if e := recover(); e != nil {
			if h, ok := e.(harnessError); ok {
				ch <- outcome{harn: h}
				return
			}
			st := string(debug.Stack())
			// a runtime error here is the consequence of a result that cannot be used (a nil
			// store without an error, a short slice); any other foreign panic is ours
			if _, ok := e.(runtime.Error); !ok && !strings.Contains(st, "akhenakh/oureadb/") {
				ch <- outcome{harn: fmt.Errorf("panic outside the code under test: %v\n%s", e, st)}
				return
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			ch <- outcome{err: failf("panic: %v\n%s", e, st)}
		}
	}()
	err := p.Run(c, x)
	if h, ok := err.(harnessError); ok {
		ch <- outcome{harn: h}
		return
	}
	ch <- outcome{err: err}
}

func caseStack() (stack, state string) {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "main.caseGoroutine(") && !strings.Contains(g, "main.caseStack(") {
			s := g
			if i, j := strings.Index(g, "["), strings.Index(g, "]"); i >= 0 && j > i {
				s = strings.Split(g[i+1:j], ",")[0]
			}
			return g, s
		}
	}
	return "", ""
}

func framesOnly(g string) string {
	i := strings.Index(g, "\n")
	if i < 0 {
		return g
	}
	return g[i:]
}

// outermost is the part of a stack from the harness up to the first call into the code
// under test, with the line it is made from.
func outermost(g string) string {
	lines := strings.Split(g, "\n")
	for i := len(lines) - 2; i > 0; i-- {
		if strings.HasPrefix(lines[i], "github.com/akhenakh/oureadb/") {
			fn := lines[i]
			if j := strings.LastIndex(fn, "("); j > 0 {
				fn = fn[:j]
			}
			rest := fn
			for k := i + 2; k < len(lines); k++ {
				if strings.HasPrefix(lines[k], "\t") {
					rest += "|" + strings.Split(strings.TrimSpace(lines[k]), " ")[0]
				}
			}
			return rest
		}
	}
	return ""
}

// inUse is the memory this process takes from the system for Go objects.
func inUse() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// stuckIn names the call into the code under test that the case is in, or, when the case
// waits for goroutines of its own, the calls those are in.
func stuckIn() string {
	g, _ := caseStack()
	if c := outermost(g); c != "" {
		return c
	}
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var cs []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "\nmain.") {
			if c := outermost(g); c != "" {
				cs = append(cs, c)
			}
		}
	}
	slices.Sort(cs)
	return strings.Join(cs, "\n")
}

func parked(state string) bool {
	for _, p := range []string{"sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "semacquire", "chan receive", "chan send", "select", "sync.Cond.Wait", "sync.WaitGroup.Wait"} {
		if strings.HasPrefix(state, p) {
			return true
		}
	}
	return false
}

func (r *runner) finish() {
	for h := range r.nontriv {
		r.res.Nontrivial = append(r.res.Nontrivial, h)
	}
	b, err := json.Marshal(r.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitError)
	}
	if err := os.WriteFile(filepath.Join(r.dir, "result.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitError)
	}
}

func (r *runner) die(msg string) {
	r.res.Error = msg
	r.finish()
	os.Exit(exitError)
}

func worker(args []string) {
	testing.Init()
	id := flag.String("property", "", "")
	shard := flag.Int("shard", 0, "")
	checks := flag.Int("checks", 0, "")
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	dir := flag.String("dir", "", "")
	regress := flag.String("regress", "", "")
	flag.CommandLine.Parse(args)
	p := props[*id]
	r := &runner{p: p, dir: *dir, thorough: *tier == "thorough", res: &Result{Labels: map[string]int{}, Planned: *checks}, nontriv: map[uint64]bool{}}
	budget := 200 * time.Second
	if r.thorough {
		budget = 40 * time.Minute
	}
	start := time.Now()

	if *regress != "" {
		r.res.Planned = 0
		for _, f := range strings.Split(*regress, ":") {
			rep, c, err := loadReplay(f)
			if err != nil {
				r.die(err.Error())
			}
			cj, _ := json.Marshal(c)
			if err := r.exec(c, cj, true); err != nil {
				r.res.Violation = &Replay{Property: p.ID, Message: err.Error(), Note: "regression input " + filepath.Base(f), Case: rep.Case}
				r.finish()
				os.Exit(exitViolation)
			}
			r.res.Labels["regression input"]++
		}
		r.finish()
		return
	}

	flag.Set("rapid.checks", strconv.Itoa(*checks))
	flag.Set("rapid.seed", strconv.FormatUint(mixSeed(*seed, *id, *shard), 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "25s")

	var first, last *Replay
	tb := &wtb{}
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			if first == nil && time.Since(start) > budget {
				return
			}
			c := p.Gen(t)
			cj, err := json.Marshal(c)
			if err != nil {
				r.die("case is not serialisable: " + err.Error())
			}
			// run exactly what the replay file would contain
			c2 := p.New()
			if err := json.Unmarshal(cj, c2); err != nil {
				r.die("case does not round-trip: " + err.Error())
			}
			if err := r.exec(c2, cj, first == nil); err != nil {
				rep := &Replay{Property: p.ID, Message: err.Error(), Case: cj}
				if first == nil {
					first = rep
				}
				if last == nil || len(cj) <= len(last.Case) {
					last = rep
				}
				t.Fatalf("property violated")
			}
		})
	}()
	<-done
	if first != nil {
		v := last
		// prefer the shrunk case, but only if it still fails on its own
		c2 := p.New()
		if json.Unmarshal(last.Case, c2) != nil || r.exec(c2, last.Case, false) == nil {
			v = first
			v.Note = "the shrunk case did not fail again; this is the first failing case"
		}
		r.res.Violation = v
		r.finish()
		os.Exit(exitViolation)
	}
	if tb.failed {
		r.die("rapid: " + lastTB)
	}
	r.finish()
}

// ---------------------------------------------------------------- replay

func loadReplay(f string) (*Replay, any, error) {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil, nil, err
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		return nil, nil, err
	}
	p := props[rep.Property]
	if p == nil {
		return nil, nil, fmt.Errorf("unknown property %q", rep.Property)
	}
	c := p.New()
	if err := json.Unmarshal(rep.Case, c); err != nil {
		return nil, nil, err
	}
	return &rep, c, nil
}

// replay runs one saved case in a process of its own, so that a crash or a race
// report is seen from outside.
func replay(f string) int {
	rep, _, err := loadReplay(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	p := props[rep.Property]
	root := scratchRoot()
	defer os.RemoveAll(root)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	ef, err := os.Create(filepath.Join(root, "stderr"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitError
	}
	cmd := exec.Command(self, "replaychild", f, root)
	cmd.Stderr = ef
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0", "GOTRACEBACK=all")
	cmd.Run()
	ef.Close()
	eb, _ := os.ReadFile(filepath.Join(root, "stderr"))
	var res Result
	b, err := os.ReadFile(filepath.Join(root, "result.json"))
	if err == nil {
		err = json.Unmarshal(b, &res)
	}
	v := res.Violation
	if err != nil {
		v = classifyDeath(p, string(eb), filepath.Join(root, "current.json"))
	}
	switch {
	case v != nil:
		fmt.Println(v.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, f)
		return exitViolation
	case err != nil || res.Error != "":
		fmt.Fprintf(os.Stderr, "CHECK ERROR: %v %s\n%s\n", err, res.Error, eb)
		return exitError
	}
	fmt.Println("replay holds:", rep.Property, f)
	return exitOK
}

func replayChild(f, dir string) {
	rep, c, err := loadReplay(f)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitError)
	}
	p := props[rep.Property]
	r := &runner{p: p, dir: dir, res: &Result{Labels: map[string]int{}}, nontriv: map[uint64]bool{}}
	n := 5
	if p.Race {
		n = 200 // the schedule is not part of the case
	}
	for i := 0; i < n; i++ {
		if err := r.exec(c, rep.Case, true); err != nil {
			r.res.Violation = &Replay{Property: p.ID, Message: err.Error(), Case: rep.Case}
			break
		}
	}
	r.finish()
}
