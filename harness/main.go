// Command verifharness drives the bibtex packages with generated workloads and
// decides, with monitors written for each property, whether every observed
// execution obeyed it.
//
// The parent process splits a fixed list of cases (determined by the seed, not
// by time) over worker processes, merges what their monitors observed, writes
// the evidence file and prints the verdict. A worker that dies is attributed to
// the case it was running, which is run once more alone.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property's workload and monitor.
type Prop struct {
	ID       string
	Level    string
	Rule     string // how cases are made, what makes one non-trivial
	Quick    int    // number of cases
	Thorough int
	Fixed    func() []string // regression inputs, run before the generated cases
	RunFixed func(t *T, in string)
	Run      func(t *T)
	Workers  int      // 0 means one per CPU
	Need     []string // events that must have been observed for a run to count
	MinDist  int      // distinct non-trivial cases that a quick run must reach
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// T is one case.
type T struct {
	R      *rand.Rand
	Idx    int
	Tier   string
	Seed   int64
	input  string
	st     *Stats
	watch  *watcher
	start  uint64
	size   int
	Single bool // the case is run alone (confirmation or replay)
}

// Stats is what the monitors of a worker observed.
type Stats struct {
	Cases       int
	Evaluations int
	Events      map[string]int64
	Max         map[string]int64
	Distinct    map[uint64]struct{}
	Samples     []string
}

type caseFail struct{ msg string }

// Input names the input that the case is about to use.
func (t *T) Input(s string) { t.input = s }

// Fail reports a violation and ends the case.
func (t *T) Fail(format string, args ...any) {
	panic(caseFail{fmt.Sprintf(format, args...)})
}

// Event counts something the monitor observed.
func (t *T) Event(name string, n int) { t.st.Events[name] += int64(n) }

// Max records the largest value observed.
func (t *T) MaxOf(name string, n int64) {
	if n > t.st.Max[name] {
		t.st.Max[name] = n
	}
}

// Eval counts one execution of the code under test judged by the oracle.
func (t *T) Eval() { t.st.Evaluations++ }

// Distinct records a non-trivial case by what identifies it.
func (t *T) Distinct(key string) {
	if len(t.st.Distinct) < 1_000_000 {
		h := fnv.New64a()
		h.Write([]byte(key))
		t.st.Distinct[h.Sum64()] = struct{}{}
	}
}

// Sample keeps a few actual cases for the evidence file.
func (t *T) Sample(s string) {
	if len(t.st.Samples) < 2 {
		t.st.Samples = append(t.st.Samples, clip(s, 600))
	}
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
}

func (t *T) thorough() bool { return t.Tier == "thorough" }

// ---------------------------------------------------------------------------
// Watchdog: a hang is decided by the number of executed blocks, a memory
// blow-up by the live heap, a deadlock by the states of all goroutines, never by
// the clock.

type watcher struct {
	limit   atomic.Uint64 // executed blocks at which the operation counts as hung
	heap    atomic.Uint64 // live heap at which the operation counts as a blow-up
	gen     atomic.Uint64 // operations so far
	verdict func(string)
}

const (
	stepBase = 2_000_000
	stepByte = 3_000
	heapBase = 1 << 30
	heapByte = 16_000
)

// Guard bounds the work from here to the next Guard by the input size.
func (t *T) Guard(size int) {
	t.start, t.size = steps(), size
	t.watch.gen.Add(1)
	t.watch.limit.Store(t.start + stepBase + stepByte*uint64(size))
	t.watch.heap.Store(heapBase + heapByte*uint64(size))
}

// Done judges the work since Guard.
func (t *T) Done() {
	if n := steps() - t.start; covOn && n > stepBase/10+stepByte*uint64(t.size) {
		t.Fail("%d blocks executed for %d bytes", n, t.size)
	} else if t.size > 0 {
		t.MaxOf("blocks per byte of input", int64(n)/int64(t.size))
	}
}

func (w *watcher) loop() {
	s := []metrics.Sample{
		{Name: "/memory/classes/heap/objects:bytes"},
		{Name: "/memory/classes/heap/stacks:bytes"},
	}
	// The limits belong to one operation. A sample counts only if the operation
	// is the same before and after it, and only the third in a row decides.
	hang, blow, last := 0, 0, uint64(0)
	idle, idleGen, idleSteps, idleDump, idleCount := 0, uint64(0), uint64(0), "", 0
	for {
		time.Sleep(5 * time.Millisecond)
		if idle++; idle%200 == 0 {
			if g, n := w.gen.Load(), steps(); g != idleGen || n != idleSteps {
				idleGen, idleSteps, idleDump, idleCount = g, n, "", 0
			} else if d, blocked := allBlocked(); !blocked || d != idleDump {
				idleDump, idleCount = d, 0
			} else if idleCount++; idleCount >= 10 {
				w.verdict("deadlock: every goroutine is blocked\n" + clip(d, 4000))
			}
		}
		g := w.gen.Load()
		if g != last {
			hang, blow, last = 0, 0, g
		}
		l, h := w.limit.Load(), w.heap.Load()
		n := steps()
		metrics.Read(s)
		m := s[0].Value.Uint64() + s[1].Value.Uint64()
		if w.gen.Load() != g {
			continue
		}
		if l != 0 && covOn && n > l {
			hang++
		}
		if h != 0 && m > h {
			blow++
		}
		if hang >= 3 {
			w.verdict(fmt.Sprintf("hang: executed more than %d blocks since the start of the operation", stepBase))
		}
		if blow >= 3 {
			w.verdict(fmt.Sprintf("memory blow-up: heap and stacks of %d bytes", m))
		}
	}
}

var goroutineHead = regexp.MustCompile(`(?m)^goroutine (\d+) \[([^\],]*)[^\]]*\]:$`)

// allBlocked describes the goroutines other than the caller's and decides
// whether each of them waits for another one, somewhere below the code under
// test. Nothing here uses timers, so that state never ends by itself.
func allBlocked() (string, bool) {
	buf := make([]byte, 1<<18)
	n := runtime.Stack(buf, true)
	if n == len(buf) {
		return "", false
	}
	dump := string(buf[:n])
	if i := strings.Index(dump, "\n\n"); i >= 0 {
		dump = dump[i+2:] // the caller comes first
	} else {
		return "", false
	}
	for _, m := range goroutineHead.FindAllStringSubmatch(dump, -1) {
		switch st := m[2]; {
		case strings.HasPrefix(st, "sync."), strings.HasPrefix(st, "semacquire"), strings.HasPrefix(st, "chan "), strings.HasPrefix(st, "select"):
		default:
			return "", false
		}
	}
	return goroutineHead.ReplaceAllString(dump, "goroutine $1 [$2]:"), strings.Contains(dump, "github.com/jschaf/bibtex")
}

// ---------------------------------------------------------------------------
// Worker

type workerResult struct {
	Stats   *statsJSON
	Fail    *failure
	Covered []int
}

type statsJSON struct {
	Cases       int
	Evaluations int
	Events      map[string]int64
	Max         map[string]int64
	Distinct    []uint64
	Samples     []string
}

type failure struct {
	Case    int
	Msg     string
	Input   []byte
	Confirm string
}

func caseRand(seed int64, prop string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", prop, idx)
	return rand.New(rand.NewPCG(uint64(seed), h.Sum64()))
}

func runCase(p *Prop, t *T, fixed []string) (fail *failure) {
	defer func() {
		if e := recover(); e != nil {
			f := &failure{Case: t.Idx, Input: []byte(t.input)}
			if cf, ok := e.(caseFail); ok {
				f.Msg = cf.msg
			} else {
				f.Msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
			}
			fail = f
		}
	}()
	if t.Idx < len(fixed) {
		t.Input(fixed[t.Idx])
		p.RunFixed(t, fixed[t.Idx])
	} else {
		p.Run(t)
	}
	return nil
}

func fixedOf(p *Prop) []string {
	if p.Fixed == nil {
		return nil
	}
	return p.Fixed()
}

func worker(p *Prop, tier string, seed int64, w, nw, cases int, only int, dir string) {
	debug.SetMaxStack(512 << 20)
	st := &Stats{Events: map[string]int64{}, Max: map[string]int64{}, Distinct: map[uint64]struct{}{}}
	name := filepath.Join(dir, fmt.Sprintf("w%d", w))
	cur, err := os.Create(name + ".cur")
	check(err)
	finish := func(f *failure) {
		sj := &statsJSON{Cases: st.Cases, Evaluations: st.Evaluations, Events: st.Events, Max: st.Max, Samples: st.Samples}
		for h := range st.Distinct {
			sj.Distinct = append(sj.Distinct, h)
		}
		b, err := json.Marshal(workerResult{Stats: sj, Fail: f, Covered: covered()})
		check(err)
		check(os.WriteFile(name+".tmp", b, 0o644))
		check(os.Rename(name+".tmp", name+".json"))
	}
	fixed := fixedOf(p)
	var t *T
	wt := &watcher{}
	wt.verdict = func(msg string) {
		// The case is still running: report only the failure.
		b, _ := json.Marshal(workerResult{Stats: &statsJSON{}, Fail: &failure{Case: t.Idx, Msg: msg, Input: []byte(t.input)}})
		_ = os.WriteFile(name+".tmp", b, 0o644)
		_ = os.Rename(name+".tmp", name+".json")
		os.Exit(40)
	}
	t = &T{}
	go wt.loop()
	one := func(i int) bool {
		_, _ = cur.WriteAt([]byte(fmt.Sprintf("%12d", i)), 0)
		t = &T{R: caseRand(seed, p.ID, i), Idx: i, Tier: tier, Seed: seed, st: st, watch: wt, Single: only >= 0}
		covFold()
		caseFile = "x.bib"
		if i%3 == 1 && i%400 != 0 && p.ID != "C10" {
			caseFile = sourceName(rand.New(rand.NewPCG(uint64(seed), uint64(i))))
			t.Event("source of another name", 1)
		}
		t.Guard(1 << 16)
		if f := runCase(p, t, fixed); f != nil {
			finish(f)
			return false
		}
		return true
	}
	if only >= 0 {
		if one(only) {
			finish(nil)
		}
		return
	}
	// On a slow machine a run stops early, if not before it has seen enough.
	budget, begin := 200*time.Second, time.Now()
	if tier == "thorough" {
		budget = 50 * time.Minute
	}
	for i := w; i < cases+len(fixed); i += nw {
		if i%64 == w%64 && time.Since(begin) > budget {
			break
		}
		if !one(i) {
			return
		}
		st.Cases++
	}
	finish(nil)
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(2)
	}
}

// ---------------------------------------------------------------------------
// Parent

const stall = 200 * time.Second // no verdict: the run is inconclusive

type procOut struct {
	res  *workerResult
	exit string // how it ended, if not by itself
	tail string // end of stderr
	cur  int    // the case it was running
	hung bool   // no answer
}

func spawn(p *Prop, tier string, seed int64, w, nw, cases, only int, dir string, limit time.Duration) procOut {
	cmd := exec.Command(os.Args[0], "-worker", fmt.Sprint(w), "-workers", fmt.Sprint(nw), "-prop", p.ID,
		"-tier", tier, "-seed", fmt.Sprint(seed), "-cases", fmt.Sprint(cases), "-only", fmt.Sprint(only), "-dir", dir)
	var errb bytes.Buffer
	cmd.Stderr = &tailWriter{b: &errb}
	cmd.Stdout = nil
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	env := os.Environ()
	env = append(env, "GOTRACEBACK=single")
	env = append(env, "GORACE=halt_on_error=1 exitcode=66")
	cmd.Env = env
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	check(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	o := procOut{cur: -1}
	name := filepath.Join(dir, fmt.Sprintf("w%d", w))
	var err error
	lastCur, lastChange := "", time.Now()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			b, _ := os.ReadFile(name + ".cur")
			if string(b) != lastCur {
				lastCur, lastChange = string(b), time.Now()
			}
			if time.Since(lastChange) > limit {
				o.hung = true
				_ = cmd.Process.Kill()
				err = <-done
				break loop
			}
		}
	}
	if b, e := os.ReadFile(name + ".cur"); e == nil {
		fmt.Sscan(string(b), &o.cur)
	}
	if b, e := os.ReadFile(name + ".json"); e == nil {
		var r workerResult
		if json.Unmarshal(b, &r) == nil {
			o.res = &r
		}
	}
	if err != nil {
		o.exit = err.Error()
	}
	o.tail = errb.String()
	return o
}

type tailWriter struct {
	b *bytes.Buffer
}

func (t *tailWriter) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (o procOut) failure() *failure {
	if o.hung {
		return nil
	}
	if o.res != nil {
		return o.res.Fail
	}
	if strings.Contains(o.tail, "harness error:") || strings.Contains(o.exit, "signal: killed") {
		return nil
	}
	return &failure{Case: o.cur, Msg: "process died: " + o.exit + "\n" + clip(o.tail, 4000)}
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	wk := flag.Int("worker", -1, "worker index")
	nwk := flag.Int("workers", 0, "number of workers")
	only := flag.Int("only", -1, "run one case")
	cases := flag.Int("cases", 0, "number of generated cases")
	dir := flag.String("dir", "", "scratch directory")
	ev := flag.String("evidence", "", "evidence directory")
	replay := flag.String("replay", "", "replay file")
	rev := flag.Bool("reverse", false, "handle the inputs on the standard input in the opposite order")
	flag.Parse()
	if *rev {
		reverse()
		return
	}

	if *replay != "" {
		doReplay(*replay)
		return
	}
	p := props[*prop]
	if p == nil {
		check(errors.New("unknown property " + *prop))
	}
	n := *cases
	if n == 0 {
		n = p.Quick
		if *tier == "thorough" {
			n = p.Thorough
		}
	}
	if *wk >= 0 {
		silence()
		worker(p, *tier, *seed, *wk, *nwk, n, *only, *dir)
		return
	}
	nw := p.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	if *nwk > 0 {
		nw = *nwk
	}
	os.Exit(parent(p, *tier, *seed, n, nw, *only, *dir, *ev))
}

func parent(p *Prop, tier string, seed int64, n, nw, only int, dir, ev string) int {
	start := time.Now()
	if dir == "" {
		d, err := os.MkdirTemp("", "verif-run")
		check(err)
		dir = d
		defer os.RemoveAll(d)
	}
	outs := make([]procOut, nw)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[w] = spawn(p, tier, seed, w, nw, n, only, dir, stall)
		}()
		if only >= 0 {
			break
		}
	}
	wg.Wait()

	// The failing case with the lowest index decides.
	var first *failure
	inconclusive := ""
	total := &Stats{Events: map[string]int64{}, Max: map[string]int64{}, Distinct: map[uint64]struct{}{}}
	cov := map[int]bool{}
	for w, o := range outs {
		if only >= 0 && w > 0 {
			break
		}
		if f := o.failure(); f != nil {
			if first == nil || f.Case < first.Case {
				first = f
			}
		} else if o.hung || o.res == nil {
			inconclusive = fmt.Sprintf("worker %d gave no result (case %d, hung=%v, exit=%q): %s", w, o.cur, o.hung, o.exit, clip(o.tail, 1500))
		}
		if o.res != nil && o.res.Stats != nil {
			s := o.res.Stats
			total.Cases += s.Cases
			total.Evaluations += s.Evaluations
			for k, v := range s.Events {
				total.Events[k] += v
			}
			for k, v := range s.Max {
				if v > total.Max[k] {
					total.Max[k] = v
				}
			}
			for _, h := range s.Distinct {
				total.Distinct[h] = struct{}{}
			}
			total.Samples = append(total.Samples, s.Samples...)
			for _, c := range o.res.Covered {
				cov[c] = true
			}
		}
	}
	replayPath := ""
	if first != nil {
		if only < 0 {
			// Run the case once more alone, so that the report says whether it
			// depends on what ran before it.
			d2 := filepath.Join(dir, "confirm")
			check(os.MkdirAll(d2, 0o755))
			o := spawn(p, tier, seed, 0, 1, n, first.Case, d2, stall)
			if f := o.failure(); f != nil {
				if len(first.Input) == 0 {
					first.Input = f.Input
				}
				first.Confirm = "reproduced alone: " + f.Msg
			} else {
				first.Confirm = "not reproduced when run alone (depends on scheduling or on earlier cases of the worker)"
			}
		}
		replayPath = writeReplay(p, tier, seed, ev, first)
	}
	if ev != "" {
		writeEvidence(p, tier, seed, ev, total, cov, time.Since(start), first)
	}
	if first != nil {
		fmt.Printf("case %d: %s\ninput: %q\n%s\n", first.Case, clip(first.Msg, 6000), clip(string(first.Input), 4000), clip(first.Confirm, 300))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayPath)
		return 1
	}
	if inconclusive != "" {
		fmt.Println("INCONCLUSIVE:", inconclusive)
		return 2
	}
	fmt.Printf("%s: %d cases, %d evaluations, %d distinct non-trivial, %d blocks reached, %.1fs\n",
		p.ID, total.Cases, total.Evaluations, len(total.Distinct), len(cov), time.Since(start).Seconds())
	keys := make([]string, 0)
	for k := range total.Events {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %-44s %d\n", k, total.Events[k])
	}
	if only < 0 {
		for _, k := range p.Need {
			if total.Events[k] == 0 {
				fmt.Println("VACUOUS: never observed:", k)
				return 2
			}
		}
		if len(total.Distinct) < p.MinDist {
			fmt.Printf("VACUOUS: only %d distinct non-trivial cases, need %d\n", len(total.Distinct), p.MinDist)
			return 2
		}
	}
	return 0
}

func writeReplay(p *Prop, tier string, seed int64, ev string, f *failure) string {
	if ev == "" {
		return "-"
	}
	d := filepath.Join(ev, "replay")
	check(os.MkdirAll(d, 0o755))
	path := filepath.Join(d, fmt.Sprintf("%s-%s-seed%d-case%d.json", p.ID, tier, seed, f.Case))
	b, err := json.MarshalIndent(map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "case": f.Case, "message": f.Msg,
		"input": f.Input, "input_text": string(f.Input), "confirm": f.Confirm,
		"rerun": fmt.Sprintf("cd /verif && ./check.sh %s -replay %s", p.ID, path),
	}, "", " ")
	check(err)
	check(os.WriteFile(path, b, 0o644))
	return path
}

func doReplay(path string) {
	b, err := os.ReadFile(path)
	check(err)
	var r struct {
		Property, Tier string
		Seed           int64
		Case           int
	}
	check(json.Unmarshal(b, &r))
	p := props[r.Property]
	n := p.Quick
	if r.Tier == "thorough" {
		n = p.Thorough
	}
	os.Exit(parent(p, r.Tier, r.Seed, n, 1, r.Case, "", filepath.Dir(filepath.Dir(path))))
}

func writeEvidence(p *Prop, tier string, seed int64, ev string, st *Stats, cov map[int]bool, wall time.Duration, f *failure) {
	check(os.MkdirAll(ev, 0o755))
	perFile, totalBlocks := covByFile(cov)
	samples := st.Samples
	if f != nil {
		samples = append([]string{clip(string(f.Input), 600)}, samples...)
	}
	if len(samples) == 0 {
		samples = []string{"(no case was completed)"}
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	c := map[string]any{
		"cases":               st.Cases,
		"evaluations":         st.Evaluations,
		"distinct_nontrivial": len(st.Distinct),
		"rule":                p.Rule,
		"samples":             samples,
		"monitor_events":      st.Events,
		"monitor_maxima":      st.Max,
	}
	if covOn {
		c["blocks_reached_in_code_under_test"] = len(cov)
		c["blocks_in_code_under_test"] = totalBlocks
		c["blocks_reached_by_file"] = perFile
	}
	viol := 0
	if f != nil {
		viol = 1
		c["violation"] = clip(f.Msg, 2000)
	}
	e := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": c, "wall_s": float64(int(wall.Seconds()*100)) / 100, "violations": viol,
	}
	if len(p.Assume) > 0 {
		e["assumptions"] = p.Assume
	}
	b, err := json.MarshalIndent(e, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(ev, p.ID+".json"), append(b, '\n'), 0o644))
}

// silence sends the standard output, on which the trace mode prints, nowhere.
func silence() {
	f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	check(err)
	os.Stdout = f
}
