// Package vf is the case runner shared by all checks: a parent process spawns worker processes, each worker runs
// a seed-determined share of the case list, and the parent merges verdicts, counters and coverage into evidence.
package vf

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Prop describes how one property is exercised.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Quick       int           // number of cases in the quick tier
	Thorough    int           // number of cases in the thorough tier
	Workers     int           // worker processes, default 8
	Timeout     time.Duration // watchdog for one case, default 150 s
	RaceMatters bool          // race detector reports with library frames violate the property
	Init        func(w *Worker)
	Done        func(w *Worker)
	Case        func(t *T)
}

// Worker is the per-process context handed to Init/Done hooks.
type Worker struct {
	Index int
	Seed  int64
	T     *T
}

// T is the context of one running case.
type T struct {
	R        *rand.Rand
	Idx      int
	Seed     int64
	Tier     string
	WorkerNo int

	prop   string
	mu     sync.Mutex
	failed []string
	logBuf bytes.Buffer
	logN   int
	res    *result
}

type result struct {
	Cases      int
	Evals      int64
	Counters   map[string]int64
	Maxima     map[string]int64
	Sigs       []uint64
	Samples    []string
	Violations []violation
	Known      map[string]int64
	HarnessErr string
	LastCase   int

	sigSet map[uint64]struct{}

	harnessErrs int
}

type violation struct {
	Case    int
	Message string
	Trace   string

	key string
}

type stopCase struct{}

// knownFindings maps "ID key" to the description in the committed known-findings file.
var knownFindings = map[string]string{}

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) > 3 && f[0] == "known:" && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "key=") {
			knownFindings[f[1][9:]+" "+f[2][4:]] = strings.Join(f[3:], " ")
		}
	}
}

// Known records a violation that is identified by key; it is only reported, not failed, when the committed
// known-findings file lists this key for the property.
func (t *T) Known(key, format string, args ...interface{}) {
	if _, ok := knownFindings[t.prop+" "+key]; ok {
		t.mu.Lock()
		t.res.Known[key]++
		t.mu.Unlock()
		return
	}
	t.Failf(format, args...)
}

// Failf records a violation; the case continues.
func (t *T) Failf(format string, args ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.failed) < 10 {
		t.failed = append(t.failed, fmt.Sprintf(format, args...))
	}
}

// Fatalf records a violation and ends the case; only call it on the case goroutine.
func (t *T) Fatalf(format string, args ...interface{}) {
	t.Failf(format, args...)
	panic(stopCase{})
}

// Stop ends the case when it has already failed; only call it on the case goroutine.
func (t *T) Stop() {
	if t.Failed() {
		panic(stopCase{})
	}
}

// Failed tells whether the case has recorded a violation.
func (t *T) Failed() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.failed) > 0
}

// Harnessf reports a problem of the check itself (never a verdict).
func Harnessf(format string, args ...interface{}) {
	panic("harness: " + fmt.Sprintf(format, args...))
}

type dropped struct{ err error }

// Sent requires that what a conforming publisher wrote was taken; otherwise the case fails.
func Sent(err error) {
	if err != nil {
		panic(dropped{err})
	}
}

// Logf appends to the trace of the case, which is kept only when the case fails.
func (t *T) Logf(format string, args ...interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.logN < 4000 {
		t.logN++
		fmt.Fprintf(&t.logBuf, format+"\n", args...)
	}
}

// Eval counts evaluations (inputs tried, executions run).
func (t *T) Eval(n int) {
	t.mu.Lock()
	t.res.Evals += int64(n)
	t.mu.Unlock()
}

// Count adds to a named counter of observed events.
func (t *T) Count(name string, n int) {
	t.mu.Lock()
	t.res.Counters[name] += int64(n)
	t.mu.Unlock()
}

// Max keeps the maximum of an observed quantity.
func (t *T) Max(name string, n int) {
	t.mu.Lock()
	if int64(n) > t.res.Maxima[name] {
		t.res.Maxima[name] = int64(n)
	}
	t.mu.Unlock()
}

// Sig notes the signature of a distinct, non-trivial situation that was observed.
func (t *T) Sig(format string, args ...interface{}) {
	h := fnv.New64a()
	fmt.Fprintf(h, format, args...)
	t.mu.Lock()
	t.res.sigSet[h.Sum64()] = struct{}{}
	t.mu.Unlock()
}

// SigHash notes an already hashed signature.
func (t *T) SigHash(h uint64) {
	t.mu.Lock()
	t.res.sigSet[h] = struct{}{}
	t.mu.Unlock()
}

// Sample keeps up to a few written-out cases of this run.
func (t *T) Sample(format string, args ...interface{}) {
	t.mu.Lock()
	if len(t.res.Samples) < 4 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 1500 {
			s = s[:1500] + "…"
		}
		t.res.Samples = append(t.res.Samples, s)
	}
	t.mu.Unlock()
}

// WaitFor polls cond until it holds; false after limit.
func WaitFor(limit time.Duration, cond func() bool) bool {
	deadline := time.Now().Add(limit)
	d := 20 * time.Microsecond
	for {
		if cond() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(d)
		if d < 2*time.Millisecond {
			d *= 2
		}
	}
}

func mix(seed int64, id string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	return int64(h.Sum64() >> 1)
}

// Main runs the registered properties.
func Main(props ...*Prop) {
	id := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "seed")
	work := flag.Int("work", -1, "worker index (worker mode)")
	only := flag.Int("case", -1, "run only this case, in process")
	scratch := flag.String("scratch", "", "scratch directory")
	evidence := flag.String("evidence", "", "evidence file to write")
	cases := flag.Int("cases", 0, "override number of cases")
	verbose := flag.Bool("v", false, "print traces")
	known := flag.String("known", "", "known-findings file")
	flag.Parse()
	loadKnown(*known)

	var p *Prop
	for _, q := range props {
		if q.ID == *id {
			p = q
		}
	}
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(2)
	}
	if p.Workers == 0 {
		p.Workers = 8
	}
	if p.Timeout == 0 {
		p.Timeout = 150 * time.Second
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	n := p.Quick
	if *tier == "thorough" {
		n = p.Thorough
	}
	if *cases > 0 {
		n = *cases
	}
	switch {
	case *only >= 0:
		res := newResult()
		runCases(p, *seed, *tier, 0, []int{*only}, res, "")
		for _, v := range res.Violations {
			fmt.Printf("case %d: %s\n%s\n", v.Case, v.Message, v.Trace)
		}
		if *verbose {
			fmt.Println(res.Counters, res.Maxima, res.Samples)
		}
		if len(res.Violations) > 0 {
			os.Exit(1)
		}
		if res.HarnessErr != "" {
			fmt.Println(res.HarnessErr)
			os.Exit(2)
		}
	case *work >= 0:
		res := newResult()
		var list []int
		for i := *work; i < n; i += p.Workers {
			list = append(list, i)
		}
		progress := filepath.Join(*scratch, fmt.Sprintf("progress-%d", *work))
		runCases(p, *seed, *tier, *work, list, res, progress)
		writeResult(res, filepath.Join(*scratch, fmt.Sprintf("result-%d.json", *work)))
	default:
		os.Exit(parent(p, *tier, *seed, n, *scratch, *evidence, *known))
	}
}

func newResult() *result {
	return &result{Counters: map[string]int64{}, Maxima: map[string]int64{}, Known: map[string]int64{}, sigSet: map[uint64]struct{}{}}
}

func writeResult(res *result, path string) {
	for s := range res.sigSet {
		res.Sigs = append(res.Sigs, s)
	}
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		panic(err)
	}
}

func runCases(p *Prop, seed int64, tier string, workerNo int, list []int, res *result, progress string) {
	mk := func(idx int) *T {
		return &T{R: rand.New(rand.NewSource(mix(seed, p.ID, idx))), Idx: idx, Seed: seed, Tier: tier, WorkerNo: workerNo, prop: p.ID, res: res}
	}
	w := &Worker{Index: workerNo, Seed: seed, T: mk(-1 - workerNo)}
	if p.Init != nil {
		p.Init(w)
	}
	for _, idx := range list {
		t := mk(idx)
		if progress != "" {
			_ = os.WriteFile(progress, []byte(strconv.Itoa(idx)), 0o644)
		}
		done := make(chan string, 1)
		before := res.Evals
		began := time.Now()
		go func() {
			var herr string
			defer func() { done <- herr }()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(stopCase); ok {
						return
					}
					if d, ok := r.(dropped); ok {
						t.Failf("the subscriber stopped taking what a conforming publisher sent: %v", d.err)
						t.Logf("%s", debug.Stack())
						return
					}
					stack := string(debug.Stack())
					msg := fmt.Sprint(r)
					if !strings.HasPrefix(msg, "harness: ") && blameLibrary(stack) {
						t.Failf("panic: %v", r)
						t.Logf("%s", stack)
						return
					}
					herr = fmt.Sprintf("case %d: %v\n%s", idx, r, stack)
				}
			}()
			p.Case(t)
		}()
		var herr string
		slow := time.NewTimer(time.Hour)
		if f := os.Getenv("VERIF_SLOW"); f != "" { // for tuning: where slow cases wait
			idx := idx
			slow = time.AfterFunc(3*time.Second, func() {
				buf := make([]byte, 1<<20)
				_ = os.WriteFile(fmt.Sprintf("%s-%d", f, idx), buf[:runtime.Stack(buf, true)], 0o644)
			})
		}
		select {
		case herr = <-done:
		case <-time.After(p.Timeout):
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			t.Failf("no progress: case still running after %v", p.Timeout)
			t.Logf("%s", buf)
		}
		slow.Stop()
		t.Max("slowest_case_ms", int(time.Since(began)/time.Millisecond))
		res.Cases++
		if res.Evals == before {
			res.Evals++
		}
		t.mu.Lock()
		failed := append([]string(nil), t.failed...)
		trace := t.logBuf.String()
		t.mu.Unlock()
		if len(failed) > 0 {
			res.Violations = append(res.Violations, violation{Case: idx, Message: strings.Join(failed, "\n"), Trace: trace})
			break
		}
		if herr != "" {
			// keep going: a violation found by another case outranks a problem of the check
			res.HarnessErr = herr
			if res.harnessErrs++; res.harnessErrs > 20 {
				return
			}
			continue
		}
		res.LastCase = idx
	}
	if p.Done != nil && len(res.Violations) == 0 {
		p.Done(w)
	}
}

// blameLibrary decides from a stack dump whether the innermost non-runtime frame belongs to the code under test.
func blameLibrary(stack string) bool {
	lines := strings.Split(stack, "\n")
	start := 0
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			start = i + 1
		}
	}
	for _, l := range lines[start:] {
		if strings.Contains(l, "sttp/goapi/") && !strings.Contains(l, "verifsched") {
			return true
		}
		if strings.Contains(l, "verif/harness") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func parent(p *Prop, tier string, seed int64, n int, scratch, evidence, known string) int {
	start := time.Now()
	type ended struct {
		no  int
		err error
	}
	ch := make(chan ended, p.Workers)
	cmds := make([]*exec.Cmd, p.Workers)
	for i := 0; i < p.Workers; i++ {
		cmd := exec.Command(os.Args[0], "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-work", fmt.Sprint(i), "-scratch", scratch, "-cases", fmt.Sprint(n), "-known", known)
		cmd.Env = append(os.Environ(),
			"GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path="+filepath.Join(scratch, fmt.Sprintf("race-%d", i)),
			"GOTRACEBACK=all", "GOMEMLIMIT=3GiB")
		f, err := os.Create(filepath.Join(scratch, fmt.Sprintf("log-%d", i)))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmd.Stdout, cmd.Stderr = f, f
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cmds[i] = cmd
		go func(i int) { ch <- ended{i, cmd.Wait()} }(i)
	}
	total := newResult()
	var harnessErrs []string
	killed := false
	for k := 0; k < p.Workers; k++ {
		e := <-ch
		if killed {
			continue
		}
		b, err := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("result-%d.json", e.no)))
		if err != nil {
			// The worker died: attribute the crash to the case it was running.
			log, _ := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("log-%d", e.no)))
			prog, _ := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("progress-%d", e.no)))
			idx, _ := strconv.Atoi(string(prog))
			s := string(log)
			cut := s
			if i := strings.Index(s, "panic:"); i >= 0 {
				cut = s[i:]
			} else if i := strings.Index(s, "fatal error:"); i >= 0 {
				cut = s[i:]
			}
			if crashBlame(cut) {
				first := cut
				if i := strings.IndexByte(first, '\n'); i > 0 {
					first = first[:i]
				}
				if len(cut) > 20000 {
					cut = cut[:20000]
				}
				total.Violations = append(total.Violations, violation{Case: idx, Message: "process crashed: " + first, Trace: cut})
			} else {
				if len(cut) > 4000 {
					cut = cut[:4000]
				}
				harnessErrs = append(harnessErrs, fmt.Sprintf("worker %d ended with %v at case %d:\n%s", e.no, e.err, idx, cut))
			}
		} else {
			var r result
			if err := json.Unmarshal(b, &r); err != nil {
				harnessErrs = append(harnessErrs, err.Error())
				continue
			}
			total.Cases += r.Cases
			total.Evals += r.Evals
			for k, v := range r.Counters {
				total.Counters[k] += v
			}
			for k, v := range r.Maxima {
				if v > total.Maxima[k] {
					total.Maxima[k] = v
				}
			}
			for k, v := range r.Known {
				total.Known[k] += v
			}
			for _, s := range r.Sigs {
				total.sigSet[s] = struct{}{}
			}
			total.Samples = append(total.Samples, r.Samples...)
			total.Violations = append(total.Violations, r.Violations...)
			if r.HarnessErr != "" {
				harnessErrs = append(harnessErrs, r.HarnessErr)
			}
		}
		if p.RaceMatters {
			for _, v := range raceReports(scratch, e.no) {
				if _, ok := knownFindings[p.ID+" "+v.key]; ok {
					total.Known[v.key]++
					continue
				}
				v.Case = lastProgress(scratch, e.no)
				total.Violations = append(total.Violations, v)
			}
		}
		if len(total.Violations) > 0 {
			killed = true
			for _, c := range cmds {
				_ = c.Process.Kill()
			}
		}
	}

	distinct := len(total.sigSet)
	cov := map[string]interface{}{
		"evaluations":         total.Evals,
		"distinct_nontrivial": distinct,
		"rule":                p.Rule,
		"samples":             head(total.Samples, 4),
		"cases":               total.Cases,
	}
	if total.Samples == nil {
		cov["samples"] = []string{}
	}
	names := make([]string, 0)
	for k := range total.Counters {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		cov["observed_"+k] = total.Counters[k]
	}
	for k, v := range total.Maxima {
		cov["max_"+k] = v
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(total.Violations),
	}
	if len(p.Assumptions) > 0 {
		ev["assumptions"] = p.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Dir(evidence), 0o755)
	if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d evaluations, %d distinct situations, %.1fs\n", p.ID, tier, seed, total.Cases, total.Evals, distinct, time.Since(start).Seconds())
	for _, k := range names {
		fmt.Printf("  observed %s: %d\n", k, total.Counters[k])
	}
	knownKeys := make([]string, 0)
	for k := range total.Known {
		knownKeys = append(knownKeys, k)
	}
	sort.Strings(knownKeys)
	for _, k := range knownKeys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (seen %d times)\n", p.ID, k, knownFindings[p.ID+" "+k], total.Known[k])
	}
	if len(total.Violations) > 0 {
		v := total.Violations[0]
		dir := filepath.Join(filepath.Dir(evidence), "replay")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", p.ID, tier, seed, v.Case))
		rb, _ := json.MarshalIndent(map[string]interface{}{
			"property": p.ID, "tier": tier, "seed": seed, "case": v.Case, "message": v.Message, "trace": v.Trace,
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s -case %d", seed, tier, p.ID, v.Case),
		}, "", " ")
		_ = os.WriteFile(path, rb, 0o644)
		for i, v := range total.Violations {
			if i == 5 {
				break
			}
			fmt.Printf("case %d: %s\n", v.Case, v.Message)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		return 1
	}
	if len(harnessErrs) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(harnessErrs, "\n"))
		return 2
	}
	if distinct == 0 || total.Cases < n {
		fmt.Fprintf(os.Stderr, "the run observed too little: %d of %d cases, %d distinct situations\n", total.Cases, n, distinct)
		return 2
	}
	return 0
}

func head(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// crashBlame looks at the stack of the goroutine that crashed.
func crashBlame(log string) bool {
	if strings.HasPrefix(log, "panic: harness: ") {
		return false
	}
	if strings.Contains(log, "fatal error: all goroutines are asleep") {
		return true
	}
	if i := strings.Index(log, "\ngoroutine "); i >= 0 {
		s := log[i+1:]
		if j := strings.Index(s, "\n\n"); j >= 0 {
			s = s[:j]
		}
		return blameLibrary(s) || (strings.Contains(log, "out of memory") && strings.Contains(s, "sttp/goapi/"))
	}
	return false
}

func lastProgress(scratch string, no int) int {
	b, _ := os.ReadFile(filepath.Join(scratch, fmt.Sprintf("progress-%d", no)))
	i, _ := strconv.Atoi(string(b))
	return i
}

// raceReports returns the distinct race reports of a worker that involve the code under test.
func raceReports(scratch string, no int) []violation {
	files, _ := filepath.Glob(filepath.Join(scratch, fmt.Sprintf("race-%d.*", no)))
	seen := map[string]bool{}
	var out []violation
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, block := range strings.Split(string(b), "==================") {
			if !strings.Contains(block, "WARNING: DATA RACE") || !strings.Contains(block, "sttp/goapi/") {
				continue
			}
			key := raceKey(block)
			if key == "" || seen[key] {
				continue
			}
			seen[key] = true
			if len(block) > 8000 {
				block = block[:8000]
			}
			out = append(out, violation{Message: "data race: " + key, Trace: block, key: "race:" + strings.ReplaceAll(key, " ", "")})
		}
	}
	return out
}

// raceKey names the two access sites (innermost library frame of each stack); empty when neither access is inside
// the library.
func raceKey(block string) string {
	var keys []string
	var cur []string
	flush := func() {
		if len(cur) > 0 {
			keys = append(keys, strings.Join(cur, " < "))
		}
		cur = nil
	}
	inStack := false
	lib := false
	for _, l := range strings.Split(block, "\n") {
		switch {
		case strings.Contains(l, " by goroutine ") || strings.Contains(l, " by main goroutine"):
			flush()
			inStack = true
		case strings.HasPrefix(strings.TrimSpace(l), "Goroutine "):
			flush()
			inStack = false
		case inStack && strings.HasPrefix(l, "  ") && strings.Contains(l, "(") && !strings.HasPrefix(l, "      "):
			f := strings.TrimSpace(l)
			if strings.Contains(f, "sttp/goapi/") && len(cur) == 0 {
				cur = append(cur, f)
				lib = true
			} else if strings.Contains(f, "verif/harness") && len(cur) == 0 {
				cur = append(cur, f)
			}
		}
	}
	flush()
	if !lib {
		return ""
	}
	sort.Strings(keys)
	return strings.Join(keys, " / ")
}
