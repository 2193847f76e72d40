package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/gen"
)

const (
	exitHeld      = 0
	exitViolation = 1
	exitError     = 3
	exitRunaway   = 7 // worker: a single case ran away (CPU time or memory)

	caseCPU  = 20 * time.Second // a case normally takes microseconds
	caseHeap = 3 << 30
)

var (
	flagProp    = flag.String("prop", "", "property to decide")
	flagTier    = flag.String("tier", "", "quick or thorough")
	flagReplay  = flag.String("replay", "", "replay file")
	flagVerif   = flag.String("verif", "/verif", "the framework's directory")
	flagRepo    = flag.String("repo", "/repo", "the tree under test, for its literals")
	flagWorker  = flag.Int("worker", -1, "internal: shard index")
	flagOf      = flag.Int("of", 1, "internal: shard count")
	flagOut     = flag.String("out", "", "internal: result file")
	flagFacet   = flag.String("facet", "", "only this facet")
	flagScale   = flag.Float64("scale", 1, "multiplies case counts")
	flagJobs    = flag.Int("jobs", 0, "number of worker processes")
	flagList    = flag.Bool("list", false, "list facets")
	flagMined   = flag.Bool("mined", false, "print the literals of the tree under test (gen/known.json)")
	flagVerbose = flag.Bool("v", false, "print labels")
)

// Replay is a saved failing case.
type Replay struct {
	Property string                 `json:"property"`
	Facet    string                 `json:"facet"`
	Message  string                 `json:"message"`
	Kin      bool                   `json:"kin,omitempty"` // the relatives of the case run first
	Case     json.RawMessage        `json:"case"`
	Detail   map[string]interface{} `json:"detail,omitempty"`
}

type facetResult struct {
	Facet   string
	Evals   int
	Hashes  []uint64
	Labels  map[string]int
	Extra   map[string]int
	Samples []json.RawMessage
	Failure *Replay
	Shrunk  int
}

type workerResult struct {
	Facets []*facetResult
	Error  string
}

func main() {
	testing.Init()
	flag.Parse()
	if err := gen.CheckPools(); err != nil {
		fmt.Fprintln(os.Stderr, "check: raw fragment pool:", err)
		os.Exit(exitError)
	}
	if err := gen.Mine(*flagRepo); err != nil {
		fmt.Fprintln(os.Stderr, "check: reading literals:", err)
	}
	switch {
	case *flagMined:
		out, _ := json.MarshalIndent(struct {
			Ints []int64
			Strs []string
		}{gen.Mined.Ints, gen.Mined.Strs}, "", " ")
		fmt.Println(string(out))
	case *flagList:
		for _, f := range facets {
			fmt.Println(f.Prop, f.Name, f.Quick, f.Thorough)
		}
	case *flagReplay != "" && raceEnabled && os.Getenv("VERIF_RACE_LOG") == "":
		os.Exit(withRaceLog())
	case *flagReplay != "":
		os.Exit(replay(*flagReplay))
	case *flagWorker >= 0:
		os.Exit(worker())
	case *flagProp != "":
		os.Exit(parent())
	default:
		flag.Usage()
		os.Exit(exitError)
	}
}

func tier() string {
	t := *flagTier
	if t == "" {
		t = os.Getenv("VERIF_TIER")
	}
	if t != "thorough" {
		t = "quick"
	}
	return t
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// ---------------------------------------------------------------------------
// Worker

type tb struct {
	failed bool
	log    []string
}

type tbStop struct{}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "check" }
func (t *tb) Logf(f string, a ...any)   { t.log = append(t.log, fmt.Sprintf(f, a...)) }
func (t *tb) Log(a ...any)              { t.log = append(t.log, fmt.Sprint(a...)) }
func (t *tb) Skipf(string, ...any)      { panic(tbStop{}) }
func (t *tb) Skip(...any)               { panic(tbStop{}) }
func (t *tb) SkipNow()                  { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.Logf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.Log(a...) }
func (t *tb) Fatalf(f string, a ...any) { t.failed = true; t.Logf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.failed = true; t.Log(a...); panic(tbStop{}) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process when one case runs away. It measures CPU time, so
// a busy machine does not trip it.
type watchdog struct {
	mu    sync.Mutex
	start time.Duration
	on    bool
	f     *os.File
	size  int64
}

func newWatchdog(path string) *watchdog {
	w := &watchdog{}
	if path != "" {
		f, err := os.Create(path)
		if err == nil {
			w.f = f
		}
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			w.mu.Lock()
			on, start := w.on, w.start
			w.mu.Unlock()
			if !on {
				continue
			}
			if cpuTime()-start > caseCPU {
				fmt.Fprintln(os.Stderr, "check: one case used more than", caseCPU, "of CPU time")
				os.Exit(exitRunaway)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > caseHeap {
				fmt.Fprintln(os.Stderr, "check: one case holds more than", caseHeap, "bytes")
				os.Exit(exitRunaway)
			}
		}
	}()
	return w
}

func (w *watchdog) begin(facet string, c []byte) {
	if w.f != nil {
		b := make([]byte, 0, len(facet)+len(c)+32)
		b = append(b, facet...)
		b = append(b, '\n')
		b = strconv.AppendInt(b, int64(len(c)), 10)
		b = append(b, '\n')
		b = append(b, c...)
		w.f.WriteAt(b, 0)
	}
	t := cpuTime()
	w.mu.Lock()
	w.start, w.on = t, true
	w.mu.Unlock()
}

func (w *watchdog) end() {
	w.mu.Lock()
	w.on = false
	w.mu.Unlock()
}

// runCase checks one case; harness errors come back as an error.
func runCase(f *Facet, c interface{}, r *Rec) (msg string, err error) {
	defer func() {
		if p := recover(); p != nil {
			if h, ok := p.(harnessError); ok {
				err = fmt.Errorf("%s", h.msg)
			} else {
				err = fmt.Errorf("the harness panicked: %v\n%s", p, debug.Stack())
			}
		}
	}()
	return f.check(c, r), nil
}

func worker() int {
	res := &workerResult{}
	wd := newWatchdog(*flagOut + ".inflight")
	for _, f := range facetsOf(*flagProp) {
		if *flagFacet != "" && f.Name != *flagFacet {
			continue
		}
		fr, err := runFacet(f, wd)
		res.Facets = append(res.Facets, fr)
		if err != nil {
			res.Error = fmt.Sprintf("%s/%s: %v", f.Prop, f.Name, err)
			break
		}
	}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(*flagOut, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "check:", err)
		return exitError
	}
	return 0
}

func cases(f *Facet) int {
	n := f.Quick
	if n > 1000 && !raceEnabled {
		n *= 2
	}
	if tier() == "thorough" {
		n = f.Thorough
	}
	return int(float64(n) * *flagScale)
}

func runFacet(f *Facet, wd *watchdog) (fr *facetResult, herr error) {
	fr = &facetResult{Facet: f.Name, Labels: map[string]int{}, Extra: map[string]int{}}
	total := cases(f)
	n := total / *flagOf
	if *flagWorker < total%*flagOf {
		n++
	}
	if n == 0 {
		return fr, nil
	}
	// Distinct streams per seed, facet and shard.
	s := hash64([]byte(fmt.Sprintf("%d|%s|%s|%d", seed(), f.Prop, f.Name, *flagWorker)))
	if s == 0 {
		s = 1
	}
	for k, v := range map[string]string{"rapid.checks": strconv.Itoa(n), "rapid.seed": strconv.FormatUint(s, 10),
		"rapid.nofailfile": "true", "rapid.shrinktime": "20s"} {
		if err := flag.Set(k, v); err != nil {
			return fr, err
		}
	}
	hashes := map[uint64]bool{}
	rng := rand.New(rand.NewPCG(s, 7)) // only picks which cases are kept as samples
	failed := false
	t := &tb{}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbStop); !ok {
					herr = fmt.Errorf("the generator panicked: %v\n%s", p, debug.Stack())
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if herr != nil {
				return
			}
			g := gen.New(rt, f.Cfg)
			kin := f.Prop != "C12" && g.N(4) == 3
			c := f.gen(g)
			b, err := json.Marshal(c)
			if err != nil {
				herr = err
				return
			}
			r := newRec()
			wd.begin(f.Name, b)
			if kin = kin && len(b) < 20000; kin {
				runKin(f, b)
			}
			msg, err := runCase(f, c, r)
			wd.end()
			if err != nil {
				herr = fmt.Errorf("%v\ncase: %s", err, b)
				return
			}
			if !failed {
				fr.Evals++
				for k, v := range r.Labels {
					fr.Labels[k] += v
				}
				for k, v := range r.Extra {
					fr.Extra[k] += v
				}
				if r.NonTrivial {
					h := hash64(b)
					if !hashes[h] {
						hashes[h] = true
						if len(b) < 3000 && (len(fr.Samples) == 0 || len(fr.Samples) < 2 && rng.IntN(40) == 0) {
							fr.Samples = append(fr.Samples, sample(b, r))
						}
					}
				}
			}
			if msg != "" {
				if failed {
					fr.Shrunk++
				}
				failed = true
				fr.Failure = &Replay{Property: f.Prop, Facet: f.Name, Message: msg, Kin: kin, Case: b, Detail: r.Detail}
				rt.Fatalf("%s", msg)
			}
		})
	}()
	if herr == nil && t.failed && fr.Failure == nil {
		herr = fmt.Errorf("rapid: %s", strings.Join(t.log, "; "))
	}
	for h := range hashes {
		fr.Hashes = append(fr.Hashes, h)
	}
	return fr, herr
}

func sample(c []byte, r *Rec) json.RawMessage {
	b, err := json.Marshal(map[string]interface{}{"case": json.RawMessage(c), "observed": r.Detail})
	if err != nil {
		return json.RawMessage(c)
	}
	return b
}

// ---------------------------------------------------------------------------
// Replay

func replay(path string) int {
	b, err := os.ReadFile(path)
	var rp Replay
	if err == nil {
		err = json.Unmarshal(b, &rp)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "check:", err)
		return exitError
	}
	for _, f := range facetsOf(rp.Property) {
		if f.Name != rp.Facet {
			continue
		}
		c, err := f.decode(rp.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, "check:", err)
			return exitError
		}
		wd := newWatchdog("")
		wd.begin(f.Name, nil)
		for i := 0; i < f.Repeat; i++ {
			r := newRec()
			if rp.Kin {
				runKin(f, rp.Case)
			}
			msg, err := runCase(f, c, r)
			if err != nil {
				fmt.Fprintln(os.Stderr, "check:", err)
				return exitError
			}
			if msg != "" {
				fmt.Println(msg)
				for _, k := range sortedKeys(r.Detail) {
					fmt.Printf("  %s: %v\n", k, r.Detail[k])
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
				return exitViolation
			}
		}
		fmt.Println("held on the replayed case")
		return exitHeld
	}
	fmt.Fprintln(os.Stderr, "check: no facet", rp.Property, rp.Facet)
	return exitError
}

// withRaceLog runs this command again with the race detector's reports in a
// file the check can read.
func withRaceLog() int {
	tmp, err := os.MkdirTemp("", "loukoum-check-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "check:", err)
		return exitError
	}
	defer os.RemoveAll(tmp)
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	log := filepath.Join(tmp, "race")
	cmd.Env = append(os.Environ(), "GORACE=log_path="+log+" exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0", "VERIF_RACE_LOG="+log)
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err = cmd.Run()
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode()
	} else if err != nil {
		fmt.Fprintln(os.Stderr, "check:", err)
		return exitError
	}
	return 0
}

// ---------------------------------------------------------------------------
// Parent

func parent() int {
	start := time.Now()
	fs := facetsOf(*flagProp)
	if len(fs) == 0 {
		fmt.Fprintln(os.Stderr, "check: no such property", *flagProp)
		return exitError
	}
	tmp, err := os.MkdirTemp("", "loukoum-check-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "check:", err)
		return exitError
	}
	defer os.RemoveAll(tmp)
	jobs := *flagJobs
	if jobs <= 0 {
		jobs = min(8, runtime.NumCPU())
	}
	exe, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, "check:", err)
		return exitError
	}
	type done struct {
		i   int
		err error
	}
	ch := make(chan done)
	outs := make([]string, jobs)
	procs := make([]*exec.Cmd, jobs)
	for i := 0; i < jobs; i++ {
		outs[i] = filepath.Join(tmp, fmt.Sprintf("w%d.json", i))
		cmd := exec.Command(exe, "-prop", *flagProp, "-tier", tier(), "-worker", strconv.Itoa(i), "-of", strconv.Itoa(jobs),
			"-out", outs[i], "-facet", *flagFacet, "-scale", fmt.Sprint(*flagScale), "-repo", *flagRepo)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "VERIF_SEED="+strconv.FormatInt(seed(), 10),
			"GORACE=log_path="+filepath.Join(tmp, "race")+" exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0",
			"VERIF_RACE_LOG="+filepath.Join(tmp, "race"))
		cmd.Stdout, cmd.Stderr = os.Stdout, &limitWriter{max: 1 << 14}
		if err := cmd.Start(); err != nil {
			fmt.Fprintln(os.Stderr, "check:", err)
			return exitError
		}
		procs[i] = cmd
		go func(i int) { ch <- done{i, cmd.Wait()} }(i)
	}
	errs := make([]error, jobs)
	for i := 0; i < jobs; i++ {
		d := <-ch
		errs[d.i] = d.err
	}

	merged := map[string]*facetResult{}
	hashes := map[string]map[uint64]bool{}
	var failures []*Replay
	failed := false
	for i := 0; i < jobs; i++ {
		if errs[i] != nil {
			// The worker died. Re-run the case it was working on by itself.
			r, why := postMortem(exe, outs[i]+".inflight", tmp, i)
			if r == nil {
				fmt.Fprintf(os.Stderr, "check: worker %d: %v: %s\n%s\n", i, errs[i], why, procs[i].Stderr)
				failed = true
				continue
			}
			failures = append(failures, r)
			continue
		}
		var wr workerResult
		b, err := os.ReadFile(outs[i])
		if err == nil {
			err = json.Unmarshal(b, &wr)
		}
		if err != nil || wr.Error != "" {
			fmt.Fprintf(os.Stderr, "check: worker %d: %v %.1500s\n", i, err, wr.Error)
			failed = true
		}
		for _, fr := range wr.Facets {
			m := merged[fr.Facet]
			if m == nil {
				m = &facetResult{Facet: fr.Facet, Labels: map[string]int{}, Extra: map[string]int{}}
				merged[fr.Facet], hashes[fr.Facet] = m, map[uint64]bool{}
			}
			m.Evals += fr.Evals
			for k, v := range fr.Labels {
				m.Labels[k] += v
			}
			for k, v := range fr.Extra {
				m.Extra[k] += v
			}
			for _, h := range fr.Hashes {
				hashes[fr.Facet][h] = true
			}
			m.Samples = append(m.Samples, fr.Samples...)
			if fr.Failure != nil {
				failures = append(failures, fr.Failure)
			}
		}
	}
	// One report per facet, the smallest case.
	best := map[string]*Replay{}
	for _, r := range failures {
		if b := best[r.Facet]; b == nil || len(r.Case) < len(b.Case) {
			best[r.Facet] = r
		}
	}
	violations := []interface{}{}
	code := exitHeld
	for _, name := range sortedKeys(best) {
		r := best[name]
		dir := filepath.Join(*flagVerif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, r.Property+"-"+name+".json")
		b, err := json.MarshalIndent(r, "", " ")
		if err == nil {
			err = os.WriteFile(path, append(b, '\n'), 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "check:", err)
			return exitError
		}
		fmt.Printf("%s/%s: %s\n", r.Property, name, r.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		violations = append(violations, map[string]interface{}{"facet": name, "message": r.Message, "replay": path})
		code = exitViolation
	}
	if code == exitHeld && failed {
		return exitError
	}
	if err := writeEvidence(fs, merged, hashes, violations, time.Since(start)); err != nil {
		fmt.Fprintln(os.Stderr, "check:", err)
		return exitError
	}
	return code
}

type limitWriter struct {
	b   []byte
	max int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if n := w.max - len(w.b); n > 0 {
		w.b = append(w.b, p[:min(n, len(p))]...)
	}
	return len(p), nil
}

func (w *limitWriter) String() string { return string(w.b) }

func postMortem(exe, inflight, tmp string, i int) (*Replay, string) {
	b, err := os.ReadFile(inflight)
	if err != nil {
		return nil, "no case in flight"
	}
	parts := strings.SplitN(string(b), "\n", 3)
	if len(parts) < 3 {
		return nil, "no case in flight"
	}
	n, err := strconv.Atoi(parts[1])
	if err != nil || n > len(parts[2]) {
		return nil, "no case in flight"
	}
	r := &Replay{Property: *flagProp, Facet: parts[0], Case: json.RawMessage(parts[2][:n])}
	path := filepath.Join(tmp, fmt.Sprintf("dead%d.json", i))
	rb, err := json.Marshal(r)
	if err != nil {
		return nil, err.Error()
	}
	if err := os.WriteFile(path, rb, 0o644); err != nil {
		return nil, err.Error()
	}
	var out limitWriter
	out.max = 4000
	cmd := exec.Command(exe, "-replay", path, "-repo", *flagRepo)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=log_path="+filepath.Join(tmp, "race")+" exitcode=0", "VERIF_RACE_LOG="+filepath.Join(tmp, "race"))
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return nil, "its last case does not fail by itself: " + out.String()
	}
	ws, _ := ee.Sys().(syscall.WaitStatus)
	switch {
	case ws.Signaled():
		return nil, "its last case was killed by " + ws.Signal().String()
	case ee.ExitCode() == exitRunaway:
		r.Message = fmt.Sprintf("this single case does not finish: it used more than %v of CPU time or %d bytes of memory, alone in a process", caseCPU, caseHeap)
		return r, ""
	case ee.ExitCode() == 2 && (strings.Contains(out.String(), "stack overflow") || strings.Contains(out.String(), "goroutine stack exceeds") || strings.Contains(out.String(), "fatal error: concurrent map")):
		r.Message = "this single case kills the process: " + firstLines(out.String(), 6)
		return r, ""
	case ee.ExitCode() == exitViolation:
		r.Message = out.String()
		return r, ""
	}
	return nil, "its last case ends with " + err.Error() + ": " + out.String()
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func writeEvidence(fs []*Facet, merged map[string]*facetResult, hashes map[string]map[uint64]bool, violations []interface{}, wall time.Duration) error {
	evals, distinct := 0, 0
	var rules []string
	samples := []interface{}{}
	per := map[string]interface{}{}
	for _, f := range fs {
		m := merged[f.Name]
		if m == nil {
			continue
		}
		evals += m.Evals
		distinct += len(hashes[f.Name])
		rules = append(rules, f.Name+": "+f.Rule)
		sort.Slice(m.Samples, func(i, j int) bool { return len(m.Samples[i]) < len(m.Samples[j]) })
		if k := len(m.Samples); k > 0 {
			samples = append(samples, map[string]interface{}{"facet": f.Name, "sample": m.Samples[k/2]})
			if k > 2 {
				samples = append(samples, map[string]interface{}{"facet": f.Name, "sample": m.Samples[k-1]})
			}
		}
		per[f.Name] = map[string]interface{}{"evaluations": m.Evals, "distinct_nontrivial": len(hashes[f.Name]), "classes": m.Labels, "counters": m.Extra}
		if *flagVerbose {
			fmt.Printf("%s/%s: %d cases, %d distinct non-trivial\n", f.Prop, f.Name, m.Evals, len(hashes[f.Name]))
			for _, k := range sortedKeys(m.Labels) {
				fmt.Printf("   %-40s %7d  %5.1f%%\n", k, m.Labels[k], 100*float64(m.Labels[k])/float64(m.Evals))
			}
			for _, k := range sortedKeys(m.Extra) {
				fmt.Printf("   + %-38s %7d\n", k, m.Extra[k])
			}
		}
	}
	ev := map[string]interface{}{
		"property": *flagProp, "tier": tier(), "seed": seed(), "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": distinct,
			"rule":    strings.Join(rules, " | "),
			"samples": samples, "facets": per, "violations_found": violations,
		},
		"assumptions": assumptions,
		"wall_s":      wall.Seconds(), "violations": len(violations),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(*flagVerif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n", *flagProp, tier(), seed(), evals, distinct, len(violations), wall.Seconds())
	return os.WriteFile(filepath.Join(dir, *flagProp+".json"), append(b, '\n'), 0o644)
}

var assumptions = []string{
	"PostgreSQL's grammar is as harness/pg implements it from the manual (lexical rules, operator precedence, statement syntax); no server is available offline",
	"raw fragments (lk.Raw, ORDER BY expressions, aggregate arguments, WITH names, prefixes, suffixes) are well-formed SQL of the kind their position takes",
	"sampling: a violation outside the generated domain or too rare for the case count is not seen",
}
