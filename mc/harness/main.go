// Command verifmc explores boltnd exhaustively within bounds and decides the
// properties of /verif/properties.jsonl. It is laid over the repository at
// build time; see /verif/DESIGN.md.
package main

import (
	"bufio"
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	rt "github.com/carlakc/boltnd/verifrt"
)

// prop is one property and the scenarios that decide it.
type prop struct {
	id          string
	scenarios   func(thorough bool) []*rt.Scenario
	rule        string
	bounds      string
	assumptions []string
}

var props = map[string]*prop{}

func register(p *prop) {
	if props[p.id] != nil {
		panic("duplicate " + p.id)
	}
	props[p.id] = p
}

// detReader is the deterministic stand-in for the system's randomness.
type detReader struct{ n uint64 }

func (d *detReader) Read(b []byte) (int, error) {
	for i := 0; i < len(b); {
		d.n++
		var c [8]byte
		binary.BigEndian.PutUint64(c[:], d.n)
		h := sha256.Sum256(append([]byte("verifmc"), c[:]...))
		i += copy(b[i:], h[:])
	}
	return len(b), nil
}

var det = &detReader{}

type finding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Message  string `json:"message"`
	What     string `json:"what"`
}

type known struct {
	Findings []finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

func loadKnown(path string) *known {
	k := &known{}
	b, err := os.ReadFile(path)
	if err != nil {
		return k
	}
	if err := json.Unmarshal(b, k); err != nil {
		fmt.Fprintf(os.Stderr, "known findings: %v\n", err)
		os.Exit(3)
	}
	return k
}

// workerResult is what a worker reports for one scenario.
type workerResult struct {
	Index  int
	Result *rt.Result
	Known  map[string]int
	Hang   string
	WallS  float64
}

func main() {
	var (
		propID   = flag.String("prop", "", "property")
		tier     = flag.String("tier", "quick", "tier")
		evidence = flag.String("evidence", "", "evidence file")
		replays  = flag.String("replays", "/tmp", "replay directory")
		knownF   = flag.String("known", "", "known findings")
		worker   = flag.Bool("worker", false, "worker mode")
		replay   = flag.String("replay", "", "replay file")
		list     = flag.Bool("list", false, "list scenarios")
		only     = flag.String("only", "", "only scenarios containing")
		budget   = flag.Int("budget", 0, "budget in seconds")
		jobs     = flag.Int("jobs", runtime.NumCPU(), "workers")
		verbose  = flag.Bool("v", false, "verbose")
	)
	flag.Parse()

	rand.Reader = det
	rt.Reset = func(sc *rt.Scenario) {
		det.n = 0
		setLogs(sc)
	}

	if *replay != "" {
		doReplay(*replay)
		return
	}

	p := props[*propID]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *propID)
		os.Exit(3)
	}

	thorough := *tier == "thorough"
	scs := p.scenarios(thorough)
	// The histories, which have no interleavings, come first.
	sort.SliceStable(scs, func(i, j int) bool {
		return strings.HasPrefix(scs[i].Name, "long/") &&
			!strings.HasPrefix(scs[j].Name, "long/")
	})
	if *only != "" {
		var f []*rt.Scenario
		for _, s := range scs {
			if strings.Contains(s.Name, *only) {
				f = append(f, s)
			}
		}
		scs = f
	}

	names := make(map[string]bool)
	for _, s := range scs {
		if names[s.Name] || strings.Contains(s.Name, "\n") {
			fmt.Fprintf(os.Stderr, "scenario %q twice\n", s.Name)
			os.Exit(3)
		}
		names[s.Name] = true
	}

	if *list {
		for i, s := range scs {
			fmt.Println(i, s.Name)
		}
		return
	}

	k := loadKnown(*knownF)

	if *worker {
		runWorker(p, scs, k)
		return
	}

	if *budget == 0 {
		*budget = 600
		if thorough {
			*budget = 840
		}
	}

	m := &master{
		p: p, scs: scs, known: k, tier: *tier, jobs: *jobs,
		budget: time.Duration(*budget) * time.Second, replays: *replays,
		knownFile: *knownF, only: *only, verbose: *verbose,
	}
	os.Exit(m.run(*evidence))
}

// ---------------------------------------------------------------------------
// Worker
// ---------------------------------------------------------------------------

func runWorker(p *prop, scs []*rt.Scenario, k *known) {
	// Managed threads run one at a time: hand-overs on one processor are
	// cheapest.
	runtime.GOMAXPROCS(1)
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}

	out := bufio.NewWriter(os.Stdout)
	in := bufio.NewScanner(os.Stdin)

	var current int64 = -1
	go watchdog(&current)

	byName := make(map[string]*rt.Scenario)
	for _, sc := range scs {
		byName[sc.Name] = sc
	}

	for in.Scan() {
		// Every process makes its own list, in any order.
		parts := strings.SplitN(in.Text(), " ", 3)
		idx, _ := strconv.Atoi(parts[0])
		ms, _ := strconv.ParseInt(parts[1], 10, 64)
		sc := byName[parts[2]]

		knownHits := make(map[string]int)
		ignore := func(msg string) bool {
			for _, f := range k.Findings {
				if f.Property == p.id && f.Scenario == sc.Name &&
					strings.HasPrefix(msg, f.Message) {

					knownHits[f.What]++
					return true
				}
			}
			return false
		}

		atomic.StoreInt64(&current, int64(idx))
		start := time.Now()
		res := rt.Explore(sc, time.UnixMilli(ms), ignore)
		atomic.StoreInt64(&current, -1)
		pprof.StopCPUProfile()

		b, err := json.Marshal(&workerResult{
			Index: idx, Result: res, Known: knownHits,
			WallS: time.Since(start).Seconds(),
		})
		if err != nil {
			panic(err)
		}
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// hangAfter is how long a worker may go without a single scheduling step
// before the code under test is taken to be stuck in a loop of its own.
const hangAfter = 90 * time.Second

const exitHang = 97

func watchdog(current *int64) {
	last, since := uint64(0), time.Now()
	for {
		time.Sleep(time.Second)
		n := atomic.LoadUint64(&rt.Progress)
		if n != last || atomic.LoadInt64(current) < 0 {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) > hangAfter {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "HANG\n%s\n", buf)
			os.Exit(exitHang)
		}
	}
}

// ---------------------------------------------------------------------------
// Master
// ---------------------------------------------------------------------------

type master struct {
	p         *prop
	scs       []*rt.Scenario
	known     *known
	tier      string
	jobs      int
	budget    time.Duration
	replays   string
	knownFile string
	only      string
	verbose   bool

	mu        sync.Mutex
	results   []*workerResult
	crashes   map[int][]string
	stop      bool
	killed    bool
	procs     []*os.Process
	deadline  time.Time
	nextIndex int
}

type workerProc struct {
	cmd  *exec.Cmd
	in   *bufio.Writer
	out  *bufio.Scanner
	errs *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<15 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (m *master) spawn() (*workerProc, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w := &workerProc{errs: &tailBuf{}}
	w.cmd = exec.Command(
		self, "-worker", "-prop", m.p.id, "-tier", m.tier, "-known",
		m.knownFile, "-only", m.only,
	)
	in, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.in = bufio.NewWriter(in)
	w.out = bufio.NewScanner(out)
	w.out.Buffer(make([]byte, 1<<20), 1<<28)
	w.cmd.Stderr = w.errs

	if err := w.cmd.Start(); err != nil {
		return w, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	m.procs = append(m.procs, w.cmd.Process)
	if m.killed {
		w.cmd.Process.Kill()
	}
	return w, nil
}

// kill ends all workers: a violation has been found.
func (m *master) kill() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.killed = true
	for _, p := range m.procs {
		p.Kill()
	}
}

func (m *master) isKilled() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.killed
}

func (m *master) take() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.stop || m.nextIndex >= len(m.scs) {
		return -1
	}
	m.nextIndex++
	return m.nextIndex - 1
}

func (m *master) one(w *workerProc, idx int) (*workerResult, error) {
	fmt.Fprintf(w.in, "%d %d %s\n", idx, m.deadline.UnixMilli(),
		m.scs[idx].Name)
	if err := w.in.Flush(); err != nil {
		return nil, err
	}
	if !w.out.Scan() {
		return nil, fmt.Errorf("worker ended")
	}
	r := &workerResult{}
	if err := json.Unmarshal(w.out.Bytes(), r); err != nil {
		return nil, err
	}
	return r, nil
}

func (m *master) loop() {
	var w *workerProc
	defer func() {
		if w != nil {
			w.cmd.Process.Kill()
			w.cmd.Wait()
		}
	}()

	for {
		idx := m.take()
		if idx < 0 {
			return
		}

		for attempt := 0; ; attempt++ {
			if w == nil {
				var err error
				if w, err = m.spawn(); err != nil {
					fmt.Fprintf(os.Stderr, "spawn: %v\n", err)
					os.Exit(3)
				}
			}
			r, err := m.one(w, idx)
			if err == nil {
				m.mu.Lock()
				m.results = append(m.results, r)
				if r.Result.Violation != nil && !m.stop {
					m.stop = true
					time.AfterFunc(5*time.Second, m.kill)
				}
				if m.verbose {
					fmt.Fprintf(os.Stderr, "%-40s execs=%d "+
						"states=%d steps=%d bound=%d "+
						"outcomes=%d complete=%v %s %v "+
						"%.1fs\n", m.scs[idx].Name,
						r.Result.Execs, r.Result.States,
						r.Result.Steps, r.Result.BoundDone,
						len(r.Result.Outcomes),
						r.Result.Complete, r.Result.Why,
						r.Result.Counters, r.WallS)
				}
				m.mu.Unlock()

				break
			}

			w.cmd.Wait()
			if m.isKilled() {
				return
			}
			code := w.cmd.ProcessState.ExitCode()
			tail := string(w.errs.b)
			w = nil

			kind := "crash"
			if code == exitHang {
				kind = "hang"
			}
			m.mu.Lock()
			m.crashes[idx] = append(m.crashes[idx], fmt.Sprintf(
				"%v: exit %v\n%v", kind, code, tail))
			n := len(m.crashes[idx])
			m.mu.Unlock()
			limit := 3
			if kind == "hang" {
				limit = 2
			}
			if n >= limit {
				break
			}
		}
	}
}

func (m *master) run(evidence string) int {
	start := time.Now()
	m.deadline = start.Add(m.budget)
	m.crashes = make(map[int][]string)

	var wg sync.WaitGroup
	for i := 0; i < m.jobs; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m.loop()
		}()
	}
	wg.Wait()

	var (
		states, steps, execs, cases, calls int
		outcomes                           int
		exhaustive                         = len(m.results) == len(m.scs)
		incomplete                         []string
		samples                            []interface{}
		violations                         []string
		counters                           = make(map[string]int)
		knownHits                          = make(map[string]int)
		perScenario                        []interface{}
	)
	sort.Slice(m.results, func(i, j int) bool {
		return m.results[i].Index < m.results[j].Index
	})
	for _, r := range m.results {
		res := r.Result
		states += res.States
		steps += res.Steps
		execs += res.Execs
		outcomes += len(res.Outcomes)
		for k, v := range res.Counters {
			counters[k] += v
		}
		for k, v := range r.Known {
			knownHits[k] += v
		}
		if !res.Complete {
			exhaustive = false
			incomplete = append(incomplete, fmt.Sprintf(
				"%v: %v after bound %v", res.Scenario, res.Why,
				res.BoundDone))
		}
		if len(samples) < 6 && res.Sample != "" {
			samples = append(samples, map[string]interface{}{
				"scenario": res.Scenario, "case": clip(res.Sample),
			})
		}
		if len(perScenario) < 400 {
			perScenario = append(perScenario, []interface{}{
				res.Scenario, res.Execs, res.BoundDone,
				len(res.Outcomes),
			})
		}
		if res.Violation != nil {
			violations = append(violations, m.writeReplay(res))
		}
	}
	cases = counters["cases"]
	calls = counters["calls"]

	for idx, c := range m.crashes {
		// Believed only if every attempt ended that way.
		last := c[len(c)-1]
		done := false
		for _, r := range m.results {
			done = done || r.Index == idx
		}
		hang := strings.HasPrefix(last, "hang")
		goCrash := strings.Contains(last, "exit 2\n")
		if !done && ((hang && len(c) >= 2) || (goCrash && len(c) >= 3)) {
			violations = append(violations, m.writeReplay(&rt.Result{
				Scenario: m.scs[idx].Name,
				Violation: &rt.Violation{
					Scenario: m.scs[idx].Name, Message: last,
				},
			}))
			continue
		}
		incomplete = append(incomplete, m.scs[idx].Name+": "+clip(last))
		exhaustive = false
	}

	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	cov := map[string]interface{}{
		"states":                        states + counters["states"],
		"transitions":                   steps + calls,
		"traces_validated_against_impl": execs + cases,
		"executions":                    execs,
		"evaluations":                   execs + cases,
		"distinct_nontrivial":           outcomes + counters["distinct"],
		"rule":                          m.p.rule,
		"bounds":                        m.p.bounds,
		"scenarios":                     len(m.scs),
		"samples":                       samples,
		"exhaustive":                    exhaustive && len(violations) == 0,
		"incomplete":                    incomplete,
		"counters":                      counters,
		"scenario_execs_bound_outcomes": perScenario,
		"explanation": "The transitions are those of the real code, " +
			"rewritten mechanically so that one controlled " +
			"scheduler owns every source of nondeterminism; so " +
			"every trace is a trace of the implementation.",
	}
	ev := map[string]interface{}{
		"property":    m.p.id,
		"tier":        m.tier,
		"seed":        seed(),
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": m.p.assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(violations),
	}
	if evidence != "" {
		b, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			err = os.WriteFile(evidence, append(b, '\n'), 0644)
		}
		if err != nil {
			fmt.Fprintf(os.Stderr, "evidence: %v\n", err)
			return 3
		}
	}

	for what, n := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%v %v (%d executions)\n",
			m.p.id, what, n)
	}
	fmt.Printf("%v: scenarios=%d/%d executions=%d cases=%d states=%d "+
		"transitions=%d outcomes=%d exhaustive=%v wall=%.1fs\n",
		m.p.id, len(m.results), len(m.scs), execs, cases,
		states+counters["states"], steps+calls,
		outcomes+counters["distinct"], exhaustive,
		time.Since(start).Seconds())
	for _, i := range incomplete {
		fmt.Printf("INCOMPLETE: %v\n", i)
	}

	if len(violations) > 0 {
		for _, v := range violations {
			fmt.Printf("VIOLATION property=%v replay=%v\n", m.p.id, v)
		}
		return 1
	}

	return 0
}

func seed() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

type replayFile struct {
	Property string
	Tier     string
	Scenario string
	Message  string
	Cost     int
	Choices  []int
	Trace    []string
}

func (m *master) writeReplay(res *rt.Result) string {
	v := res.Violation
	msg := v.Message
	fmt.Printf("FAILED %v: %v\n", res.Scenario, clip(msg))

	os.MkdirAll(m.replays, 0755)
	h := sha256.Sum256([]byte(res.Scenario + msg))
	path := filepath.Join(m.replays, fmt.Sprintf("%v-%x.json", m.p.id, h[:5]))
	b, _ := json.MarshalIndent(&replayFile{
		Property: m.p.id, Tier: m.tier, Scenario: res.Scenario,
		Message: msg, Cost: v.Cost, Choices: v.Choices, Trace: v.Trace,
	}, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		fmt.Fprintf(os.Stderr, "replay: %v\n", err)
	}

	return path
}

// doReplay re-executes a recorded schedule and prints what happens.
func doReplay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	p := props[rf.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", rf.Property)
		os.Exit(3)
	}
	for _, sc := range p.scenarios(rf.Tier == "thorough") {
		if sc.Name != rf.Scenario {
			continue
		}
		r := rt.Execute(sc, rf.Choices, nil, true)
		for _, l := range r.Trace {
			fmt.Println(" ", l)
		}
		fmt.Println("end:", r.Reason)
		if len(r.Fails) > 0 {
			fmt.Println("FAILED:", r.Fails[0])
			os.Exit(1)
		}
		fmt.Println("held")
		return
	}
	fmt.Fprintln(os.Stderr, "unknown scenario", rf.Scenario)
	os.Exit(3)
}
