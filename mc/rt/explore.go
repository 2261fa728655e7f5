package verifrt

import (
	"fmt"
	"strings"
	"time"
)

// Scenario is one closed driver over the real code.
type Scenario struct {
	Name string
	Opt  Options
	Body func(x *Exec)
}

// Run is the result of one execution.
type Run struct {
	Choices  []int
	ns       []int
	costs    [][]int
	labels   []string
	Reason   string
	Fails    []string
	Outcome  string
	Steps    int
	Points   uint64
	Trace    []string
	Diverged string
	Counters map[string]int
	Example  string
}

// Reset puts process wide state back before each execution.
var Reset func(*Scenario)

// Execute performs one execution of the scenario following prefix and then
// taking the default choice everywhere.
func Execute(sc *Scenario, prefix []int, prefixN []int, trace bool) *Run {
	r := &Run{}

	var s *Sched
	choose := func(costs []int, label string) int {
		i := len(r.Choices)
		pick := 0
		if i < len(prefix) {
			pick = prefix[i]
			if pick >= len(costs) || (i < len(prefixN) &&
				prefixN[i] != len(costs)) {

				r.Diverged = fmt.Sprintf("choice %d (%v): "+
					"%d of %d", i, label, pick, len(costs))
				return -1
			}
		}
		r.Choices = append(r.Choices, pick)
		r.ns = append(r.ns, len(costs))
		r.costs = append(r.costs, costs)
		r.labels = append(r.labels, label)

		return pick
	}

	s = newSched(sc.Opt, choose)
	s.traceOn = trace
	x := &Exec{s: s, Scenario: sc.Name}

	if Reset != nil {
		Reset(sc)
	}
	emptyPools()
	S = s
	main := s.spawn("main", func() { sc.Body(x) })
	s.cur = main
	main.wake <- struct{}{}

	<-s.endCh

	// The execution is over: evaluate the end checks in the context of the
	// explorer, then unwind whatever is still parked, one thread at a
	// time.
	if s.reason == EndQuiescent {
		allowed := x.Allowed
		var stuck []string
		for _, t := range s.threads {
			if t.done || (allowed != nil && allowed(t)) {
				continue
			}
			stuck = append(stuck, fmt.Sprintf("%v#%d blocked at "+
				"<%v>", t.Name, t.ID, t.BlockedAt()))
		}
		if len(stuck) > 0 {
			s.fails = append(s.fails, "deadlock: "+
				strings.Join(stuck, "; "))
		} else {
			s.ended = false
			for _, f := range x.checks {
				func() {
					defer func() {
						p := recover()
						if p == nil {
							return
						}
						if m, ok := p.(checkFail); ok {
							s.fails = append(s.fails,
								string(m))
							return
						}
						s.fails = append(s.fails,
							fmt.Sprint("panic in "+
								"end check: ", p))
					}()
					f()
				}()
			}
			s.ended = true
		}
	}

	s.aborting = true
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if t.done {
			continue
		}
		s.cur = t
		t.wake <- struct{}{}
		<-t.exited
	}
	for _, t := range s.threads {
		<-t.exited
	}
	S = nil

	if s.reason == EndHorizon && !sc.Opt.HorizonOK {
		s.fails = append(s.fails, fmt.Sprintf("livelock: still running "+
			"after %d scheduling steps", s.opt.Horizon))
	}

	r.Reason = s.reason
	r.Fails = s.fails
	r.Steps = s.steps
	r.Points = s.points
	r.Trace = s.trace
	r.Outcome = strings.Join(x.outcome, "|")
	r.Counters = x.ctr
	r.Example = x.example

	return r
}

type checkFail string

// CheckFailf reports a violation from an end check.
func CheckFailf(format string, args ...interface{}) {
	panic(checkFail(fmt.Sprintf(format, args...)))
}

// Result sums up the exploration of one scenario.
type Result struct {
	Scenario   string
	Execs      int
	States     int
	Steps      int
	Outcomes   map[string]int
	BoundDone  int
	Complete   bool
	Why        string
	Horizons   int
	Diverged   int
	Violation  *Violation
	Sample     string
	MaxChoices int
	Counters   map[string]int
}

// Violation is one failing schedule.
type Violation struct {
	Scenario string
	Choices  []int
	Message  string
	Trace    []string
	Cost     int
	Repro    int
}

type item struct {
	base []int
	ns   []int
	idx  int
	alt  int
}

// Explore enumerates every execution of the scenario with at most Bound
// deviations, fewest deviations first.
func Explore(sc *Scenario, deadline time.Time, ignore func(string) bool) *Result {
	res := &Result{
		Scenario:  sc.Name,
		Outcomes:  make(map[string]int),
		BoundDone: -1,
		Counters:  make(map[string]int),
	}

	buckets := make([][]item, sc.Opt.Bound+1)
	buckets[0] = append(buckets[0], item{idx: -1})

	for b := 0; b <= sc.Opt.Bound; b++ {
		for len(buckets[b]) > 0 {
			if time.Now().After(deadline) {
				res.Why = "time"
				return res
			}
			if sc.Opt.MaxExecs > 0 && res.Execs >= sc.Opt.MaxExecs {
				res.Why = "execs"
				return res
			}

			q := buckets[b]
			it := q[len(q)-1]
			buckets[b] = q[:len(q)-1]

			var prefix, ns []int
			if it.idx >= 0 {
				prefix = make([]int, it.idx+1)
				copy(prefix, it.base[:it.idx])
				prefix[it.idx] = it.alt
				ns = it.ns[:it.idx+1]
			}

			r := Execute(sc, prefix, ns, false)
			res.Execs++
			res.Steps += r.Steps
			for k, v := range r.Counters {
				res.Counters[k] += v
			}
			if n := len(r.Choices) + 1 - len(prefix); n > 0 {
				res.States += n
			}
			if len(r.Choices) > res.MaxChoices {
				res.MaxChoices = len(r.Choices)
			}

			switch {
			case r.Reason == EndDiverged:
				// The environment was not deterministic: this
				// is a defect of the harness, never a verdict.
				res.Diverged++
				if res.Diverged == 1 {
					res.Why = "diverged: " + r.Diverged
				}
				continue

			case r.Reason == EndHorizon:
				res.Horizons++
			}

			if len(r.Fails) > 0 && !ignore(r.Fails[0]) {
				v := confirm(sc, r, b)
				if v.Repro == 5 {
					res.Violation = v
					return res
				}
				// Not reproducible: not believed.
				res.Diverged++
				res.Why = "irreproducible: " + r.Fails[0]
				continue
			}

			if r.Outcome != "" || len(res.Outcomes) == 0 {
				if len(res.Outcomes) < 5000 {
					res.Outcomes[r.Outcome]++
				}
			}
			sample := r.Outcome
			if sample == "" {
				sample = r.Example
			}
			if len(sample) > len(res.Sample) {
				res.Sample = sample
			}

			// Push the alternatives, last point first, so that the
			// stack pops the earliest deviation last.
			for i := len(prefix); i < len(r.Choices); i++ {
				for alt := r.ns[i] - 1; alt >= 1; alt-- {
					c := b + r.costs[i][alt]
					if c > sc.Opt.Bound {
						continue
					}
					buckets[c] = append(buckets[c], item{
						base: r.Choices, ns: r.ns,
						idx: i, alt: alt,
					})
				}
			}
			r.costs = nil
		}
		res.BoundDone = b
	}

	res.Complete = res.Diverged == 0 && res.Horizons == 0

	return res
}

func confirm(sc *Scenario, r *Run, cost int) *Violation {
	v := &Violation{
		Scenario: sc.Name,
		Choices:  r.Choices,
		Message:  r.Fails[0],
		Cost:     cost,
	}
	for i := 0; i < 5; i++ {
		again := Execute(sc, r.Choices, r.ns, true)
		if len(again.Fails) > 0 &&
			kind(again.Fails[0]) == kind(r.Fails[0]) {

			v.Repro++
			v.Trace = again.Trace
		}
	}

	return v
}

// kind is the stable part of a failure message (what precedes the colon).
func kind(s string) string {
	if i := strings.IndexByte(s, ':'); i >= 0 {
		return s[:i]
	}
	return s
}
