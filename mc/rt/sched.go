// Package verifrt is the controlled runtime that the rewritten boltnd code
// runs on. It is laid over the repository at build time (go build -overlay)
// and is never part of it.
//
// When no scheduler is active (S == nil) every hook is a plain pass-through to
// the operation it replaces. When one is active exactly one managed goroutine
// runs at a time, every synchronisation operation is a scheduling point, and
// every source of nondeterminism (who runs next, which ready select case is
// taken, when a timer fires, in which order a map is walked, what the
// environment answers) is a numbered choice that the explorer enumerates.
package verifrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// S is the active scheduler, nil when code runs unmanaged.
var S *Sched

// Progress is bumped on every scheduling step: the watchdog reads it.
var Progress uint64

// End reasons of an execution.
const (
	EndQuiescent = "quiescent"
	EndHorizon   = "horizon"
	EndFailed    = "failed"
	EndDiverged  = "diverged"
)

// Options tune one scenario.
type Options struct {
	// Bound is the maximum number of deviations (preemptions, early
	// timers, non-default environment answers).
	Bound int

	// SwitchCost is the cost of picking a non-default thread when the
	// running one is blocked: 0 (preemption bounding) or 1 (delay
	// bounding).
	SwitchCost int

	// SelectCost is the cost of picking a ready select case other than the
	// first.
	SelectCost int

	// StmtPoints turns on the statement level scheduling points.
	StmtPoints bool

	// MapOrders makes map iteration order a choice.
	MapOrders bool

	// Horizon is the maximum number of scheduling steps per execution.
	Horizon int

	// MaxExecs caps the executions of the scenario.
	MaxExecs int

	// HorizonOK says that running into the horizon is no failure.
	HorizonOK bool

	// NoTimerPreempt stops timers from firing while threads are enabled.
	NoTimerPreempt bool
}

type op struct {
	what    string
	ready   func() bool
	quiesce bool
	sel     *selState
}

// Thread is a managed goroutine.
type Thread struct {
	ID     int
	Name   string
	wake   chan struct{}
	exited chan struct{}
	op     *op
	done   bool
	daemon bool
}

type vtimer struct {
	deadline time.Duration
	seq      int
	fire     func()
	dead     bool
}

// Sched is the cooperative scheduler of one execution.
type Sched struct {
	opt      Options
	threads  []*Thread
	cur      *Thread
	now      time.Duration
	timers   []*vtimer
	seq      int
	aborting bool
	steps    int
	ended    bool
	reason   string
	endCh    chan struct{}
	closed   map[uintptr]bool
	keep     []interface{}
	choose   func(costs []int, label string) int
	fails    []string
	trace    []string
	traceOn  bool
	points   uint64
}

func (s *Sched) tracef(format string, args ...interface{}) {
	if s.traceOn {
		s.trace = append(s.trace, fmt.Sprintf(format, args...))
	}
}

func newSched(opt Options,
	choose func(costs []int, label string) int) *Sched {

	if opt.Horizon == 0 {
		opt.Horizon = 20000
	}

	return &Sched{
		opt:    opt,
		endCh:  make(chan struct{}, 1),
		closed: make(map[uintptr]bool),
		choose: choose,
	}
}

// spawn creates a managed thread; it becomes runnable but does not run yet.
func (s *Sched) spawn(name string, f func()) *Thread {
	t := &Thread{
		ID:     len(s.threads),
		Name:   name,
		wake:   make(chan struct{}, 1),
		exited: make(chan struct{}),
		op:     &op{what: "start"},
	}
	s.threads = append(s.threads, t)

	go func() {
		defer close(t.exited)
		<-t.wake

		normal := false
		defer func() {
			r := recover()
			t.done = true
			t.op = nil

			if s.aborting {
				return
			}

			if r != nil {
				s.fails = append(s.fails, fmt.Sprintf(
					"panic in %v: %v\n%s", t.Name, r,
					trimStack(debug.Stack()),
				))
				s.end(EndFailed)

				return
			}
			_ = normal

			s.schedule(nil)
		}()

		if s.aborting {
			return
		}

		t.op = nil
		f()
		normal = true
	}()

	return t
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "runtime/") ||
			strings.Contains(l, "verifrt/sched.go") {

			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}

	return strings.Join(out, "\n")
}

func (s *Sched) end(reason string) {
	if s.ended {
		return
	}
	s.ended = true
	s.reason = reason
	s.endCh <- struct{}{}
}

// park gives up control forever: the execution has ended.
func (s *Sched) park(self *Thread) {
	if self == nil {
		return
	}
	<-self.wake
	runtime.Goexit()
}

func (s *Sched) nextTimer() *vtimer {
	live := s.timers[:0]
	for _, t := range s.timers {
		if !t.dead {
			live = append(live, t)
		}
	}
	s.timers = live

	if len(live) == 0 {
		return nil
	}

	sort.SliceStable(live, func(i, j int) bool {
		if live[i].deadline != live[j].deadline {
			return live[i].deadline < live[j].deadline
		}
		return live[i].seq < live[j].seq
	})

	return live[0]
}

func (s *Sched) addTimer(d time.Duration, fire func()) *vtimer {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &vtimer{deadline: s.now + d, seq: s.seq, fire: fire}
	if t.deadline < s.now {
		// Overflow: a timer that never fires within this universe.
		t.deadline = 1<<63 - 1
	}
	s.timers = append(s.timers, t)

	return t
}

func (s *Sched) fire(t *vtimer) {
	t.dead = true
	if t.deadline > s.now {
		s.now = t.deadline
	}
	s.tracef("timer fires at %v", s.now)
	t.fire()
}

func isReady(t *Thread) bool {
	return !t.done && t.op != nil && !t.op.quiesce &&
		(t.op.ready == nil || t.op.ready())
}

// schedule picks who runs next. self is the thread that is giving up control
// (its op is set), or nil if the current thread has finished.
func (s *Sched) schedule(self *Thread) {
	for {
		if s.ended {
			s.park(self)
			return
		}

		s.steps++
		atomic.AddUint64(&Progress, 1)
		if s.steps > s.opt.Horizon {
			s.end(EndHorizon)
			s.park(self)

			return
		}

		var enabled []*Thread
		selfEnabled := false
		if self != nil && isReady(self) {
			enabled = append(enabled, self)
			selfEnabled = true
		}
		for _, t := range s.threads {
			if t != self && isReady(t) {
				enabled = append(enabled, t)
			}
		}

		timer := s.nextTimer()

		if len(enabled) == 0 {
			var q *Thread
			for _, t := range s.threads {
				if !t.done && t.op != nil && t.op.quiesce &&
					(t.op.ready == nil || t.op.ready()) {

					q = t
					break
				}
			}

			switch {
			case q != nil:
				enabled = []*Thread{q}
				timer = nil

			case timer != nil:
				s.fire(timer)
				continue

			default:
				s.end(EndQuiescent)
				s.park(self)

				return
			}
		}

		if s.opt.NoTimerPreempt {
			timer = nil
		}

		n := len(enabled)
		if timer != nil {
			n++
		}

		pick := 0
		if n > 1 {
			costs := make([]int, n)
			for i := 1; i < n; i++ {
				switch {
				case i >= len(enabled):
					costs[i] = 1
				case selfEnabled:
					costs[i] = 1
				default:
					costs[i] = s.opt.SwitchCost
				}
			}
			pick = s.choose(costs, "sched")
			if pick < 0 {
				s.end(EndDiverged)
				s.park(self)

				return
			}
		}

		if pick >= len(enabled) {
			s.fire(timer)
			continue
		}

		next := enabled[pick]
		s.tracef("%v#%d: %v", next.Name, next.ID, next.op.what)

		s.cur = next
		if next == self {
			self.op = nil
			return
		}

		next.wake <- struct{}{}
		if self == nil {
			return
		}

		<-self.wake
		if s.aborting {
			runtime.Goexit()
		}
		self.op = nil

		return
	}
}

// block parks the current thread until ready() holds and it is scheduled.
func (s *Sched) block(what string, ready func() bool) {
	self := s.cur
	self.op = &op{what: what, ready: ready}
	s.points++
	s.schedule(self)
}

// active returns the scheduler if the caller is managed, and nil if the hook
// should pass through.
func active() *Sched {
	return S
}

// P is a statement level scheduling point.
func P() {
	s := S
	if s == nil || !s.opt.StmtPoints || s.aborting {
		return
	}
	s.block("stmt", nil)
}

// Point is an explicit scheduling point before a non-blocking operation.
func Point(what string) {
	s := S
	if s == nil || s.aborting {
		return
	}
	s.block(what, nil)
}

// Go runs f in a new managed goroutine.
func Go(f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.aborting {
		return
	}
	s.spawn("go", f)
	s.block("spawned", nil)
}

// Exec is the handle that a scenario body uses.
type Exec struct {
	s        *Sched
	outcome  []string
	checks   []func()
	Allowed  func(t *Thread) bool
	Scenario string
	ctr      map[string]int
	example  string
}

// Count bumps a named counter that ends up in the evidence.
func (x *Exec) Count(name string) { x.CountN(name, 1) }

// CountN adds to a named counter.
func (x *Exec) CountN(name string, n int) {
	if x.ctr == nil {
		x.ctr = make(map[string]int)
	}
	x.ctr[name] += n
}

// Distinct counts a distinct, non-trivial case and keeps the first one,
// written out, as a sample for the evidence.
func (x *Exec) Distinct(format string, args ...interface{}) {
	x.CountN("distinct", 1)
	if x.example == "" {
		x.example = fmt.Sprintf(format, args...)
	}
}

// Go starts a named harness thread.
func (x *Exec) Go(name string, f func()) *Thread {
	t := x.s.spawn(name, f)
	x.s.block("spawned "+name, nil)

	return t
}

// Done reports whether a thread has finished.
func (t *Thread) Done() bool { return t.done }

// BlockedAt names the operation a thread is parked at.
func (t *Thread) BlockedAt() string {
	if t.op == nil {
		return ""
	}
	return t.op.what
}

// Join blocks until the thread has finished.
func (x *Exec) Join(ts ...*Thread) {
	for _, t := range ts {
		t := t
		x.s.block("join "+t.Name, func() bool { return t.done })
	}
}

// Wait blocks until cond holds.
func (x *Exec) Wait(what string, cond func() bool) {
	x.s.block(what, cond)
}

// Yield is a scheduling point in a harness thread.
func (x *Exec) Yield(what string) {
	if x.s.aborting {
		runtime.Goexit()
	}
	x.s.block(what, nil)
}

// Quiesce blocks until no other thread can make progress (timers excluded).
func (x *Exec) Quiesce() {
	s := x.s
	self := s.cur
	self.op = &op{what: "quiesce", quiesce: true}
	s.schedule(self)
}

// QuiesceTimers is Quiesce, but lets all pending timers fire first.
func (x *Exec) QuiesceTimers() {
	s := x.s
	self := s.cur
	self.op = &op{what: "quiesce", quiesce: true, ready: func() bool {
		return s.nextTimer() == nil
	}}
	s.schedule(self)
}

// Blocked returns the threads that have not finished.
func (x *Exec) Blocked() []*Thread {
	var out []*Thread
	for _, t := range x.s.threads {
		if !t.done && t != x.s.cur {
			out = append(out, t)
		}
	}
	return out
}

// Tick tells the watchdog that a long enumeration is making progress.
func (x *Exec) Tick() { atomic.AddUint64(&Progress, 1) }

// Choose enumerates n alternatives at no cost.
func (x *Exec) Choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	return x.s.pick(make([]int, n), label)
}

// ChooseDev enumerates n alternatives, all but the first cost one deviation.
func (x *Exec) ChooseDev(n int, label string) int {
	if n <= 1 {
		return 0
	}
	costs := make([]int, n)
	for i := 1; i < n; i++ {
		costs[i] = 1
	}
	return x.s.pick(costs, label)
}

func (s *Sched) pick(costs []int, label string) int {
	if s.aborting {
		runtime.Goexit()
	}
	c := s.choose(costs, label)
	if c < 0 {
		s.end(EndDiverged)
		s.park(s.cur)
	}
	s.tracef("choice %v = %d", label, c)

	return c
}

// Now is the virtual time since the start of the execution.
func (x *Exec) Now() time.Duration { return x.s.now }

// Tracef adds a line to the schedule trace.
func (x *Exec) Tracef(f string, a ...interface{}) { x.s.tracef(f, a...) }

// Failf records a violation and ends the execution.
func (x *Exec) Failf(format string, args ...interface{}) {
	s := x.s
	if s.aborting {
		runtime.Goexit()
	}
	s.fails = append(s.fails, fmt.Sprintf(format, args...))
	s.end(EndFailed)
	s.park(s.cur)
}

// Outcome adds to the observed outcome of this execution.
func (x *Exec) Outcome(format string, args ...interface{}) {
	x.outcome = append(x.outcome, fmt.Sprintf(format, args...))
}

// AtEnd registers a check that runs when the execution is quiescent.
func (x *Exec) AtEnd(f func()) { x.checks = append(x.checks, f) }
