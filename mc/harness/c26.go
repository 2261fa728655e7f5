//go:build daemon

package main

import (
	"context"
	"fmt"
	"time"

	"github.com/carlakc/boltnd"
	rt "github.com/carlakc/boltnd/verifrt"
)

func init() {
	register(&prop{
		id:   "C26",
		rule: "one schedule of one program of starts, stops and failures; non-trivial: distinct programs",
		bounds: "0-2 starts x 0-2 stops x connection {made, made at the second attempt, made after 5 s, refused} x lnd {answers, fails, hangs, answers after 5 s} x message stream {works, refused, ends with an error, ends} x shutdown closure {none, given, given and stops the daemon}, every interleaving with at most 2 (thorough: 3) deviations; " +
			"every sequence of 4 (5) of start, stop, failing stream and RPC" +
			"; streams and startups that fail with each of 50 errors; everything taking from a millisecond to a year; stopped, and lnd lost, during each of 8 activities, at most 2 (3) deviations and 1 (2) preemptions at any statement; once the connection is closed, calls to lnd and the stream fail",
		assumptions: []string{"the shutdown closure does not itself wait for Stop to return"},
		scenarios:   c26Scenarios,
	})
}

type daemonProg struct {
	starts, stops int
	conn          string
	info          string
	stream        string
	closure       string
}

func (p *daemonProg) String() string {
	return fmt.Sprintf("starts %v, stops %v, connection %v, lnd %v, stream %v,"+
		" closure %v", p.starts, p.stops, p.conn, p.info, p.stream,
		p.closure)
}

// setup makes the daemon of the program.
func (p *daemonProg) setup(x *rt.Exec) *daemon {
	d := newDaemon(x)
	p.setupOn(d)
	return d
}

func (p *daemonProg) setupOn(d *daemon) {
	d.node.infoMode(p.info)
	d.onConnect = func(n int) error {
		switch {
		case p.conn == "refused", p.conn == "second" && n == 0:
			return attemptError(n)
		case p.conn == "slow":
			rt.Sleep(5 * time.Second)
		}
		return nil
	}
	if p.stream == "refused" {
		d.node.lnd.subErr = d.node.lnd.streamErr
	}
	opts := []boltnd.ConfigOption{func(c *boltnd.Config) error {
		c.LNDRetires = 1
		c.LNDWait = 10 * time.Second
		return nil
	}}
	if p.closure != "none" {
		opts = append(opts, boltnd.OptionRequestShutdown(d.request))
	}
	d.create(opts...)
}

// breakStream ends the message stream the way the program says.
func (d *daemon) breakStream(how string) {
	l := d.node.lnd
	if how == "ends" {
		rt.Close(l.msgs)
		return
	}
	rt.Select(false, rt.CaseSend(l.errs)(l.streamErr),
		rt.CaseRecv(l.subCtx.Done()))
}

// released checks that nothing is left after start and stop have returned.
func (d *daemon) released(what fmt.Stringer) {
	x := d.x
	for i, n := range d.closed {
		if n != 1 {
			x.Failf("connection not closed once: %v: connection %v "+
				"closed %v times", what, i, n)
		}
	}
	if d.open > 1 {
		x.Failf("more than one connection: %v: %v", what, d.open)
	}
	l := d.node.lnd
	if l.subCtx != nil && l.subCtx.Err() == nil {
		x.Failf("stream not released: %v", what)
	}
	if l.subs > 1 {
		x.Failf("subscribed again: %v: %v", what, l.subs)
	}
}

func (p *daemonProg) run(x *rt.Exec) {
	count(x)
	x.Count("distinct")
	d := p.setup(x)
	works := p.conn != "refused" && (p.info == "ok" || p.info == "slow")
	var started, startErrs, stopped, stopErrs int
	var broken bool
	var ts []*rt.Thread
	extra := 0
	stop := func() {
		if err := d.b.Stop(); err != nil {
			stopErrs++
		} else {
			stopped++
		}
	}
	if p.closure == "stops" {
		d.onRequest = func() {
			extra++
			x.Go("shutdown", stop)
		}
	}
	d.node.lnd.beforeCalls = func(what string) {
		if stopped > 0 && started+startErrs == p.starts {
			x.Failf("activity after start and stop: %v: %v", p, what)
		}
	}
	for i := 0; i < p.starts; i++ {
		ts = append(ts, x.Go("starter", func() {
			if err := d.b.Start(); err != nil {
				startErrs++
			} else {
				started++
				if !works {
					x.Failf("started without lnd: %v", p)
				}
			}
		}))
	}
	for i := 0; i < p.stops; i++ {
		ts = append(ts, x.Go("stopper", stop))
	}
	var br *rt.Thread
	if p.starts > 0 && works && (p.stream == "error" || p.stream == "ends") {
		over := false
		br = x.Go("stream", func() {
			x.Wait("stream", func() bool {
				return d.node.lnd.subs > 0 || over
			})
			if d.node.lnd.subs == 0 {
				return
			}
			if d.node.lnd.subCtx.Err() == nil {
				broken = true
				d.breakStream(p.stream)
			}
		})
		defer func() {
			over = true
			x.Join(br)
		}()
	}
	x.Join(ts...)
	// A messenger subscribes on its own, and fails on its own.
	x.QuiesceTimers()
	total := p.stops + extra
	switch {
	case started > 1, started+startErrs != p.starts:
		x.Failf("wrong number of successful starts: %v: %v", p, started)
	case started == 0 && works && p.starts > 0 && total == 0:
		x.Failf("start failed: %v", p)
	case total > 0 && stopped != 1, stopped+stopErrs != total:
		x.Failf("wrong number of successful stops: %v: %v of %v", p,
			stopped, total)
	}
	fails := broken || p.stream == "refused"
	switch {
	case d.requested > 1:
		x.Failf("shutdown requested more than once: %v: %v", p,
			d.requested)
	case d.requested == 1 && (!fails || p.closure == "none"):
		x.Failf("shutdown requested without failure: %v", p)
	case d.requested == 0 && fails && started == 1 && p.stops == 0 &&
		p.closure != "none":

		x.Failf("shutdown not requested: %v", p)
	}
	before := d.requested
	if total == 0 {
		if err := d.b.Stop(); err != nil {
			x.Failf("stop failed: %v: %v", p, err)
		}
		stopped++
	}
	if p.starts == 0 {
		d.node.lnd.beforeCalls = nil
	}
	if d.b.Stop() == nil {
		x.Failf("stopped twice: %v", p)
	}
	if d.b.Start() == nil {
		x.Failf("started again: %v", p)
	}
	x.QuiesceTimers()
	if d.requested != before {
		x.Failf("shutdown requested by stop: %v", p)
	}
	d.released(p)
	x.Outcome("%v %v %v %v", started, stopped, d.requested, d.open)
}

// c26History performs calls one after the other.
func c26History(x *rt.Exec, first, depth int) {
	count(x)
	calls := []string{"start", "stop", "error", "ends", "rpc"}
	p := &daemonProg{conn: "made", info: "ok", closure: "given"}
	if x.Choose(2, "info") == 1 {
		p.info = "fails"
	}
	if x.Choose(2, "closure") == 1 {
		p.closure = "none"
	}
	d := p.setup(x)
	var log history
	log = append(log, p.info, p.closure)
	var tried, stopped, up, broken bool
	for i := 0; i < depth; i++ {
		k := first
		if i > 0 {
			k = x.Choose(len(calls), "call")
		}
		c := calls[k]
		log = append(log, c)
		requested := d.requested
		expect := 0
		switch c {
		case "start":
			err := d.b.Start()
			ok := !tried && !stopped && p.info == "ok"
			if (err == nil) != ok {
				x.Failf("wrong result of start: %v: %v", log, err)
			}
			tried = true
			up = up || ok
		case "stop":
			err := d.b.Stop()
			if (err == nil) == stopped {
				x.Failf("wrong result of stop: %v: %v", log, err)
			}
			stopped = true
		case "rpc":
			ctx, cancel := context.WithCancel(context.Background())
			t := x.Go("rpc", func() { d.node.rpc(ctx, "decode") })
			x.Quiesce()
			cancel()
			x.Join(t)
		default:
			x.Quiesce()
			if !up || stopped || broken {
				// Nothing to break.
				continue
			}
			broken = true
			d.breakStream(c)
			expect = 1
			if p.closure == "none" {
				expect = 0
			}
		}
		x.Quiesce()
		if d.requested != requested+expect {
			x.Failf("wrong shutdown requests: %v: %v", log,
				d.requested-requested)
		}
		n := 0
		for _, c := range d.closed {
			n += c
		}
		if want := d.open; (stopped && n != want) || (!stopped && n != 0) {
			x.Failf("connection closed wrongly: %v: %v of %v", log, n,
				want)
		}
	}
	x.Count("distinct")
	if !stopped {
		if err := d.b.Stop(); err != nil {
			x.Failf("stop failed: %v: %v", log, err)
		}
	}
	d.released(log)
	x.Outcome("%v", log)
}

// c26Errors lets lnd fail with an error.
func c26Errors(x *rt.Exec, e error) {
	for _, p := range []*daemonProg{
		{conn: "made", info: "ok", closure: "given", stream: "error"},
		{conn: "made", info: "ok", closure: "given", stream: "refused"},
		{conn: "made", info: "ok", closure: "none", stream: "error"},
		{conn: "made", info: "fails", closure: "given"},
	} {
		count(x)
		x.Count("distinct")
		d := newDaemon(x)
		d.node.infoErr = e
		d.node.lnd.streamErr = e
		p.setupOn(d)
		what := history{p.String(), fmt.Sprintf("error %T(%v)", e, e)}
		err := d.b.Start()
		if (err == nil) != (p.info == "ok") {
			x.Failf("wrong result of start: %v: %v", what, err)
		}
		x.Quiesce()
		if p.stream == "error" {
			d.breakStream("error")
			x.Quiesce()
		}
		want := 0
		if p.stream != "" && p.closure == "given" {
			want = 1
		}
		if d.requested != want {
			x.Failf("wrong shutdown requests: %v: %v", what,
				d.requested)
		}
		if err := d.b.Stop(); err != nil {
			x.Failf("stop failed: %v: %v", what, err)
		}
		x.QuiesceTimers()
		if d.requested != want {
			x.Failf("shutdown requested by stop: %v", what)
		}
		d.released(what)
	}
}

type history []string

func (h history) String() string { return fmt.Sprint([]string(h)) }

func c26Scenarios(thorough bool) []*rt.Scenario {
	opt := rt.Options{Bound: 2, SwitchCost: 1, SelectCost: 1,
		NoTimerPreempt: true}
	depth := 4
	if thorough {
		opt.Bound = 3
		depth = 5
	}
	var out []*rt.Scenario
	// It makes no difference what a stream or startup fails with.
	eachError(func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f,
			Opt: rt.Options{Horizon: 1 << 40}})
	}, "errors", 1, zooNotFound, c26Errors)
	for starts := 0; starts <= 2; starts++ {
		for stops := 0; stops <= 2; stops++ {
			for _, conn := range []string{"made", "second", "slow", "refused"} {
				for _, info := range []string{"ok", "fails", "hangs", "slow"} {
					for _, stream := range []string{"works", "refused", "error", "ends"} {
						for _, closure := range []string{"none", "given", "stops"} {
							p := &daemonProg{starts, stops, conn,
								info, stream, closure}
							if starts == 0 && (conn != "made" ||
								info != "ok" || stream != "works") {

								continue
							}
							if conn == "refused" && (info != "ok" ||
								stream != "works") {

								continue
							}
							if stream == "works" && closure == "stops" {
								continue
							}
							if (info == "fails" || info == "hangs") &&
								stream != "works" {

								continue
							}
							out = append(out, &rt.Scenario{
								Name: "concurrent/" + p.String(),
								Opt:  opt, Body: p.run,
							})
						}
					}
				}
			}
		}
	}
	split(func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f})
	}, "history", 5, func(x *rt.Exec, part int) {
		c26History(x, part, depth)
	})
	out = append(out, c26Idle()...)
	return append(out, c26Busy(thorough)...)
}
