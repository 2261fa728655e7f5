package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/carlakc/boltnd/onionmsg"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/tlv"
)

func init() {
	register(&prop{
		id:   "C17",
		rule: "one schedule of stop calls, a stream failure and the messenger's work, or one history of calls; non-trivial: distinct programs",
		bounds: "histories: every sequence of 5 (thorough: 6) of start, stop, each stream failure (refused, error, error and close, either channel closed), register, message, with the results, shutdown requests and stream compared after every call; 21 errors that the stream is refused or ends with, after 0-2 messages; " +
			"concurrent: {0, 1, 2} stops x {none, each failure} x work in progress {idle, message for a handler, message to forward, registration, everything}, and two concurrent starts, every interleaving with at most 2 (3) deviations" +
			"; streams that fail with each of 50 errors after 0-2 messages",
		assumptions: []string{"lnd's calls and handlers return", "Start and Stop of one messenger are not concurrent with each other (the server serialises them, see C18)"},
		scenarios:   c17Scenarios,
	})
}

// streamFails are the ways in which the message stream fails.
var streamFails = []string{"error", "error+close", "close errors",
	"close messages", "close both"}

var errStream = errors.New("stream failed")

// failStream makes an open stream fail.
func (l *fakeLnd) failStream(how string) {
	switch how {
	case "error":
		l.errs <- l.streamErr
	case "error+close":
		l.errs <- l.streamErr
		rt.Close(l.errs)
		rt.Close(l.msgs)
	case "close errors":
		rt.Close(l.errs)
	case "close messages":
		rt.Close(l.msgs)
	case "close both":
		rt.Close(l.msgs)
		rt.Close(l.errs)
	}
}

// rightShutdown checks the error that shutdown was requested with.
func rightShutdown(x *rt.Exec, err error, how, what string) {
	ok := err != nil
	if how == "error" || how == "refused" {
		ok = errors.Is(err, errStream)
	}
	if !ok {
		x.Failf("wrong shutdown error: %v: %v: %v", what, how, err)
	}
}

func c17History(x *rt.Exec, first, depth int) {
	count(x)
	n := newNode(x, usKey)
	calls := append([]string{"start", "start refused", "stop", "register",
		"message"}, streamFails...)
	var started, stopped, failed bool
	var how string
	shutdowns, seq := 0, 0
	var log []string
	for i := 0; i < depth; i++ {
		k := first
		if i > 0 {
			k = x.Choose(len(calls), "call")
		}
		c := calls[k]
		log = append(log, c)
		up := started && !stopped && !failed
		switch c {
		case "start", "start refused":
			if c != "start" {
				n.lnd.subErr = errStream
			}
			err := n.m.Start()
			if (err == nil) == started {
				x.Failf("wrong result of start: %v: %v", log, err)
			}
			x.Quiesce()
			if !started && !stopped && c != "start" {
				shutdowns, how, failed = 1, "refused", true
			}
			if !started && stopped {
				// Never promised to work: it may see its stop or
				// the refusal.
				failed = true
				shutdowns = len(n.shutdowns)
				how = "close errors"
			}
			started = true
		case "stop":
			err := n.m.Stop()
			if (err == nil) == stopped {
				x.Failf("wrong result of stop: %v: %v", log, err)
			}
			stopped = true
		case "register":
			err := n.m.RegisterHandler(
				tlv.Type(100+i), n.handler("h", nil),
			)
			if (err == nil) != up {
				x.Failf("wrong result of register: %v: %v", log,
					err)
			}
			if up {
				seq = 100 + i
			}
		case "message":
			if !up {
				break
			}
			typ := uint64(seq)
			if seq == 0 {
				typ = 64
			}
			before := len(n.got)
			n.feed(n.lnd.onion(c17Msg(i, typ)))
			if (len(n.got) > before) != (seq > 0) {
				x.Failf("wrong delivery: %v: %v", log,
					deliveries(n.got))
			}
		default:
			if !up {
				break
			}
			n.lnd.failStream(c)
			x.Quiesce()
			shutdowns, how, failed = 1, c, true
		}
		if len(n.shutdowns) != shutdowns {
			x.Failf("wrong number of shutdown requests: %v: %v",
				log, n.shutdowns)
		}
		if shutdowns > 0 {
			rightShutdown(x, n.shutdowns[0], how, fmt.Sprint(log))
		}
		if n.lnd.subs > 1 {
			x.Failf("subscribed twice: %v", log)
		}
		if (stopped || failed) && n.lnd.subCtx != nil &&
			n.lnd.subCtx.Err() == nil {

			x.Failf("stream not released: %v", log)
		}
	}
	x.Outcome("%v", log)
	x.Count("distinct")
	if started && !stopped {
		if err := n.m.Stop(); err != nil {
			x.Failf("stop: %v: %v", log, err)
		}
	}
}

var c17Msgs = map[string][]byte{}

func c17Msg(i int, typ uint64) []byte {
	key := fmt.Sprint(i, "/", typ)
	if c17Msgs[key] == nil {
		c17Msgs[key] = toUs(4500+i, usKey, mkStream(map[uint64][]byte{
			typ: fill(3, byte(i)),
		}))
	}
	return c17Msgs[key]
}

var c17Forward []byte

// lifeProg is one concurrent program.
type lifeProg struct {
	starts, stops int
	fail          string
	work          string
}

func (p *lifeProg) run(x *rt.Exec) {
	count(x)
	n := newNode(x, usKey)
	stopping, over := false, false
	var ends int
	event := func(what string) {
		if over {
			x.Failf("activity after stop returned: %v: %v", p, what)
		}
	}
	n.lnd.beforeCalls = event
	n.onDeliver = func(h string) {
		rt.Point("handler running")
		event("handler " + h)
	}
	if p.fail == "refused" {
		n.lnd.subErr = errStream
	}

	var started int
	start := func() {
		if n.m.Start() == nil {
			started++
		}
	}
	var ts []*rt.Thread
	if p.starts == 1 {
		start()
		if p.fail != "refused" {
			n.lnd.waitSub()
		}
	} else {
		var ss []*rt.Thread
		for i := 0; i < p.starts; i++ {
			ss = append(ss, x.Go("starter", start))
		}
		x.Join(ss...)
	}
	if started != 1 {
		x.Failf("started %v times", started)
	}
	if strings.Contains(p.work, "handler") {
		n.register(64, n.handler("h64", nil))
	}
	var msgs [][]byte
	if strings.Contains(p.work, "handler") {
		msgs = append(msgs, c17Msg(0, 64))
	}
	if strings.Contains(p.work, "forward") {
		if c17Forward == nil {
			c17Forward = fwdOnion(4600, dataShape{
				data: nextNode(61, nil)}, nil, nil, false)
		}
		msgs = append(msgs, c17Forward)
		n.lnd.onSend = func(ctx ctxT, m lndclient.CustomMessage) error {
			rt.Point("sending")
			event("send")
			return nil
		}
	}
	if p.fail != "refused" {
		// The stream fails after some of the messages.
		if p.fail != "" {
			msgs = msgs[:x.Choose(len(msgs)+1, "messages before")]
		}
		ts = append(ts, x.Go("lnd", func() {
			if len(msgs) > 0 || p.fail != "" {
				n.lnd.waitSub()
			}
			for _, m := range msgs {
				if !n.lnd.push(n.lnd.onion(m), nil) {
					return
				}
			}
			if p.fail != "" {
				n.lnd.failStream(p.fail)
			}
		}))
	}
	if strings.Contains(p.work, "register") {
		ts = append(ts, x.Go("caller", func() {
			err := n.m.RegisterHandler(70, n.handler("h70", nil))
			if err != nil && p.fail == "" && !stopping {
				x.Failf("refused while running: %v: %v", p, err)
			}
			err = n.m.DeregisterHandler(70)
			_ = err
		}))
	}
	stop := func() {
		stopping = true
		err := n.m.Stop()
		if err != nil {
			return
		}
		ends++
		over = true
		if n.lnd.subCtx != nil && n.lnd.subCtx.Err() == nil {
			x.Failf("stream not released: %v", p)
		}
	}
	var stops []*rt.Thread
	for i := 0; i < p.stops; i++ {
		stops = append(stops, x.Go("stopper", stop))
	}
	x.Join(append(ts, stops...)...)
	x.Quiesce()

	most, least := 1, 1
	if p.fail == "" {
		most = 0
	}
	if p.fail == "" || p.stops > 0 {
		least = 0
	}
	if len(n.shutdowns) > most || len(n.shutdowns) < least {
		x.Failf("wrong number of shutdown requests: %v: %v", p,
			n.shutdowns)
	}
	for _, err := range n.shutdowns {
		rightShutdown(x, err, p.fail, fmt.Sprint(p))
	}
	if p.stops == 0 {
		stop()
	}
	if ends != 1 {
		x.Failf("wrong number of successful stops: %v: %v", p, ends)
	}
	if len(n.shutdowns) > most {
		x.Failf("shutdown requested by stop: %v: %v", p, n.shutdowns)
	}
	if err := n.m.RegisterHandler(80, n.handler("h80", nil)); !errors.Is(
		err, onionmsg.ErrShuttingDown) {

		x.Failf("registration after stop: %v: %v", p, err)
	}
	x.Outcome("%v: %v shutdowns, %v deliveries, %v sent", p,
		len(n.shutdowns), len(n.got), len(n.lnd.sent))
}

func (p *lifeProg) String() string {
	return fmt.Sprintf("starts %v, stops %v, failure %q, work %q", p.starts,
		p.stops, p.fail, p.work)
}

// c17Errors lets the stream fail with one of many errors.
func c17Errors(x *rt.Exec, e error) {
	if e == nil {
		return
	}
	for _, how := range []string{"refused", "error", "error+close"} {
		for before := 0; before < 3; before++ {
			count(x)
			n := newNode(x, usKey)
			if how == "refused" {
				if before > 0 {
					continue
				}
				n.lnd.subErr = e
			}
			n.lnd.streamErr = e
			n.start()
			x.Quiesce()
			if how != "refused" {
				n.register(64, n.handler("h64", nil))
				for i := 0; i < before; i++ {
					n.feed(n.lnd.onion(c17Msg(i, 64)))
				}
				n.lnd.failStream(how)
				x.Quiesce()
				if len(n.got) != before {
					x.Failf("wrong delivery: %v", n.got)
				}
			}
			if len(n.shutdowns) != 1 {
				x.Failf("wrong number of shutdown requests: "+
					"stream ends with %v (%v): %v", e, how,
					n.shutdowns)
			}
			// An error and the end of the stream may be seen in
			// either order.
			if !errors.Is(n.shutdowns[0], e) && (how != "error+close" ||
				!errors.Is(n.shutdowns[0], onionmsg.ErrLNDShutdown)) {

				x.Failf("wrong shutdown error: stream ends with "+
					"%v (%v): %v", e, how, n.shutdowns[0])
			}
			if err := n.m.RegisterHandler(
				70, n.handler("h70", nil),
			); !errors.Is(err, onionmsg.ErrShuttingDown) {
				x.Failf("registration after failure: %v", err)
			}
			if err := n.m.Stop(); err != nil {
				x.Failf("stop: %v", err)
			}
			if len(n.shutdowns) != 1 {
				x.Failf("wrong number of shutdown requests: "+
					"stream ends with %v (%v): %v", e, how,
					n.shutdowns)
			}
			x.Count("distinct")
		}
	}
}

func c17Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	depth := 5
	opt := rt.Options{Bound: 2, SelectCost: 1, SwitchCost: 1}
	if thorough {
		depth = 6
		opt.Bound = 3
	}
	for _, work := range []string{"", "handler", "forward", "register",
		"handler forward register"} {

		for _, fail := range append([]string{"", "refused"},
			streamFails...) {

			for stops := 0; stops <= 2; stops++ {
				p := &lifeProg{starts: 1, stops: stops,
					fail: fail, work: work}
				if fail == "refused" && work != "register" {
					p.work = ""
					if work != "" {
						continue
					}
				}
				out = append(out, &rt.Scenario{
					Name: "concurrent/" + p.String(),
					Opt:  opt, Body: p.run,
				})
			}
		}
	}
	for starts := 2; starts <= 3; starts++ {
		p := &lifeProg{starts: starts, stops: 1}
		out = append(out, &rt.Scenario{
			Name: "concurrent/" + p.String(), Opt: opt, Body: p.run,
		})
	}
	out = append(out, &rt.Scenario{
		Name: "errors", Opt: rt.Options{Horizon: 1 << 40},
		Body: func(x *rt.Exec) {
			c17Errors(x, zooNotFound[x.Choose(len(zooNotFound), "error")])
		},
	})
	split(func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f})
	}, "history", 10, func(x *rt.Exec, part int) {
		c17History(x, part, depth)
	})
	return append(out, c17Idle()...)
}
