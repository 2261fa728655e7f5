package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightningnetwork/lnd/tlv"
)

func init() {
	register(&prop{
		id:   "C16",
		rule: "one schedule of a set of concurrent calls and messages, or one history of calls; non-trivial: distinct programs",
		bounds: "histories: every sequence of 4 (thorough: 5) of 12 calls (start, stop, stream failure, register and deregister of two types and of types out of range, messages) compared with a sequential model after every call; " +
			"concurrent: every pair of threads with up to 2 calls each of {register, deregister} x {type A, type B}, starting with or without a handler for A, with two messages arriving meanwhile, undisturbed or with the messenger stopped or failing meanwhile, every interleaving with at most 2 (3) preemptions; three threads with one call each; every observed history must be linearizable" +
			"; 1, 2, 100 and 500 types registered and deregistered at least twice each, and types that differ in one bit above the seventh; registrations and messages after pauses of up to a year and while requests to send hang" + togetherBounds,
		assumptions: []string{"a call that fails because the messenger shuts down may or may not have taken effect"},
		scenarios:   c16Scenarios,
	})
}

// regOp is one call or message with what was observed of it.
type regOp struct {
	kind string // reg, dereg, msg
	typ  uint64
	h    string // handler to register, or handler that got the message
	res  string // ok, exists, missing, down, notstarted
	inv  int
	ret  int
}

func (o *regOp) String() string {
	if o.kind == "msg" {
		return fmt.Sprintf("msg(%v) to %q [%d,%d]", o.typ, o.h, o.inv,
			o.ret)
	}
	return fmt.Sprintf("%v(%v,%v)=%v [%d,%d]", o.kind, o.typ, o.h, o.res,
		o.inv, o.ret)
}

const never = 1 << 30

// regWorld drives one messenger and records a history.
type regWorld struct {
	x     *rt.Exec
	n     *node
	clock int
	ops   []*regOp
	msgs  map[string]*regOp
	// down is when a stop or failure began.
	down int
	// dead is when the messenger was known to be gone.
	dead int
}

func newRegWorld(x *rt.Exec) *regWorld {
	w := &regWorld{x: x, msgs: map[string]*regOp{}, down: never,
		dead: never}
	w.n = newNode(x, usKey)
	return w
}

func (w *regWorld) tick() int { w.clock++; return w.clock }

func (w *regWorld) handler(name string) onionmsg.OnionMessageHandler {
	return func(_ *lnwire.ReplyPath, _, p []byte) error {
		w.gone(name)
		rt.Point("handler " + name)
		o := w.msgs[string(p)]
		if o == nil || o.h != "" {
			w.x.Failf("delivered twice: %x to %v", p, name)
		}
		o.h = name
		o.ret = w.tick()
		w.x.Count("deliveries")
		return nil
	}
}

// gone fails if a handler that is called has been deregistered: if there is a
// successful deregistration of its type which began after its registration had
// returned, and which has returned.
func (w *regWorld) gone(name string) {
	for _, r := range w.ops {
		if r.kind != "reg" || r.h != name || r.res != "ok" {
			continue
		}
		for _, d := range w.ops {
			if d.kind == "dereg" && d.typ == r.typ && d.res == "ok" &&
				d.inv > r.ret {

				w.x.Failf("handler called after its "+
					"deregistration returned: %v", name)
			}
		}
	}
	if w.dead != never {
		w.x.Failf("handler called after the end: %v", name)
	}
}

func classify(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, onionmsg.ErrHandlerRegistered):
		return "exists"
	case errors.Is(err, onionmsg.ErrHandlerNotFound):
		return "missing"
	case errors.Is(err, onionmsg.ErrShuttingDown):
		return "down"
	case errors.Is(err, onionmsg.ErrNotStarted):
		return "notstarted"
	}
	return "error: " + err.Error()
}

// call makes one registration call.
func (w *regWorld) call(kind string, typ uint64, h string) *regOp {
	o := &regOp{kind: kind, typ: typ, h: h, inv: w.tick(), ret: never}
	w.ops = append(w.ops, o)
	var err error
	if kind == "reg" {
		err = w.n.m.RegisterHandler(tlv.Type(typ), w.handler(h))
	} else {
		err = w.n.m.DeregisterHandler(tlv.Type(typ))
	}
	o.ret = w.tick()
	o.res = classify(err)
	w.x.Count("calls")
	return o
}

var c16Msgs = map[string][]byte{}

// msgFor is a message for a type with an unique payload.
func msgFor(i int, typ uint64) ([]byte, string) {
	val := fmt.Sprintf("m%d", i)
	key := fmt.Sprintf("%d/%d", i, typ)
	if c16Msgs[key] == nil {
		c16Msgs[key] = toUs(4000+i*10+int(typ%7), usKey, mkStream(
			map[uint64][]byte{typ: []byte(val)}))
	}
	return c16Msgs[key], val
}

// send delivers a message to the messenger, unless it goes away.
func (w *regWorld) send(i int, typ uint64) bool {
	data, val := msgFor(i, typ)
	o := &regOp{kind: "msg", typ: typ, inv: w.tick(), ret: never}
	w.msgs[val] = o
	if !w.n.lnd.push(w.n.lnd.onion(data), nil) {
		delete(w.msgs, val)
		return false
	}
	// Earlier messages have been dealt with by now.
	for _, p := range w.ops {
		if p.kind == "msg" && p.ret == never {
			p.ret = w.tick()
		}
	}
	w.ops = append(w.ops, o)
	return true
}

// linearizable searches for a sequential order that explains the history.
func (w *regWorld) linearizable() bool {
	ops := w.ops
	n := len(ops)
	state := map[uint64]string{}
	seen := map[string]bool{}
	var rec func(done int) bool
	rec = func(done int) bool {
		if done == 1<<n-1 {
			return true
		}
		key := fmt.Sprint(done, state)
		if seen[key] {
			return false
		}
		seen[key] = true
		for i, o := range ops {
			if done>>i&1 == 1 {
				continue
			}
			// o may be next if nothing that is left returned
			// before it was invoked.
			ok := true
			for j, p := range ops {
				if done>>j&1 == 0 && p.ret < o.inv {
					ok = false
				}
			}
			if !ok {
				continue
			}
			old, had := state[o.typ]
			restore := func() {
				delete(state, o.typ)
				if had {
					state[o.typ] = old
				}
			}
			switch {
			case o.kind == "msg":
				if o.h == old && rec(done|1<<i) {
					return true
				}
			case o.res == "down", o.res == "notstarted":
				// Without effect.
				if rec(done | 1<<i) {
					return true
				}
				if o.res == "notstarted" {
					break
				}
				if o.kind == "reg" && !had {
					state[o.typ] = o.h
				} else if o.kind == "dereg" && had {
					delete(state, o.typ)
				} else {
					break
				}
				if rec(done | 1<<i) {
					return true
				}
				restore()
			case o.kind == "reg":
				if (o.res == "ok") == had {
					break
				}
				if !had {
					state[o.typ] = o.h
				}
				if rec(done | 1<<i) {
					return true
				}
				restore()
			default:
				if (o.res == "ok") != had {
					break
				}
				delete(state, o.typ)
				if rec(done | 1<<i) {
					return true
				}
				restore()
			}
		}
		return false
	}
	return rec(0)
}

func (w *regWorld) check() {
	for _, o := range w.ops {
		switch {
		case o.kind == "msg":
			// When the messenger goes down a message that was
			// taken may be dropped.
			if o.h == "" && w.down != never {
				o.kind = "dropped"
			}
		case strings.HasPrefix(o.res, "error"),
			o.kind == "reg" && o.res == "missing",
			o.kind == "dereg" && o.res == "exists":

			w.x.Failf("wrong error: %v", o)
		case o.res == "down" && w.down > o.ret:
			w.x.Failf("refused while running: %v", o)
		case o.inv > w.dead && o.res == "ok":
			w.x.Failf("accepted after the end: %v", o)
		case o.inv > w.dead && o.res != "down" && o.res != "notstarted":
			w.x.Failf("wrong error after the end: %v", o)
		}
	}
	var kept []*regOp
	for _, o := range w.ops {
		if o.kind != "dropped" {
			kept = append(kept, o)
		}
	}
	all := w.ops
	w.ops = kept
	if !w.linearizable() {
		w.x.Failf("not linearizable: %v", all)
	}
}

// prog is what one thread does.
type prog []string

var c16Ops = []string{"reg A", "dereg A", "reg B", "dereg B"}

func (w *regWorld) run(t int, p prog) {
	for i, s := range p {
		f := strings.Fields(s)
		typ := uint64(64)
		if f[1] == "B" {
			typ = 65
		}
		w.call(f[0], typ, fmt.Sprintf("t%d.%d", t, i))
	}
}

// concurrent runs programs, messages and a disturbance at the same time.
func c16Concurrent(x *rt.Exec, progs []prog, pre bool, msgs []uint64,
	disturb int) {

	count(x)
	w := newRegWorld(x)
	w.n.start()
	w.n.lnd.waitSub()
	if pre {
		w.call("reg", 64, "pre")
	}
	var ts []*rt.Thread
	for i, p := range progs {
		i, p := i, p
		ts = append(ts, x.Go(fmt.Sprintf("caller %d", i), func() {
			w.run(i, p)
		}))
	}
	if len(msgs) > 0 {
		ts = append(ts, x.Go("lnd", func() {
			for i, t := range msgs {
				if !w.send(i, t) {
					return
				}
			}
		}))
	}
	switch disturb {
	case 1:
		ts = append(ts, x.Go("stopper", func() {
			w.down = w.tick()
			if err := w.n.m.Stop(); err != nil {
				x.Failf("stop: %v", err)
			}
			w.dead = w.tick()
		}))
	case 2:
		ts = append(ts, x.Go("failure", func() {
			w.down = w.tick()
			w.n.lnd.errs <- errors.New("stream failed")
			x.Wait("shutdown", func() bool {
				return len(w.n.shutdowns) > 0
			})
			w.dead = w.tick()
		}))
	}
	x.Join(ts...)
	x.Quiesce()
	// Whatever the outcome, later calls do not block.
	last := w.call("reg", 66, "last")
	if (last.res == "ok") != (disturb == 0) {
		x.Failf("wrong result of a later call: %v", last)
	}
	w.check()
	if disturb != 1 {
		w.down = w.tick()
		if err := w.n.m.Stop(); err != nil {
			x.Failf("stop: %v", err)
		}
		w.dead = w.tick()
	}
	after := w.call("reg", 67, "after")
	if after.res == "ok" {
		x.Failf("accepted after the end: %v", after)
	}
	var oc []string
	for _, o := range w.ops {
		oc = append(oc, o.res+o.h)
	}
	x.Outcome("%v", oc)
}

// c16History runs one sequential history.
func c16History(x *rt.Exec, first, depth int) {
	count(x)
	w := newRegWorld(x)
	model := map[uint64]string{}
	started, stopped, failed := false, false, false
	calls := []string{"start", "stop", "fail", "reg A", "reg B", "dereg A",
		"dereg B", "reg 63", "dereg 0", "reg max", "msg A", "msg B"}
	types := map[string]uint64{"A": 64, "B": 65, "63": 63, "0": 0,
		"max": 1<<64 - 1}
	var log []string
	for i := 0; i < depth; i++ {
		k := first
		if i > 0 {
			k = x.Choose(len(calls), "call")
		}
		f := strings.Fields(calls[k])
		log = append(log, calls[k])
		var typ uint64
		if len(f) > 1 {
			typ = types[f[1]]
		}
		up := started && !stopped && !failed
		name := fmt.Sprintf("h%d", i)
		switch f[0] {
		case "start":
			err := w.n.m.Start()
			if (err == nil) == started {
				x.Failf("wrong result of start: %v: %v", log, err)
			}
			if !started && stopped {
				failed = true
			}
			started = true
			x.Quiesce()
		case "stop":
			err := w.n.m.Stop()
			if (err == nil) == stopped {
				x.Failf("wrong result of stop: %v: %v", log, err)
			}
			stopped = true
		case "fail":
			if !up {
				break
			}
			w.n.lnd.errs <- errors.New("stream failed")
			x.Quiesce()
			if len(w.n.shutdowns) != 1 {
				x.Failf("no shutdown requested: %v", log)
			}
			failed = true
		case "msg":
			if !up {
				break
			}
			w.send(i, typ)
			x.Quiesce()
			got := w.msgs[fmt.Sprintf("m%d", i)].h
			if got != model[typ] {
				x.Failf("wrong handler: %v: %q, want %q", log,
					got, model[typ])
			}
		default:
			o := w.call(f[0], typ, name)
			_, had := model[typ]
			want := "ok"
			switch {
			case typ < 64:
				if !strings.HasPrefix(o.res, "error") {
					x.Failf("wrong result: %v: %v", log, o)
				}
				continue
			case !started:
				want = "notstarted"
			case !up:
				want = "down"
			case f[0] == "reg" && had:
				want = "exists"
			case f[0] == "reg":
				model[typ] = name
			case !had:
				want = "missing"
			default:
				delete(model, typ)
			}
			if o.res != want {
				x.Failf("wrong result: %v: %v, want %v", log, o,
					want)
			}
		}
	}
	x.Outcome("%v", log)
	x.Count("distinct")
	if started && !stopped {
		if err := w.n.m.Stop(); err != nil {
			x.Failf("stop: %v", err)
		}
	}
}

func c16Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	depth := 4
	bound := 2
	if thorough {
		depth = 5
		bound = 3
	}
	split(func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f})
	}, "history", 12, func(x *rt.Exec, part int) {
		c16History(x, part, depth)
	})

	// Two threads.
	var progs []prog
	for i := range c16Ops {
		for j := range c16Ops {
			progs = append(progs, prog{c16Ops[i], c16Ops[j]})
		}
	}
	for d := 0; d < 3; d++ {
		for a := range progs {
			a, d := a, d
			out = append(out, &rt.Scenario{
				Name: fmt.Sprintf("pairs/%d/%d", d, a),
				Opt:  rt.Options{Bound: bound, SwitchCost: 1, SelectCost: 1},
				Body: func(x *rt.Exec) {
					// The threads are interchangeable.
					b := a + x.Choose(len(progs)-a, "second")
					pre := x.Choose(2, "before") == 1
					c16Concurrent(x, []prog{progs[a],
						progs[b]}, pre, nil, d)
				},
			})
		}
	}
	// Calls against messages.
	for d := 0; d < 3; d++ {
		for a := range progs {
			a, d := a, d
			out = append(out, &rt.Scenario{
				Name: fmt.Sprintf("messages/%d/%d", d, a),
				Opt:  rt.Options{Bound: bound, SwitchCost: 1, SelectCost: 1},
				Body: func(x *rt.Exec) {
					pre := x.Choose(2, "before") == 1
					m := [][]uint64{{64, 64}, {64, 65}}[x.Choose(2, "messages")]
					c16Concurrent(x, []prog{progs[a]}, pre,
						m, d)
				},
			})
		}
	}
	// Three threads, a message (the longest, so first).
	var triples []*rt.Scenario
	for d := 0; d < 3; d++ {
		d := d
		triples = append(triples, &rt.Scenario{
			Name: fmt.Sprintf("triples/%d", d),
			Opt:  rt.Options{Bound: bound, SwitchCost: 1, SelectCost: 1},
			Body: func(x *rt.Exec) {
				a := x.Choose(2, "a")
				b := a + x.Choose(2-a, "b")
				c := b + x.Choose(2-b, "c")
				pre := x.Choose(2, "before") == 1
				c16Concurrent(x, []prog{{c16Ops[a]}, {c16Ops[b]},
					{c16Ops[c]}}, pre, []uint64{64}, d)
			},
		})
	}
	out = append(append(triples, out...), c16Idle()...)
	out = append(out, c16Stuck()...)
	out = append(out, c16Long()...)
	return append(out, togetherWith(thorough, "subscribe")...)
}
