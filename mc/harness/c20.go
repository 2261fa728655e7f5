package main

import (
	"errors"
	"fmt"

	"github.com/carlakc/boltnd/offersrpc"
	rt "github.com/carlakc/boltnd/verifrt"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	register(&prop{
		id:   "C20",
		rule: "one schedule of ending subscriptions, messages and shutdown, or one history of subscribing and ending; non-trivial: distinct programs",
		bounds: "one subscription to A and one to B, up to 3 messages for A (and one for both) in flight, ended by every subset of {client cancels, response 0-2 fails (2 kinds of error), server stops, lnd's stream fails, client stops reading until it cancels}, immediately subscribed again, with the subscription already active or not; every interleaving with at most 2 (thorough: 3) deviations; " +
			"histories: every sequence of 5 (6) of subscribe A, subscribe A again, subscribe B, cancel, failing response, message, stop, checked after every step" +
			"; 120 subscriptions one after the other ended in 3 ways, 60 at the same time; streams that fail with each of 50 errors at response 0-2, with at most 1 deviation; subscriptions ended after up to a year" + togetherBounds,
		assumptions: []string{"a send on the stream fails once its context is done", "a response that fails ends the subscription with that error"},
		scenarios:   c20Scenarios,
	})
}

var errClient = errors.New("transport is closing")

type endProg struct {
	cancel, stop, lndFails bool
	// failAt is the response that fails (-1: none), with a plain error or
	// a status.
	failAt   int
	failStat bool
	// stuck clients do not read: the send blocks until the stream is done.
	stuck bool
	// early: the end comes while the subscription is still being made.
	early bool
	msgs  []string
	again bool
}

func (p *endProg) String() string {
	return fmt.Sprintf("cancel %v, stop %v, lnd fails %v, failing response "+
		"%v/%v, stuck %v, early %v, messages %v, again %v", p.cancel,
		p.stop, p.lndFails, p.failAt, p.failStat, p.stuck, p.early,
		p.msgs, p.again)
}

func (p *endProg) sendErr() error {
	if p.failStat {
		return status.Error(codes.Internal, "stream broken")
	}
	return errClient
}

func (p *endProg) run(x *rt.Exec) {
	count(x)
	n := newRPCNode(x, usKey)
	n.start()
	stopping, failing := false, false
	b := n.subscribe("client B", typeB)
	x.Quiesce()

	a := &subscriber{x: x, typ: typeA, stream: newFakeStream(x)}
	sendFailed, stuck := false, false
	a.stream.onSend = func(i int) error {
		if p.stuck {
			// Flow control: until the stream is done.
			stuck = true
			rt.Recv(a.stream.ctx.Done())
			return status.FromContextError(a.stream.ctx.Err()).Err()
		}
		if i == p.failAt {
			sendFailed = true
			return p.sendErr()
		}
		return nil
	}
	cancelled := false
	a.start(n, "client A")
	if !p.early {
		x.Quiesce()
	}

	var ts []*rt.Thread
	delivered := 0
	if len(p.msgs) > 0 {
		ts = append(ts, x.Go("lnd", func() {
			for i, k := range p.msgs {
				m := subMessage(k, i)
				// Gives up when the messenger is gone.
				if !n.lnd.push(n.lnd.onion(m.data), nil) {
					return
				}
				delivered++
			}
		}))
	}
	if p.cancel {
		ts = append(ts, x.Go("canceller", func() {
			x.Yield("cancel")
			cancelled = true
			a.stream.cancel()
		}))
	}
	if p.lndFails {
		ts = append(ts, x.Go("failure", func() {
			x.Yield("fail")
			failing = true
			n.lnd.errs <- errStream
		}))
	}
	stopped := false
	if p.stop {
		ts = append(ts, x.Go("stopper", func() {
			stopping = true
			if err := n.s.Stop(); err != nil {
				x.Failf("stop: %v: %v", p, err)
			}
			stopped = true
		}))
	}
	// The client subscribes again as soon as its subscription has ended.
	var again *subscriber
	if p.again {
		ts = append(ts, x.Go("again", func() {
			x.Join(a.thread)
			again = n.subscribe("client A again", typeA)
		}))
	}

	// Without anything that ends it, a subscription goes on.
	ends := p.cancel || p.stop
	x.Quiesce()
	if p.failAt >= 0 && sendFailed {
		ends = true
	}
	if !ends && a.thread.Done() && !(p.lndFails && p.early) {
		x.Failf("subscription ended: %v: %v", p, a.err)
	}
	if ends && !a.thread.Done() && !(stuck && !cancelled) {
		x.Failf("subscription not ended: %v: at %v", p,
			a.thread.BlockedAt())
	}
	if p.stop && !stopped {
		x.Failf("stop blocked: %v", p)
	}
	if stuck && !cancelled {
		a.stream.cancel()
		cancelled = true
		x.Quiesce()
		if !a.thread.Done() {
			x.Failf("subscription not ended: %v: at %v", p,
				a.thread.BlockedAt())
		}
	}

	// How it ended.
	if a.thread.Done() {
		ok := false
		switch code(a.err) {
		case codes.OK:
		case codes.Canceled:
			ok = cancelled
		case codes.Aborted:
			ok = stopping
		case codes.Unavailable:
			// Not registered in time.
			ok = p.early && (stopping || failing || cancelled)
		}
		if sendFailed && errors.Is(a.err, p.sendErr()) {
			ok = true
		}
		if p.failStat && sendFailed && code(a.err) == codes.Internal {
			ok = true
		}
		if !ok {
			x.Failf("wrong end of subscription: %v: %v", p, a.err)
		}
		x.Outcome("%v", codeOf(a.err))
	}

	// Everything else goes on.
	up := !p.stop && !p.lndFails
	if up {
		if b.thread.Done() {
			x.Failf("other subscription ended: %v: %v", p, b.err)
		}
		if delivered != len(p.msgs) {
			x.Failf("messages not taken: %v: %v", p, delivered)
		}
		// What came too early for the subscription fails no more.
		a.stream.onSend = nil
		m := subMessage("AB", 8)
		before, beforeB := 0, len(b.stream.got)
		if again != nil {
			before = len(again.stream.got)
			if again.thread.Done() {
				x.Failf("type not free: %v: %v", p, again.err)
			}
		}
		n.feed(n.lnd.onion(m.data))
		if len(b.stream.got) != beforeB+1 || b.stream.got[beforeB] != m.b {
			x.Failf("other subscription disturbed: %v: %v", p,
				clipStrs(b.stream.got))
		}
		if again != nil && (len(again.stream.got) != before+1 ||
			again.stream.got[before] != m.a) {

			x.Failf("new subscription disturbed: %v: %v", p,
				clipStrs(again.stream.got))
		}
		if a.thread.Done() && again == nil {
			s := n.subscribe("late client", typeA)
			x.Quiesce()
			if s.thread.Done() {
				x.Failf("type not free: %v: %v", p, s.err)
			}
			s.end()
		}
	}
	if p.lndFails && len(n.shutdowns) != 1 && !p.stop {
		x.Failf("wrong number of shutdown requests: %v: %v", p,
			n.shutdowns)
	}

	// And ends.
	if !p.stop {
		if err := n.s.Stop(); err != nil {
			x.Failf("stop: %v: %v", p, err)
		}
		x.Quiesce()
	}
	for _, s := range []*subscriber{a, b, again} {
		if s == nil {
			continue
		}
		if !s.thread.Done() {
			if s == a && stuck {
				a.stream.cancel()
				x.Join(a.thread)
				continue
			}
			x.Failf("subscription outlives server: %v: at %v", p,
				s.thread.BlockedAt())
		}
	}
	if e := codeOf(b.err); e != "Aborted" {
		x.Failf("wrong end of other subscription: %v: %v", p, b.err)
	}
	x.Join(ts...)
	// What was sent to A is what arrived, in order.
	var all []*subMsg
	for i, k := range p.msgs {
		all = append(all, subMessage(k, i))
	}
	all = append(all, subMessage("AB", 8))
	want := expectSub(all, typeA)
	if !contiguous(a.stream.got, want) {
		x.Failf("wrong responses: %v: got %v", p, clipStrs(a.stream.got))
	}
	x.Outcome("%v responses", len(a.stream.got))
}

// c20Errors lets a client's stream fail with an error.
func c20Errors(x *rt.Exec, at int, e error) {
	count(x)
	n := newRPCNode(x, usKey)
	n.start()
	what := fmt.Sprintf("response %v fails with %T(%v)", at, e, e)
	a := &subscriber{x: x, typ: typeA, stream: newFakeStream(x)}
	a.stream.onSend = func(i int) error {
		if i == at {
			return e
		}
		return nil
	}
	a.start(n, "client A")
	b := n.subscribe("client B", typeB)
	x.Quiesce()
	for i := 0; i < 5; i++ {
		if a.thread.Done() != (i > at) {
			x.Failf("wrong end of subscription: %v: after "+
				"%v messages: %v", what, i, a.err)
		}
		n.feed(n.lnd.onion(subMessage("AB", i).data))
	}
	if !errors.Is(a.err, e) && !(a.err != nil && code(a.err) == code(e) &&
		code(e) != codes.OK) {

		x.Failf("wrong end of subscription: %v: %v", what, a.err)
	}
	if len(b.stream.got) != 5 || b.thread.Done() {
		x.Failf("other subscription disturbed: %v: %v, %v", what,
			len(b.stream.got), b.err)
	}
	if len(n.shutdowns) > 0 {
		x.Failf("wrong number of shutdown requests: %v: %v", what,
			n.shutdowns)
	}
	s := n.subscribe("late client", typeA)
	x.Quiesce()
	if s.thread.Done() {
		x.Failf("type not free: %v: %v", what, s.err)
	}
	n.feed(n.lnd.onion(subMessage("AB", 7).data))
	if len(s.stream.got) != 1 || len(a.stream.got) != at {
		x.Failf("new subscription disturbed: %v: %v, %v", what,
			len(s.stream.got), len(a.stream.got))
	}
	x.Count("distinct")
	b.end()
	s.end()
	n.stop()
}

// contiguous says whether got is a contiguous part of want.
func contiguous(got, want []string) bool {
	for i := 0; i+len(got) <= len(want); i++ {
		if fmt.Sprint(got) == fmt.Sprint(want[i:i+len(got)]) {
			return true
		}
	}
	return false
}

// c20History subscribes, ends and subscribes again in every order.
func c20History(x *rt.Exec, first, depth int) {
	count(x)
	n := newRPCNode(x, usKey)
	n.start()
	calls := []string{"subscribe A", "subscribe B", "cancel A", "cancel B",
		"fail A", "message AB", "bad type", "stop"}
	active := map[string]*subscriber{}
	got := map[string]int{}
	stopped := false
	var log []string
	sub := func(typ uint64) *subscriber {
		s := n.subscribe("client", typ)
		x.Quiesce()
		return s
	}
	types := map[string]uint64{"A": typeA, "B": typeB}
	for i := 0; i < depth; i++ {
		k := first
		if i > 0 {
			k = x.Choose(len(calls), "call")
		}
		c := calls[k]
		log = append(log, c)
		t := c[len(c)-1:]
		switch c {
		case "subscribe A", "subscribe B":
			s := sub(types[t])
			switch {
			case stopped:
				e := codeOf(s.err)
				if !s.thread.Done() || e != "Unavailable" &&
					e != "Aborted" {

					x.Failf("wrong end of subscription: %v: %v",
						log, s.err)
				}
			case active[t] != nil:
				if !s.thread.Done() || code(s.err) !=
					codes.Unavailable {

					x.Failf("second subscription: %v: %v", log,
						s.err)
				}
			case s.thread.Done():
				x.Failf("type not free: %v: %v", log, s.err)
			default:
				active[t] = s
				got[t] = 0
			}
		case "cancel A", "cancel B":
			if s := active[t]; s != nil {
				s.stream.cancel()
				x.Quiesce()
				if !s.thread.Done() || code(s.err) != codes.Canceled {
					x.Failf("wrong end of subscription: %v: %v",
						log, s.err)
				}
				delete(active, t)
			}
		case "fail A":
			s := active["A"]
			if s == nil {
				break
			}
			s.stream.onSend = func(int) error { return errClient }
			n.feed(n.lnd.onion(subMessage("A", i).data))
			if !s.thread.Done() || !errors.Is(s.err, errClient) {
				x.Failf("wrong end of subscription: %v: %v", log,
					s.err)
			}
			delete(active, "A")
		case "message AB":
			if stopped {
				break
			}
			m := subMessage("AB", i)
			n.feed(n.lnd.onion(m.data))
			for t, s := range active {
				got[t]++
				want := m.a
				if t == "B" {
					want = m.b
				}
				if len(s.stream.got) != got[t] ||
					s.stream.got[got[t]-1] != want {

					x.Failf("wrong responses: %v: %v: %v",
						log, t, clipStrs(s.stream.got))
				}
			}
		case "bad type":
			st := newFakeStream(x)
			err := n.api.SubscribeOnionPayload(
				&offersrpc.SubscribeOnionPayloadRequest{
					TlvType: 63}, st)
			if code(err) != codes.InvalidArgument {
				x.Failf("invalid type: %v: %v", log, err)
			}
		case "stop":
			err := n.s.Stop()
			if (err == nil) == stopped {
				x.Failf("wrong result of stop: %v: %v", log, err)
			}
			x.Quiesce()
			stopped = true
			for t, s := range active {
				if !s.thread.Done() || code(s.err) != codes.Aborted {
					x.Failf("wrong end of subscription: %v: %v: %v",
						log, t, s.err)
				}
				delete(active, t)
			}
		}
		for t, s := range active {
			if s.thread.Done() {
				x.Failf("subscription ended: %v: %v: %v", log, t,
					s.err)
			}
		}
	}
	x.Outcome("%v", log)
	x.Count("distinct")
	if !stopped {
		if err := n.s.Stop(); err != nil {
			x.Failf("stop: %v: %v", log, err)
		}
	}
}

// c20Same has two clients compete for a type.
func c20Same(x *rt.Exec) {
	count(x)
	n := newRPCNode(x, usKey)
	n.start()
	var ss []*subscriber
	clients := 2 + x.Choose(2, "clients")
	for i := 0; i < clients; i++ {
		ss = append(ss, n.subscribe(fmt.Sprintf("client %d", i), typeA))
	}
	cancelFirst := x.Choose(2, "cancel first") == 1
	if cancelFirst {
		ss[0].stream.cancel()
	}
	m := subMessage("A", 0)
	if !n.lnd.push(n.lnd.onion(m.data), nil) {
		x.Failf("message stream cancelled")
	}
	x.Quiesce()
	left, got := 0, 0
	for i, s := range ss {
		got += len(s.stream.got)
		if !s.thread.Done() {
			left++
			continue
		}
		if code(s.err) != codes.Unavailable &&
			!(i == 0 && cancelFirst && code(s.err) == codes.Canceled) {

			x.Failf("wrong end of subscription: client %v: %v", i,
				s.err)
		}
	}
	if left > 1 || left == 0 && !cancelFirst || got > 1 {
		x.Failf("wrong number of subscriptions: %v, %v responses", left,
			got)
	}
	x.Outcome("%v left, %v got", left, got)
	n.stop()
	x.Quiesce()
	for _, s := range ss {
		if !s.thread.Done() {
			x.Failf("subscription outlives server")
		}
	}
}

func c20Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	depth := 4
	opt := rt.Options{Bound: 2, SwitchCost: 1, SelectCost: 1,
		NoTimerPreempt: true}
	if thorough {
		depth = 5
		opt.Bound = 3
	}
	out = append(out, &rt.Scenario{Name: "competing", Opt: opt, Body: c20Same})
	// It makes no difference what a stream fails with.
	for at := 0; at < 3; at++ {
		at := at
		out = append(out, &rt.Scenario{
			Name: fmt.Sprintf("errors/%d", at),
			Opt: rt.Options{Bound: 1, SwitchCost: 1, SelectCost: 1,
				NoTimerPreempt: true},
			Body: func(x *rt.Exec) {
				c20Errors(x, at, zooNotFound[x.Choose(
					len(zooNotFound), "error")])
			},
		})
	}
	for _, msgs := range [][]string{nil, {"A"}, {"A", "A", "A"},
		{"AB", "A", "A"}} {

		for set := 0; set < 8; set++ {
			for failAt := -1; failAt < len(msgs); failAt++ {
				for early := 0; early < 2; early++ {
					p := &endProg{
						cancel: set&1 == 1, stop: set&2 == 2,
						lndFails: set&4 == 4, failAt: failAt,
						failStat: failAt%2 == 1,
						early:    early == 1, msgs: msgs,
					}
					// Two of the ends at once are enough.
					if p.cancel && p.stop && p.lndFails {
						continue
					}
					if failAt >= 0 && set == 6 {
						continue
					}
					q := *p
					q.again = true
					s := *p
					s.stuck = true
					ps := []*endProg{p}
					if p.cancel || failAt >= 0 {
						ps = []*endProg{&q}
					}
					if failAt < 0 && len(msgs) > 0 {
						ps = append(ps, &s)
					}
					for _, p := range ps {
						opt := opt
						if len(msgs) == 3 && (p.early ||
							p.cancel && p.stop ||
							p.lndFails || p.stuck) {

							opt.Bound--
						}
						out = append(out, &rt.Scenario{
							Name: "ending/" + p.String(),
							Opt:  opt, Body: p.run,
						})
					}
				}
			}
		}
	}
	split(func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f})
	}, "history", 8, func(x *rt.Exec, part int) {
		c20History(x, part, depth)
	})
	out = append(append(out, c20Long()...), c20Idle()...)
	return append(out, togetherWith(thorough, "subscribe")...)
}
