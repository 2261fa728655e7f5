package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/carlakc/boltnd/onionmsg"
	rt "github.com/carlakc/boltnd/verifrt"
)

func init() {
	register(&prop{
		id:   "C12",
		rule: "one combination of payloads and handlers, delivered to a running messenger and followed by a second message; non-trivial: distinct combinations with at least one delivery",
		bounds: "4 payload types (64, 65, 1001, 2^32+1), each absent/present and unhandled/handled/handled by a failing handler (1296 combinations), reply path (none, 1, 3 hops) and encrypted data (none, present), values of 0, 1 and 300 bytes; " +
			"each of 50 errors from each subset of 3 handlers, for 3 messages; every sequence of 3 messages with each subset of 4 types; thorough: all of these also for messages that arrive through a forwarding hop, and sequences of 4" +
			"; 263 handlers, 100 payloads in one message, the same payload 300 times" +
			"; every type of a sweep of 500 numbers with 8 neighbouring types, values and encrypted data of every length to 900 and 600, every byte, reply paths of 1 to 14 hops, coincident keys and values, 7 senders" + togetherBounds,
		assumptions: []string{"the sphinx library implements onion routing correctly"},
		scenarios:   c12Scenarios,
	})
}

var c12Types = []uint64{64, 65, 1001, 1<<32 + 1}

const usKey = 50

// handlerErrs are what failing handlers return: also errors that mean
// something elsewhere.
var handlerErrs = []error{
	onionmsg.ErrShuttingDown, errors.New("handler error"),
	context.Canceled, fmt.Errorf("wrapped: %w", onionmsg.ErrLNDShutdown),
}

// c12Combo runs one combination: code has 6 values per type.
func c12Combo(x *rt.Exec, code int, pathHops int, enc bool, vals int,
	via bool) {

	count(x)
	n := newNode(x, usKey)
	n.start()
	n.lnd.waitSub()

	pay := &rPayload{}
	all := &rPayload{}
	names := map[uint64]string{}
	c := code
	for i, t := range c12Types {
		present, handler := c%2, c/2%3
		c /= 6
		lens := [3]int{1 + i, 0, 0}
		if vals == 1 {
			lens = [3]int{(i * 7) % 3, 0, 0}
		} else if vals == 2 {
			lens = [3]int{150 + i, 0, 0}
		}
		val := fill(lens[0], byte(t))
		if present == 1 {
			pay.final = append(pay.final, refTLV{typ: t, val: val})
		}
		all.final = append(all.final, refTLV{typ: t, val: fill(5, byte(i))})
		var err error
		if handler == 2 {
			err = handlerErrs[i]
		}
		if handler != 0 {
			names[t] = fmt.Sprintf("h%d", t)
			n.register(t, n.handler(names[t], err))
		}
	}
	if pathHops > 0 {
		pay.path = samplePath(pathHops, pathHops)
	} else {
		// The following message is different in every respect.
		all.path = samplePath(7, 2)
	}
	if enc {
		pay.enc = fill(40, 9)
	} else {
		all.enc = fill(30, 77)
	}

	want := append(expectDeliveries(pay, names),
		expectDeliveries(all, names)...)
	msg1 := toUs(1, usKey, pay.encode())
	if via {
		// As the last hop of a longer path.
		full := refOnion(1, oHop{
			key: 60, data: nextNode(usKey, nil), payload: encPayload,
		}, oHop{key: usKey, payload: constPayload(pay.encode())})
		p := refPeel(60, full)
		msg1 = wireOnion(p.nextBlinding, p.next)
	}
	n.feed(n.lnd.onion(msg1))
	n.feed(n.lnd.onion(toUs(2, usKey, all.encode())))

	if len(want) > 0 {
		x.Distinct("payload %v, handlers %v", pay, names)
	}
	if deliveries(n.got) != deliveries(want) {
		x.Failf("wrong deliveries: payload %v, handlers %v: got %v, "+
			"want %v", pay, names, deliveries(n.got),
			deliveries(want))
	}
	if len(n.lnd.sent) > 0 {
		x.Failf("message sent: for a message addressed to us: %v",
			n.lnd.sent)
	}
	n.stop()
	x.Outcome("%d deliveries", len(want))
}

func c12Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f})
	}
	type variant struct {
		hops int
		enc  bool
		vals int
		via  bool
	}
	vs := []variant{{0, true, 0, true}}
	for _, h := range []int{0, 1, 3} {
		for _, e := range []bool{false, true} {
			for v := 0; v < 3; v++ {
				vs = append(vs, variant{h, e, v, false})
				if thorough {
					vs = append(vs, variant{h, e, v, true})
				}
			}
		}
	}
	for _, v := range vs {
		v := v
		split(add, fmt.Sprintf("combos path=%d enc=%v vals=%d via=%v",
			v.hops, v.enc, v.vals, v.via), 8,
			func(x *rt.Exec, part int) {
				code := part + 8*x.Choose(162, "combination")
				c12Combo(x, code, v.hops, v.enc, v.vals, v.via)
			})
	}
	// It makes no difference what a handler fails with.
	eachError(add, "errors", 2, zooInternal, func(x *rt.Exec, e error) {
		types := []uint64{64, 65, 1001}
		for failing := 1; failing < 8; failing++ {
			count(x)
			n := newNode(x, usKey)
			n.start()
			n.lnd.waitSub()
			names := map[uint64]string{}
			p := &rPayload{path: samplePath(failing, 1)}
			for i, t := range types {
				names[t] = fmt.Sprintf("h%d", t)
				var err error
				if failing>>i&1 == 1 {
					err = e
				}
				n.register(t, n.handler(names[t], err))
				p.final = append(p.final, refTLV{typ: t,
					val: fill(i, byte(i))})
			}
			var want []delivery
			for i := 0; i < 3; i++ {
				want = append(want, expectDeliveries(p, names)...)
				n.feed(n.lnd.onion(toUs(20+i, usKey, p.encode())))
			}
			if deliveries(n.got) != deliveries(want) {
				x.Failf("wrong deliveries: handlers fail with "+
					"%T(%v): got %v, want %v", e, e,
					deliveries(n.got), deliveries(want))
			}
			x.Count("distinct")
			n.stop()
		}
	})
	for i := len(out) - 2; i < len(out); i++ {
		out[i].Opt.Horizon = 1 << 40
	}
	// Longer sequences of messages with different subsets, so that what
	// one message leaves behind would show in the next.
	split(add, "sequences", 16, func(x *rt.Exec, part int) {
		count(x)
		n := newNode(x, usKey)
		n.start()
		n.lnd.waitSub()
		names := map[uint64]string{}
		for _, t := range c12Types[:3] {
			names[t] = fmt.Sprintf("h%d", t)
			n.register(t, n.handler(names[t], nil))
		}
		var want []delivery
		l := 3
		if thorough {
			l = 4
		}
		for i := 0; i < l; i++ {
			sub := part
			if i > 0 {
				sub = x.Choose(16, "subset")
			}
			p := &rPayload{}
			for j, t := range []uint64{64, 65, 99, 1001} {
				if sub>>j&1 == 1 {
					p.final = append(p.final, refTLV{
						typ: t, val: fill(3+i, byte(j))})
				}
			}
			if i == 1 {
				p.path = samplePath(i, 1)
				p.enc = fill(9, 9)
			}
			want = append(want, expectDeliveries(p, names)...)
			n.feed(n.lnd.onion(toUs(10+i, usKey, p.encode())))
		}
		if deliveries(n.got) != deliveries(want) {
			x.Failf("wrong deliveries: got %v, want %v",
				deliveries(n.got), deliveries(want))
		}
		x.Count("distinct")
		n.stop()
	})
	out = append(append(out, c12Long()...), c12Sweep()...)
	return append(out, togetherWith(thorough, "receive")...)
}
