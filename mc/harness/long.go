package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/tlv"
)

// Long histories and large numbers: what is kept from one call or message to
// the next must not run full or be taken for something else. Each is one
// execution per shape, all shapes are executed.

func longScenario(name string, f func(x *rt.Exec)) *rt.Scenario {
	return &rt.Scenario{Name: "long/" + name, Body: f, Opt: rt.Options{
		Horizon: 1 << 40, SwitchCost: 1, SelectCost: 1,
		NoTimerPreempt: true,
	}}
}

// c10Long sends the same and other messages over and over.
func c10Long(thorough bool) []*rt.Scenario {
	num := 40
	if thorough {
		num = 400
	}
	ways := []c10Send{
		{path: []int{100}}, {path: []int{100, 101}},
		{path: []int{100}, direct: true},
		{path: []int{100}, blinded: []int{100, 102}, direct: true},
		{path: []int{101}, blinded: []int{101}},
		{path: []int{100, 101}, blinded: []int{101, 102}},
	}
	keys := []int{senderKey, 91, 100, 101, 102}
	var out []*rt.Scenario
	for i := range ways {
		i := i
		out = append(out, longScenario(fmt.Sprintf("same message %d", i),
			func(x *rt.Exec) {
				w := newNetwork(x, keys...)
				c := ways[i]
				c.final = []refTLV{{typ: 64, val: fill(9, 1)}}
				c.reply = samplePath(3, 1)
				for k := 0; k < num; k++ {
					count(x)
					w.reset()
					w.node(senderKey).lnd.calls = nil
					c.runIn(w, keys, 1)
				}
				w.stop()
			}))
		// The same request object again.
		out = append(out, longScenario(fmt.Sprintf("same request %d", i),
			func(x *rt.Exec) {
				w := newNetwork(x, keys...)
				c := ways[i]
				c.final = []refTLV{{typ: 65, val: fill(9, 1)},
					{typ: 64, val: nil}}
				n := w.node(senderKey)
				req := c.request(n)
				_, at := c.hops()
				for k := 0; k < 5; k++ {
					count(x)
					w.reset()
					if err := n.m.SendMessage(
						context.Background(), req,
					); err != nil {
						x.Failf("send failed: %v: time "+
							"%v: %v", &c, k, err)
					}
					w.carry(keys)
					got := w.node(at).got
					if len(got) != 2 {
						x.Failf("wrong deliveries: %v: "+
							"request sent for the %v. "+
							"time: %v", &c, k+1,
							deliveries(got))
					}
					if got[0].h != "h64" || got[1].h != "h65" ||
						got[0].payload != "" ||
						got[1].payload != fmt.Sprintf("%x",
							fill(9, 1)) {

						x.Failf("wrong deliveries: %v: "+
							"time %v: %v", &c, k+1,
							deliveries(got))
					}
				}
				x.Count("distinct")
				w.stop()
			}))
	}
	out = append(out, longScenario("all ways", func(x *rt.Exec) {
		w := newNetwork(x, keys...)
		for k := 0; k < num; k++ {
			for i := range ways {
				count(x)
				c := ways[(i*k+i)%len(ways)]
				c.final = []refTLV{{typ: 64, val: fill(k%5, byte(k))}}
				if k%3 == 1 {
					c.reply = samplePath(k, 1+k%3)
				}
				w.reset()
				w.node(senderKey).lnd.calls = nil
				c.runIn(w, keys, 1)
			}
		}
		w.stop()
	}))
	return out
}

// c11Long asks one generator for one graph after the other.
func c11Long(states []peerState, depth int) []*rt.Scenario {
	graphs := [][]c11Channel{
		{{8, 0, 0}, {6, 0, 1}}, {{6, 0, 0}, {8, 0, 1}},
		{{8, chanInactive, 0}, {6, 0, 1}}, {{0, 0, 0}, {6, 0, 1}},
		{{12, 0, 0}, {11, 0, 1}}, {}, {{1, 0, 0}}, {{12, 0, 2}},
	}
	reqs := [][]lndwire.FeatureBit{nil, {10}}
	var out []*rt.Scenario
	for g := range graphs {
		g := g
		out = append(out, longScenario(fmt.Sprintf("graphs %d", g),
			func(x *rt.Exec) {
				x.Choose(1, "start")
				l := newFakeLnd(x, usKey)
				gen := routes.NewBlindedRouteGenerator(
					l, pubKey(usKey))
				for i := 0; i < depth; i++ {
					k := g
					if i > 0 {
						k = x.Choose(len(graphs), "graph")
					}
					req := reqs[x.Choose(2, "features")]
					m := c11Lnd(x, states, graphs[k])
					l.onChannels, l.onNodeInfo = m.onChannels,
						m.onNodeInfo
					c11Ask(x, gen, states, graphs[k], req,
						false)
				}
			}))
	}
	return out
}

// c12Long has many handlers, many payloads in one message and many messages.
func c12Long() []*rt.Scenario {
	return []*rt.Scenario{
		longScenario("handlers", func(x *rt.Exec) {
			n := newNode(x, usKey)
			n.start()
			n.lnd.waitSub()
			names := map[uint64]string{}
			var types []uint64
			for i := uint64(0); i < 300; i++ {
				t := 64 + i
				if i >= 200 {
					t = 1 << (i % 64) * 64
					if t < 64 {
						t = ^(i << 20)
					}
				}
				if names[t] != "" {
					continue
				}
				types = append(types, t)
				names[t] = fmt.Sprintf("h%d", t)
				var err error
				if i%7 == 1 {
					err = errors.New("handler error")
				}
				n.register(t, n.handler(names[t], err))
			}
			var want []delivery
			feed := func(seed int, p *rPayload) {
				count(x)
				x.Count("distinct")
				want = append(want, expectDeliveries(p, names)...)
				n.feed(n.lnd.onion(toUs(seed, usKey, p.encode())))
				if deliveries(n.got) != deliveries(want) {
					x.Failf("wrong deliveries: message %v: got "+
						"%v, want %v", p, deliveries(n.got),
						deliveries(want))
				}
				n.stable()
				n.got, want = nil, nil
			}
			for i, t := range types {
				feed(20000+i, &rPayload{final: []refTLV{{typ: t,
					val: fill(1+i%9, byte(i))}}})
			}
			// Many of them in one message.
			for from := 0; from < 100; from += 50 {
				p := &rPayload{enc: fill(3, 3)}
				for _, t := range types[from : from+100] {
					p.final = append(p.final, refTLV{typ: t,
						val: fill(int(t%4), byte(t))})
				}
				feed(21000+from, p)
			}
			n.stop()
		}),
		longScenario("same payload", func(x *rt.Exec) {
			n := newNode(x, usKey)
			n.start()
			n.lnd.waitSub()
			names := map[uint64]string{64: "h64", 65: "h65"}
			n.register(64, n.handler("h64", nil))
			n.register(65, n.handler("h65", errors.New("fails")))
			p := &rPayload{path: samplePath(1, 2), enc: fill(4, 4),
				final: []refTLV{{typ: 64, val: fill(3, 1)},
					{typ: 65, val: fill(3, 1)}}}
			var want []delivery
			for i := 0; i < 300; i++ {
				count(x)
				x.Count("distinct")
				want = append(want, expectDeliveries(p, names)...)
				m := n.lnd.onion(toUs(22000+i, usKey, p.encode()))
				n.feed(m)
			}
			if deliveries(n.got) != deliveries(want) {
				x.Failf("wrong deliveries: the same payload 300 " +
					"times")
			}
			n.stop()
		}),
	}
}

// c13Long forwards many messages.
func c13Long() []*rt.Scenario {
	var out []*rt.Scenario
	for _, mode := range []string{"works", "fails", "some fail",
		"others between"} {

		mode := mode
		out = append(out, longScenario("forwards/"+mode, func(x *rt.Exec) {
			n, o, tried := fwdNode(x, nil)
			k := 0
			n.lnd.onSend = func(_ context.Context,
				m lndclient.CustomMessage) error {

				*tried = append(*tried, m)
				k++
				if mode == "fails" || mode == "some fail" && k%3 == 1 {
					return errors.New("send failed")
				}
				return nil
			}
			for i := 0; i < 250; i++ {
				count(x)
				x.Count("distinct")
				var over []byte
				if i%5 == 2 {
					over = point(72)
				}
				d := fwdOnion(23000+i, dataShape{data: nextNode(
					61+i%40/8, over)}, nil, nil, i%4 == 1)
				ms := [][]byte{d}
				if mode == "others between" {
					ms = append(ms, toUs(24000+i, usKey,
						mkStream(map[uint64][]byte{64: {1}})),
						d[:len(d)-1])
				}
				for _, d := range ms {
					m := n.lnd.onion(d)
					o.message(m)
					n.feed(m)
				}
				o.check(n, *tried, fmt.Sprintf("message %v of many",
					i))
				n.got, *tried, o.deliver, o.send = nil, nil, nil, nil
			}
			n.stop()
		}))
	}
	return out
}

// c14Long replays messages after many others, which may be good or bad.
func c14Long(thorough bool) []*rt.Scenario {
	num := 600
	if thorough {
		num = 3000
	}
	var out []*rt.Scenario
	for _, mode := range []string{"good", "forwards", "bad between"} {
		mode := mode
		out = append(out, longScenario("replays/"+mode, func(x *rt.Exec) {
			n, o, tried := c14Node(x)
			var all []lndclient.CustomMessage
			step := func(m lndclient.CustomMessage, what string) {
				count(x)
				o.message(m)
				n.feed(m)
				o.check(n, *tried, what)
				if len(o.deliver)+len(o.send) > 0 {
					x.Count("distinct")
				}
				n.got, *tried, o.deliver, o.send = nil, nil, nil, nil
			}
			for i := 0; i < num; i++ {
				d := toUs(30000+i, usKey, mkStream(
					map[uint64][]byte{64: fill(2, byte(i))}))
				if mode == "forwards" && i%2 == 1 {
					d = fwdOnion(30000+i, dataShape{
						data: nextNode(61, nil)}, nil, nil,
						false)
				}
				m := n.lnd.onion(d)
				if mode == "bad between" {
					b := m
					b.Data = append([]byte{}, d...)
					b.Data[len(d)-1] ^= byte(1 + i%255)
					step(b, fmt.Sprintf("modified message %v", i))
				}
				step(m, fmt.Sprintf("message %v", i))
				all = append(all, m)
			}
			for i, m := range all {
				step(m, fmt.Sprintf("message %v again after %v", i,
					num))
			}
			n.stop()
		}))
	}
	return out
}

// c15Long sends one message after the other from one messenger: each asks lnd
// anew.
func c15Long(depth int) []*rt.Scenario {
	cases := []c15Case{
		{direct: true, first: 1, send: true},
		{direct: true, first: 1},
		{direct: true, first: 0},
		{direct: true, first: -1, addrs: 1, connect: true, looks: 2,
			send: true},
		{direct: true, first: -1, addrs: 1, connect: true, looks: 9,
			send: true},
		{direct: true, first: -1, addrs: 1},
		{direct: true, first: -1, addrs: 0},
		{routes: "hops0/2", send: true},
		{routes: "hops0/1", send: true},
		{routes: "hops0/3"},
		{routes: "none"},
	}
	var out []*rt.Scenario
	for first := range cases {
		first := first
		out = append(out, longScenario(fmt.Sprintf("sends %d", first),
			func(x *rt.Exec) {
				n := newNode(x, usKey)
				var log []string
				for i := 0; i < depth; i++ {
					count(x)
					k := first
					if i > 0 {
						k = x.Choose(len(cases), "send")
					}
					target := c15Target
					if i > 0 && x.Choose(2, "target") == 1 {
						target = 69
					}
					c := cases[k]
					c.blinded = i%2 == 1
					log = append(log, fmt.Sprintf("%v to %v", &c,
						target))
					n.lnd.calls, n.lnd.sent = nil, nil
					c.setup(n.lnd, target)
					err := n.m.SendMessage(context.Background(),
						c.request(target))
					c.verify(x, n.lnd, err, target, -1)
				}
				x.Outcome("%v", log)
			}))
	}
	return out
}

// c16Long has many types, registered and deregistered many times.
func c16Long() []*rt.Scenario {
	var out []*rt.Scenario
	for _, num := range []int{1, 2, 100, 500, 1500} {
		num := num
		out = append(out, longScenario(fmt.Sprintf("types %d", num),
			func(x *rt.Exec) {
				n := newNode(x, usKey)
				n.start()
				n.lnd.waitSub()
				want := func(what string, t uint64, err, exp error) {
					if !errors.Is(err, exp) {
						x.Failf("wrong result: %v %v with "+
							"%v types: %v", what, t, num,
							err)
					}
				}
				msg := 25000
				deliver := func(t uint64, on bool) {
					n.got = nil
					msg++
					n.feed(n.lnd.onion(toUs(msg, usKey, mkStream(
						map[uint64][]byte{t: {1}}))))
					if (len(n.got) == 1) != on {
						x.Failf("wrong deliveries: type %v, "+
							"registered %v with %v types: %v",
							t, on, num, n.got)
					}
				}
				rounds := 400 / num
				if rounds < 2 {
					rounds = 2
				}
				for r := 0; r < rounds; r++ {
					typ := func(i int) uint64 {
						return 64 + uint64(i*i*7)
					}
					for i := 0; i < num; i++ {
						count(x)
						h := n.handler("h", nil)
						t := typ(i)
						want("register", t, n.m.RegisterHandler(
							tlv.Type(t), h), nil)
						want("register again", t,
							n.m.RegisterHandler(tlv.Type(t), h),
							onionmsg.ErrHandlerRegistered)
					}
					for _, i := range []int{0, num - 1} {
						deliver(typ(i), true)
					}
					for i := 0; i < num; i++ {
						t := typ(i)
						if r%2 == 1 {
							t = typ(num - 1 - i)
						}
						want("deregister", t,
							n.m.DeregisterHandler(tlv.Type(t)),
							nil)
						want("deregister again", t,
							n.m.DeregisterHandler(tlv.Type(t)),
							onionmsg.ErrHandlerNotFound)
						if i == 0 || i == num/2 {
							deliver(t, false)
						}
					}
					x.Count("distinct")
				}
				n.stop()
			}))
	}
	// Types that differ in a single high bit are different types.
	for _, base := range []uint64{64, 66, 101, 255} {
		base := base
		out = append(out, longScenario(fmt.Sprintf("alike %d", base),
			func(x *rt.Exec) { c16Alike(x, base) }))
	}
	return out
}

// c16Alike registers and deregisters a type and ones that differ from it in a
// single high bit.
func c16Alike(x *rt.Exec, base uint64) {
	n := newNode(x, usKey)
	n.start()
	n.lnd.waitSub()
	on := make(map[uint64]string)
	msg := 28000
	deliver := func(types ...uint64) {
		for _, t := range types {
			n.got = nil
			msg++
			n.feed(n.lnd.onion(toUs(msg, usKey, mkStream(
				map[uint64][]byte{t: {1}}))))
			var got string
			for _, d := range n.got {
				got += d.h
			}
			if got != on[t] {
				x.Failf("wrong deliveries: type %v to %q, "+
					"registered: %q", t, got, on[t])
			}
		}
	}
	register := func(t uint64, h string) {
		var exp error
		if on[t] != "" {
			exp = onionmsg.ErrHandlerRegistered
		} else {
			on[t] = h
		}
		err := n.m.RegisterHandler(tlv.Type(t), n.handler(h, nil))
		if !errors.Is(err, exp) {
			x.Failf("wrong result: register %v: %v, not %v", t, err,
				exp)
		}
	}
	deregister := func(t uint64) {
		var exp error
		if on[t] == "" {
			exp = onionmsg.ErrHandlerNotFound
		}
		delete(on, t)
		err := n.m.DeregisterHandler(tlv.Type(t))
		if !errors.Is(err, exp) {
			x.Failf("wrong result: deregister %v: %v, not %v", t, err,
				exp)
		}
	}
	for s := uint(8); s < 64; s++ {
		count(x)
		u := base ^ 1<<s
		register(base, "a")
		deliver(base, u)
		deregister(u)
		register(u, "b")
		register(base, "c")
		deliver(base, u)
		deregister(base)
		deliver(base, u)
		deregister(base)
		deregister(u)
		deliver(base, u)
		register(1<<s, "d")
		deliver(1<<s, base)
		deregister(1 << s)
		deliver(1 << s)
		x.Count("distinct")
	}
	n.stop()
}

// c18Long has many calls wait for startup.
func c18Long() []*rt.Scenario {
	kinds := []string{"send", "decode", "generate", "subscribe"}
	var out []*rt.Scenario
	for _, end := range []string{"served", "given up", "stopped"} {
		end := end
		out = append(out, longScenario("waiting/"+end, func(x *rt.Exec) {
			count(x)
			n := newRPCNode(x, usKey)
			n.prepare()
			n.infoMode("ok")
			n.lnd.onPeers = func(context.Context) ([]lndclient.Peer,
				error) {

				return peersOf(vertexOf(61)), nil
			}
			type call struct {
				kind string
				t    *rt.Thread
				err  error
				stop func()
			}
			var calls []*call
			for i := 0; i < 60; i++ {
				kind := kinds[i%3]
				if i == 30 {
					kind = "subscribe"
				}
				ctx, cancel := context.WithCancel(
					context.Background())
				c := &call{kind: kind, stop: cancel}
				c.t = x.Go("rpc", func() {
					c.err = n.rpc(ctx, kind)
				})
				calls = append(calls, c)
			}
			x.Quiesce()
			for i, c := range calls {
				if c.t.Done() {
					x.Failf("not waited: %v %v: %v", c.kind, i,
						c.err)
				}
				if end == "given up" || i%2 == 1 {
					c.stop()
					x.Join(c.t)
					if code(c.err).String() != "Unavailable" {
						x.Failf("wrong result: %v %v gives "+
							"up: %v", c.kind, i, c.err)
					}
				}
			}
			if end == "stopped" {
				if err := n.s.Stop(); err != nil {
					x.Failf("stop: %v", err)
				}
				for _, c := range calls {
					c.stop()
					x.Join(c.t)
					if c.err == nil {
						x.Failf("served: %v: after stop",
							c.kind)
					}
				}
				return
			}
			if err := n.s.Start(n.services); err != nil {
				x.Failf("start: %v", err)
			}
			x.Quiesce()
			for i, c := range calls {
				if end == "given up" || i%2 == 1 {
					continue
				}
				if c.kind == "subscribe" {
					if c.t.Done() {
						x.Failf("not served: %v %v: %v",
							c.kind, i, c.err)
					}
					c.stop()
					x.Join(c.t)
					continue
				}
				if !c.t.Done() || c.err != nil {
					x.Failf("not served: %v %v: %v", c.kind, i,
						c.err)
				}
			}
			x.Count("distinct")
			if err := n.s.Stop(); err != nil {
				x.Failf("stop: %v", err)
			}
		}))
	}
	return out
}

// c19Long has many messages for few subscribers, and few for many.
func c19Long(thorough bool) []*rt.Scenario {
	num := 300
	if thorough {
		num = 2000
	}
	var out []*rt.Scenario
	for slow := 0; slow < 4; slow++ {
		slow := slow
		out = append(out, longScenario(fmt.Sprintf("messages/%d", slow),
			func(x *rt.Exec) {
				c := &c19Case{subs: []uint64{typeA, typeB}, slow: slow}
				if slow == 3 {
					c.slow = 0
				}
				for i := 0; i < num; i++ {
					k := c19Kinds[(i*i+i/7)%len(c19Kinds)]
					if slow == 3 {
						k = "AB same"
					}
					c.kinds = append(c.kinds, k)
				}
				c.run(x)
			}))
	}
	out = append(out, longScenario("subscribers", func(x *rt.Exec) {
		count(x)
		n := newRPCNode(x, usKey)
		n.start()
		var subs []*subscriber
		for t := uint64(0); t < 80; t++ {
			subs = append(subs, n.subscribe(fmt.Sprint("client ", t),
				64+t*t*3))
			x.Quiesce()
		}
		for i := 0; i < 3; i++ {
			for k, s := range subs {
				v := fill(4, byte(k+i))
				n.feed(n.lnd.onion(toUs(26000+i*100+k, usKey,
					mkStream(map[uint64][]byte{s.typ: v}))))
				want := fmt.Sprintf("%x nil", v)
				got := s.stream.got
				if len(got) != i+1 || got[i] != want {
					x.Failf("wrong responses: type %v of many "+
						"got %v, want %v", s.typ,
						clipStrs(got), want)
				}
			}
			total := 0
			for _, s := range subs {
				total += len(s.stream.got)
			}
			if total != (i+1)*len(subs) {
				x.Failf("wrong responses: %v in total", total)
			}
		}
		x.Count("distinct")
		for _, s := range subs {
			s.end()
		}
		n.stop()
	}))
	return out
}

// c20Long subscribes many times, one after the other and at the same time.
func c20Long() []*rt.Scenario {
	var out []*rt.Scenario
	for _, how := range []string{"cancel", "fail", "both"} {
		how := how
		out = append(out, longScenario("again/"+how, func(x *rt.Exec) {
			n := newRPCNode(x, usKey)
			n.start()
			b := n.subscribe("client B", typeB)
			x.Quiesce()
			for i := 0; i < 120; i++ {
				count(x)
				a := n.subscribe("client A", typeA)
				x.Quiesce()
				if a.thread.Done() {
					x.Failf("type not free: subscription %v: %v",
						i, a.err)
				}
				n.feed(n.lnd.onion(subMessage("AB", i).data))
				if len(a.stream.got) != 1 || len(b.stream.got) != i+1 {
					x.Failf("other subscription disturbed: "+
						"subscription %v: %v, %v", i,
						len(a.stream.got), len(b.stream.got))
				}
				if how == "cancel" || how == "both" && i%2 == 0 {
					a.end()
					if code(a.err).String() != "Canceled" {
						x.Failf("wrong end of subscription: "+
							"%v: %v", i, a.err)
					}
					continue
				}
				a.stream.onSend = func(int) error {
					return errClient
				}
				m := subMessage("A", 200+i)
				n.feed(n.lnd.onion(m.data))
				if !a.thread.Done() || !errors.Is(a.err, errClient) {
					x.Failf("wrong end of subscription: %v: %v",
						i, a.err)
				}
			}
			x.Count("distinct")
			b.end()
			n.stop()
		}))
	}
	for _, how := range []string{"stop", "cancel"} {
		how := how
		out = append(out, longScenario("many/"+how, func(x *rt.Exec) {
			count(x)
			n := newRPCNode(x, usKey)
			n.start()
			var subs []*subscriber
			for t := uint64(0); t < 60; t++ {
				subs = append(subs, n.subscribe(
					fmt.Sprint("client ", t), 64+t))
			}
			x.Quiesce()
			if how == "stop" {
				if err := n.s.Stop(); err != nil {
					x.Failf("stop: %v", err)
				}
			}
			for i, s := range subs {
				if how == "cancel" {
					s.stream.cancel()
				}
				x.Quiesce()
				if !s.thread.Done() {
					x.Failf("subscription not ended: %v of "+
						"many: at %v", i,
						s.thread.BlockedAt())
				}
				want := "Aborted"
				if how == "cancel" {
					want = "Canceled"
				}
				if code(s.err).String() != want {
					x.Failf("wrong end of subscription: %v of "+
						"many: %v", i, s.err)
				}
			}
			x.Count("distinct")
			if how == "cancel" {
				n.stop()
			}
		}))
	}
	return out
}
