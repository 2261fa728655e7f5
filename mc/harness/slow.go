package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc/codes"
)

// longWaits are times that lnd may take, that nothing may happen for, and that
// clients may take. Nothing has been specified that ends any of them.
var longWaits = []time.Duration{
	time.Millisecond, second, 4 * second, 5 * second, 6 * second,
	14 * second, 15 * second, 16 * second, 29 * second, 31 * second,
	61 * second, 5 * time.Minute, 11 * time.Minute, 31 * time.Minute,
	61 * time.Minute, 6 * time.Hour, 25 * time.Hour, 8 * 24 * time.Hour,
	400 * 24 * time.Hour,
}

// c11Slow generates routes while lnd is slow.
func c11Slow(states []peerState) []*rt.Scenario {
	return []*rt.Scenario{longScenario("slow lnd", func(x *rt.Exec) {
		for _, d := range longWaits {
			for _, g := range [][]c11Channel{
				{{8, 0, 0}}, {{8, 0, 0}, {6, 0, 1}}, {{0, 0, 0}},
				{{7, 0, 0}, {11, 0, 1}, {12, 0, 2}}, {},
				{{1, 0, 0}, {12, 0, 2}},
			} {
				for _, req := range c11Requests {
					l := c11Lnd(x, states, g)
					l.slow = d
					c11AskIn(x, routes.NewBlindedRouteGenerator(
						l, pubKey(usKey)), states, g, req,
						false, fmt.Sprintf(", lnd answers "+
							"after %v", d))
				}
			}
		}
	})}
}

// c11Sizes has graphs with many more channels.
func c11Sizes() []*rt.Scenario {
	var out []*rt.Scenario
	for _, n := range []int{100, 101, 128, 129, 255, 256, 257, 500, 501} {
		n := n
		out = append(out, longScenario(fmt.Sprintf("many channels %d", n),
			func(x *rt.Exec) {
				for _, at := range []int{0, n / 2, n - 1} {
					for fillers := 0; fillers < 6; fillers++ {
						c11Large(x, n, at, fillers)
					}
				}
			}))
	}
	return out
}

// c15Slow sends while lnd is slow, when there are many peers and to ourselves.
func c15Slow() []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(*rt.Exec)) {
		out = append(out, longScenario(name, f))
	}
	sharded(add, "slow lnd", 8, func(x *rt.Exec, mine func() bool) {
		for i, d := range longWaits {
			for _, c := range append(c15Direct(i%2 == 0),
				c15Routed(i%2 == 1)...) {

				if !mine() || c.first < -1 || c.addrs > 1 {
					continue
				}
				c := *c
				c.slow = d
				c.run(x, false, 0)
			}
		}
	})
	// The target is anywhere among many peers.
	sharded(add, "many peers", 4, func(x *rt.Exec, mine func() bool) {
		for _, n := range sweepNumbers() {
			if n > 3000 || n > 130 && n < 250 {
				continue
			}
			for _, at := range []int{0, int(n) / 2, int(n) - 1} {
				if at < 0 || !mine() {
					continue
				}
				for _, c := range []c15Case{
					{direct: true, first: 1, send: true},
					{direct: true, first: -1, addrs: 1,
						connect: true, looks: 2, send: true},
					{direct: true, first: -2, addrs: 1,
						connect: true, looks: 9},
				} {
					c := c
					c.many, c.at = int(n), at
					c.run(x, false, 0)
				}
			}
		}
	})
	// Ourselves and our neighbours are targets like any other.
	add("targets", func(x *rt.Exec) {
		for _, target := range []int{usKey, -usKey, 1, 62, 63, 90} {
			for _, cs := range [][]*c15Case{
				c15Direct(false), c15Routed(false),
				c15Direct(true), c15Routed(true),
			} {
				for _, c := range cs {
					if c.first < -1 || c.first == 2 ||
						c.addrs > 1 {

						continue
					}
					count(x)
					n := newNode(x, usKey)
					c.setup(n.lnd, target)
					err := n.m.SendMessage(
						context.Background(),
						c.request(target))
					c.verify(x, n.lnd, err, target, -1)
				}
			}
		}
	})
	return out
}

// pad puts a peer among many.
func (c *c15Case) pad(ps []lndclient.Peer) []lndclient.Peer {
	if c.many == 0 {
		return ps
	}
	var out []lndclient.Peer
	for i := 0; i < c.many; i++ {
		if i == c.at {
			out = append(out, ps...)
			continue
		}
		var v route.Vertex
		v[0], v[31], v[32] = 2, byte(i>>8), byte(i)
		out = append(out, lndclient.Peer{Pubkey: v})
	}
	return out
}

// c16Idle registers handlers after a long time of nothing, and has messages
// arrive long after that.
func c16Idle() []*rt.Scenario {
	return []*rt.Scenario{longScenario("idle", func(x *rt.Exec) {
		n := newNode(x, usKey)
		n.start()
		n.lnd.waitSub()
		for i, d := range longWaits {
			count(x)
			what := fmt.Sprintf("after %v", d)
			want := func(call string, err, exp error) {
				if !errors.Is(err, exp) {
					x.Failf("wrong result: %v %v: %v", call, what,
						err)
				}
			}
			deliver := func(k int, on bool) {
				n.got = nil
				n.feed(n.lnd.onion(toUs(27000+3*i+k, usKey,
					mkStream(map[uint64][]byte{70: {1}}))))
				if (len(n.got) == 1) != on {
					x.Failf("wrong deliveries: %v: registered "+
						"%v: %v", what, on, n.got)
				}
			}
			rt.Sleep(d)
			want("deregister", n.m.DeregisterHandler(70),
				onionmsg.ErrHandlerNotFound)
			want("register", n.m.RegisterHandler(70,
				n.handler("h", nil)), nil)
			rt.Sleep(d)
			deliver(0, true)
			want("register again", n.m.RegisterHandler(70,
				n.handler("h", nil)), onionmsg.ErrHandlerRegistered)
			rt.Sleep(d)
			deliver(1, true)
			want("deregister", n.m.DeregisterHandler(70), nil)
			rt.Sleep(d)
			deliver(2, false)
			x.Count("distinct")
		}
		n.stop()
	}), longScenario("slow handlers", func(x *rt.Exec) {
		// While a handler takes its time, calls wait.
		for i, d := range longWaits {
			count(x)
			n := newNode(x, usKey)
			n.start()
			n.lnd.waitSub()
			n.register(70, n.handler("h", nil))
			n.register(71, func(*lnwire.ReplyPath, []byte, []byte) error {
				rt.Sleep(d)
				return nil
			})
			m := n.lnd.onion(toUs(28000+i, usKey, mkStream(
				map[uint64][]byte{71: {1}})))
			if !n.lnd.push(m, nil) {
				x.Failf("message stream cancelled")
			}
			for _, c := range []struct {
				name string
				typ  uint64
				err  error
				f    func(typ tlv.Type) error
			}{
				{"register", 72, nil, func(t tlv.Type) error {
					return n.m.RegisterHandler(t,
						n.handler("h", nil))
				}},
				{"deregister", 70, nil, n.m.DeregisterHandler},
				{"deregister", 70, onionmsg.ErrHandlerNotFound,
					n.m.DeregisterHandler},
			} {
				err := c.f(tlv.Type(c.typ))
				if !errors.Is(err, c.err) {
					x.Failf("wrong result: %v while a handler "+
						"takes %v: %v", c.name, d, err)
				}
			}
			x.Count("distinct")
			n.stop()
		}
	})}
}

// c14Idle has messages arrive after long times of nothing, and lnd and handlers
// that take their time.
func c14Idle() []*rt.Scenario {
	var out []*rt.Scenario
	for _, slow := range []bool{false, true} {
		slow := slow
		out = append(out, longScenario(fmt.Sprintf("idle slow=%v", slow),
			func(x *rt.Exec) {
				n, o, tried := c14Node(x)
				n.register(99, func(*lnwire.ReplyPath,
					[]byte, []byte) error {

					rt.Sleep(n.lnd.slow)
					return nil
				})
				var before lndclient.CustomMessage
				for i, d := range longWaits {
					if slow {
						n.lnd.slow = d
					}
					step := func(m lndclient.CustomMessage,
						what string) {

						count(x)
						rt.Sleep(d)
						o.message(m)
						n.feed(m)
						// Until it has been handled.
						rt.Sleep(d)
						x.Quiesce()
						o.check(n, *tried, fmt.Sprintf(
							"%v, %v after the last", what,
							d))
						if len(o.deliver)+len(o.send) > 0 {
							x.Count("distinct")
						}
						n.got, *tried, o.deliver,
							o.send = nil, nil, nil, nil
					}
					m := n.lnd.onion(toUs(29000+i, usKey,
						mkStream(map[uint64][]byte{
							64: {1}, 99: {2}})))
					step(m, "message")
					step(n.lnd.onion(fwdOnion(29100+i, dataShape{
						data: nextNode(61, nil)}, nil, nil,
						false)), "message to forward")
					step(m, "the same message again")
					if i > 0 {
						step(before, "an old message again")
					}
					step(n.lnd.onion([]byte{1, 2}), "bad message")
					before = m
				}
				n.stop()
			}))
	}
	return out
}

// c17Idle stops, and loses lnd, after a long time.
func c17Idle() []*rt.Scenario {
	return []*rt.Scenario{longScenario("idle", func(x *rt.Exec) {
		for _, d := range longWaits {
			for _, how := range []string{"", "error", "close messages",
				"close errors"} {
				count(x)
				n := newNode(x, usKey)
				n.start()
				n.lnd.waitSub()
				rt.Sleep(d)
				x.Quiesce()
				if len(n.shutdowns) > 0 || n.lnd.subCtx.Err() != nil {
					x.Failf("ended by itself: after %v: %v", d,
						n.shutdowns)
				}
				if how != "" {
					n.lnd.failStream(how)
					x.Quiesce()
					if len(n.shutdowns) != 1 {
						x.Failf("wrong shutdowns: stream "+
							"fails (%v) after %v: %v", how,
							d, n.shutdowns)
					}
					rightShutdown(x, n.shutdowns[0], how,
						fmt.Sprint("after ", d))
					rt.Sleep(d)
					if err := n.m.Stop(); err != nil {
						x.Failf("stop failed: stream failed "+
							"(%v): %v", how, err)
					}
				} else {
					begin := x.Now()
					n.stop()
					if x.Now() != begin {
						x.Failf("stop took %v: after %v",
							x.Now()-begin, d)
					}
				}
				x.Count("distinct")
			}
		}
	})}
}

// c18Idle has RPCs wait for startup for a long time, and be made long after it.
func c18Idle() []*rt.Scenario {
	return []*rt.Scenario{longScenario("idle", func(x *rt.Exec) {
		for _, d := range longWaits {
			for _, kind := range rpcKinds {
				count(x)
				n := newRPCNode(x, usKey)
				n.prepare()
				n.infoMode("ok")
				ctx, cancel := context.WithCancel(
					context.Background())
				var err error
				t := x.Go("rpc", func() { err = n.rpc(ctx, kind) })
				rt.Sleep(d)
				x.Quiesce()
				if t.Done() {
					x.Failf("not waited: %v ends after %v: %v",
						kind, d, err)
				}
				n.start()
				x.Quiesce()
				if kind == "subscribe" {
					if t.Done() {
						x.Failf("not served: %v after %v: %v",
							kind, d, err)
					}
					cancel()
					x.Join(t)
					if code(err) != codes.Canceled {
						x.Failf("not served: %v after %v: %v",
							kind, d, err)
					}
				} else {
					x.Join(t)
					if err != nil {
						x.Failf("not served: %v after %v: %v",
							kind, d, err)
					}
				}
				cancel()
				// Long after startup, and by a slow lnd.
				rt.Sleep(d)
				n.lnd.slow = d
				if kind != "subscribe" {
					err = n.rpc(context.Background(), kind)
					if err != nil {
						x.Failf("not served: %v by lnd that "+
							"takes %v: %v", kind, d, err)
					}
				}
				x.Count("distinct")
				n.stop()
			}
		}
	})}
}

// c19Idle has messages that are long apart, and clients that are slow.
func c19Idle() []*rt.Scenario {
	return []*rt.Scenario{longScenario("idle", func(x *rt.Exec) {
		n := newRPCNode(x, usKey)
		n.start()
		s := n.subscribe("client", 64)
		x.Quiesce()
		for i, d := range longWaits {
			count(x)
			rt.Sleep(d)
			x.Quiesce()
			if s.thread.Done() {
				x.Failf("subscription ended: after %v of nothing: "+
					"%v", d, s.err)
			}
			p := &rPayload{final: []refTLV{{typ: 64,
				val: fill(3, byte(i))}}, path: samplePath(i, 1)}
			n.feed(n.lnd.onion(toUs(31000+i, usKey, p.encode())))
			want := []string{fmt.Sprintf("%x %v", fill(3, byte(i)),
				p.path)}
			if fmt.Sprint(s.stream.got) != fmt.Sprint(want) {
				x.Failf("wrong responses: %v after the last: %v, "+
					"want %v", d, s.stream.got, want)
			}
			s.stream.got = nil
			x.Count("distinct")
		}
		s.end()
		n.stop()
	}), longScenario("slow client", func(x *rt.Exec) {
		for i, d := range longWaits {
			count(x)
			n := newRPCNode(x, usKey)
			n.start()
			s := n.subscribe("client", 64)
			x.Quiesce()
			s.stream.onSend = func(int) error {

				rt.Sleep(d)
				return nil
			}
			var want []string
			for k := 0; k < 6; k++ {
				v := fill(3, byte(i*6+k))
				m := n.lnd.onion(toUs(31100+i*6+k, usKey, mkStream(
					map[uint64][]byte{64: v})))
				if !n.lnd.push(m, nil) {
					x.Failf("message stream cancelled")
				}
				want = append(want, fmt.Sprintf("%x %v", v,
					(*rPath)(nil)))
			}
			rt.Sleep(7 * d)
			x.Quiesce()
			if fmt.Sprint(s.stream.got) != fmt.Sprint(want) {
				x.Failf("wrong responses: client takes %v: %v, "+
					"want %v", d, s.stream.got, want)
			}
			x.Count("distinct")
			s.end()
			n.stop()
		}
	})}
}

// c20Idle ends subscriptions after a long time.
func c20Idle() []*rt.Scenario {
	return []*rt.Scenario{longScenario("idle", func(x *rt.Exec) {
		for _, d := range longWaits {
			for _, how := range []string{"cancel", "send", "stop"} {
				count(x)
				n := newRPCNode(x, usKey)
				n.start()
				s := n.subscribe("client", 64)
				x.Quiesce()
				rt.Sleep(d)
				x.Quiesce()
				what := fmt.Sprintf("%v after %v", how, d)
				if s.thread.Done() {
					x.Failf("subscription ended by itself: after "+
						"%v: %v", d, s.err)
				}
				second := n.subscribe("second", 64)
				x.Join(second.thread)
				if code(second.err) != codes.Unavailable {
					x.Failf("second subscription: %v: %v", what,
						second.err)
				}
				begin := x.Now()
				var want codes.Code
				switch how {
				case "cancel":
					s.stream.cancel()
					want = codes.Canceled
				case "send":
					s.stream.onSend = func(int) error {

						return errPlain
					}
					n.feed(n.lnd.onion(toUs(31300, usKey,
						mkStream(map[uint64][]byte{64: {1}}))))
					want = codes.Unknown
				case "stop":
					n.stop()
					want = codes.Aborted
				}
				x.Join(s.thread)
				if x.Now() != begin {
					x.Failf("subscription took %v to end: %v",
						x.Now()-begin, what)
				}
				if code(s.err) != want {
					x.Failf("wrong end: %v: %v", what, s.err)
				}
				if how != "stop" {
					third := n.subscribe("third", 64)
					x.Quiesce()
					if third.thread.Done() {
						x.Failf("type not free: %v: %v", what,
							third.err)
					}
					third.end()
					n.stop()
				}
				x.Count("distinct")
			}
		}
	})}
}

// c21Slow sends while lnd is slow.
func c21Slow() []*rt.Scenario {
	return []*rt.Scenario{longScenario("slow lnd", func(x *rt.Exec) {
		n := newRPCNode(x, usKey)
		n.start()
		for _, d := range longWaits {
			n.lnd.slow = d
			for _, o := range c21Outcomes() {
				c := &c21Case{key: c21Keys()[2],
					dest:  namedPath{"absent", nil, accept},
					reply: namedPath{"absent", nil, accept},
					pay:   c21Payloads()[0], direct: o.direct}
				c.outcome = &c21Outcome{fmt.Sprintf("%v (lnd "+
					"answers after %v)", o.name, d), o.direct,
					o.want, o.set}
				if c.verdict() == accept {
					c.run(x, n)
				}
				c.key = namedKey{"absent", nil, accept}
				c.dest = namedPath{"2 hops", c21Dest(2).rpc(),
					accept}
				c.run(x, n)
			}
		}
		n.stop()
	})}
}
