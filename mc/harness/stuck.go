package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/keychain"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
)

// Calls that lnd never answers hold up nothing but themselves.

// hang is where a request to send, or for a route, waits for lnd: at the n-th
// call with a name.
type hang struct {
	call string
	n    int
	// how the request that hangs is made.
	c *c15Case
}

var c15Hangs = []hang{
	{"peers", 1, &c15Case{direct: true, first: 1, send: true}},
	{"nodeinfo", 1, &c15Case{direct: true, first: -1, addrs: 1, connect: true,
		looks: 1, send: true}},
	{"connect", 1, &c15Case{direct: true, first: -1, addrs: 2, connect: true,
		looks: 1, send: true}},
	{"peers", 2, &c15Case{direct: true, first: -2, addrs: 1, connect: true,
		looks: 2, send: true}},
	{"peers", 3, &c15Case{direct: true, first: -2, addrs: 1, connect: true,
		looks: 2, send: true}},
	{"send", 1, &c15Case{direct: true, first: 1, send: true}},
	{"send", 1, &c15Case{direct: true, first: -1, addrs: 1, connect: true,
		looks: 1, send: true, blinded: true}},
	{"routes", 1, &c15Case{routes: "hops0/2", send: true}},
	{"send", 1, &c15Case{routes: "hops0/2", send: true}},
}

// hangs makes lnd never answer one call.
func (h hang) hangs(l *fakeLnd) {
	l.hangs, l.hangAt = h.call, h.n
}

// callers directs what lnd is asked to one model for each caller, who is
// recognised by a value in the context.
type callers struct {
	x  *rt.Exec
	ls []*fakeLnd
}

type who struct{}

func as(k int) (context.Context, func()) {
	return context.WithCancel(context.WithValue(context.Background(),
		who{}, k))
}

func (cs *callers) of(ctx context.Context) *fakeLnd {
	k, ok := ctx.Value(who{}).(int)
	if !ok {
		cs.x.Failf("foreign context: a call to lnd does not use " +
			"the caller's context")
	}
	return cs.ls[k]
}

// newCallers has lnd answer each caller by itself. Calls that nobody makes,
// messages that are forwarded, are lnd's own.
func newCallers(x *rt.Exec, l *fakeLnd, n int) *callers {
	cs := &callers{x: x}
	for i := 0; i < n; i++ {
		cs.ls = append(cs.ls, newFakeLnd(x, usKey))
	}
	l.onPeers = func(ctx context.Context) ([]lndclient.Peer, error) {
		return cs.of(ctx).ListPeers(ctx)
	}
	l.onNodeInfo = func(ctx context.Context, k route.Vertex, ch bool) (
		*lndclient.NodeInfo, error) {
		return cs.of(ctx).GetNodeInfo(ctx, k, ch)
	}
	l.onConnect = func(ctx context.Context, k route.Vertex, host string,
		perm bool) error {
		return cs.of(ctx).Connect(ctx, k, host, perm)
	}
	l.onRoutes = func(ctx context.Context, r lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {
		return cs.of(ctx).QueryRoutes(ctx, r)
	}
	l.onChannels = func(ctx context.Context, a, p bool) (
		[]lndclient.ChannelInfo, error) {
		return cs.of(ctx).ListChannels(ctx, a, p)
	}
	own := l.onSend
	l.onSend = func(ctx context.Context, m lndclient.CustomMessage) error {
		if _, ok := ctx.Value(who{}).(int); !ok && own != nil {
			return own(ctx, m)
		}
		return cs.of(ctx).SendCustomMessage(ctx, m)
	}
	return cs
}

// held is a request to send that hangs in lnd.
type held struct {
	x      *rt.Exec
	h      hang
	l      *fakeLnd
	err    error
	t      *rt.Thread
	cancel func()
	target int
}

// hold makes a request as caller k that hangs.
func (cs *callers) hold(h hang, k, target int,
	send func(context.Context, *onionmsg.SendMessageRequest) error) *held {

	x := cs.x
	d := &held{x: x, h: h, l: cs.ls[k], target: target}
	h.c.setup(d.l, target)
	h.hangs(d.l)
	ctx, cancel := as(k)
	d.cancel = cancel
	d.t = x.Go("hangs", func() { d.err = send(ctx, h.c.request(target)) })
	// Until it hangs: looks are a second apart.
	for i := 0; i < 4 && d.l.hung == 0; i++ {
		x.Quiesce()
		if d.l.hung == 0 {
			rt.Sleep(second)
		}
	}
	if d.l.hung == 0 {
		x.Failf("wrong calls to lnd: %v: %v", h.c, d.l.calls)
	}
	return d
}

// release gives the request up.
func (d *held) release() {
	d.x.Quiesce()
	if d.t.Done() {
		d.x.Failf("wrong result: %v, lnd does not answer %v %d: ended "+
			"with %v", d.h.c, d.h.call, d.h.n, d.err)
	}
	at := d.x.Now()
	d.cancel()
	d.x.Join(d.t)
	if d.x.Now() != at {
		d.x.Failf("cancelled request took %v to end: %v, lnd does not "+
			"answer %v %d", d.x.Now()-at, d.h.c, d.h.call, d.h.n)
	}
	d.h.c.verify(d.x, d.l, d.err, d.target, at)
}

// c15Stuck sends while other requests hang, to the same and to another node.
func c15Stuck() []*rt.Scenario {
	others := []*c15Case{
		{direct: true, first: 1, send: true},
		{direct: true, first: -1, addrs: 1, connect: true, looks: 2,
			send: true, blinded: true},
		{direct: true, first: -1, addrs: 1, connect: false},
		{direct: true, first: -1, addrs: 1, connect: true, looks: 9},
		{routes: "hops0/2", send: true},
		{routes: "none"},
	}
	return []*rt.Scenario{longScenario("stuck", func(x *rt.Exec) {
		for _, h := range c15Hangs {
			for _, o := range others {
				for _, target := range []int{61, 69} {
					count(x)
					n := newNode(x, usKey)
					cs := newCallers(x, n.lnd, 3)
					d := cs.hold(h, 0, 61, n.m.SendMessage)
					for k := 1; k < 3; k++ {
						c := *o
						c.setup(cs.ls[k], target)
						ctx, cancel := as(k)
						err := n.m.SendMessage(ctx,
							c.request(target))
						cancel()
						c.verify(x, cs.ls[k], err, target, -1)
						if k == 1 {
							d.release()
						}
					}
					x.Count("distinct")
				}
			}
		}
	})}
}

// c14Stuck has messages arrive while requests to send hang.
func c14Stuck() []*rt.Scenario {
	return []*rt.Scenario{longScenario("stuck", func(x *rt.Exec) {
		for i, h := range c15Hangs {
			count(x)
			n, o, tried := c14Node(x)
			cs := newCallers(x, n.lnd, 1)
			d := cs.hold(h, 0, 61, n.m.SendMessage)
			for k, m := range [][]byte{
				goodMsg(33000 + 8*i), fwdOnion(33001+8*i,
					dataShape{data: nextNode(61, nil)}, nil, nil,
					false), {1, 2}, goodMsg(33000 + 8*i),
				goodMsg(33002 + 8*i),
			} {
				c := n.lnd.onion(m)
				o.message(c)
				n.feed(c)
				o.check(n, *tried, fmt.Sprintf("message %v while "+
					"lnd does not answer %v %v", k, h.call, h.n))
			}
			d.release()
			c := n.lnd.onion(goodMsg(33003 + 8*i))
			o.message(c)
			n.feed(c)
			o.check(n, *tried, "message afterwards")
			x.Count("distinct")
			n.stop()
		}
	})}
}

// c16Stuck registers handlers while requests to send hang.
func c16Stuck() []*rt.Scenario {
	return []*rt.Scenario{longScenario("stuck", func(x *rt.Exec) {
		for i, h := range c15Hangs {
			count(x)
			n := newNode(x, usKey)
			n.start()
			n.lnd.waitSub()
			cs := newCallers(x, n.lnd, 1)
			d := cs.hold(h, 0, 61, n.m.SendMessage)
			want := func(call string, err, exp error) {
				if !errors.Is(err, exp) {
					x.Failf("wrong result: %v while lnd does "+
						"not answer %v: %v", call, h.call, err)
				}
			}
			deliver := func(k int, on bool) {
				n.got = nil
				n.feed(n.lnd.onion(toUs(33100+3*i+k, usKey,
					mkStream(map[uint64][]byte{70: {1}}))))
				if (len(n.got) == 1) != on {
					x.Failf("wrong deliveries: registered %v, "+
						"lnd does not answer %v: %v", on,
						h.call, n.got)
				}
			}
			want("deregister", n.m.DeregisterHandler(70),
				onionmsg.ErrHandlerNotFound)
			want("register", n.m.RegisterHandler(70,
				n.handler("h", nil)), nil)
			deliver(0, true)
			want("register again", n.m.RegisterHandler(70,
				n.handler("h", nil)), onionmsg.ErrHandlerRegistered)
			want("deregister", n.m.DeregisterHandler(70), nil)
			deliver(1, false)
			d.release()
			x.Count("distinct")
			n.stop()
		}
	})}
}

// rpcHangs are the calls to lnd that an RPC may hang in.
var rpcHangs = []struct {
	kind, call string
}{
	{"send", "peers"}, {"send", "send"}, {"generate", "channels"},
	{"generate", "nodeinfo"}, {"subscribe", ""},
}

// c18Stuck makes RPCs while others hang.
func c18Stuck() []*rt.Scenario {
	return []*rt.Scenario{longScenario("stuck", func(x *rt.Exec) {
		for _, h := range rpcHangs {
			for _, kind := range rpcKinds {
				count(x)
				n := newRPCNode(x, usKey)
				n.prepare()
				n.start()
				what := fmt.Sprintf("%v while %v waits for %q", kind,
					h.kind, h.call)
				ctx, cancel := context.WithCancel(
					context.Background())
				n.lnd.hangs, n.lnd.hangAt = h.call, 1
				n.rpcType = 65
				var err error
				t := x.Go("hangs", func() { err = n.rpc(ctx, h.kind) })
				x.Quiesce()
				if t.Done() || h.call != "" && n.lnd.hung == 0 {
					x.Failf("not served: %v: %v", h.kind, err)
				}
				n.rpcType = 64
				// Twice: during, and after it was given up.
				for i := 0; i < 2; i++ {
					ctx2, cancel2 := context.WithCancel(
						context.Background())
					var err2 error
					o := x.Go("rpc", func() {
						err2 = n.rpc(ctx2, kind)
					})
					x.Quiesce()
					if o.Done() == (kind == "subscribe") {
						x.Failf("not served: %v: ended %v "+
							"with %v", what, o.Done(), err2)
					}
					cancel2()
					x.Join(o)
					switch {
					case kind != "subscribe" && err2 != nil,
						kind == "subscribe" &&
							code(err2) != codes.Canceled:

						x.Failf("not served: %v: %v", what,
							err2)
					}
					if i == 0 {
						if t.Done() {
							x.Failf("ended: %v: %v", what,
								err)
						}
						cancel()
						x.Join(t)
						if err == nil {
							x.Failf("served: without an "+
								"answer: %v", what)
						}
					}
				}
				x.Count("distinct")
				n.stop()
			}
		}
	})}
}

// c19Stuck has messages arrive for subscribers while RPCs hang.
func c19Stuck() []*rt.Scenario {
	return []*rt.Scenario{longScenario("stuck", func(x *rt.Exec) {
		for i, h := range rpcHangs[:4] {
			count(x)
			n := newRPCNode(x, usKey)
			n.prepare()
			n.start()
			s := n.subscribe("client", 64)
			x.Quiesce()
			ctx, cancel := context.WithCancel(context.Background())
			n.lnd.hangs, n.lnd.hangAt = h.call, 1
			t := x.Go("hangs", func() { n.rpc(ctx, h.kind) })
			x.Quiesce()
			late := n.subscribe("late", 65)
			x.Quiesce()
			var want, want2 []string
			for k := 0; k < 3; k++ {
				p := &rPayload{final: []refTLV{
					{typ: 64, val: fill(3, byte(i*4+k))},
					{typ: 65, val: fill(4, byte(i*4+k))},
				}, path: samplePath(i*4+k, 2)}
				n.feed(n.lnd.onion(toUs(33200+i*4+k, usKey,
					p.encode())))
				want = append(want, fmt.Sprintf("%x %v",
					p.final[0].val, p.path))
				want2 = append(want2, fmt.Sprintf("%x %v",
					p.final[1].val, p.path))
			}
			for _, g := range []struct {
				s *subscriber
				w []string
			}{{s, want}, {late, want2}} {
				if fmt.Sprint(g.s.stream.got) != fmt.Sprint(g.w) {
					x.Failf("wrong responses: while %v waits for "+
						"%v: type %v: %v, want %v", h.kind,
						h.call, g.s.typ, g.s.stream.got, g.w)
				}
				g.s.end()
			}
			cancel()
			x.Join(t)
			x.Count("distinct")
			n.stop()
		}
	})}
}

// c11Stuck generates routes while another is generated.
func c11Stuck(states []peerState) []*rt.Scenario {
	return []*rt.Scenario{longScenario("stuck", func(x *rt.Exec) {
		for _, call := range []string{"channels", "nodeinfo"} {
			for _, g := range [][]c11Channel{
				{{8, 0, 0}}, {{8, 0, 0}, {6, 0, 1}}, {{0, 0, 0}},
				{{7, 0, 0}, {11, 0, 1}, {12, 0, 2}}, {},
			} {
				for _, req := range c11Requests {
					l := c11Lnd(x, states, g)
					gen := routes.NewBlindedRouteGenerator(l,
						pubKey(usKey))
					at := 1
					if call == "nodeinfo" && len(g) > 1 {
						at = 2
					}
					l.hangs, l.hangAt = call, at
					ctx, cancel := context.WithCancel(
						context.Background())
					var err error
					t := x.Go("hangs", func() {
						_, err = gen.ReplyPath(ctx, req)
					})
					x.Quiesce()
					hung := l.hung > 0
					l.hangs = ""
					c11AskIn(x, gen, states, g, req, false,
						fmt.Sprintf(", another waits for %v",
							call))
					x.Quiesce()
					if hung && t.Done() {
						x.Failf("route: without an answer to "+
							"%v: %v", call, err)
					}
					cancel()
					x.Join(t)
					if hung && err == nil {
						x.Failf("route: without an answer to "+
							"%v", call)
					}
				}
			}
		}
	})}
}

// c27Stuck asks lnd for shared secrets while it does not answer others.
func c27Stuck() []*rt.Scenario {
	return []*rt.Scenario{longScenario("stuck", func(x *rt.Exec) {
		ps := c27Points()
		for other := 0; other < 3; other++ {
			for _, a := range c27Answers()[:35] {
				if a.delay < 0 || a.delay > 14*second {
					continue
				}
				count(x)
				s := newFakeSigner(x, usKey)
				calls := 0
				s.onCall = func(ctx context.Context,
					k *btcec.PublicKey, loc *keychain.KeyLocator) (
					[32]byte, error) {

					checkLocator(x, ctx, loc)
					calls++
					if calls == 1 {
						rt.Recv(ctx.Done())
						return [32]byte{}, ctx.Err()
					}
					if !k.IsEqual(ps[other]) {
						x.Failf("wrong point: %x",
							k.SerializeCompressed())
					}
					if e := delayed(ctx, a.delay); e != nil {
						return [32]byte{}, e
					}
					return a.val, a.err
				}
				n := newECDH(x, s)
				none := &c27Answer{delay: -1}
				t := x.Go("hangs", func() {
					begin := x.Now()
					got, err := n.ECDH(ps[0])
					none.check(x, got, err, "no answer",
						x.Now()-begin)
				})
				x.Quiesce()
				for i := 0; i < 2; i++ {
					begin := x.Now()
					got, err := n.ECDH(ps[other])
					a.check(x, got, err, fmt.Sprintf("%v while "+
						"another gets no answer", a),
						x.Now()-begin)
					if calls != 2+i {
						x.Failf("wrong number of requests: "+
							"%v: %v", a, calls)
					}
					if i == 0 {
						rt.Sleep(16 * time.Second)
					}
				}
				x.Join(t)
				x.Count("distinct")
			}
		}
	})}
}
