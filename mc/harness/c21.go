package main

import (
	"context"
	"errors"
	"fmt"
	"sort"

	"github.com/carlakc/boltnd/offersrpc"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
)

func init() {
	register(&prop{
		id:   "C21",
		rule: "one request with one outcome of sending; non-trivial: requests that are passed on",
		bounds: "every combination of node key (absent, empty, valid, 13 other encodings), blinded destination (absent, 1-3 hops, no hops, empty, each of its keys malformed in 5 ways), reply path (likewise), payloads (none, one, several, types 0, 63, 64, 2^64-1 and their mixtures) and direct flag, " +
			"every passed on request also with every outcome (sent to a peer or over 2 hops, no route, empty route, route error, peers error, no address, lookup and connect errors, send error); subscriptions of all types below 64 and at every encoding boundary above" +
			"; lnd failing with each of 46 errors at each step" +
			"; payloads of every length to 950, every byte, reply paths of 1-14 hops, reply path data of every length to 800, coincident keys, 1-100 payloads, every type of a sweep, every refused type, destinations of 1-8 hops; lnd that takes from a millisecond to a year" + togetherBounds,
		assumptions: []string{"over the wire a list has no absent elements"},
		scenarios:   c21Scenarios,
	})
}

// named is a value with a name; ok is whether a request may have it.
type namedKey struct {
	name string
	key  []byte
	v    verdict
}

type namedPath struct {
	name string
	path *offersrpc.BlindedPath
	v    verdict
}

type namedPayloads struct {
	name string
	recs map[uint64][]byte
	v    verdict
}

// badKeys are encodings that are not points.
func badKeys(n int) []namedKey {
	mod := func(f func(b []byte) []byte) []byte {
		return f(append([]byte{}, point(n)...))
	}
	offCurve := mod(func(b []byte) []byte {
		for i := byte(0); ; i++ {
			b[32] = i
			if !isPoint(b) {
				return b
			}
		}
	})
	return []namedKey{
		{"32 bytes", point(n)[1:], reject},
		{"34 bytes", cat(point(n), []byte{0}), reject},
		{"off the curve", offCurve, reject},
		{"wrong prefix", mod(func(b []byte) []byte { b[0] = 4; return b }), reject},
		{"1 byte", []byte{2}, reject},
		{"prefix 0", mod(func(b []byte) []byte { b[0] = 0; return b }), reject},
		{"prefix 5", mod(func(b []byte) []byte { b[0] = 5; return b }), reject},
		{"x too large", cat([]byte{2}, fill(32, 0xff)[:0], ones(32)), reject},
		{"all zero", make([]byte, 33), reject},
		{"64 bytes", append([]byte{}, pubKey(n).SerializeUncompressed()[1:]...), reject},
		{"uncompressed", pubKey(n).SerializeUncompressed(), dontcare},
		{"bad uncompressed", func() []byte {
			b := append([]byte{}, pubKey(n).SerializeUncompressed()...)
			b[64] ^= 1
			return b
		}(), reject},
	}
}

func ones(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 0xff
	}
	return b
}

const (
	c21Node  = 61
	c21Intro = 63
)

// c21Dest is the blinded destination with n hops.
func c21Dest(n int) *rPath {
	return blindedTo(40+n, []byte{6, 1, byte(n)}, seqKeys(c21Intro, n)...)
}

// c21Paths are paths as requests may have them; good are the well formed.
func c21Paths(good []*rPath, zero verdict) []namedPath {
	out := []namedPath{{"absent", nil, accept}}
	for _, p := range good {
		out = append(out, namedPath{
			fmt.Sprintf("%d hops", len(p.hops)), p.rpc(), accept,
		})
	}
	p := good[len(good)-1]
	none := p.rpc()
	none.Hops = nil
	out = append(out, namedPath{"no hops", none, zero},
		namedPath{"empty", &offersrpc.BlindedPath{}, reject})
	for pos := -2; pos < len(p.hops); pos++ {
		bad := append(badKeys(77)[:5], namedKey{"absent", nil, reject})
		for _, b := range bad {
			q := p.rpc()
			switch pos {
			case -2:
				q.IntroductionNode = b.key
			case -1:
				q.BlindingPoint = b.key
			default:
				q.Hops[pos].BlindedNodeId = b.key
			}
			out = append(out, namedPath{
				fmt.Sprintf("key %d %v", pos, b.name), q, b.v,
			})
		}
	}
	return out
}

func c21Payloads() []namedPayloads {
	return []namedPayloads{
		{"none", nil, accept},
		{"64", map[uint64][]byte{64: fill(3, 1)}, accept},
		{"65 without content", map[uint64][]byte{65: nil}, accept},
		{"max", map[uint64][]byte{1<<64 - 1: fill(9, 2)}, accept},
		{"several", map[uint64][]byte{
			64: fill(3, 1), 65: fill(4, 2), 253: nil,
			1<<32 + 1: fill(260, 4), 1<<63 + 1: fill(1, 5),
		}, accept},
		{"63", map[uint64][]byte{63: fill(3, 1)}, reject},
		{"0", map[uint64][]byte{0: fill(3, 1)}, reject},
		{"2 and 64", map[uint64][]byte{2: fill(3, 1), 64: {1}}, reject},
		{"63, 64 and 65", map[uint64][]byte{
			63: nil, 64: fill(3, 1), 65: fill(3, 2),
		}, reject},
		{"4 and max", map[uint64][]byte{4: {1}, 1<<64 - 1: {1}}, reject},
	}
}

func c21Keys() []namedKey {
	neg := append([]byte{}, point(c21Node)...)
	neg[0] ^= 1
	return append([]namedKey{
		{"absent", nil, accept}, {"empty", []byte{}, accept},
		{"valid", point(c21Node), accept}, {"negated", neg, accept},
	}, badKeys(c21Node)...)
}

// c21Outcome is how sending goes.
type c21Outcome struct {
	name   string
	direct bool
	want   codes.Code
	set    func(l *fakeLnd, target route.Vertex)
}

var (
	errC21 = errors.New("lnd fails")
)

func c21Outcomes() []*c21Outcome { return c21OutcomesWith(errC21) }

// c21OutcomesWith are outcomes where lnd fails with this error.
func c21OutcomesWith(errC21 error) []*c21Outcome {
	send := func(l *fakeLnd, target route.Vertex) {
		l.onPeers = func(context.Context) ([]lndclient.Peer, error) {
			return peersOf(target), nil
		}
	}
	routes := func(r *lndclient.QueryRoutesResponse, err error) func(*fakeLnd,
		route.Vertex) {

		return func(l *fakeLnd, target route.Vertex) {
			l.onRoutes = func(_ context.Context,
				q lndclient.QueryRoutesRequest) (
				*lndclient.QueryRoutesResponse, error) {

				if q.PubKey != target {
					l.x.Failf("wrong destination: %v is asked "+
						"for, not %v", q.PubKey, target)
				}
				if r == nil || len(r.Hops) == 0 {
					return r, err
				}
				out := &lndclient.QueryRoutesResponse{}
				out.Hops = append(out.Hops, r.Hops...)
				out.Hops = append(out.Hops, &lndclient.Hop{
					PubKey: &target,
				})
				return out, nil
			}
		}
	}
	lookup := func(addrs []string, err error, cerr error) func(*fakeLnd,
		route.Vertex) {

		return func(l *fakeLnd, target route.Vertex) {
			l.onPeers = func(context.Context) ([]lndclient.Peer, error) {
				return nil, nil
			}
			l.onNodeInfo = func(_ context.Context, k route.Vertex,
				_ bool) (*lndclient.NodeInfo, error) {

				if k != target {
					l.x.Failf("wrong destination: %v looked up, "+
						"not %v", k, target)
				}
				if err != nil {
					return nil, err
				}
				return &lndclient.NodeInfo{Node: &lndclient.Node{
					PubKey: k, Addresses: addrs,
				}}, nil
			}
			l.onConnect = func(_ context.Context, k route.Vertex, _ string,
				_ bool) error {

				return cerr
			}
		}
	}
	return []*c21Outcome{
		{"to a peer", true, codes.OK, send},
		{"over a route", false, codes.OK, routes(hopsTo(68), nil)},
		{"no route", false, codes.NotFound, routes(nil,
			lndclient.ErrNoRouteFound)},
		{"empty route", false, codes.NotFound,
			routes(&lndclient.QueryRoutesResponse{}, nil)},
		{"route error", false, codes.Internal, routes(nil, errC21)},
		{"route send error", false, codes.Internal, func(l *fakeLnd,
			t route.Vertex) {

			routes(hopsTo(68), nil)(l, t)
			l.onSend = func(context.Context,
				lndclient.CustomMessage) error {

				return errC21
			}
		}},
		{"peers error", true, codes.Internal, func(l *fakeLnd,
			_ route.Vertex) {

			l.onPeers = func(context.Context) ([]lndclient.Peer, error) {
				return nil, errC21
			}
		}},
		{"no addresses", true, codes.Internal, lookup(nil, nil, nil)},
		{"lookup error", true, codes.Internal, lookup(nil, errC21, nil)},
		{"connect error", true, codes.Internal,
			lookup([]string{"a:1"}, nil, errC21)},
		{"direct send error", true, codes.Internal, func(l *fakeLnd,
			t route.Vertex) {

			send(l, t)
			l.onSend = func(context.Context,
				lndclient.CustomMessage) error {

				return errC21
			}
		}},
	}
}

// walked is where a sent message goes and what is there.
type walked struct {
	nodes   []int
	payload *rPayload
}

// walk follows a message along nodes that have one of the keys.
func walk(x *rt.Exec, m lndclient.CustomMessage, keys []int) *walked {
	w := &walked{}
	to, data := m.Peer, m.Data
	for {
		key := 0
		for _, k := range keys {
			if vertexOf(k) == to {
				key = k
			}
		}
		if key == 0 {
			x.Failf("sent to a stranger: %v after %v", to, w.nodes)
		}
		w.nodes = append(w.nodes, key)
		p := peel(key, data)
		if p.err != nil {
			x.Failf("node cannot process the message: %v of %v: %v",
				key, w.nodes, p.err)
		}
		v, pay := refPayload(p.payload)
		if v != accept {
			x.Failf("bad payload: %x at %v", p.payload, w.nodes)
		}
		if p.final {
			w.payload = pay
			return w
		}
		next, over, ok := refRouteData(key, p.blinding, pay.enc)
		if !ok || next == nil {
			x.Failf("no next node: at %v", w.nodes)
		}
		b := p.nextBlinding
		if over != nil {
			b = over
		}
		to, data = toVertex(next), wireOnion(b, p.next)
		if len(w.nodes) > 30 {
			x.Failf("endless: %v", w.nodes)
		}
	}
}

type c21Case struct {
	key     namedKey
	dest    namedPath
	reply   namedPath
	pay     namedPayloads
	direct  bool
	outcome *c21Outcome
}

func (c *c21Case) String() string {
	s := fmt.Sprintf("key %v, blinded %v, reply %v, payloads %v, direct %v",
		c.key.name, c.dest.name, c.reply.name, c.pay.name, c.direct)
	if c.outcome != nil {
		s += ", " + c.outcome.name
	}
	return s
}

// verdict is whether the request is to be passed on.
func (c *c21Case) verdict() verdict {
	vs := []verdict{c.key.v, c.dest.v, c.reply.v, c.pay.v}
	if (len(c.key.key) > 0) == (c.dest.path != nil) {
		return reject
	}
	v := accept
	for _, o := range vs {
		switch {
		case o == reject:
			return reject
		case o == dontcare:
			v = dontcare
		}
	}
	return v
}

func (c *c21Case) request() *offersrpc.SendOnionMessageRequest {
	return &offersrpc.SendOnionMessageRequest{
		Pubkey: c.key.key, BlindedDestination: c.dest.path,
		ReplyPath: c.reply.path, FinalPayloads: c.pay.recs,
		DirectConnect: c.direct,
	}
}

// target is the node the request must go to first.
func (c *c21Case) target() route.Vertex {
	if len(c.key.key) > 0 {
		if c.key.v == dontcare {
			return vertexOf(c21Node)
		}
		return route.Vertex(toVertex(c.key.key))
	}
	return route.Vertex(toVertex(c.dest.path.IntroductionNode))
}

func (c *c21Case) run(x *rt.Exec, n *rpcNode) {
	count(x)
	l := n.lnd
	from := len(l.calls)
	l.sent = nil
	l.onPeers, l.onRoutes, l.onConnect, l.onNodeInfo, l.onSend = nil, nil, nil,
		nil, nil
	v := c.verdict()
	if v == reject {
		_, err := n.api.SendOnionMessage(context.Background(), c.request())
		if err == nil {
			x.Failf("malformed request accepted: %v", c)
		}
		if code(err) != codes.InvalidArgument {
			x.Failf("malformed request: %v: refused with %v", c,
				codeOf(err))
		}
		if len(l.calls) != from {
			x.Failf("malformed request: %v: called lnd: %v", c,
				l.calls[from:])
		}
		return
	}
	c.outcome.set(l, c.target())
	resp, err := n.api.SendOnionMessage(context.Background(), c.request())
	if v == dontcare && err != nil {
		if len(l.sent) > 0 {
			x.Failf("sent although it failed: %v", c)
		}
		return
	}
	x.Distinct("%v", c)
	if code(err) != c.outcome.want {
		x.Failf("wrong result: %v: %v: %v, want %v", c, codeOf(err), err,
			c.outcome.want)
	}
	var calls []string
	for _, call := range l.calls[from:] {
		calls = append(calls, call.name)
	}
	if len(calls) == 0 || c.direct != (calls[0] == "peers") ||
		c.direct == (calls[0] == "routes") {

		x.Failf("direct flag lost: %v: %v", c, calls)
	}
	if err != nil {
		if len(l.sent) > 0 {
			x.Failf("sent although it failed: %v", c)
		}
		return
	}
	if resp == nil || len(l.sent) != 1 || l.sent[0].MsgType != 513 {
		x.Failf("wrong messages: %v: %v", c, len(l.sent))
	}
	if c.key.name == "negated" {
		// Nobody has this key here.
		if !c.direct {
			return
		}
		if l.sent[0].Peer != c.target() {
			x.Failf("wrong peer: %v: %v", c, l.sent[0].Peer)
		}
		return
	}
	var want []int
	if !c.direct {
		want = append(want, 68)
	}
	enc := []byte(nil)
	if len(c.key.key) > 0 {
		want = append(want, c21Node)
	} else {
		want = append(want, seqKeys(c21Intro, len(c.dest.path.Hops))...)
		enc = c.dest.path.Hops[len(c.dest.path.Hops)-1].EncryptedData
	}
	w := walk(x, l.sent[0], append([]int{68, c21Node},
		seqKeys(c21Intro, 8)...))
	if fmt.Sprint(w.nodes) != fmt.Sprint(want) {
		x.Failf("wrong destination: %v: went to %v, not %v", c, w.nodes,
			want)
	}
	exp := &rPayload{path: fromRPCPath(c.reply.path), enc: enc}
	for t, p := range c.pay.recs {
		exp.final = append(exp.final, refTLV{typ: t, val: p})
	}
	sort.Slice(exp.final, func(i, j int) bool {
		return exp.final[i].typ < exp.final[j].typ
	})
	got := *w.payload
	if enc == nil {
		got.enc = nil
	}
	if got.String() != exp.String() {
		x.Failf("content lost: %v: %v, not %v", c, got.String(),
			exp.String())
	}
}

func c21Subscribe(x *rt.Exec, typ uint64) {
	count(x)
	n := newRPCNode(x, usKey)
	n.start()
	s := n.subscribe("client", typ)
	x.Quiesce()
	if typ < 64 {
		if !s.thread.Done() {
			x.Failf("subscription accepted: %v", typ)
		}
		if code(s.err) != codes.InvalidArgument {
			x.Failf("subscription refused with: %v: %v", typ, s.err)
		}
		if len(n.lnd.called("send")) > 0 {
			x.Failf("sent: %v", typ)
		}
		n.stop()
		return
	}
	if s.thread.Done() {
		x.Failf("subscription refused: %v: %v", typ, s.err)
	}
	x.Distinct("subscription to %v", typ)
	others := []uint64{64, 65, 66, typ - 1, typ + 1, typ ^ 1<<32, typ ^ 1<<63,
		typ ^ 1<<16, typ ^ 1<<8}
	seed := 7000 + int(typ%997)*8
	var want []string
	for i := 0; i < 4; i++ {
		p := &rPayload{}
		recs := map[uint64][]byte{}
		if i != 1 {
			recs[typ] = fill(i*3, byte(typ))
		}
		if i != 0 {
			for _, o := range others {
				if o >= 64 && o != typ {
					recs[o] = fill(4, byte(o))
				}
			}
		}
		if i >= 2 {
			p.path = samplePath(i, i-1)
		}
		for t, v := range recs {
			p.final = append(p.final, refTLV{typ: t, val: v})
		}
		sort.Slice(p.final, func(i, j int) bool {
			return p.final[i].typ < p.final[j].typ
		})
		n.feed(n.lnd.onion(toUs(seed+i, usKey, p.encode())))
		if i != 1 {
			want = append(want, fmt.Sprintf("%x %v", recs[typ], p.path))
		}
	}
	if fmt.Sprint(s.stream.got) != fmt.Sprint(want) {
		x.Failf("wrong responses: type %v: %v, not %v", typ,
			clipStrs(s.stream.got), clipStrs(want))
	}
	s.end()
	n.stop()
}

func c21Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(x *rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f})
	}
	dests := c21Paths([]*rPath{c21Dest(1), c21Dest(3)}, reject)
	dests = append(dests, namedPath{"2 hops", c21Dest(2).rpc(), accept})
	replies := c21Paths([]*rPath{samplePath(3, 1), samplePath(9, 3)}, dontcare)
	keys := c21Keys()
	split(add, "send", len(keys)*len(dests), func(x *rt.Exec, part int) {
		n := newRPCNode(x, usKey)
		n.start()
		{
			key, dest := keys[part/len(dests)], dests[part%len(dests)]
			for _, reply := range replies {
				for _, pay := range c21Payloads() {
					for _, direct := range []bool{true, false} {
						c := &c21Case{key: key,
							dest: dest, reply: reply,
							pay: pay, direct: direct}
						if c.verdict() == reject {
							c.run(x, n)
							continue
						}
						for i, o := range c21Outcomes() {
							if o.direct != direct {
								continue
							}
							if i > 1 && !thorough &&
								pay.name != "64" {

								continue
							}
							d := *c
							d.outcome = o
							d.run(x, n)
						}
					}
				}
			}
		}
		n.stop()
	})
	// It makes no difference what lnd fails with.
	eachError(add, "errors", 4, zoo, func(x *rt.Exec, e error) {
		n := newRPCNode(x, usKey)
		n.start()
		for _, o := range c21OutcomesWith(e) {
			c := &c21Case{key: keys[2], dest: namedPath{"absent", nil,
				accept}, reply: namedPath{"absent", nil, accept},
				pay: c21Payloads()[0], direct: o.direct}
			d := &c21Outcome{fmt.Sprintf("%v (%T: %v)", o.name, e, e),
				o.direct, o.want, o.set}
			c.outcome = d
			if c.verdict() == accept {
				c.run(x, n)
			}
			c.key = namedKey{"absent", nil, accept}
			c.dest = dests[len(dests)-1]
			c.run(x, n)
		}
		n.stop()
	})
	for i := len(out) - 4; i < len(out); i++ {
		out[i].Opt.Horizon = 1 << 40
	}
	out = append(append(out, append(c21Contents(), c21Shared()...)...), c21BadTypes())
	out = append(out, c21Slow()...)
	var types []uint64
	for t := uint64(0); t <= 66; t++ {
		types = append(types, t)
	}
	for _, b := range []uint64{7, 8, 10, 16, 31, 32, 33, 48, 63} {
		types = append(types, 1<<b-1, 1<<b, 1<<b+1)
	}
	types = append(types, 252, 253, 254, 240, 1<<64-1, 1<<64-2)
	if thorough {
		for t := uint64(67); t <= 300; t++ {
			types = append(types, t)
		}
	}
	split(add, "subscribe", 8, func(x *rt.Exec, part int) {
		for i, t := range types {
			if i%8 == part {
				c21Subscribe(x, t)
			}
		}
	})
	return append(out, togetherWith(thorough, "refused", "send")...)
}
