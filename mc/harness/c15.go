package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
)

func init() {
	register(&prop{
		id:   "C15",
		rule: "one send with one sequence of answers from lnd, at one schedule; non-trivial: distinct sequences of calls and answers",
		bounds: "direct sends to clear and blinded destinations: every combination of first look (error, peer among 1-3, near misses, no peer), lookup (error, 0, 1, 2, 3 addresses), connect (error, ok), number of looks before the peer shows up (0-7) or a look fails (1-5), and result of the send; lnd answering at once and slowly; " +
			"cancellation of the caller's context before, at every scheduling point of, and at every quarter second during each of these; routed sends: every combination of route answers (no route, error, wrapped error, empty, nil key, malformed key at each position, 1-4 hops) and send results; " +
			"every failing step with each of 50 errors; two sends at the same time with at most 2 (thorough: 3) preemptions" +
			"; every sequence of 3 (4) of 11 sends to the same or another node" +
			"; 6 values of every other field of peers, nodes, routes and hops, in all, the first or the last of a list; 14 forms of addresses; routes of up to 12 hops, over channels that carry 1 sat, take any fee and have failed; lnd that takes from a millisecond to a year, hundreds of peers, sends to ourselves, sends while another hangs at each of its calls" + togetherBounds,
		assumptions: []string{"lnd's calls return once their context is done"},
		scenarios:   c15Scenarios,
	})
}

const (
	c15Target = 61
	second    = time.Second
)

// c15Case is one sequence of answers.
type c15Case struct {
	blinded bool
	direct  bool

	// Direct connection.
	first   int // 0 error, 1.. lists with us, negative: lists without
	addrs   int // -1 error
	connect bool
	looks   int // the peer is seen from this look after connecting on
	lookErr int // this look fails (0: none)
	send    bool
	slow    time.Duration

	// Routed.
	routes string

	// err is what the failing step fails with, unless it is nil.
	err error

	// noise is in lnd's answers, list are the addresses of the target.
	noise *lndNoise
	list  []string

	// many is how many peers there are; the ones that matter are at at.
	many, at int
}

// failure is what a step fails with.
func (c *c15Case) failure(e error) error {
	if c.err != nil {
		return c.err
	}
	return e
}

var (
	errFirst   = errors.New("peers fail")
	errLookup  = errors.New("lookup fails")
	errConnect = errors.New("connect fails")
	errLook    = errors.New("look fails")
	errSend    = errors.New("send fails")
	errRoutes  = errors.New("routes fail")
)

func (c *c15Case) String() string {
	if c.many > 0 {
		d := *c
		d.many = 0
		return fmt.Sprintf("%v, number %v of %v peers", &d, c.at, c.many)
	}
	if c.noise != nil || c.list != nil {
		d := *c
		d.noise, d.list = nil, nil
		return fmt.Sprintf("%v, addresses %v, noise %v", &d, c.list,
			c.noise)
	}
	if !c.direct {
		return fmt.Sprintf("routed (%v), send %v, blinded %v, error %v",
			c.routes, c.send, c.blinded, c.err)
	}
	return fmt.Sprintf("direct: first look %v, addresses %v, connect %v, "+
		"seen at look %v, failing look %v, send %v, blinded %v, slow %v, "+
		"error %v",
		c.first, c.addrs, c.connect, c.looks, c.lookErr, c.send,
		c.blinded, c.slow, c.err)
}

// want are the calls in order with the error of the last one (nil: the send
// worked). end names the error otherwise.
func (c *c15Case) want() (calls []string, end error) {
	if !c.direct {
		calls = append(calls, "routes")
		switch {
		case c.routes == "none", c.routes == "empty":
			return calls, onionmsg.ErrNoPath
		case c.routes == "error", c.routes == "wrapped":
			return calls, c.failure(errRoutes)
		case strings.HasPrefix(c.routes, "nil"):
			return calls, onionmsg.ErrNilPubkeyInRoute
		case strings.HasPrefix(c.routes, "bad"):
			return calls, errAny
		}
	} else {
		calls = append(calls, "peers")
		if c.first == 0 {
			return calls, c.failure(errFirst)
		}
		if c.first < 0 {
			calls = append(calls, "nodeinfo")
			if c.addrs < 0 {
				return calls, c.failure(errLookup)
			}
			if c.addrs == 0 {
				return calls, onionmsg.ErrNoAddresses
			}
			calls = append(calls, "connect")
			if !c.connect {
				return calls, c.failure(errConnect)
			}
			seen := false
			for i := 1; i <= 5 && !seen; i++ {
				calls = append(calls, "peers")
				if i == c.lookErr {
					return calls, c.failure(errLook)
				}
				seen = c.looks <= i
			}
			if !seen {
				return calls, onionmsg.ErrNoConnection
			}
		}
	}
	calls = append(calls, "send")
	if !c.send {
		return calls, c.failure(errSend)
	}
	return calls, nil
}

var errAny = errors.New("any error")

func vertexOf(key int) route.Vertex { return route.Vertex(toVertex(point(key))) }

// near is almost the target: the same x coordinate, the other sign.
func near(key int) route.Vertex {
	v := vertexOf(key)
	v[0] ^= 1
	return v
}

func peersOf(vs ...route.Vertex) []lndclient.Peer {
	var out []lndclient.Peer
	for _, v := range vs {
		out = append(out, lndclient.Peer{Pubkey: v})
	}
	return out
}

func (c *c15Case) setup(l *fakeLnd, target int) {
	var looks int
	delay := func(ctx context.Context) error {
		if c.slow == 0 {
			return nil
		}
		if rt.Select(false, rt.CaseRecv(rt.After(c.slow)),
			rt.CaseRecv(ctx.Done())) == 1 {

			return ctx.Err()
		}
		return nil
	}
	l.noise = c.noise
	withoutUs := [][]lndclient.Peer{
		nil, peersOf(near(target)), peersOf(vertexOf(70), near(target)),
	}
	peers := func(ctx context.Context) ([]lndclient.Peer, error) {
		if err := delay(ctx); err != nil {
			return nil, err
		}
		looks++
		n := looks - 1
		if n == 0 {
			switch {
			case c.first == 0:
				return nil, c.failure(errFirst)
			case c.first < 0:
				return withoutUs[-c.first-1], nil
			case c.first == 1:
				return peersOf(vertexOf(target)), nil
			case c.first == 2:
				return peersOf(vertexOf(70), near(target),
					vertexOf(target)), nil
			default:
				return peersOf(vertexOf(target), vertexOf(71),
					vertexOf(72)), nil
			}
		}
		if n == c.lookErr {
			return nil, c.failure(errLook)
		}
		if n >= c.looks {
			return peersOf(vertexOf(70), vertexOf(target)), nil
		}
		return withoutUs[(n+c.looks)%3], nil
	}
	l.onPeers = func(ctx context.Context) ([]lndclient.Peer, error) {
		ps, err := peers(ctx)
		return c.pad(ps), err
	}
	l.onNodeInfo = func(ctx context.Context, k route.Vertex, ch bool) (
		*lndclient.NodeInfo, error) {

		if err := delay(ctx); err != nil {
			return nil, err
		}
		if k != vertexOf(target) {
			l.x.Failf("wrong node looked up: %v", k)
		}
		if c.addrs < 0 {
			return nil, c.failure(errLookup)
		}
		info := &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: k}}
		for i := 0; i < c.addrs; i++ {
			info.Addresses = append(info.Addresses,
				fmt.Sprintf("10.0.0.%d:9735", 9-i))
		}
		if c.list != nil {
			info.Addresses = append([]string{}, c.list...)
		}
		return info, nil
	}
	l.onConnect = func(ctx context.Context, k route.Vertex, host string,
		perm bool) error {

		if err := delay(ctx); err != nil {
			return err
		}
		first := "10.0.0.9:9735"
		if c.list != nil {
			first = c.list[0]
		}
		if k != vertexOf(target) || host != first || !perm {
			l.x.Failf("wrong connection: to %v at %v, permanent %v",
				k, host, perm)
		}
		if !c.connect {
			return c.failure(errConnect)
		}
		return nil
	}
	l.onRoutes = func(ctx context.Context, r lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		if err := delay(ctx); err != nil {
			return nil, err
		}
		if r.PubKey != vertexOf(target) {
			l.x.Failf("route to the wrong node: %v", r.PubKey)
		}
		if !anyRoute(r) {
			return nil, lndclient.ErrNoRouteFound
		}
		keys := []int{62, 63, 64, 65, 66, 67, 68, 71, 72, 73, 74, 76}
		var hops, at int
		switch {
		case c.routes == "none":
			return nil, lndclient.ErrNoRouteFound
		case c.routes == "error":
			return nil, c.failure(errRoutes)
		case c.routes == "wrapped":
			return nil, fmt.Errorf("rpc: %w", c.failure(errRoutes))
		case c.routes == "empty":
			return &lndclient.QueryRoutesResponse{}, nil
		}
		kind := c.routes[:4]
		fmt.Sscanf(c.routes[4:], "%d/%d", &at, &hops)
		resp := hopsTo(append(append([]int{}, keys[:hops-1]...),
			target)...)
		switch kind {
		case "nil ":
			resp.Hops[at].PubKey = nil
		case "bad ":
			var v route.Vertex
			v[0] = 2
			if at%2 == 1 {
				v = vertexOf(62)
				v[0] = 4
			}
			resp.Hops[at].PubKey = &v
		}
		return resp, nil
	}
	l.onSend = func(ctx context.Context, m lndclient.CustomMessage) error {
		if err := delay(ctx); err != nil {
			return err
		}
		if !c.send {
			return c.failure(errSend)
		}
		return nil
	}
}

func (c *c15Case) request(target int) *onionmsg.SendMessageRequest {
	fin := []*lnwire.FinalHopPayload{{TLVType: 64, Value: []byte{1, 2}}}
	if !c.blinded {
		return onionmsg.NewSendMessageRequest(
			pubKey(target), nil, nil, fin, c.direct)
	}
	return onionmsg.NewSendMessageRequest(nil, blindedTo(7, nil,
		target, 75).real(), nil, fin, c.direct)
}

// failsWith says whether err is what a step failed with.
func failsWith(err, want error) bool {
	switch {
	case err == nil || want == nil:
		return err == want
	case want == errAny:
		return true
	}
	return errors.Is(err, want) || strings.Contains(err.Error(), want.Error())
}

// calledNames are the calls as a list.
func calledNames(l *fakeLnd) []string {
	var out []string
	for _, c := range l.calls {
		out = append(out, c.name)
	}
	return out
}

// verify checks calls and result. cancelled: the context was cancelled at this
// time (negative: never).
func (c *c15Case) verify(x *rt.Exec, l *fakeLnd, err error, target int,
	cancelled time.Duration) {

	c.verifyAt(x, l, err, target, cancelled, x.Now())
}

// verifyAt checks a call that ended at some time.
func (c *c15Case) verifyAt(x *rt.Exec, l *fakeLnd, err error, target int,
	cancelled, end time.Duration) {

	want, last := c.want()
	got := calledNames(l)
	d := fmt.Sprintf("%v: calls %v, error %v", c, got, err)
	full := fmt.Sprint(got) == fmt.Sprint(want)
	prefix := len(got) <= len(want) &&
		fmt.Sprint(got) == fmt.Sprint(want[:len(got)])

	switch {
	case !full && cancelled < 0:
		x.Failf("wrong calls to lnd: %v, want %v", d, want)
	case !prefix:
		x.Failf("wrong calls to lnd: %v, want at most %v", d, want)
	}
	switch {
	case full && failsWith(err, last):
	case cancelled >= 0 && failsWith(err, context.Canceled):
	default:
		x.Failf("wrong result: %v, want %v", d, last)
	}
	if err != nil && len(l.sent) > 0 {
		x.Failf("sent in spite of failure: %v", d)
	}
	if err == nil {
		first := target
		hops := 1
		if !c.direct {
			var at int
			fmt.Sscanf(c.routes[4:], "%d/%d", &at, &hops)
			if hops > 1 {
				first = 62
			}
		}
		if len(l.sent) != 1 || l.sent[0].MsgType != 513 ||
			route.Vertex(l.sent[0].Peer) != vertexOf(first) {

			x.Failf("wrong message sent: %v: %v", d, l.sent)
		}
	}

	// Time: looks are a second apart (plus what lnd takes), and nothing is
	// called once the context is done except for one call that fails.
	looks := l.called("peers")
	for i := 2; i < len(looks); i++ {
		gap := looks[i].at - looks[i-1].at
		if gap != second+c.slow {
			x.Failf("wrong wait between looks: %v: %v", d, gap)
		}
	}
	if cancelled >= 0 {
		late := 0
		for _, call := range l.calls {
			if call.at > cancelled {
				late++
			}
		}
		if late > 0 || end > cancelled {
			x.Failf("not ended by cancellation: %v: cancelled at "+
				"%v, ended %v", d, cancelled, end)
		}
	}
	x.Count("distinct")
	x.Outcome("%v calls %v", len(got), err == nil)
}

// run performs the case once. cancelAt < 0: the context is not cancelled.
func (c *c15Case) run(x *rt.Exec, cancel bool, after time.Duration) {
	count(x)
	n := newNode(x, usKey)
	c.setup(n.lnd, c15Target)
	ctx, stop := context.WithCancel(context.Background())
	defer stop()

	done := false
	cancelled := time.Duration(-1)
	var ct *rt.Thread
	if cancel {
		ct = x.Go("canceller", func() {
			if after > 0 {
				rt.Sleep(after)
			}
			x.Yield("cancel")
			if !done {
				cancelled = x.Now()
				stop()
			}
		})
	}
	err := n.m.SendMessage(ctx, c.request(c15Target))
	end := x.Now()
	done = true
	_ = end
	c.verify(x, n.lnd, err, c15Target, cancelled)
	if ct != nil {
		x.Join(ct)
	}
}

// c15Direct are all direct cases.
func c15Direct(blinded bool) []*c15Case {
	var out []*c15Case
	add := func(c c15Case) {
		c.direct = true
		c.blinded = blinded
		out = append(out, &c)
	}
	for _, send := range []bool{true, false} {
		for f := 1; f <= 3; f++ {
			add(c15Case{first: f, send: send})
		}
	}
	add(c15Case{first: 0})
	for f := -3; f < 0; f++ {
		add(c15Case{first: f, addrs: -1})
		add(c15Case{first: f, addrs: 0})
		for a := 1; a <= 3; a++ {
			add(c15Case{first: f, addrs: a, connect: false})
			for looks := 0; looks <= 7; looks++ {
				for _, send := range []bool{true, false} {
					add(c15Case{first: f, addrs: a,
						connect: true, looks: looks,
						send: send})
				}
			}
			for e := 1; e <= 5; e++ {
				add(c15Case{first: f, addrs: a, connect: true,
					looks: 9, lookErr: e, send: true})
			}
		}
	}
	return out
}

func c15Routed(blinded bool) []*c15Case {
	var out []*c15Case
	for _, r := range []string{"none", "error", "wrapped", "empty"} {
		out = append(out, &c15Case{routes: r, blinded: blinded})
	}
	for hops := 1; hops <= 4; hops++ {
		for at := 0; at < hops; at++ {
			for _, k := range []string{"nil ", "bad "} {
				out = append(out, &c15Case{
					routes:  fmt.Sprintf("%v%d/%d", k, at, hops),
					blinded: blinded,
				})
			}
		}
		for _, send := range []bool{true, false} {
			out = append(out, &c15Case{
				routes:  fmt.Sprintf("hops%d/%d", 0, hops),
				blinded: blinded, send: send,
			})
		}
	}
	return out
}

// anyRoute reports whether lnd finds a route whose channels can carry one sat,
// for any fee, and have failed before.
func anyRoute(r lndclient.QueryRoutesRequest) bool {
	return !r.UseMissionControl && r.AmtMsat == 1000 &&
		r.FeeLimitMsat > 1<<50 && r.LastHop == nil &&
		len(r.RouteHints) == 0 &&
		(r.Source == nil || *r.Source == vertexOf(usKey)) &&
		(r.MaxCltv == nil || *r.MaxCltv >= 1<<20)
}

func c15Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f})
	}

	// All answers, uncancelled, fast and slow.
	split(add, "answers", 8, func(x *rt.Exec, part int) {
		blinded := part&1 == 1
		slow := []time.Duration{0, 300 * time.Millisecond}[part>>1&1]
		cs := c15Direct(blinded)
		if part&4 == 4 {
			cs = c15Routed(blinded)
		}
		c := *cs[x.Choose(len(cs), "case")]
		c.slow = slow
		c.run(x, false, 0)
	})

	// It makes no difference what a step fails with.
	eachError(add, "errors", 4, zoo, func(x *rt.Exec, e error) {
		for _, c := range append(c15Direct(false), c15Routed(true)...) {
			fails := c.first == 0 || !c.direct || c.addrs < 0 ||
				c.lookErr > 0 || c.addrs > 0 && !c.connect ||
				!c.send
			if !fails || c.first < -1 || c.addrs > 1 ||
				c.lookErr > 0 && c.looks != 9 || c.first > 1 {

				continue
			}
			c := *c
			c.err = e
			c.run(x, false, 0)
		}
	})
	for i := len(out) - 4; i < len(out); i++ {
		out[i].Opt.Horizon = 1 << 40
	}

	// Cancellation at every scheduling point and quarter second.
	bound := 2
	if thorough {
		bound = 3
	}
	parts := 12
	for p := 0; p < parts; p++ {
		p := p
		out = append(out, &rt.Scenario{
			Name: fmt.Sprintf("cancel/%d", p),
			Opt:  rt.Options{Bound: bound, NoTimerPreempt: true},
			Body: func(x *rt.Exec) {
				var cs []*c15Case
				for _, c := range append(c15Direct(p%2 == 1),
					c15Routed(p%2 == 1)...) {
					// One list without us, one number of
					// addresses.
					if c.first < -1 || c.addrs > 1 ||
						c.first > 1 {
						continue
					}
					cs = append(cs, c)
				}
				var mine []*c15Case
				for i, c := range cs {
					if i%(parts/2) == p/2 {
						mine = append(mine, c)
					}
				}
				c := *mine[x.Choose(len(mine), "case")]
				c.slow = []time.Duration{
					0, 300 * time.Millisecond,
				}[x.Choose(2, "slow")]
				q := x.Choose(22, "cancel after")
				c.run(x, true, time.Duration(q)*second/4)
			},
		})
	}

	// Cancelled from the start.
	add("cancelled before", func(x *rt.Exec) {
		count(x)
		n := newNode(x, usKey)
		c := &c15Case{first: -1, addrs: 1, connect: true, looks: 1,
			send: true, direct: x.Choose(2, "direct") == 1,
			routes: "hops0/2"}
		c.setup(n.lnd, c15Target)
		ctx, stop := context.WithCancel(context.Background())
		stop()
		err := n.m.SendMessage(ctx, c.request(c15Target))
		c.verify(x, n.lnd, err, c15Target, 0)
	})

	// Two sends at the same time are independent of each other.
	for i := 0; i < 4; i++ {
		same, cancel := i&1 == 1, i&2 == 2
		out = append(out, &rt.Scenario{
			Name: fmt.Sprintf("two sends/same %v/cancel %v", same,
				cancel),
			Opt:  rt.Options{Bound: bound, NoTimerPreempt: true},
			Body: func(x *rt.Exec) { c15Two(x, same, cancel) },
		})
	}
	depth := 3
	if thorough {
		depth = 4
	}
	out = append(append(out, c15Long(depth)...), c15Noise()...)
	out = append(append(out, c15Slow()...), c15Stuck()...)
	return append(out, togetherWith(thorough, "connect", "no route")...)
}

// c15Two sends two messages at the same time, to two nodes or the same: each
// must see the answers to its own requests only. The first may be cancelled.
func c15Two(x *rt.Exec, same, cancel bool) {
	count(x)
	n := newNode(x, usKey)
	cases := []*c15Case{
		{direct: true, first: 1, send: true},
		{direct: true, first: -1, addrs: 1, connect: true, looks: 2,
			send: true},
		{direct: true, first: -1, addrs: 1, connect: false},
		{routes: "hops0/2", send: true},
		{routes: "none"},
	}
	i := x.Choose(len(cases), "first")
	j := x.Choose(len(cases), "second")
	targets := []int{61, 69}
	if same {
		targets[1] = 61
	}
	cs := newCallers(x, n.lnd, 2)
	pick := []c15Case{*cases[i], *cases[j]}
	for k := range cs.ls {
		pick[k].setup(cs.ls[k], targets[k])
	}
	var ts []*rt.Thread
	errs, ends := make([]error, 2), make([]time.Duration, 2)
	cancelled := []time.Duration{-1, -1}
	for k := range cs.ls {
		k := k
		ctx, stop := as(k)
		done := false
		ts = append(ts, x.Go(fmt.Sprintf("sender %d", k), func() {
			errs[k] = n.m.SendMessage(ctx, pick[k].request(targets[k]))
			ends[k] = x.Now()
			done = true
		}))
		if cancel && k == 0 {
			ts = append(ts, x.Go("canceller", func() {
				x.Yield("cancel")
				if !done {
					cancelled[0] = x.Now()
					stop()
				}
			}))
		}
	}
	x.Join(ts...)
	for k := range cs.ls {
		// The models are behind the node's own: two scheduling points
		// per call, no time.
		pick[k].verifyAt(x, cs.ls[k], errs[k], targets[k],
			cancelled[k], ends[k])
	}
}
