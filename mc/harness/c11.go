package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/btcsuite/btcd/btcutil"
	"github.com/carlakc/boltnd/routes"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	register(&prop{
		id:   "C11",
		rule: "one set of channels and lookup answers for which a route is generated; non-trivial: distinct sets for which a route must exist",
		bounds: "0-3 (thorough: 4) channels, each with a peer in one of 14 states (not in the graph, 3 other failures, no announcement, 0-3 public channels, with none, some or all features) and one of 4 channel states (active, active private, inactive, a second channel with the previous peer), 6 feature requests; " +
			"graphs of 4-40 (thorough: 120) channels with the best peer at every position, unsuitable peers everywhere else or nowhere, several channels with the same peers in two orders, and a failing lookup at every position; " +
			"lookups that fail with each of 50 errors, before and after a peer in every state; failing channel list (50 errors), cancelled context" +
			"; every sequence of 3 (4) of 8 graphs and 2 feature requests asked of one generator" +
			"; 6 values of every other field of channels and nodes, in all, the first or the last of a list; every feature bit of a sweep with its neighbours, up to 66 features of which each is lacking, numbers of channels of a sweep; lnd that takes from a millisecond to a year, hundreds of channels, requests while another hangs at each of its calls" + togetherBounds,
		assumptions: []string{"the sphinx library implements route blinding correctly"},
		scenarios:   c11Scenarios,
	})
}

type peerState struct {
	name     string
	err      error
	noNode   bool
	channels int
	features []lndwire.FeatureBit
}

var errPlain = errors.New("lookup failed")

func c11States() []peerState {
	return []peerState{
		{name: "unknown", err: status.Error(codes.NotFound, "node not found")},
		{name: "plain error", err: errPlain},
		{name: "unavailable", err: status.Error(codes.Unavailable, "not found")},
		{name: "deadline", err: context.DeadlineExceeded},
		{name: "no announcement", noNode: true, channels: 3},
		{name: "0 channels", channels: 0, features: []lndwire.FeatureBit{10, 12}},
		{name: "1 channel", channels: 1},
		{name: "1 channel 10", channels: 1, features: []lndwire.FeatureBit{10}},
		{name: "2 channels 10 12", channels: 2, features: []lndwire.FeatureBit{10, 12}},
		{name: "2 channels", channels: 2},
		{name: "3 channels 12", channels: 3, features: []lndwire.FeatureBit{12, 15}},
		{name: "3 channels 10 12", channels: 3, features: []lndwire.FeatureBit{0, 10, 12}},
		{name: "3 channels", channels: 3, features: []lndwire.FeatureBit{1}},
		// Only the optional partners of features that are asked for.
		{name: "3 channels 11 13", channels: 3, features: []lndwire.FeatureBit{11, 13}},
	}
}

var c11Requests = [][]lndwire.FeatureBit{
	nil, {10}, {17}, {17, 10}, {12, 10}, {10, 19, 12},
}

const (
	chanActive = iota
	chanPrivate
	chanInactive
	chanSecond
	numChanStates
)

type c11Channel struct {
	state int
	kind  int
	// peer is the index of the peer's key.
	peer int
}

func c11Lnd(x *rt.Exec, states []peerState, chans []c11Channel) *fakeLnd {
	l := newFakeLnd(x, usKey)
	l.onChannels = func(_ context.Context, active, public bool) (
		[]lndclient.ChannelInfo, error) {

		var out []lndclient.ChannelInfo
		for i, c := range chans {
			info := lndclient.ChannelInfo{
				Active:      c.kind != chanInactive,
				Private:     c.kind == chanPrivate,
				PubKeyBytes: toVertex(point(300 + c.peer)),
				ChannelID:   uint64(i + 1),
				Capacity:    btcutil.Amount(1000 - i),
			}
			if active && !info.Active || public && info.Private {
				continue
			}
			out = append(out, info)
		}
		return out, nil
	}
	l.onNodeInfo = func(_ context.Context, k route.Vertex, ch bool) (
		*lndclient.NodeInfo, error) {

		for _, c := range chans {
			if toVertex(point(300+c.peer)) != k {
				continue
			}
			s := states[c.state]
			if s.err != nil {
				return nil, s.err
			}
			info := &lndclient.NodeInfo{
				ChannelCount:  s.channels,
				TotalCapacity: btcutil.Amount(10 - s.channels),
			}
			if !s.noNode {
				info.Node = &lndclient.Node{
					PubKey:   k,
					Features: s.features,
				}
			}
			for i := 0; ch && i < s.channels; i++ {
				info.Channels = append(info.Channels,
					lndclient.ChannelEdge{
						ChannelID: uint64(i),
					})
			}
			return info, nil
		}
		x.Failf("unknown node looked up: %v", k)
		return nil, nil
	}
	return l
}

func c11Check(x *rt.Exec, states []peerState, chans []c11Channel,
	req []lndwire.FeatureBit, follow bool) {

	g := routes.NewBlindedRouteGenerator(
		c11Lnd(x, states, chans), pubKey(usKey))
	c11Ask(x, g, states, chans, req, follow)
}

// c11Ask asks a generator for a route and checks its answer.
func c11Ask(x *rt.Exec, g *routes.BlindedRouteGenerator, states []peerState,
	chans []c11Channel, req []lndwire.FeatureBit, follow bool) {

	c11AskIn(x, g, states, chans, req, follow, "")
}

func c11AskIn(x *rt.Exec, g *routes.BlindedRouteGenerator, states []peerState,
	chans []c11Channel, req []lndwire.FeatureBit, follow bool,
	circumstances string) {

	count(x)
	what := func() string {
		s := fmt.Sprintf("features %v%v, channels", req, circumstances)
		for _, c := range chans {
			s += fmt.Sprintf(" [peer %d: %v, kind %v]", c.peer,
				states[c.state].name, c.kind)
		}
		return s
	}
	given := append([]lndwire.FeatureBit{}, req...)
	p, err := g.ReplyPath(context.Background(), given)

	// What must happen.
	var (
		failures   []error
		anyActive  bool
		best       int
		eligible   = map[[33]byte]int{}
		inactiveEr bool
	)
	for _, c := range chans {
		s := states[c.state]
		other := s.err != nil && status.Code(s.err) != codes.NotFound
		if c.kind == chanInactive {
			inactiveEr = inactiveEr || other
			continue
		}
		anyActive = true
		if other {
			failures = append(failures, s.err)
		}
		if s.err != nil || s.noNode || s.channels == 0 {
			continue
		}
		has := map[lndwire.FeatureBit]bool{}
		for _, f := range s.features {
			has[f] = true
		}
		ok := true
		for _, f := range req {
			if f%2 == 0 && !has[f] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		eligible[toVertex(point(300+c.peer))] = s.channels
		if s.channels > best {
			best = s.channels
		}
	}

	if err != nil {
		if p != nil {
			x.Failf("route and error: %v", what())
		}
		matches := false
		for _, f := range failures {
			matches = matches || errors.Is(err, f)
		}
		switch {
		case len(failures) > 0:
			if !matches {
				x.Failf("wrong error: %v: %v", what(), err)
			}
		case inactiveEr && !errors.Is(err, routes.ErrNoChannels) &&
			!errors.Is(err, routes.ErrNoRelayingPeers):
			// A peer without active channel that cannot be looked
			// up is not constrained.
		case len(chans) == 0:
			if !errors.Is(err, routes.ErrNoChannels) {
				x.Failf("wrong error: %v: %v", what(), err)
			}
		case len(eligible) > 0:
			x.Failf("no route: %v: %v", what(), err)
		case !anyActive:
			if !errors.Is(err, routes.ErrNoChannels) &&
				!errors.Is(err, routes.ErrNoRelayingPeers) {

				x.Failf("wrong error: %v: %v", what(), err)
			}
		default:
			if !errors.Is(err, routes.ErrNoRelayingPeers) {
				x.Failf("wrong error: %v: %v", what(), err)
			}
		}
		return
	}

	switch {
	case len(failures) > 0:
		x.Failf("lookup failure ignored: %v", what())
	case len(eligible) == 0:
		x.Failf("route without eligible peer: %v", what())
	}
	x.Distinct("%v", what())
	rp := fromSphinx(p)
	n, ok := eligible[toVertex(rp.first)]
	if !ok {
		x.Failf("route starts at an ineligible peer: %v", what())
	}
	if n != best {
		x.Failf("route starts at a peer with fewer channels: %v", what())
	}

	// Walk along the encrypted data.
	intro := 0
	for _, c := range chans {
		if string(point(300+c.peer)) == string(rp.first) {
			intro = 300 + c.peer
		}
	}
	next, override, ok := refRouteData(intro, rp.blinding, rp.hops[0].data)
	if !ok || override != nil || string(next) != string(point(usKey)) {
		x.Failf("wrong next hop: %v: next %x, override %x", what(), next,
			override)
	}
	if len(rp.hops) != 2 {
		x.Failf("wrong route: %v: %v hops", what(), len(rp.hops))
	}
	if !follow {
		return
	}
	w := sphinxTo(rp, mkStream(map[uint64][]byte{64: {1}}))
	p1 := refPeel(intro, w)
	if p1.err != nil || p1.final {
		x.Failf("wrong route: %v: introduction node cannot peel: %v",
			what(), p1.err)
	}
	p2 := refPeel(usKey, wireOnion(p1.nextBlinding, p1.next))
	if p2.err != nil || !p2.final {
		x.Failf("wrong route: %v: route does not end at us: %v", what(),
			p2.err)
	}
}

// c11Large looks at a graph of n channels, with the only best peer (or a failing
// lookup) at one position and others of some kind everywhere else.
func c11Large(x *rt.Exec, n, at, fillers int) {
	states := []peerState{
		{name: "best", channels: 30, features: []lndwire.FeatureBit{10}},
		{name: "unknown", err: status.Error(codes.NotFound, "none")},
		{name: "fails", err: errPlain},
		{name: "no announcement", noNode: true, channels: 99},
		{name: "no channels", features: []lndwire.FeatureBit{10}},
		{name: "many without the feature", channels: 99},
		{name: "more", channels: 29, features: []lndwire.FeatureBit{10}},
	}
	// Peers with rising and with falling numbers of channels.
	for i := 0; i < 29; i++ {
		states = append(states, peerState{name: fmt.Sprint(i, " channels"),
			channels: i, features: []lndwire.FeatureBit{10}})
	}
	chans := make([]c11Channel, n)
	for i := range chans {
		c := c11Channel{peer: i, state: 7 + i%29}
		switch fillers {
		case 1:
			c.state = 7 + 28 - i%29
		case 2:
			// Ineligible ones.
			c.state = []int{1, 3, 4, 5}[i%4]
		case 3:
			// The same peers over and over.
			c.peer, c.state = i%3, 8+i%3
		case 4:
			c.peer, c.state = i/2, 8+(i/2)%20
		case 5:
			// The failing lookup is what matters.
			c.state = 6
		}
		if i == at {
			c = c11Channel{peer: n + 1}
			if fillers == 5 {
				c.state = 2
			}
		}
		chans[i] = c
	}
	for _, req := range [][]lndwire.FeatureBit{{10}, {17, 10, 19}} {
		c11Check(x, states, chans, req, false)
	}
}

func c11Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f,
			Opt: rt.Options{Horizon: 1 << 40}})
	}
	states := c11States()
	max := 3
	if thorough {
		max = 4
	}
	for n := 0; n <= max; n++ {
		n := n
		sharded(add, fmt.Sprintf("channels=%d", n), 1+15*(n/3),
			func(x *rt.Exec, mine func() bool) {
				chans := make([]c11Channel, n)
				var rec func(i, peers int)
				rec = func(i, peers int) {
					if i < n {
						for s := range states {
							for k := 0; k < chanSecond; k++ {
								// Four channels only in
								// their most telling form.
								if n == 4 && k == 1 {
									continue
								}
								chans[i] = c11Channel{s, k, peers}
								rec(i+1, peers+1)
							}
						}
						if i > 0 {
							chans[i] = chans[i-1]
							chans[i].kind = chanActive
							rec(i+1, peers)
							chans[i] = chans[i-1]
							chans[i].kind = chanInactive
							rec(i+1, peers)
						}
						return
					}
					if !mine() {
						return
					}
					for r, req := range c11Requests {
						if n == 4 && r%2 == 1 {
							continue
						}
						c11Check(x, states, chans, req,
							n < 3)
					}
				}
				rec(0, 0)
			})
	}
	// Large graphs.
	large := []int{4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 25, 32, 33, 40}
	if thorough {
		large = append(large, 50, 51, 64, 65, 70, 100, 101, 120)
	}
	for _, n := range large {
		n := n
		add(fmt.Sprintf("large %d", n), func(x *rt.Exec) {
			for at := 0; at < n; at++ {
				for fillers := 0; fillers < 6; fillers++ {
					c11Large(x, n, at, fillers)
				}
			}
		})
	}
	// It makes no difference what a lookup fails with, unless the node is
	// not found.
	eachError(add, "lookup failures", 4, zoo, func(x *rt.Exec, e error) {
		more := append(states[:len(states):len(states)],
			peerState{name: fmt.Sprint("fails with ", e), err: e})
		bad := len(states)
		for s := range states {
			for _, req := range c11Requests[:2] {
				c11Check(x, more, []c11Channel{{bad, 0, 0}}, req, false)
				c11Check(x, more, []c11Channel{{bad, 0, 0},
					{s, 0, 1}}, req, false)
				c11Check(x, more, []c11Channel{{s, 0, 0},
					{bad, 0, 1}}, req, false)
				c11Check(x, more, []c11Channel{{s, 0, 0},
					{bad, 1, 1}, {12, 0, 2}}, req, false)
			}
		}
	})
	add("list failures", func(x *rt.Exec) {
		for _, e := range zooNotFound {
			count(x)
			l := c11Lnd(x, states, nil)
			l.onChannels = func(context.Context, bool, bool) (
				[]lndclient.ChannelInfo, error) {

				return nil, e
			}
			p, err := routes.NewBlindedRouteGenerator(
				l, pubKey(usKey),
			).ReplyPath(context.Background(), nil)
			if p != nil || !errors.Is(err, e) {
				x.Failf("wrong error: channel list fails with "+
					"%v: %v", e, err)
			}
		}
		count(x)
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		l := c11Lnd(x, states, []c11Channel{{8, 0, 0}})
		p, err := routes.NewBlindedRouteGenerator(
			l, pubKey(usKey),
		).ReplyPath(ctx, nil)
		if p != nil || !errors.Is(err, context.Canceled) {
			x.Failf("wrong error: cancelled: %v", err)
		}
	})
	// Bad keys in the channel list are answers lnd cannot give; bad keys
	// in our lookups fail.
	add("two generators", func(x *rt.Exec) {
		// The same generator asked again gives a fresh, valid route
		// for what is the case then.
		count(x)
		chans := []c11Channel{{8, 0, 0}, {6, 0, 1}}
		l := c11Lnd(x, states, chans)
		g := routes.NewBlindedRouteGenerator(l, pubKey(usKey))
		for i := 0; i < 4; i++ {
			want := 300
			if i%2 == 1 {
				want = 301
			}
			chans[i%2].state = 8
			chans[1-i%2].state = 6
			p, err := g.ReplyPath(context.Background(), nil)
			if err != nil {
				x.Failf("no route: call %v: %v", i, err)
			}
			if string(fromSphinx(p).first) != string(point(want)) {
				x.Failf("route starts at a peer with fewer "+
					"channels: call %v", i)
			}
			x.Count("distinct")
		}
	})
	c11Noise(add, states)
	long := 3
	if thorough {
		long = 4
	}
	out = append(append(out, c11Slow(states)...), c11Sizes()...)
	out = append(out, c11Stuck(states)...)
	out = append(out, c11Long(states, long)...)
	return append(out, togetherWith(thorough, "generate", "generate none")...)
}
