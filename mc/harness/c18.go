package main

import (
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/carlakc/boltnd/offersrpc"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
)

func init() {
	register(&prop{
		id:   "C18",
		rule: "one schedule of concurrent starts, stops and RPCs, or one history of calls; non-trivial: distinct programs",
		bounds: "histories: every sequence of 4 (thorough: 5) of start (working, refused by lnd), stop, and the four RPCs, each RPC also left waiting and then given up; " +
			"concurrent: {0, 1, 2} starts x {0, 1, 2} stops x lnd {answers, fails, answers after 5 s, does not answer, reports a malformed key} x {no RPC, each of the four RPCs, two RPCs} x {caller waits, gives up at any point}, every interleaving with at most 2 (3) deviations" +
			"; 60 RPCs that wait for startup; startup that fails with each of 50 errors; each value of each other field of what lnd reports about its node; RPCs that wait up to a year and that are made up to a year after startup, or while another hangs at each of its calls; each RPC of a whole daemon, made the way a gRPC server does, during startup (working, slow, failing, no connection) and after it" + togetherBounds,
		assumptions: []string{"lnd's calls return once their context is done", "an RPC that is waiting when the server is stopped may fail or go on waiting for its caller"},
		scenarios:   c18Scenarios,
	})
}

var rpcKinds = []string{"send", "decode", "generate", "subscribe"}

var errInfo = errors.New("info fails")

// prepare sets up lnd so that every RPC can be served.
func (n *rpcNode) prepare() {
	n.lnd.onPeers = func(context.Context) ([]lndclient.Peer, error) {
		return peersOf(vertexOf(61)), nil
	}
	n.lnd.onChannels = func(_ context.Context, _, _ bool) (
		[]lndclient.ChannelInfo, error) {

		return []lndclient.ChannelInfo{{
			Active: true, PubKeyBytes: vertexOf(61),
		}}, nil
	}
	n.lnd.onNodeInfo = func(_ context.Context, k route.Vertex, _ bool) (
		*lndclient.NodeInfo, error) {

		return &lndclient.NodeInfo{
			Node: &lndclient.Node{PubKey: k}, ChannelCount: 2,
			Channels: []lndclient.ChannelEdge{{ChannelID: 1}, {ChannelID: 2}},
		}, nil
	}
}

// c18Daemon has the scenarios with whole daemons, in builds that have them.
var c18Daemon func(thorough bool) []*rt.Scenario

// goodOffer is a well formed offer string.
func goodOffer() string {
	if cachedOffer == "" {
		cachedOffer = bech32Offer("lno", mkStream(offerMsg.baseRecs()))
	}
	return cachedOffer
}

var cachedOffer string

// rpc makes one RPC with its context and returns the error.
func (n *rpcNode) rpc(ctx context.Context, kind string) error {
	switch kind {
	case "send":
		_, err := n.api.SendOnionMessage(ctx,
			&offersrpc.SendOnionMessageRequest{
				Pubkey: point(61), DirectConnect: true,
			})
		return err
	case "decode":
		_, err := n.api.DecodeOffer(ctx, &offersrpc.DecodeOfferRequest{
			Offer: goodOffer(),
		})
		return err
	case "generate":
		_, err := n.api.GenerateBlindedRoute(ctx,
			&offersrpc.GenerateBlindedRouteRequest{})
		return err
	default:
		st := newFakeStream(n.x)
		st.ctx = ctx
		return n.api.SubscribeOnionPayload(
			&offersrpc.SubscribeOnionPayloadRequest{TlvType: n.rpcType},
			st,
		)
	}
}

func (n *rpcNode) infoMode(mode string) {
	if n.infoErr == nil {
		n.infoErr = errInfo
	}
	id := n.lnd.id
	n.lnd.onGetInfo = func(ctx context.Context) (*lndclient.Info, error) {
		switch mode {
		case "fails":
			return nil, n.infoErr
		case "bad key":
			return &lndclient.Info{}, nil
		case "slow":
			if rt.Select(false, rt.CaseRecv(rt.After(5*time.Second)),
				rt.CaseRecv(ctx.Done())) == 1 {

				return nil, ctx.Err()
			}
		case "hangs":
			rt.Recv(ctx.Done())
			return nil, ctx.Err()
		}
		return &lndclient.Info{IdentityPubkey: id}, nil
	}
}

type serverProg struct {
	starts, stops int
	info          string
	rpcs          []string
	cancel        bool
}

func (p *serverProg) String() string {
	return fmt.Sprintf("starts %v, stops %v, lnd %v, rpcs %v, cancel %v",
		p.starts, p.stops, p.info, p.rpcs, p.cancel)
}

func (p *serverProg) run(x *rt.Exec) {
	count(x)
	n := newRPCNode(x, usKey)
	n.prepare()
	n.infoMode(p.info)
	canStart := p.info == "ok" || p.info == "slow"

	var (
		started, startErrs, stopped, stopErrs int
		stopping, cancelled, starting         bool
		over                                  bool
		main, rpcs, cs                        []*rt.Thread
	)
	n.lnd.beforeCalls = func(what string) {
		if over && what != "peers" && what != "send" &&
			what != "channels" && what != "nodeinfo" {

			x.Failf("activity after stop: %v: %v", p, what)
		}
	}
	// No promise is made before all starts and a stop have returned.
	done := func() {
		over = started+startErrs == p.starts && stopped > 0 &&
			stopped+stopErrs == p.stops
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	results := make([]string, len(p.rpcs))
	for i, k := range p.rpcs {
		i, k := i, k
		rpcs = append(rpcs, x.Go("rpc "+k, func() {
			readyBefore := started > 0 && !stopping
			err := n.rpc(ctx, k)
			results[i] = codeOf(err)
			served := true
			switch code(err) {
			case codes.Unavailable:
				served = false
				if !cancelled && !stopping {
					x.Failf("not waited: %v: %v: %v", p, k,
						err)
				}
				if k != "subscribe" && readyBefore {
					x.Failf("unavailable while ready: %v: %v",
						p, err)
				}
			case codes.OK:
			case codes.Aborted:
				if !stopping {
					x.Failf("aborted while running: %v: %v",
						p, k)
				}
				served = false
			default:
				served = false
				if !cancelled && !stopping {
					x.Failf("failed: %v: %v: %v", p, k, err)
				}
			}
			if served && (!canStart || !starting) {
				x.Failf("served without startup: %v: %v: %v", p,
					k, err)
			}
		}))
	}
	for i := 0; i < p.starts; i++ {
		main = append(main, x.Go("starter", func() {
			starting = true
			err := n.s.Start(n.services)
			if err == nil {
				started++
				if !canStart {
					x.Failf("started without lnd: %v", p)
				}
			} else {
				startErrs++
			}
			done()
		}))
	}
	for i := 0; i < p.stops; i++ {
		main = append(main, x.Go("stopper", func() {
			stopping = true
			if err := n.s.Stop(); err == nil {
				stopped++
			} else {
				stopErrs++
			}
			done()
		}))
	}
	if p.cancel {
		cs = append(cs, x.Go("canceller", func() {
			x.Yield("cancel")
			cancelled = true
			cancel()
		}))
	}
	x.Join(main...)
	x.Join(cs...)
	x.Quiesce()
	switch {
	case started > 1, started == 0 && canStart && p.starts > 0 && p.stops == 0:
		x.Failf("wrong number of successful starts: %v: %v", p, started)
	case p.stops > 0 && stopped != 1:
		x.Failf("wrong number of successful stops: %v: %v", p, stopped)
	}
	for i, k := range p.rpcs {
		switch {
		case started == 0 && p.stops == 0 && !cancelled && rpcs[i].Done():
			x.Failf("not waited: %v: %v: %v", p, k, results[i])
		case started == 1 && p.stops == 0 && k != "subscribe" &&
			!rpcs[i].Done():

			x.Failf("not served: %v: %v: %v", p, k,
				rpcs[i].BlockedAt())
		}
	}
	if p.stops == 0 {
		stopping = true
		if err := n.s.Stop(); err != nil {
			x.Failf("stop: %v: %v", p, err)
		}
		over = true
		if n.s.Stop() == nil {
			x.Failf("stopped twice: %v", p)
		}
	}
	if p.starts == 0 {
		over = false
	}
	if n.s.Start(n.services) == nil && p.starts > 0 {
		x.Failf("started twice: %v", p)
	}
	x.Quiesce()
	over = true
	cancelled = true
	cancel()
	x.Join(rpcs...)
	x.Quiesce()
	if n.lnd.subCtx != nil && n.lnd.subCtx.Err() == nil {
		x.Failf("messenger running after start and stop: %v", p)
	}
	if len(n.shutdowns) > 0 {
		x.Failf("shutdown requested: %v: %v", p, n.shutdowns)
	}
	x.Outcome("%v: started %v %v", p, started, results)
}

func c18History(x *rt.Exec, first, depth int) {
	count(x)
	n := newRPCNode(x, usKey)
	n.prepare()
	calls := []string{"start", "start refused", "stop", "send", "decode",
		"generate", "subscribe"}
	var tried, up, stopped bool
	var log []string
	for i := 0; i < depth; i++ {
		k := first
		if i > 0 {
			k = x.Choose(len(calls), "call")
		}
		c := calls[k]
		log = append(log, c)
		switch c {
		case "start", "start refused":
			n.infoMode("ok")
			if c != "start" {
				n.infoMode("fails")
			}
			err := n.s.Start(n.services)
			if !tried && c == "start" && !stopped {
				up = true
				if err != nil {
					x.Failf("start failed: %v: %v", log, err)
				}
			} else if err == nil {
				x.Failf("start worked: %v", log)
			}
			if !tried && c != "start" && !errors.Is(err, errInfo) {
				x.Failf("start failed differently: %v: %v", log,
					err)
			}
			tried = true
			x.Quiesce()
		case "stop":
			err := n.s.Stop()
			if (err == nil) == stopped {
				x.Failf("wrong result of stop: %v: %v", log, err)
			}
			stopped = true
		default:
			ctx, cancel := context.WithCancel(context.Background())
			var err error
			t := x.Go("rpc", func() { err = n.rpc(ctx, c) })
			x.Quiesce()
			now := t.Done()
			cancel()
			x.Join(t)
			got := codeOf(err)
			want := []string{"OK", "ok"}
			wait := false
			switch {
			case !up:
				want = []string{"Unavailable"}
				wait = !stopped
				if stopped {
					want = append(want, "Aborted")
				}
			case c == "subscribe" && !stopped:
				want = []string{"Canceled"}
				wait = true
			case c == "subscribe":
				want = []string{"Aborted", "Unavailable"}
			case stopped:
				// Not specified, but it returns.
				want = []string{got}
			}
			ok := false
			for _, w := range want {
				ok = ok || w == got
			}
			if !ok {
				x.Failf("wrong result: %v: %v, want %v", log,
					err, want)
			}
			if wait && now {
				x.Failf("not waited: %v: %v", log, err)
			}
			if !wait && !now && up {
				x.Failf("not served: %v: %v", log, err)
			}
		}
		running := up && !stopped
		if got := n.lnd.subCtx != nil && n.lnd.subCtx.Err() == nil; got !=
			running {

			x.Failf("messenger in the wrong state: %v: %v", log, got)
		}
	}
	x.Outcome("%v", log)
	x.Count("distinct")
	if !stopped {
		if err := n.s.Stop(); err != nil {
			x.Failf("stop: %v: %v", log, err)
		}
	}
}

// c18Noise starts the server and makes RPCs while lnd reports noise.
func c18Noise(x *rt.Exec, nz *lndNoise) {
	count(x)
	n := newRPCNode(x, usKey)
	n.prepare()
	n.lnd.noise = nz
	if err := n.s.Start(n.services); err != nil {
		x.Failf("start failed: %v: %v", nz, err)
	}
	x.Quiesce()
	for _, c := range []string{"send", "decode", "generate"} {
		if err := n.rpc(context.Background(), c); err != nil {
			x.Failf("not served: %v: %v: %v", c, nz, err)
		}
	}
	x.Count("distinct")
	if err := n.s.Stop(); err != nil {
		x.Failf("stop: %v: %v", nz, err)
	}
}

func c18Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	depth := 4
	opt := rt.Options{Bound: 2, SwitchCost: 1, SelectCost: 1,
		NoTimerPreempt: true}
	if thorough {
		depth = 5
		opt.Bound = 3
	}
	// It makes no difference what lnd fails with.
	eachError(func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f,
			Opt: rt.Options{Horizon: 1 << 40}})
	}, "errors", 1, zooNotFound, func(x *rt.Exec, e error) {
		for _, c := range []string{"send", "decode", "generate", "subscribe"} {
			count(x)
			n := newRPCNode(x, usKey)
			n.prepare()
			n.infoErr = e
			n.infoMode("fails")
			if err := n.s.Start(n.services); !failsWith(err, e) {
				x.Failf("start failed differently: %T(%v): %v", e,
					e, err)
			}
			n.infoMode("ok")
			if n.s.Start(n.services) == nil {
				x.Failf("start worked: after failure with %T(%v)",
					e, e)
			}
			ctx, cancel := context.WithCancel(context.Background())
			var err error
			t := x.Go("rpc", func() { err = n.rpc(ctx, c) })
			x.Quiesce()
			if t.Done() {
				x.Failf("not waited: after failure with %T(%v): "+
					"%v", e, e, err)
			}
			cancel()
			x.Join(t)
			if code(err) != codes.Unavailable {
				x.Failf("wrong result: after failure with %T(%v)"+
					": %v", e, e, err)
			}
			if n.lnd.subs > 0 {
				x.Failf("messenger in the wrong state: after "+
					"failure with %T(%v)", e, e)
			}
			if err := n.s.Stop(); err != nil {
				x.Failf("stop: %v", err)
			}
			x.Count("distinct")
		}
	})
	// Nor does it make one what else lnd reports about its node.
	out = append(out, &rt.Scenario{Name: "noise",
		Opt: rt.Options{Horizon: 1 << 40}, Body: func(x *rt.Exec) {

			for _, nz := range infoNoise() {
				c18Noise(x, nz)
			}
		}})
	for _, info := range []string{"ok", "fails", "slow", "hangs", "bad key"} {
		for starts := 0; starts <= 2; starts++ {
			for stops := 0; stops <= 2; stops++ {
				if starts == 0 && info != "ok" {
					continue
				}
				for i := -1; i <= len(rpcKinds); i++ {
					p := &serverProg{starts: starts,
						stops: stops, info: info}
					switch {
					case i == len(rpcKinds):
						p.rpcs = []string{"send", "subscribe"}
					case i >= 0:
						p.rpcs = rpcKinds[i : i+1]
					}
					ps := []*serverProg{p}
					if i >= 0 {
						q := *p
						q.cancel = true
						ps = append(ps, &q)
					}
					for _, p := range ps {
						out = append(out, &rt.Scenario{
							Name: "concurrent/" + p.String(),
							Opt:  opt, Body: p.run,
						})
					}
				}
			}
		}
	}
	split(func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f})
	}, "history", 7, func(x *rt.Exec, part int) {
		c18History(x, part, depth)
	})
	if c18Daemon != nil {
		out = append(out, c18Daemon(thorough)...)
	}
	out = append(append(out, c18Long()...), append(c18Idle(), c18Stuck()...)...)
	return append(out, togetherWith(thorough, "decode bad", "refused")...)
}
