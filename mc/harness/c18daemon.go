//go:build daemon

package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/carlakc/boltnd"
	"github.com/carlakc/boltnd/offersrpc"
	rt "github.com/carlakc/boltnd/verifrt"
	"google.golang.org/grpc/codes"
)

func init() { c18Daemon = c18DaemonScenarios }

// c18Calls makes each RPC through what a daemon registered.
func c18Calls(d *daemon, ctx context.Context, kind string, got *string) {
	n := d.node
	note := func(format string, args ...interface{}) {
		*got = fmt.Sprintf(format, args...)
	}
	switch kind {
	case "send":
		sent := len(n.lnd.sent)
		_, err := n.api.SendOnionMessage(ctx,
			&offersrpc.SendOnionMessageRequest{
				Pubkey: point(61), DirectConnect: true,
			})
		note("%v %v", codeOf(err), len(n.lnd.sent)-sent)
	case "decode":
		r, err := n.api.DecodeOffer(ctx, &offersrpc.DecodeOfferRequest{
			Offer: goodOffer(),
		})
		note("%v %v", codeOf(err), r.GetOffer().GetDescription() != "")
	case "generate":
		r, err := n.api.GenerateBlindedRoute(ctx,
			&offersrpc.GenerateBlindedRouteRequest{})
		note("%v %x", codeOf(err), r.GetRoute().GetIntroductionNode())
	default:
		st := newFakeStream(d.x)
		st.ctx = ctx
		err := n.api.SubscribeOnionPayload(
			&offersrpc.SubscribeOnionPayloadRequest{TlvType: n.rpcType},
			st,
		)
		note("%v", codeOf(err))
	}
}

var c18Served = map[string]string{
	"send": "ok 1", "decode": "ok true",
	"generate": fmt.Sprintf("ok %x", point(61)), "subscribe": "Canceled",
}

// c18DaemonScenarios make RPCs of a daemon, as a gRPC server does.
func c18DaemonScenarios(thorough bool) []*rt.Scenario {
	opt := rt.Options{Bound: 2, SwitchCost: 1, SelectCost: 1,
		NoTimerPreempt: true}
	if thorough {
		opt.Bound = 3
	}
	var out []*rt.Scenario
	for _, kind := range rpcKinds {
		for _, info := range []string{"ok", "slow", "second", "fails", "refused"} {
			for _, others := range []bool{false, true} {
				kind, info, others := kind, info, others
				name := fmt.Sprintf("daemon/%v/%v/%v", kind, info, others)
				body := func(x *rt.Exec) {
					c18Daemons(x, kind, info, others)
				}
				out = append(out, &rt.Scenario{Name: name, Opt: opt,
					Body: body})
			}
		}
	}
	return out
}

func c18Daemons(x *rt.Exec, kind, info string, others bool) {
	count(x)
	x.Count("distinct")
	what := fmt.Sprintf("%v, lnd %v", kind, info)
	p := &daemonProg{conn: "made", info: info, closure: "given"}
	switch info {
	case "refused", "second":
		p.conn, p.info = info, "ok"
	case "slow":
		p.conn = info
	}
	works := info != "fails" && info != "refused"
	d := p.setup(x)
	if others {
		// Another instance that is not started.
		if _, err := boltnd.NewBoltnd(); err != nil {
			x.Failf("another instance: %v", err)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	var got string
	early := x.Go("rpc", func() {
		c18Calls(d, ctx, kind, &got)
	})
	starter := x.Go("starter", func() {
		if err := d.b.Start(); (err == nil) != works {
			x.Failf("wrong result of start: %v: %v", what, err)
		}
	})
	x.Join(starter)
	x.Quiesce()
	wait := kind == "subscribe" || !works
	if early.Done() == wait {
		x.Failf("not served: %v: made during startup: %v %v", what, wait,
			got)
	}
	cancel()
	x.Join(early)
	want := c18Served[kind]
	if works && got != want {
		x.Failf("not served: %v: %v, not %v", what, got, want)
	}
	if !works && !strings.HasPrefix(got, codes.Unavailable.String()) {
		x.Failf("not unavailable: %v: %v", what, got)
	}
	if works {
		// And once more.
		ctx, cancel := context.WithCancel(context.Background())
		late := x.Go("rpc", func() {
			c18Calls(d, ctx, kind, &got)
		})
		x.Quiesce()
		if late.Done() == wait {
			x.Failf("not served: %v: after startup: %v", what, got)
		}
		cancel()
		x.Join(late)
		if got != want {
			x.Failf("not served: %v: %v, not %v", what, got, want)
		}
	}
	if err := d.b.Stop(); err != nil {
		x.Failf("stop failed: %v: %v", what, err)
	}
	x.QuiesceTimers()
	d.released(history{what})
	x.Outcome("%v", got)
}
