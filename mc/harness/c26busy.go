//go:build daemon

package main

import (
	"context"
	"fmt"
	"time"

	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/routing/route"
)

// c26Idle has daemons for which everything takes its time.
func c26Idle() []*rt.Scenario {
	run := func(x *rt.Exec, wait time.Duration, closure, end string) {
		count(x)
		x.Count("distinct")
		what := history{fmt.Sprintf("everything takes %v", wait), closure, end}
		d := newDaemon(x)
		d.node.lnd.onGetInfo = nil
		p := &daemonProg{conn: "made", info: "ok", closure: closure}
		p.setupOn(d)
		d.onConnect = func(n int) error {
			rt.Sleep(wait)
			if n == 0 {
				return attemptError(n)
			}
			return nil
		}
		running := 0
		d.onRequest = func() {
			running++
			rt.Sleep(wait)
			running--
		}
		if err := d.b.Start(); err != nil {
			x.Failf("start failed: %v: %v", what, err)
		}
		x.Quiesce()
		rt.Sleep(wait)
		want := 0
		if end != "stop" {
			d.breakStream(end)
			if closure == "given" {
				want = 1
			}
			x.Quiesce()
		}
		// Before, or after, the closure has returned.
		for i := 0; i < 2; i++ {
			if d.requested != want {
				x.Failf("wrong shutdown requests: %v: %v", what,
					d.requested)
			}
			for _, n := range d.closed {
				if n != 0 {
					x.Failf("connection closed: %v: by itself",
						what)
				}
			}
			rt.Sleep(wait)
		}
		if err := d.b.Stop(); err != nil {
			x.Failf("stop failed: %v: %v", what, err)
		}
		rt.Sleep(wait)
		x.QuiesceTimers()
		if d.requested != want || running != 0 {
			x.Failf("wrong shutdown requests: %v: %v after stop", what,
				d.requested)
		}
		if d.b.Stop() == nil || d.b.Start() == nil {
			x.Failf("started or stopped again: %v", what)
		}
		d.released(what)
	}
	return []*rt.Scenario{longScenario("idle", func(x *rt.Exec) {
		for _, wait := range longWaits {
			for _, closure := range []string{"none", "given"} {
				for _, end := range []string{"stop", "error", "ends"} {
					run(x, wait, closure, end)
				}
			}
		}
	})}
}

// busyDaemon is what a daemon is busy with when it ends.
var busyDaemon = []string{
	"subscription", "message", "forward", "slow forward", "send", "connect",
	"generate", "decode",
}

// c26Busy ends a daemon while it is busy.
func c26Busy(thorough bool) []*rt.Scenario {
	opt := rt.Options{Bound: 1, SwitchCost: 1, SelectCost: 1,
		NoTimerPreempt: true}
	if thorough {
		opt.Bound = 2
	}
	var out []*rt.Scenario
	for _, busy := range busyDaemon {
		for _, end := range []string{"stop", "error", "ends"} {
			for _, closure := range []string{"none", "given", "stops"} {
				for _, stmts := range []bool{false, true} {
					busy, end, closure := busy, end, closure
					o := opt
					if !stmts {
						o.Bound++
					}
					o.StmtPoints = stmts
					if end == "stop" && closure == "stops" {
						continue
					}
					out = append(out, &rt.Scenario{
						Name: fmt.Sprintf("busy/%v/%v/%v/%v",
							busy, end, closure, stmts),
						Opt: o, Body: func(x *rt.Exec) {
							endBusy(x, busy, end, closure)
						},
					})
				}
			}
		}
	}
	return out
}

func endBusy(x *rt.Exec, busy, end, closure string) {
	count(x)
	x.Count("distinct")
	what := history{busy, end, closure}
	p := &daemonProg{conn: "made", info: "ok", closure: closure}
	d := newDaemon(x)
	p.setupOn(d)
	stops, stopped := 0, 0
	stop := func() {
		stops++
		if d.b.Stop() == nil {
			stopped++
		}
	}
	if closure == "stops" {
		d.onRequest = func() { x.Go("shutdown", stop) }
	}
	l := d.node.lnd
	if busy == "forward" || busy == "slow forward" {
		l.onSend = func(ctx context.Context, m lndclient.CustomMessage) error {
			if busy == "forward" {
				return nil
			}
			// lnd does not answer: lndclient gives up.
			rt.Select(false, rt.CaseRecv(ctx.Done()),
				rt.CaseRecv(l.goneChan),
				rt.CaseRecv(rt.After(30*second)))
			return context.DeadlineExceeded
		}
	}
	if err := d.b.Start(); err != nil {
		x.Failf("start failed: %v: %v", what, err)
	}
	x.Quiesce()
	msg := func(name string, f func() []byte) {
		l.push(l.onion(busyMsg("daemon/"+name, 0, f)), nil)
	}
	received := func() []byte {
		return toUs(34400, usKey, mkStream(map[uint64][]byte{64: {1, 2}}))
	}
	forwarded := func() []byte {
		return fwdOnion(34401, dataShape{data: nextNode(62, nil)}, nil, nil,
			false)
	}
	ctx, cancel := context.WithCancel(context.Background())
	var ts []*rt.Thread
	var rpcErr error
	kind := map[string]string{"send": "send", "connect": "send",
		"generate": "generate", "decode": "decode",
		"subscription": "subscribe", "message": "subscribe"}[busy]
	if busy == "connect" {
		l.onPeers = func(context.Context) ([]lndclient.Peer, error) {
			return nil, nil
		}
		l.onNodeInfo = func(_ context.Context, k route.Vertex, _ bool) (
			*lndclient.NodeInfo, error) {

			return &lndclient.NodeInfo{Node: &lndclient.Node{
				PubKey: k, Addresses: []string{"a:1"},
			}}, nil
		}
		l.onConnect = func(context.Context, route.Vertex, string,
			bool) error {

			return nil
		}
	}
	begin := func() {
		ts = append(ts, x.Go("rpc", func() {
			rpcErr = d.node.rpc(ctx, kind)
		}))
	}
	if kind == "subscribe" {
		begin()
		x.Quiesce()
	}
	var arrives func()
	switch busy {
	case "subscription":
	case "message":
		arrives = func() { msg("message", received) }
	case "forward", "slow forward":
		arrives = func() { msg("forward", forwarded) }
	default:
		begin()
	}
	if end == "stop" {
		ts = append(ts, x.Go("stopper", stop))
	}
	if end != "stop" || arrives != nil {
		// lndclient hands on messages and failures in one goroutine.
		ts = append(ts, x.Go("stream", func() {
			if arrives != nil {
				arrives()
			}
			if end != "stop" {
				d.breakStream(end)
			}
		}))
	}
	x.QuiesceTimers()
	want := 0
	if end != "stop" && closure != "none" {
		want = 1
	}
	if d.requested > want || d.requested < want {
		x.Failf("wrong shutdown requests: %v: %v", what, d.requested)
	}
	if stops == 0 {
		stop()
	}
	x.QuiesceTimers()
	if stopped != 1 || stops != 1 {
		x.Failf("stop failed: %v: %v of %v", what, stopped, stops)
	}
	if kind == "subscribe" && !ts[0].Done() {
		x.Failf("subscription goes on: %v", what)
	}
	if d.requested > want {
		x.Failf("shutdown requested by stop: %v", what)
	}
	cancel()
	x.Join(ts...)
	x.QuiesceTimers()
	d.released(what)
	x.Outcome("%v %v", d.requested, codeOf(rpcErr))
}
