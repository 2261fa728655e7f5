//go:build daemon

package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/carlakc/boltnd"
	rt "github.com/carlakc/boltnd/verifrt"
	"google.golang.org/grpc"
	"gopkg.in/macaroon-bakery.v2/bakery"
)

func init() {
	register(&prop{
		id:        "C23",
		rule:      "one method or permission entry in one state of the daemon; non-trivial: distinct methods",
		bounds:    "every method of every service registered with a gRPC server by every kind of instance, every permission entry, before and after start and stop; every way of calling the RPCs for what they make the node send",
		scenarios: c23Scenarios,
	})
}

// What lnd's macaroons can hold.
var (
	macEntities = words("onchain offchain address message peers info " +
		"invoices signer macaroon")
	macActions = words("read write generate")
)

func words(s string) map[string]bool {
	out := map[string]bool{}
	for _, w := range strings.Fields(s) {
		out[w] = true
	}
	return out
}

// methods are the full names of what the instance registers.
func (d *daemon) methods() []string {
	s := grpc.NewServer()
	if err := d.b.RegisterGrpcSubserver(s); err != nil {
		d.x.Failf("register: %v", err)
	}
	var out []string
	for name, info := range s.GetServiceInfo() {
		for _, m := range info.Methods {
			out = append(out, fmt.Sprintf("/%v/%v", name, m.Name))
		}
	}
	sort.Strings(out)
	return out
}

func textPerms(p map[string][]bakery.Op) string {
	var out []string
	for m, ops := range p {
		out = append(out, fmt.Sprint(m, ops))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func c23Check(d *daemon, state string) string {
	x := d.x
	perms := d.b.Permissions()
	ms := d.methods()
	if len(ms) == 0 {
		x.Failf("no methods: registered")
	}
	known := map[string]bool{}
	for _, m := range ms {
		count(x)
		x.Distinct("%v %v", state, m)
		known[m] = true
		if len(perms[m]) == 0 {
			x.Failf("no permission: %v: %v", state, m)
		}
	}
	for m, ops := range perms {
		count(x)
		if !known[m] {
			x.Failf("permission for an unknown method: %v: %v", state, m)
		}
		for _, op := range ops {
			if !macEntities[op.Entity] || !macActions[op.Action] {
				x.Failf("permission that lnd does not know: %v: %v %v",
					state, m, op)
			}
		}
	}
	return textPerms(perms)
}

func c23Scenarios(thorough bool) []*rt.Scenario {
	instances := map[string][]boltnd.ConfigOption{
		"default":  nil,
		"shutdown": {boltnd.OptionRequestShutdown(func() {})},
		"no retry": {func(c *boltnd.Config) error {
			c.LNDRetires = 0
			return nil
		}},
	}
	var out []*rt.Scenario
	for name, opts := range instances {
		opts := opts
		out = append(out, &rt.Scenario{
			Name: "table/" + name, Body: func(x *rt.Exec) {
				d := newDaemon(x)
				d.create(opts...)
				p := c23Check(d, "new")
				if err := d.b.Start(); err != nil {
					x.Failf("start: %v", err)
				}
				if c23Check(d, "started") != p {
					x.Failf("permissions change: at start")
				}
				if err := d.b.Stop(); err != nil {
					x.Failf("stop: %v", err)
				}
				if c23Check(d, "stopped") != p {
					x.Failf("permissions change: at stop")
				}
			},
		})
	}
	// Whatever makes the node send needs a permission to write.
	names := map[string]string{
		"send": "SendOnionMessage", "decode": "DecodeOffer",
		"generate":  "GenerateBlindedRoute",
		"subscribe": "SubscribeOnionPayload",
	}
	for kind, m := range names {
		kind, m := kind, "/offersrpc.Offers/"+m
		out = append(out, &rt.Scenario{
			Name: "effect/" + kind, Body: func(x *rt.Exec) {
				count(x)
				d := newDaemon(x)
				d.create()
				n := d.node
				if err := d.b.Start(); err != nil {
					x.Failf("start: %v", err)
				}
				n.lnd.waitSub()
				ctx, cancel := context.WithCancel(context.Background())
				t := x.Go("rpc", func() { n.rpc(ctx, kind) })
				x.Quiesce()
				cancel()
				x.Join(t)
				effects := len(n.lnd.called("send")) +
					len(n.lnd.called("connect"))
				if kind == "send" && effects == 0 {
					x.Failf("nothing sent: %v", m)
				}
				write := false
				for _, op := range d.b.Permissions()[m] {
					write = write || op.Action == "write"
				}
				if effects > 0 && !write {
					x.Failf("no write permission: %v sends", m)
				}
				x.Distinct("%v has %d effects", m, effects)
				if err := d.b.Stop(); err != nil {
					x.Failf("stop: %v", err)
				}
			},
		})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}
