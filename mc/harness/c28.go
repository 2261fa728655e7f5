//go:build daemon

package main

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"strings"

	"github.com/carlakc/boltnd"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"gopkg.in/macaroon-bakery.v2/bakery"
)

func init() {
	register(&prop{
		id:   "C28",
		rule: "one call with one set of metadata and one answer from lnd; non-trivial: calls that lnd is asked about",
		bounds: "every method x 16 kinds of metadata (none, other, one macaroon of 4 contents, in capitals, empty, odd, not hex, two, two the same) x 5 answers of lnd x 4 sets of permissions x daemon not started, starting, started, failed and stopped; " +
			"calls made during startup and given up, every interleaving with at most 2 (thorough: 3) deviations" +
			"; lnd failing with each of 50 errors; two calls at the same time, of which lnd accepts one, interleaved at every statement with at most 1 preemption",
		assumptions: []string{"lnd consults the validator for every method that the permissions list, as lnd's interceptor does, and for nothing else"},
		scenarios:   c28Scenarios,
	})
}

// macCall is what lnd was asked.
type macCall struct {
	mac    string
	perms  string
	method string
}

// macLnd is lnd's side of macaroon validation.
type macLnd struct {
	*fakeLnd
	asked  []macCall
	answer func(ctx context.Context) (bool, error)
	// judge answers instead, if it is set, according to the question.
	judge func(ctx context.Context, c macCall) (bool, error)
}

func (l *macLnd) CheckMacaroonPermissions(ctx context.Context, mac []byte,
	perms []lndclient.MacaroonPermission, method string) (bool, error) {

	if err := l.enter(ctx, "macaroon", "%x", mac); err != nil {
		return false, err
	}
	var ps []string
	for _, p := range perms {
		ps = append(ps, p.Entity+":"+p.Action)
	}
	c := macCall{string(mac), strings.Join(ps, ","), method}
	l.asked = append(l.asked, c)
	if l.judge != nil {
		rt.Point("lnd judges")
		return l.judge(ctx, c)
	}
	return l.answer(ctx)
}

type macMeta struct {
	name string
	md   metadata.MD
	// mac is the macaroon, ok says whether there is exactly one.
	mac string
	ok  verdict
}

func macMetas() []macMeta {
	mac := fill(40, 3)
	h := hex.EncodeToString(mac)
	m := func(kv ...string) metadata.MD { return metadata.Pairs(kv...) }
	return []macMeta{
		{"none", nil, "", reject},
		{"empty", metadata.MD{}, "", reject},
		{"other", m("authorization", h), "", reject},
		{"other names", m("macaroons", h, "xmacaroon", h), "", reject},
		{"good", m("macaroon", h), string(mac), accept},
		{"good among others", m("a", "b", "macaroon", h, "z", h),
			string(mac), accept},
		{"short", m("macaroon", "00"), "\x00", accept},
		{"long", m("macaroon", hex.EncodeToString(fill(3000, 5))),
			string(fill(3000, 5)), accept},
		{"capitals", m("Macaroon", strings.ToUpper(h)), string(mac), accept},
		{"odd", m("macaroon", h[1:]), "", reject},
		{"not hex", m("macaroon", "zz"+h), "", reject},
		{"raw", m("macaroon", string(mac)), "", reject},
		{"spaces", m("macaroon", " "+h), "", reject},
		{"two", m("macaroon", h, "macaroon", "00"), "", reject},
		{"two the same", m("macaroon", h, "macaroon", h), "", reject},
		{"no content", m("macaroon", ""), "", dontcare},
	}
}

type macAnswer struct {
	name  string
	valid bool
	err   error
}

var errMac = errors.New("lnd does not know the macaroon")

var macAnswers = []macAnswer{
	{"valid", true, nil},
	{"invalid", false, nil},
	{"refused", false, status.Error(codes.InvalidArgument, "bad macaroon")},
	{"error", false, errMac},
	{"valid with error", true, errMac},
}

func withMeta(ctx context.Context, md metadata.MD) context.Context {
	if md == nil {
		return ctx
	}
	return metadata.NewIncomingContext(ctx, md)
}

// macDaemon is a daemon whose lnd answers about macaroons.
func macDaemon(x *rt.Exec) (*daemon, *macLnd) {
	d := newDaemon(x)
	l := &macLnd{fakeLnd: d.node.lnd}
	d.node.services.Client = l
	d.create(func(c *boltnd.Config) error {
		c.LNDRetires = 0
		return nil
	})
	return d, l
}

func (d *daemon) checkMac(l *macLnd, m macMeta, a macAnswer, method string,
	ops []bakery.Op) {

	x := d.x
	count(x)
	what := fmt.Sprintf("%v, macaroon %v, lnd %v, permissions %v", method,
		m.name, a.name, ops)
	l.asked = nil
	l.answer = func(context.Context) (bool, error) { return a.valid, a.err }
	given := append([]bakery.Op{}, ops...)
	err := d.b.ValidateMacaroon(withMeta(context.Background(), m.md), given,
		method)
	allow := m.ok != reject && a.valid && a.err == nil
	if err == nil && !allow {
		x.Failf("authorised: %v", what)
	}
	if err == nil && len(l.asked) == 0 {
		x.Failf("authorised without asking lnd: %v", what)
	}
	if err != nil && allow && m.ok == accept {
		x.Failf("refused: %v: %v", what, err)
	}
	var ps []string
	for _, o := range ops {
		ps = append(ps, o.Entity+":"+o.Action)
	}
	want := macCall{m.mac, strings.Join(ps, ","), method}
	for _, c := range l.asked {
		x.Count("distinct")
		if c != want {
			x.Failf("lnd asked about something else: %v: %+v, not %+v",
				what, c, want)
		}
	}
}

func c28Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(x *rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f,
			Opt: rt.Options{Horizon: 1 << 40}})
	}
	add("running", func(x *rt.Exec) {
		d, l := macDaemon(x)
		ms := d.methods()
		if err := d.b.Start(); err != nil {
			x.Failf("start: %v", err)
		}
		for _, method := range ms {
			opss := [][]bakery.Op{
				d.b.Permissions()[method],
				{{Entity: "a", Action: "b"}},
				{{Entity: "peers", Action: "write"},
					{Entity: "offchain", Action: "read"},
					{Entity: "info", Action: "read"}},
				{},
			}
			for _, ops := range opss {
				for _, m := range macMetas() {
					for _, a := range macAnswers {
						d.checkMac(l, m, a, method, ops)
					}
				}
			}
		}
		// Answers are not remembered.
		for i := 0; i < 16; i++ {
			a := macAnswers[i%2]
			if i >= 8 {
				a = macAnswers[i/2%2]
			}
			d.checkMac(l, macMetas()[4], a, ms[i/4%len(ms)], nil)
		}
		if err := d.b.Stop(); err != nil {
			x.Failf("stop: %v", err)
		}
	})
	// It makes no difference why lnd does not answer.
	eachError(add, "errors", 1, zooNotFound, func(x *rt.Exec, e error) {
		d, l := macDaemon(x)
		ms := d.methods()
		if err := d.b.Start(); err != nil {
			x.Failf("start: %v", err)
		}
		for _, method := range ms {
			for _, valid := range []bool{false, true} {
				for _, m := range macMetas() {
					d.checkMac(l, m, macAnswer{
						fmt.Sprintf("fails with %T(%v)", e, e),
						valid, e,
					}, method, d.b.Permissions()[method])
				}
				// And then it does.
				d.checkMac(l, macMetas()[4], macAnswers[0], method,
					d.b.Permissions()[method])
			}
		}
		if err := d.b.Stop(); err != nil {
			x.Failf("stop: %v", err)
		}
	})
	// Without lnd nothing is authorised.
	for _, state := range []string{"new", "refused", "failed", "stopped"} {
		state := state
		add("state/"+state, func(x *rt.Exec) {
			d, l := macDaemon(x)
			switch state {
			case "refused":
				d.onConnect = func(int) error { return errMac }
				if d.b.Start() == nil {
					x.Failf("started: without lnd")
				}
			case "failed":
				d.node.infoMode("fails")
				if d.b.Start() == nil {
					x.Failf("started: without lnd")
				}
			case "stopped":
				if err := d.b.Stop(); err != nil {
					x.Failf("stop: %v", err)
				}
			}
			for _, m := range macMetas() {
				for _, a := range macAnswers {
					count(x)
					a := a
					l.answer = func(context.Context) (bool, error) {
						return a.valid, a.err
					}
					l.asked = nil
					ctx, cancel := context.WithCancel(
						context.Background())
					var err error
					t := x.Go("call", func() {
						err = d.b.ValidateMacaroon(
							withMeta(ctx, m.md), nil,
							"/offersrpc.Offers/DecodeOffer")
					})
					x.Quiesce()
					cancel()
					x.Join(t)
					if err == nil && (m.ok == reject || !a.valid ||
						a.err != nil || len(l.asked) == 0) {

						x.Failf("authorised: %v, macaroon %v, "+
							"lnd %v", state, m.name, a.name)
					}
					if err == nil && state != "stopped" {
						x.Failf("authorised without lnd: %v",
							state)
					}
					x.Count("distinct")
				}
			}
			if state != "stopped" {
				if err := d.b.Stop(); err != nil {
					x.Failf("stop: %v", err)
				}
			}
		})
	}
	opt := rt.Options{Bound: 2, SwitchCost: 1, SelectCost: 1,
		NoTimerPreempt: true}
	if thorough {
		opt.Bound = 3
	}
	out = append(out, c28Together("", opt)...)
	stmts := opt
	stmts.Bound, stmts.StmtPoints = opt.Bound-1, true
	out = append(out, c28Together("/statements", stmts)...)
	out = append(out, c28Slow()...)
	for _, info := range []string{"ok", "slow", "fails", "hangs"} {
		for _, giveUp := range []bool{false, true} {
			for ai := range macAnswers[:3] {
				for _, mi := range []int{0, 4, 9} {
					info, giveUp := info, giveUp
					a, m := macAnswers[ai], macMetas()[mi]
					out = append(out, &rt.Scenario{
						Name: fmt.Sprintf("startup/lnd %v/%v/%v/%v",
							info, a.name, m.name, giveUp),
						Opt: opt, Body: func(x *rt.Exec) {
							c28Startup(x, info, giveUp, a, m)
						},
					})
				}
			}
		}
	}
	return out
}

// c28Startup makes a call while the daemon starts up.
func c28Startup(x *rt.Exec, info string, giveUp bool, a macAnswer, m macMeta) {
	count(x)
	d, l := macDaemon(x)
	d.node.infoMode(info)
	l.answer = func(context.Context) (bool, error) { return a.valid, a.err }
	ctx, cancel := context.WithCancel(context.Background())
	var err error
	cancelled := false
	call := x.Go("call", func() {
		err = d.b.ValidateMacaroon(withMeta(ctx, m.md), nil, "/m")
		ok := m.ok == accept && a.valid && a.err == nil
		if err == nil && !ok {
			x.Failf("authorised: during startup: %v, %v", m.name, a.name)
		}
		if err != nil && ok && !cancelled {
			x.Failf("refused: during startup: %v", err)
		}
		x.Outcome("%v", err == nil)
	})
	var ts []*rt.Thread
	ts = append(ts, x.Go("starter", func() {
		works := info == "ok" || info == "slow"
		if e := d.b.Start(); (e == nil) != works {
			x.Failf("start: %v", e)
		}
	}))
	if giveUp {
		ts = append(ts, x.Go("canceller", func() {
			x.Yield("cancel")
			cancelled = true
			cancel()
		}))
	}
	x.Join(ts...)
	x.Quiesce()
	if (info == "ok" || info == "slow") && !call.Done() {
		x.Failf("call waits: after startup: %v", call.BlockedAt())
	}
	cancelled = true
	cancel()
	x.Join(call)
	x.Count("distinct")
	if e := d.b.Stop(); e != nil {
		x.Failf("stop: %v", e)
	}
}

// macAsk is one call with what lnd knows about it.
type macAsk struct {
	mac    byte
	perm   string
	method string
}

func (a macAsk) call(d *daemon, ctx context.Context) error {
	ctx = metadata.NewIncomingContext(ctx, metadata.Pairs("macaroon",
		hex.EncodeToString(fill(40, a.mac))))
	return d.b.ValidateMacaroon(ctx, []bakery.Op{{Entity: a.perm,
		Action: "read"}}, a.method)
}

func (a macAsk) question() macCall {
	return macCall{string(fill(40, a.mac)), a.perm + ":read", a.method}
}

// macPairs are calls that differ in one respect, or not at all.
func macPairs() [][2]macAsk {
	a := macAsk{3, "offchain", "/offersrpc.Offers/DecodeOffer"}
	var out [][2]macAsk
	for _, b := range []macAsk{
		{4, a.perm, a.method}, {a.mac, "peers", a.method},
		{a.mac, a.perm, "/offersrpc.Offers/SendOnionMessage"}, a,
	} {
		out = append(out, [2]macAsk{a, b}, [2]macAsk{b, a})
	}
	return out
}

// c28Together makes two calls at the same time, one of which lnd accepts. The
// first may be given up.
func c28Together(suffix string, opt rt.Options) []*rt.Scenario {
	var out []*rt.Scenario
	for i, pair := range macPairs()[:7] {
		for _, give := range []bool{false, true} {
			pair, give, same := pair, give, i == 6
			body := func(x *rt.Exec) {
				count(x)
				d, l := macDaemon(x)
				if err := d.b.Start(); err != nil {
					x.Failf("start: %v", err)
				}
				l.judge = func(ctx context.Context, c macCall) (
					bool, error) {

					if err := ctx.Err(); err != nil {
						return false, err
					}
					return same || c == pair[0].question(), nil
				}
				var ts []*rt.Thread
				var errs [2]error
				gaveUp := false
				for k := range pair {
					k := k
					ctx, cancel := context.WithCancel(
						context.Background())
					done := false
					ts = append(ts, x.Go("call", func() {
						errs[k] = pair[k].call(d, ctx)
						done = true
					}))
					if give && k == 0 {
						ts = append(ts, x.Go("canceller", func() {
							x.Yield("cancel")
							gaveUp = !done
							cancel()
						}))
					}
				}
				x.Join(ts...)
				if errs[0] != nil && !gaveUp {
					x.Failf("refused: %+v at the same time as "+
						"%+v: %v", pair[0], pair[1], errs[0])
				}
				if same && errs[1] != nil {
					x.Failf("refused: %+v at the same time as "+
						"another: %v", pair[1], errs[1])
				}
				if !same && errs[1] == nil {
					x.Failf("authorised: %+v at the same time as "+
						"%+v", pair[1], pair[0])
				}
				asked := map[macCall]int{}
				for _, c := range l.asked {
					asked[c]++
				}
				for k, a := range pair {
					if errs[k] == nil && asked[a.question()] == 0 {
						x.Failf("authorised without asking lnd: "+
							"%+v", a)
					}
				}
				x.Outcome("%v %v", errs[0] == nil, errs[1] == nil)
				x.Count("distinct")
				if err := d.b.Stop(); err != nil {
					x.Failf("stop: %v", err)
				}
			}
			out = append(out, &rt.Scenario{
				Name: fmt.Sprintf("together%v/%d/%v", suffix, i, give),
				Opt:  opt, Body: body,
			})
		}
	}
	return out
}

// c28Slow makes calls that lnd takes its time for, or never answers.
func c28Slow() []*rt.Scenario {
	return []*rt.Scenario{longScenario("slow lnd", func(x *rt.Exec) {
		for _, wait := range longWaits {
			for _, pair := range macPairs() {
				for _, good := range []bool{true, false} {
					count(x)
					d, l := macDaemon(x)
					if err := d.b.Start(); err != nil {
						x.Failf("start: %v", err)
					}
					slow := wait
					l.judge = func(ctx context.Context, c macCall) (
						bool, error) {

						err := delayed(ctx, slow)
						return good, err
					}
					for k, a := range pair {
						err := a.call(d, context.Background())
						if (err == nil) != good {
							x.Failf("wrong result: call %d, lnd "+
								"says %v after %v: %v", k,
								good, wait, err)
						}
						// The same again, much later and with
						// the other answer.
						rt.Sleep(wait)
						good = !good
						slow = 0
						err = a.call(d, context.Background())
						if (err == nil) != good {
							x.Failf("wrong result: call %d "+
								"again %v later, lnd says "+
								"%v: %v", k, wait, good, err)
						}
					}
					x.Count("distinct")
					if err := d.b.Stop(); err != nil {
						x.Failf("stop: %v", err)
					}
				}
			}
		}
	}), longScenario("stuck", func(x *rt.Exec) {
		for _, pair := range macPairs() {
			for _, good := range []bool{true, false} {
				count(x)
				d, l := macDaemon(x)
				if err := d.b.Start(); err != nil {
					x.Failf("start: %v", err)
				}
				asked := 0
				l.judge = func(ctx context.Context, c macCall) (bool,
					error) {

					asked++
					if asked == 1 {
						return true, delayed(ctx, -1)
					}
					return good, ctx.Err()
				}
				ctx, cancel := context.WithCancel(
					context.Background())
				var err error
				t := x.Go("hangs", func() {
					err = pair[0].call(d, ctx)
				})
				x.Quiesce()
				for i := 0; i < 2; i++ {
					e := pair[1].call(d, context.Background())
					if (e == nil) != good {
						x.Failf("wrong result: lnd says %v, and "+
							"does not answer another call: %v",
							good, e)
					}
					if i == 0 {
						if t.Done() {
							x.Failf("call ended: without an "+
								"answer: %v", err)
						}
						cancel()
						x.Join(t)
						if err == nil {
							x.Failf("authorised: without an " +
								"answer")
						}
					}
				}
				x.Count("distinct")
				if err := d.b.Stop(); err != nil {
					x.Failf("stop: %v", err)
				}
			}
		}
	})}
}
