//go:build daemon

package main

import (
	"errors"
	"fmt"
	"math"
	"net"
	"path/filepath"
	"reflect"
	"time"

	"github.com/btcsuite/btclog"
	"github.com/carlakc/boltnd"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd"
	"github.com/lightningnetwork/lnd/build"
	"github.com/lightningnetwork/lnd/lncfg"
	"github.com/lightningnetwork/lnd/lnrpc/verrpc"
	"github.com/lightningnetwork/lnd/signal"
)

func init() {
	register(&prop{
		id:   "C25",
		rule: "one sequence of options; non-trivial: sequences from which an instance is made",
		bounds: "every sequence of up to 3 (thorough: 4) of 47 options: client settings (none, without version, 18 versions), lnd configurations (0-3 listeners of 4 kinds, 8 networks), log setup (2, none, lnd's), shutdown closure (2, none), waits (negative, zero, positive), retries, a failing option; " +
			"for sequences of up to 2 also the connection attempts and shutdown requests of the instance",
		assumptions: []string{"version compatibility is what lndclient says it is: by major, minor and patch number"},
		scenarios:   c25Scenarios,
	})
}

// wantCfg is the configuration that options must lead to.
type wantCfg struct {
	client  *lndclient.LndServicesConfig
	setup   string
	request string
	wait    time.Duration
	retries uint8
	failed  bool
}

type namedOption struct {
	name string
	opt  boltnd.ConfigOption
	want func(w *wantCfg)
}

// c25World records what closures are called.
type c25World struct {
	setups   map[string][]string
	requests map[string]int
	root     *build.RotatingLogWriter
}

type textAddr string

func (a textAddr) Network() string { return "text" }
func (a textAddr) String() string  { return string(a) }

var errOption = errors.New("option fails")

func (cw *c25World) options() []namedOption {
	var out []namedOption
	add := func(name string, opt boltnd.ConfigOption, want func(w *wantCfg)) {
		out = append(out, namedOption{name, opt, want})
	}
	client := func(name string, c *lndclient.LndServicesConfig) {
		add("client "+name, boltnd.OptionLNDClient(c), func(w *wantCfg) {
			w.client = c
		})
	}
	client("none", nil)
	client("without version", &lndclient.LndServicesConfig{
		LndAddress: "a:1", Network: "regtest",
	})
	for _, major := range []uint32{0, 1} {
		for _, minor := range []uint32{0, 14, 15, 16} {
			for _, patch := range []uint32{0, 1} {
				client(fmt.Sprintf("%d.%d.%d", major, minor, patch),
					&lndclient.LndServicesConfig{
						LndAddress: fmt.Sprintf("v:%d", minor),
						CheckVersion: &verrpc.Version{
							AppMajor: major,
							AppMinor: minor,
							AppPatch: patch,
						},
					})
			}
		}
	}
	client("minimum", &lndclient.LndServicesConfig{
		LndAddress: "b:2", CheckVersion: boltnd.MinimumLNDVersion,
		Insecure: true, MacaroonDir: "/m",
	})
	client("99 patches too old", &lndclient.LndServicesConfig{
		CheckVersion: &verrpc.Version{AppMinor: 14, AppPatch: 99},
	})

	lndCfg := func(name string, chain lncfg.Chain, network string,
		listeners ...net.Addr) {

		cfg := &lnd.Config{
			AdminMacPath: "/mac/" + name, TLSCertPath: "/tls/" + name,
			ReadMacPath: "/wrong", InvoiceMacPath: "/wrong",
			TLSKeyPath: "/wrong", Bitcoin: &chain,
			RPCListeners:  listeners,
			RESTListeners: []net.Addr{textAddr("wrong")},
			Listeners:     []net.Addr{textAddr("wrong")},
		}
		add("lnd "+name, boltnd.OptionLNDConfig(cfg), func(w *wantCfg) {
			if len(listeners) == 0 || network == "" {
				w.failed = true
				return
			}
			w.client = &lndclient.LndServicesConfig{
				LndAddress:            listeners[0].String(),
				CustomMacaroonPath:    cfg.AdminMacPath,
				TLSPath:               cfg.TLSCertPath,
				Network:               lndclient.Network(network),
				CheckVersion:          boltnd.MinimumLNDVersion,
				BlockUntilChainSynced: true,
				BlockUntilUnlocked:    true,
			}
		})
	}
	tcp := &net.TCPAddr{IP: net.IPv4(10, 1, 2, 3), Port: 10011}
	tcp6 := &net.TCPAddr{IP: net.IPv6loopback, Port: 1}
	unix := &net.UnixAddr{Name: "/run/lnd.sock", Net: "unix"}
	main := lncfg.Chain{MainNet: true}
	lndCfg("no listener", main, "mainnet")
	lndCfg("mainnet", main, "mainnet", tcp)
	lndCfg("testnet", lncfg.Chain{TestNet3: true}, "testnet", tcp6, tcp)
	lndCfg("regtest", lncfg.Chain{RegTest: true, Active: true, Node: "btcd"},
		"regtest", textAddr("lnd.example:7"), unix, tcp)
	lndCfg("unix", main, "mainnet", unix, tcp)
	lndCfg("simnet", lncfg.Chain{SimNet: true}, "", tcp)
	lndCfg("signet", lncfg.Chain{SigNet: true}, "", tcp)
	lndCfg("no network", lncfg.Chain{Active: true}, "", tcp)
	lndCfg("regtest without listener", lncfg.Chain{RegTest: true}, "regtest")

	for _, name := range []string{"first", "second"} {
		name := name
		add("setup "+name, boltnd.OptionSetupLogger(func(prefix string,
			r boltnd.LogRegistration) {

			cw.setups[name] = append(cw.setups[name], prefix)
			r(btclog.Disabled)
		}), func(w *wantCfg) { w.setup = name })
		add("shutdown "+name, boltnd.OptionRequestShutdown(func() {
			cw.requests[name]++
		}), func(w *wantCfg) { w.request = name })
	}
	add("setup none", boltnd.OptionSetupLogger(nil), func(w *wantCfg) {
		w.setup = ""
	})
	add("lnd logger", boltnd.OptionLNDLogger(cw.root, signal.Interceptor{}),
		func(w *wantCfg) { w.setup = "lnd" })
	add("shutdown none", boltnd.OptionRequestShutdown(nil), func(w *wantCfg) {
		w.request = ""
	})
	for _, d := range []time.Duration{math.MinInt64, -1, 0, 1, time.Hour} {
		d := d
		add(fmt.Sprintf("wait %v", d), func(c *boltnd.Config) error {
			c.LNDWait = d
			return nil
		}, func(w *wantCfg) { w.wait = d })
	}
	for _, r := range []uint8{0, 7, 255} {
		r := r
		add(fmt.Sprintf("retries %v", r), func(c *boltnd.Config) error {
			c.LNDRetires = r
			return nil
		}, func(w *wantCfg) { w.retries = r })
	}
	add("address", func(c *boltnd.Config) error {
		if c.LndClientCfg != nil {
			cp := *c.LndClientCfg
			cp.LndAddress = "changed:1"
			c.LndClientCfg = &cp
		}
		return nil
	}, func(w *wantCfg) {
		if w.client != nil {
			cp := *w.client
			cp.LndAddress = "changed:1"
			w.client = &cp
		}
	})
	add("version in place", func(c *boltnd.Config) error {
		// The default configuration is the instance's own.
		if c.LndClientCfg != nil {
			c.LndClientCfg.RPCTimeout = 7
		}
		return nil
	}, func(w *wantCfg) {
		if w.client != nil {
			w.client.RPCTimeout = 7
		}
	})
	add("failing", func(*boltnd.Config) error { return errOption },
		func(w *wantCfg) { w.failed = true })
	return out
}

// valid is whether an instance can be made.
func (w *wantCfg) valid() bool {
	if w.failed || w.client == nil || w.client.CheckVersion == nil ||
		w.wait < 0 {

		return false
	}
	v := w.client.CheckVersion
	switch {
	case v.AppMajor != 0:
		return v.AppMajor > 0
	case v.AppMinor != 15:
		return v.AppMinor > 15
	}
	return true
}

func sameClient(a, b *lndclient.LndServicesConfig) bool {
	if a == nil || b == nil {
		return a == b
	}
	x, y := *a, *b
	vx, vy := x.CheckVersion, y.CheckVersion
	x.CheckVersion, y.CheckVersion = nil, nil
	if x.Dialer != nil || y.Dialer != nil {
		return false
	}
	if !reflect.DeepEqual(x, y) {
		return false
	}
	if vx == nil || vy == nil {
		return vx == vy
	}
	return vx.AppMajor == vy.AppMajor && vx.AppMinor == vy.AppMinor &&
		vx.AppPatch == vy.AppPatch &&
		fmt.Sprint(vx.BuildTags) == fmt.Sprint(vy.BuildTags)
}

// c25Defaults compares the defaults with what is documented: lnd's own, for
// mainnet, and five attempts ten seconds apart.
func c25Defaults(x *rt.Exec, c *boltnd.Config) {
	want := &lndclient.LndServicesConfig{
		LndAddress: "localhost:10009",
		MacaroonDir: filepath.Join(lnd.DefaultLndDir, "data", "chain",
			"mainnet"),
		TLSPath:               filepath.Join(lnd.DefaultLndDir, "tls.cert"),
		CheckVersion:          boltnd.MinimumLNDVersion,
		BlockUntilChainSynced: true,
		BlockUntilUnlocked:    true,
		Network:               lndclient.NetworkMainnet,
	}
	if !sameClient(c.LndClientCfg, want) {
		x.Failf("wrong default client settings: %+v", c.LndClientCfg)
	}
	if c.LNDRetires != 4 || c.LNDWait != 10*time.Second {
		x.Failf("wrong defaults: %v retries, wait %v", c.LNDRetires,
			c.LNDWait)
	}
	if v := boltnd.MinimumLNDVersion; v.AppMajor != 0 ||
		v.AppMinor != 15 || v.AppPatch != 0 {

		x.Failf("wrong minimum version: %v", v)
	}
}

func c25Check(x *rt.Exec, seq []int, effects bool) {
	count(x)
	cw := &c25World{
		setups: map[string][]string{}, requests: map[string]int{},
		root: build.NewRotatingLogWriter(),
	}
	all := cw.options()
	def := boltnd.DefaultConfig()
	w := &wantCfg{client: def.LndClientCfg, wait: def.LNDWait,
		retries: def.LNDRetires}
	if def.SetupLogger != nil || def.RequestShutdown != nil {
		x.Failf("default closures: set")
	}
	c25Defaults(x, def)
	pristine := *def.LndClientCfg
	var names []string
	var opts []boltnd.ConfigOption
	for _, i := range seq {
		o := all[i]
		names = append(names, o.name)
		opts = append(opts, o.opt)
		if !w.failed {
			o.want(w)
		}
	}
	what := fmt.Sprintf("%q", names)
	var cfg *boltnd.Config
	opts = append(opts, func(c *boltnd.Config) error {
		cfg = c
		return nil
	})
	d := newDaemon(x)
	b, err := boltnd.NewBoltnd(opts...)
	// lnd's loggers write to nowhere, but do not leave them.
	defer boltnd.NewBoltnd(boltnd.OptionSetupLogger(func(_ string,
		r boltnd.LogRegistration) {

		r(btclog.Disabled)
	}))
	if err != nil {
		if b != nil {
			x.Failf("instance and error: %v", what)
		}
		if w.valid() {
			x.Failf("valid configuration refused: %v: %v", what, err)
		}
		return
	}
	if !w.valid() {
		x.Failf("invalid configuration accepted: %v", what)
	}
	if b == nil || cfg == nil {
		x.Failf("no instance: %v", what)
	}
	x.Distinct("%v", what)
	if !sameClient(cfg.LndClientCfg, w.client) {
		x.Failf("wrong client settings: %v: %+v, not %+v", what,
			cfg.LndClientCfg, w.client)
	}
	if cfg.LNDWait != w.wait || cfg.LNDRetires != w.retries {
		x.Failf("wrong settings: %v: wait %v, retries %v", what,
			cfg.LNDWait, cfg.LNDRetires)
	}
	for _, n := range []string{"first", "second"} {
		seen := map[string]bool{}
		for _, p := range cw.setups[n] {
			if seen[p] {
				x.Failf("logger set up twice: %v: %v", what, p)
			}
			seen[p] = true
		}
		if n == w.setup && len(seen) < 5 {
			x.Failf("loggers not set up: %v: %v", what, cw.setups[n])
		}
		if n != w.setup && len(seen) > 0 {
			x.Failf("wrong log setup used: %v: %v", what, n)
		}
	}
	if got := len(cw.root.SubLoggers()); (w.setup == "lnd") != (got > 0) {
		x.Failf("lnd's loggers: %v: %v set up", what, got)
	}
	if (cfg.RequestShutdown == nil) != (w.request == "") {
		x.Failf("wrong shutdown closure: %v", what)
	}
	// Other instances are not affected.
	if again := boltnd.DefaultConfig(); !sameClient(again.LndClientCfg,
		&pristine) || again.LNDWait != def.LNDWait {

		x.Failf("defaults changed: %v: %+v", what, again.LndClientCfg)
	}
	if !effects {
		return
	}

	// The settings are used.
	d.b = b
	works := w.retries != 7
	d.onConnect = func(n int) error {
		if !works {
			return attemptError(n)
		}
		return nil
	}
	err = b.Start()
	if (err == nil) != works {
		x.Failf("start: %v: %v", what, err)
	}
	for i, c := range d.configs {
		if !sameClient(c, w.client) {
			x.Failf("wrong client settings used: %v: %+v", what, c)
		}
		if i > 0 && d.attempts[i]-d.attempts[i-1] != w.wait {
			x.Failf("wrong wait used: %v", what)
		}
	}
	if !works && len(d.configs) != int(w.retries)+1 || len(d.configs) == 0 {
		x.Failf("wrong retries used: %v: %v", what, len(d.configs))
	}
	if works {
		d.node.lnd.waitSub()
		d.breakStream("error")
		x.Quiesce()
		for _, n := range []string{"first", "second"} {
			want := 0
			if n == w.request {
				want = 1
			}
			if cw.requests[n] != want {
				x.Failf("wrong shutdown closure used: %v: %v",
					what, cw.requests)
			}
		}
	}
	if err := b.Stop(); err != nil {
		x.Failf("stop: %v: %v", what, err)
	}
}

func c25Scenarios(thorough bool) []*rt.Scenario {
	depth := 3
	if thorough {
		depth = 4
	}
	cw := &c25World{root: build.NewRotatingLogWriter()}
	n := len(cw.options())
	var out []*rt.Scenario
	split(func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f,
			Opt: rt.Options{Horizon: 1 << 40}})
	}, "options", n, func(x *rt.Exec, part int) {
		if part == 0 {
			c25Check(x, nil, true)
		}
		var rec func(seq []int)
		rec = func(seq []int) {
			c25Check(x, seq, len(seq) <= 2)
			if len(seq) == depth {
				return
			}
			for i := 0; i < n; i++ {
				rec(append(seq[:len(seq):len(seq)], i))
			}
		}
		rec([]int{part})
	})
	return out
}
