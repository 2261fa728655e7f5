package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/carlakc/boltnd/routes"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

// What lnd reports has many fields that must not make a difference: a noise
// gives one of them some value, and the others nothing or something ordinary.
type noise struct {
	name string
	set  func(v reflect.Value)
}

func noiseValues(t reflect.Type) []reflect.Value {
	conv := func(vs ...interface{}) []reflect.Value {
		var out []reflect.Value
		for _, v := range vs {
			out = append(out, reflect.ValueOf(v).Convert(t))
		}
		return out
	}
	switch {
	case t == reflect.TypeOf(time.Time{}):
		return conv(time.Time{}, time.Unix(1700000000, 0), time.Unix(0, 0),
			time.Unix(1, 0), time.Unix(253402300799, 0))
	case t.Kind() == reflect.Bool:
		return conv(false, true)
	case t.Kind() == reflect.String:
		return conv("", "text", strings.Repeat("x", 100),
			"10.0.0.1:9735", "\x00", "é", "UPPER lower")
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int64:
		return conv(int64(0), int64(1000), int64(-1), int64(1),
			int64(math.MaxInt64), int64(math.MinInt64))
	case reflect.Uint32:
		return conv(uint32(0), uint32(1000), uint32(1),
			uint32(math.MaxUint32))
	case reflect.Uint64:
		return conv(uint64(0), uint64(1000), uint64(1),
			uint64(math.MaxInt64), uint64(math.MaxUint64))
	case reflect.Array:
		us, other := reflect.New(t).Elem(), reflect.New(t).Elem()
		reflect.Copy(us, reflect.ValueOf(point(usKey)))
		reflect.Copy(other, reflect.ValueOf(point(999)))
		return []reflect.Value{reflect.Zero(t), other, us}
	case reflect.Slice:
		out := []reflect.Value{reflect.Zero(t)}
		vs := noiseValues(t.Elem())
		for _, v := range vs {
			s := reflect.MakeSlice(t, 0, 1)
			out = append(out, reflect.Append(s, v))
		}
		s := reflect.MakeSlice(t, 0, 0)
		s = reflect.Append(reflect.Append(s, vs...), vs...)
		return append(out, s, reflect.MakeSlice(t, 0, 0))
	case reflect.Ptr:
		out := []reflect.Value{reflect.Zero(t)}
		for _, v := range noiseValues(t.Elem()) {
			p := reflect.New(t.Elem())
			p.Elem().Set(v)
			out = append(out, p)
		}
		return out
	case reflect.Struct:
		full := reflect.New(t).Elem()
		for i := 0; i < t.NumField(); i++ {
			if vs := noiseValues(t.Field(i).Type); len(vs) > 1 {
				full.Field(i).Set(vs[1])
			}
		}
		return []reflect.Value{reflect.Zero(t), full}
	}
	return []reflect.Value{reflect.Zero(t)}
}

// noises are all noises in the fields of a struct except for some.
func noises(sample interface{}, keep ...string) []noise {
	t := reflect.TypeOf(sample)
	kept := map[string]bool{}
	for _, k := range keep {
		if _, ok := t.FieldByName(k); !ok {
			panic("no field " + k)
		}
		kept[k] = true
	}
	var out []noise
	for i := 0; i < t.NumField(); i++ {
		if kept[t.Field(i).Name] {
			continue
		}
		for base := 0; base < 2; base++ {
			for n, val := range noiseValues(t.Field(i).Type) {
				i, base, val := i, base, val
				out = append(out, noise{
					name: fmt.Sprintf("%v.%v=%v (others %d)",
						t.Name(), t.Field(i).Name,
						describe(val, n), base),
					set: func(v reflect.Value) {
						noiseSet(v, kept, base, i, val)
					},
				})
			}
		}
	}
	return out
}

func describe(v reflect.Value, n int) string {
	s := fmt.Sprintf("%v", v.Interface())
	if len(s) > 50 {
		return fmt.Sprintf("value %d", n)
	}
	return s
}

func noiseSet(v reflect.Value, kept map[string]bool, base, field int,
	val reflect.Value) {

	for j := 0; j < v.NumField(); j++ {
		if kept[v.Type().Field(j).Name] {
			continue
		}
		vs := noiseValues(v.Field(j).Type())
		v.Field(j).Set(vs[base%len(vs)])
	}
	v.Field(field).Set(val)
}

// lndNoise is noise in what a node's lnd reports. where: in all elements of a
// list, in its first or in its last.
type lndNoise struct {
	noise
	typ   string
	where int
}

func (n *lndNoise) in(typ string, i, l int) bool {
	return n != nil && n.typ == typ && (n.where == 0 ||
		n.where == 1 && i == 0 || n.where == 2 && i == l-1)
}

func (n *lndNoise) String() string {
	return fmt.Sprintf("%v in %v", n.name,
		[]string{"all", "the first", "the last"}[n.where])
}

func allNoise(typ string, list bool, ns []noise) []*lndNoise {
	var out []*lndNoise
	for _, n := range ns {
		for w := 0; w < 3; w++ {
			if w == 0 || list {
				out = append(out, &lndNoise{n, typ, w})
			}
		}
	}
	return out
}

func (n *lndNoise) peers(ps []lndclient.Peer) []lndclient.Peer {
	ps = append([]lndclient.Peer{}, ps...)
	for i := range ps {
		if n.in("peer", i, len(ps)) {
			n.set(reflect.ValueOf(&ps[i]).Elem())
		}
	}
	return ps
}

func (n *lndNoise) channels(cs []lndclient.ChannelInfo) []lndclient.ChannelInfo {
	cs = append([]lndclient.ChannelInfo{}, cs...)
	for i := range cs {
		if n.in("channel", i, len(cs)) {
			n.set(reflect.ValueOf(&cs[i]).Elem())
		}
	}
	return cs
}

func (n *lndNoise) node(info *lndclient.NodeInfo) *lndclient.NodeInfo {
	if info == nil {
		return nil
	}
	c := *info
	if n.in("nodeinfo", 0, 1) {
		n.set(reflect.ValueOf(&c).Elem())
	}
	c.Channels = append([]lndclient.ChannelEdge{}, c.Channels...)
	for i := range c.Channels {
		if n.in("edge", i, len(c.Channels)) {
			n.set(reflect.ValueOf(&c.Channels[i]).Elem())
		}
	}
	if c.Node != nil {
		d := *c.Node
		c.Node = &d
		if n.in("node", 0, 1) {
			n.set(reflect.ValueOf(&d).Elem())
		}
	}
	return &c
}

func (n *lndNoise) route(r *lndclient.QueryRoutesResponse) *lndclient.QueryRoutesResponse {
	if r == nil {
		return nil
	}
	c := *r
	if n.in("route", 0, 1) {
		n.set(reflect.ValueOf(&c).Elem())
	}
	c.Hops = nil
	for i, h := range r.Hops {
		d := *h
		if n.in("hop", i, len(r.Hops)) {
			n.set(reflect.ValueOf(&d).Elem())
		}
		c.Hops = append(c.Hops, &d)
	}
	return &c
}

func (n *lndNoise) info(i *lndclient.Info) *lndclient.Info {
	if i == nil {
		return nil
	}
	c := *i
	if n.in("info", 0, 1) {
		n.set(reflect.ValueOf(&c).Elem())
	}
	return &c
}

func infoNoise() []*lndNoise {
	return allNoise("info", false, noises(lndclient.Info{}, "IdentityPubkey"))
}

// sendNoise is all that does not matter to sending.
func sendNoise() []*lndNoise {
	out := allNoise("peer", true, noises(lndclient.Peer{}, "Pubkey"))
	out = append(out, allNoise("nodeinfo", false,
		noises(lndclient.NodeInfo{}, "Node"))...)
	out = append(out, allNoise("node", false,
		noises(lndclient.Node{}, "PubKey", "Addresses"))...)
	out = append(out, allNoise("route", false,
		noises(lndclient.QueryRoutesResponse{}, "Hops"))...)
	return append(out, allNoise("hop", true,
		noises(lndclient.Hop{}, "PubKey"))...)
}

// routeNoise is all that does not matter to the choice of a peer.
func routeNoise() []*lndNoise {
	out := allNoise("channel", true, noises(lndclient.ChannelInfo{},
		"Active", "PubKeyBytes"))
	out = append(out, allNoise("nodeinfo", false, noises(
		lndclient.NodeInfo{}, "Node", "ChannelCount", "Channels"))...)
	out = append(out, allNoise("edge", true, noises(
		lndclient.ChannelEdge{}))...)
	return append(out, allNoise("node", false, noises(lndclient.Node{},
		"PubKey", "Features"))...)
}

var addressForms = []string{
	"10.0.0.9:9735", "[2001:db8::1]:9735", "[::1]:9735", "127.0.0.1:9735",
	"expyuzz4wqqyqhjn.onion:9735", "192.168.1.4:9736", "0.0.0.0:1",
	"vww6ybal4bd7szmgncyruucpgfkqahzddi37ktceo3ah7ngmcopnpyyd.onion:9735",
	"node.example.com:9735", "NODE.example.com:9735", "10.0.0.9",
	"[fe80::1%eth0]:9735", "10.0.0.9:65535", "localhost:9735",
}

// c15Noise varies what does not matter to a send, and addresses.
func c15Noise() []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f,
			Opt: rt.Options{Horizon: 1 << 40}})
	}
	sharded(add, "noise", 8, func(x *rt.Exec, mine func() bool) {
		for _, nz := range sendNoise() {
			cs := []c15Case{
				{direct: true, first: 1, send: true},
				{direct: true, first: 2, send: true},
				{direct: true, first: 3, send: true},
				{direct: true, first: -2, addrs: 2, connect: true,
					looks: 2, send: true},
				{direct: true, first: -3, addrs: 1, connect: true,
					looks: 3, send: true},
				{direct: true, first: -2, addrs: 0},
			}
			switch nz.typ {
			case "node", "nodeinfo":
				cs = cs[3:]
			case "route", "hop":
				cs = nil
				for h := 1; h <= 4; h++ {
					cs = append(cs, c15Case{send: true,
						routes: fmt.Sprintf("hops0/%d", h)})
				}
			}
			for i := range cs {
				if !mine() {
					continue
				}
				cs[i].noise = nz
				cs[i].blinded = i%2 == 1
				cs[i].run(x, false, 0)
			}
		}
	})
	add("addresses", func(x *rt.Exec) {
		for i, a := range addressForms {
			for j, b := range addressForms {
				for n := 1; n <= 3; n++ {
					l := []string{a, b, addressForms[(i+j)%
						len(addressForms)]}[:n]
					c := &c15Case{direct: true, first: -1,
						addrs: n, connect: true, looks: 1,
						send: true, list: l}
					c.run(x, false, 0)
				}
			}
		}
	})
	// Long routes.
	add("long routes", func(x *rt.Exec) {
		for h := 1; h <= 12; h++ {
			c := &c15Case{send: true, routes: fmt.Sprintf("hops0/%d", h)}
			c.run(x, false, 0)
			c.blinded = true
			c.run(x, false, 0)
		}
	})
	return out
}

// c11Noise varies what does not matter to the choice of a peer, and features
// and numbers of channels.
func c11Noise(add func(string, func(*rt.Exec)), states []peerState) {
	graphs := [][]c11Channel{
		{{8, 0, 0}}, {{8, 0, 0}, {6, 0, 1}}, {{7, 0, 0}, {11, 0, 1}},
		{{0, 0, 0}, {10, 1, 1}, {9, 0, 2}}, {{12, 2, 0}, {8, 1, 1}},
		{{4, 0, 0}, {5, 0, 1}}, {{13, 0, 0}, {7, 0, 1}, {5, 1, 2}},
	}
	sharded(add, "noise", 8, func(x *rt.Exec, mine func() bool) {
		for _, nz := range routeNoise() {
			for _, g := range graphs {
				if !mine() {
					continue
				}
				for _, req := range c11Requests[:2] {
					l := c11Lnd(x, states, g)
					l.noise = nz
					c11AskIn(x, routes.NewBlindedRouteGenerator(
						l, pubKey(usKey)), states, g, req,
						false, fmt.Sprintf(", noise %v", nz))
				}
			}
		}
	})
	bits := func() []lndwire.FeatureBit {
		var out []lndwire.FeatureBit
		for _, n := range sweepNumbers() {
			if n <= math.MaxUint16 {
				out = append(out, lndwire.FeatureBit(n))
			}
		}
		return out
	}
	sharded(add, "features", 8, func(x *rt.Exec, mine func() bool) {
		for _, f := range bits() {
			if !mine() {
				continue
			}
			fs := func(b ...lndwire.FeatureBit) []lndwire.FeatureBit {
				return b
			}
			st := []peerState{
				{name: "has it", channels: 1, features: fs(f)},
				{name: "has the other", channels: 2,
					features: fs(f ^ 1)},
				{name: "has neighbours", channels: 3,
					features: fs(f+2, f-2, f^256)},
				{name: "has none", channels: 4},
				{name: "has both", channels: 2,
					features: fs(f^1, f)},
			}
			for _, req := range [][]lndwire.FeatureBit{
				{f}, {f, f}, {f, 10}, {f ^ 1},
			} {
				for s := range st {
					c11Check(x, st, []c11Channel{{s, 0, 0}},
						req, false)
				}
				c11Check(x, st, []c11Channel{{3, 0, 0}, {2, 0, 1},
					{1, 0, 2}, {0, 0, 3}, {4, 0, 4}}, req, false)
				c11Check(x, st, []c11Channel{{4, 0, 0}, {0, 0, 1},
					{1, 0, 2}, {2, 0, 3}}, req, false)
			}
		}
	})
	// Many features, of which one peer lacks each.
	sharded(add, "many features", 4, func(x *rt.Exec, mine func() bool) {
		for n := 1; n <= 66; n++ {
			if n > 20 && n%32 > 2 && n%32 < 31 || !mine() {
				continue
			}
			var req []lndwire.FeatureBit
			for i := 0; i < n; i++ {
				req = append(req, lndwire.FeatureBit(2*i+10))
			}
			st := []peerState{{name: "has all", channels: 1,
				features: req}}
			chans := []c11Channel{{0, 0, 0}}
			for i := range req {
				s := peerState{name: fmt.Sprintf("lacks %v", req[i]),
					channels: 2}
				s.features = append(s.features, req[:i]...)
				s.features = append(s.features, req[i]+1)
				s.features = append(s.features, req[i+1:]...)
				st = append(st, s)
				c11Check(x, st, []c11Channel{{i + 1, 0, 0}}, req,
					false)
				chans = append(chans, c11Channel{i + 1, 0, i + 1})
			}
			c11Check(x, st, chans, req, false)
			c11Check(x, st, chans[1:], req, false)
		}
	})
	add("counts", func(x *rt.Exec) {
		for _, n := range sweepNumbers() {
			if n == 0 || n > 5000 {
				continue
			}
			st := []peerState{{name: "fewer", channels: int(n) - 1},
				{name: "some", channels: int(n)},
				{name: "more", channels: int(n) + 1}}
			for _, g := range [][]c11Channel{
				{{0, 0, 0}, {1, 0, 1}, {2, 0, 2}},
				{{2, 0, 0}, {1, 0, 1}, {0, 0, 2}},
				{{1, 0, 0}, {0, 0, 1}}, {{1, 0, 0}},
			} {
				c11Check(x, st, g, nil, false)
			}
		}
	})
}
