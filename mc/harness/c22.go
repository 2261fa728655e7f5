package main

import (
	"context"
	"encoding/hex"
	"fmt"
	"strings"

	"github.com/carlakc/boltnd/offersrpc"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	register(&prop{
		id:   "C22",
		rule: "one RPC with one offer string, or one list of features and one set of channels; non-trivial: offers that are decoded, routes that are generated",
		bounds: "every subset of the offer's fields unsigned, signed and wrongly signed, swept values of every field, every pair of values of two fields (thorough: every triple of three fields), with unknown records in every gap; offer strings cut, joined, in upper case, with another prefix or another message inside; " +
			"every list of up to 3 of 14 features with 5 sets of channels, and every list of up to 2 (3) channels over 13 peer and 3 channel states" +
			"; channel lists and lookups failing with each of 50 errors" +
			"; up to 66 features of which each is lacking or too large, every feature of a sweep" + togetherBounds,
		assumptions: []string{"the features field has this code base's length prefixed feature encoding"},
		scenarios:   c22Scenarios,
	})
}

// rpcOfferFields are the fields of a decoded offer in the form of the
// reference. The chain is not part of the response.
func rpcOfferFields(o *offersrpc.Offer) (fieldSet, string) {
	f := fieldSet{}
	f.num(8, o.MinAmountMsat)
	f.str(10, o.Description)
	if len(o.Features) > 0 {
		s, ok := refFeatureBits(o.Features)
		if ok != accept {
			return nil, fmt.Sprintf("features %x", o.Features)
		}
		if s != "" {
			f[12] = s
		}
	}
	f.num(14, o.ExpiryUnixSeconds)
	f.str(20, o.Issuer)
	f.num(22, o.MinQuantity)
	f.num(24, o.MaxQuantity)
	for t, s := range map[uint64]string{30: o.NodeId, 240: o.Signature} {
		if s == "" {
			continue
		}
		b, err := hex.DecodeString(s)
		if err != nil {
			return nil, "not hex: " + s
		}
		f[t] = fmt.Sprintf("%x", b)
	}
	return f, ""
}

func (n *rpcNode) checkDecodeRPC(s string) {
	x := n.x
	count(x)
	want, raw := refOfferString(s)
	var ref *refMsg
	if want != reject {
		ref = refDecode(offerMsg, raw)
		switch {
		case ref.verdict == reject, !refValid(offerMsg, ref):
			want = reject
		case ref.verdict == dontcare:
			want = dontcare
		}
	}
	r, err := n.api.DecodeOffer(context.Background(),
		&offersrpc.DecodeOfferRequest{Offer: s})
	switch {
	case err != nil && want == accept:
		x.Failf("valid offer refused: %q: %v", s, err)
	case err == nil && want == reject:
		x.Failf("invalid offer accepted: %q", s)
	case err != nil && r != nil:
		x.Failf("response with an error: %q", s)
	case s == "" && code(err) != codes.InvalidArgument:
		x.Failf("empty request: %v", err)
	case err != nil:
		return
	}
	if r == nil || r.Offer == nil {
		x.Failf("no offer: %q", s)
	}
	x.Distinct("%q", s)
	got, bad := rpcOfferFields(r.Offer)
	if bad != "" {
		x.Failf("malformed response: %v: %q", bad, s)
	}
	exp := copyFields(ref.fields)
	delete(exp, 2)
	if d := diffFields(offerMsg, exp, got); d != "" {
		x.Failf("offer reported wrongly: %x: %v", raw, d)
	}
}

func copyFields(f map[uint64]string) map[uint64]string {
	out := map[uint64]string{}
	for t, s := range f {
		out[t] = s
	}
	return out
}

var c22Features = []uint64{
	0, 1, 10, 17, 255, 256, 65534, 65535, 65536, 65546, 1 << 32, 1<<32 + 10,
	1 << 63, 1<<64 - 1,
}

// c22Nodes are sets of peers to generate routes with.
func c22Nodes() []peerState {
	var all []lndwire.FeatureBit
	for _, f := range c22Features {
		if f <= 65535 {
			all = append(all, lndwire.FeatureBit(f))
		}
	}
	return []peerState{
		{name: "none", channels: 3},
		{name: "all", channels: 2, features: all},
		{name: "some", channels: 4, features: []lndwire.FeatureBit{0, 10, 65534}},
	}
}

func (n *rpcNode) checkGenerate(states []peerState, chans []c11Channel,
	features []uint64, follow bool) {

	x := n.x
	count(x)
	what := fmt.Sprintf("features %v, channels", features)
	for _, c := range chans {
		what += fmt.Sprintf(" [peer %d: %v, kind %v]", c.peer,
			states[c.state].name, c.kind)
	}
	l := c11Lnd(x, states, chans)
	n.lnd.onChannels, n.lnd.onNodeInfo = l.onChannels, l.onNodeInfo
	n.lnd.calls = nil
	r, err := n.api.GenerateBlindedRoute(context.Background(),
		&offersrpc.GenerateBlindedRouteRequest{Features: features})
	if err != nil && r != nil {
		x.Failf("response with an error: %v", what)
	}
	for _, f := range features {
		if f <= 65535 {
			continue
		}
		if code(err) != codes.InvalidArgument {
			x.Failf("feature too large: %v: %v", what, err)
		}
		if len(n.lnd.calls) > 0 {
			x.Failf("feature too large: %v: lnd called", what)
		}
		return
	}
	n.checkRoute(states, chans, features, r, err, what, follow)
}

// checkRoute checks the answer to a request for a route.
func (n *rpcNode) checkRoute(states []peerState, chans []c11Channel,
	features []uint64, r *offersrpc.GenerateBlindedRouteResponse, err error,
	what string, follow bool) {

	x := n.x
	// The peers that a route may start at.
	intros := map[string]int{}
	mustFail, mayFail := true, false
	for _, c := range chans {
		s := states[c.state]
		if s.err != nil && status.Code(s.err) != codes.NotFound {
			mayFail = true
		}
		if c.kind == chanInactive || s.err != nil || s.noNode ||
			s.channels == 0 {

			continue
		}
		has := map[uint64]bool{}
		for _, f := range s.features {
			has[uint64(f)] = true
		}
		ok := true
		for _, f := range features {
			ok = ok && (f%2 == 1 || has[f])
		}
		if ok {
			intros[string(point(300+c.peer))] = 300 + c.peer
			mustFail = false
		}
	}
	if err != nil {
		if code(err) != codes.Internal {
			x.Failf("generation failure: %v: %v", what, err)
		}
		if !mustFail && !mayFail {
			x.Failf("no route: %v: %v", what, err)
		}
		return
	}
	if mustFail {
		x.Failf("route without peer: %v", what)
	}
	x.Distinct("%v", what)
	p := fromRPCPath(r.Route)
	if p == nil || len(p.hops) != 2 || !isPoint(p.blinding) {
		x.Failf("malformed route: %v: %v", what, p)
	}
	intro := intros[string(p.first)]
	if intro == 0 {
		x.Failf("wrong introduction node: %v: %x", what, p.first)
	}
	next, _, ok := refRouteData(intro, p.blinding, p.hops[0].data)
	if !ok || string(next) != string(point(usKey)) {
		x.Failf("route reported wrongly: %v: first hop's data gives %x, %v",
			what, next, ok)
	}
	if !follow {
		return
	}
	for _, h := range p.hops {
		if !isPoint(h.key) {
			x.Failf("malformed route: %v: %v", what, p)
		}
	}
	p1 := refPeel(intro, sphinxTo(p, mkStream(map[uint64][]byte{64: {1}})))
	if p1.err != nil || p1.final {
		x.Failf("route reported wrongly: %v: introduction node cannot "+
			"peel: %v", what, p1.err)
	}
	p2 := refPeel(usKey, wireOnion(p1.nextBlinding, p1.next))
	if p2.err != nil || !p2.final {
		x.Failf("route reported wrongly: %v: we cannot peel: %v", what,
			p2.err)
	}
	// What our own hop's data decrypts to must be route data.
	if _, _, ok := refRouteData(usKey, p1.nextBlinding, p.hops[1].data); !ok {
		x.Failf("route reported wrongly: %v: our data", what)
	}
}

func c22Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	// Every scenario runs its cases against one server.
	add := func(name string, f func(n *rpcNode)) {
		out = append(out, &rt.Scenario{
			Name: name, Opt: rt.Options{Horizon: 1 << 40},
			Body: func(x *rt.Exec) {
				n := newRPCNode(x, usKey)
				n.start()
				f(n)
				n.stop()
			},
		})
	}
	shard := func(name string, parts int, f func(n *rpcNode, mine func() bool)) {
		for p := 0; p < parts; p++ {
			p := p
			add(fmt.Sprintf("%v/%d", name, p), func(n *rpcNode) {
				i := 0
				f(n, func() bool { i++; return i%parts == p })
			})
		}
	}
	k := offerMsg
	signs := func(n *rpcNode, recs map[uint64][]byte) {
		n.checkDecodeRPC(bech32Offer("lno", mkStream(recs)))
		if recs[30] == nil {
			return
		}
		signed := k.sign(recs, 1)
		n.checkDecodeRPC(bech32Offer("lno", mkStream(signed)))
		other := k.sign(recs, 2)
		n.checkDecodeRPC(bech32Offer("lno", mkStream(other)))
	}
	shard("decode/fields", 4, func(n *rpcNode, mine func() bool) {
		n.checkDecodeRPC("")
		forAllSubsets(k.types(), 10, func(ts []uint64) {
			if !mine() {
				return
			}
			recs := map[uint64][]byte{}
			for _, t := range ts {
				recs[t] = fieldValues(k.fields[t], t)[0]
			}
			signs(n, recs)
		})
	})
	// values gives every way to set n fields more.
	var values func(recs map[uint64][]byte, from, n int,
		f func(map[uint64][]byte))
	values = func(recs map[uint64][]byte, from, n int,
		f func(map[uint64][]byte)) {

		if n == 0 {
			f(recs)
			return
		}
		ts := k.types()
		for i := from; i < len(ts); i++ {
			t := ts[i]
			if t == 240 {
				continue
			}
			for _, v := range fieldValues(k.fields[t], t) {
				r := copyRecs(recs)
				r[t] = v
				values(r, i+1, n-1, f)
			}
		}
	}
	shard("decode/sweep", 4, func(n *rpcNode, mine func() bool) {
		full := map[uint64][]byte{}
		for _, t := range k.types() {
			if t != 240 {
				full[t] = fieldValues(k.fields[t], t)[0]
			}
		}
		for _, t := range k.types() {
			for _, v := range sweepValues(k.fields[t]) {
				for _, from := range []map[uint64][]byte{
					k.baseRecs(), full,
				} {
					if !mine() {
						continue
					}
					recs := copyRecs(from)
					recs[t] = v
					n.checkDecodeRPC(bech32Offer("lno",
						mkStream(recs)))
				}
			}
		}
	})
	shard("decode/values", 8, func(n *rpcNode, mine func() bool) {
		depth := 2
		if thorough {
			depth = 3
		}
		for d := 1; d <= depth; d++ {
			values(k.baseRecs(), 0, d, func(r map[uint64][]byte) {
				if !mine() {
					return
				}
				n.checkDecodeRPC(bech32Offer("lno", mkStream(r)))
				if d < 2 {
					signs(n, r)
				}
			})
		}
	})
	shard("decode/unknown", 2, func(n *rpcNode, mine func() bool) {
		gaps := []uint64{1, 9, 11, 13, 15, 21, 23, 25, 31, 101, 239, 241,
			1001, 1<<64 - 1}
		full := map[uint64][]byte{}
		for _, t := range k.types() {
			full[t] = fieldValues(k.fields[t], t)[0]
		}
		delete(full, 240)
		for _, base := range []map[uint64][]byte{k.baseRecs(), full} {
			forAllSubsets(gaps, 2, func(ts []uint64) {
				if !mine() {
					return
				}
				r := copyRecs(base)
				for i, t := range ts {
					r[t] = fill(i*32, byte(t))
				}
				signs(n, r)
			})
		}
	})
	add("decode/strings", func(n *rpcNode) {
		for _, kind := range allMsgs {
			for _, raw := range kind.samples() {
				for _, hrp := range []string{"lno", "lnr", "lni",
					"LNO", "ln", "", "lnoo"} {

					s := bech32Offer(hrp, raw)
					n.checkDecodeRPC(s)
					n.checkDecodeRPC(strings.ToUpper(s))
					n.checkDecodeRPC(s + "q")
					n.checkDecodeRPC(s[:len(s)-1])
				}
			}
		}
		s := goodOffer()
		for i := 0; i <= len(s); i++ {
			n.checkDecodeRPC(s[:i])
			n.checkDecodeRPC(s[:i] + "+" + s[i:])
			n.checkDecodeRPC(s[:i] + "+\n  " + s[i:])
			n.checkDecodeRPC(s[:i] + "!" + s[i:])
			n.checkDecodeRPC(s[:i] + strings.ToUpper(s[i:]))
		}
	})

	c22Sweep(shard)
	shard("generate/slow lnd", 1, func(n *rpcNode, mine func() bool) {
		states := c11States()
		for _, d := range longWaits {
			n.lnd.slow = d
			for _, chans := range [][]c11Channel{
				{{0, 0, 0}}, {{1, 0, 0}, {2, 0, 1}}, {{12, 0, 0}},
				{{6, 0, 0}, {8, 0, 1}, {11, 0, 2}}, nil,
			} {
				for _, f := range [][]uint64{nil, {10}, {17, 12},
					{70000}} {

					n.checkGenerate(states, chans, f, false)
				}
			}
		}
	})
	nodes := c22Nodes()
	shard("generate/features", 4, func(n *rpcNode, mine func() bool) {
		sets := [][]c11Channel{
			nil, {{0, 0, 0}}, {{1, 0, 0}}, {{2, 0, 0}, {1, 0, 1}},
			{{0, 0, 0}, {1, 1, 1}, {2, 2, 2}},
		}
		var rec func(list []uint64)
		rec = func(list []uint64) {
			if mine() {
				for i, s := range sets {
					n.checkGenerate(nodes, s, list,
						i > 1 && len(list) < 2)
				}
			}
			if len(list) < 3 {
				for _, f := range c22Features {
					rec(append(list[:len(list):len(list)], f))
				}
			}
		}
		rec(nil)
	})
	shard("generate/channels", 8, func(n *rpcNode, mine func() bool) {
		states := c11States()
		max := 2
		if thorough {
			max = 3
		}
		var rec func(chans []c11Channel)
		rec = func(chans []c11Channel) {
			if mine() {
				for _, f := range [][]uint64{nil, {10}, {17, 12}} {
					n.checkGenerate(states, chans, f,
						len(chans) < 2)
				}
			}
			if len(chans) == max {
				return
			}
			for s := range states {
				for kind := 0; kind < chanSecond; kind++ {
					rec(append(chans[:len(chans):len(chans)],
						c11Channel{s, kind, len(chans)}))
				}
			}
		}
		rec(nil)
	})
	for i, e := range zooNotFound {
		e := e
		add(fmt.Sprintf("generate/failure/%d", i), func(n *rpcNode) {
			count(n.x)
			n.lnd.onChannels = func(context.Context, bool, bool) (
				[]lndclient.ChannelInfo, error) {

				return nil, e
			}
			_, err := n.api.GenerateBlindedRoute(context.Background(),
				&offersrpc.GenerateBlindedRouteRequest{})
			if code(err) != codes.Internal {
				n.x.Failf("generation failure: %v: %v", e, err)
			}
			// The same for lookups.
			if status.Code(e) == codes.NotFound {
				return
			}
			n.lnd.onChannels = func(context.Context, bool, bool) (
				[]lndclient.ChannelInfo, error) {

				return []lndclient.ChannelInfo{{Active: true,
					PubKeyBytes: vertexOf(300)}}, nil
			}
			n.lnd.onNodeInfo = func(context.Context, route.Vertex,
				bool) (*lndclient.NodeInfo, error) {

				return nil, e
			}
			_, err = n.api.GenerateBlindedRoute(context.Background(),
				&offersrpc.GenerateBlindedRouteRequest{})
			if code(err) != codes.Internal {
				n.x.Failf("generation failure: lookup: %v: %v", e,
					err)
			}
		})
	}
	return append(out, togetherWith(thorough, "decode", "generate")...)
}
