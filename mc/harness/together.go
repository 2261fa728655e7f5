package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/offersrpc"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/keychain"
	"github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
)

// activity is something that goes on at a server. Activities of different
// index have nothing in common, so that none may affect another.
type activity struct {
	name string
	// before runs on the started server before anything goes on.
	before func(b *busy, i int)
	// run is the activity itself.
	run func(b *busy, i int)
	// after runs when everything is done.
	after func(b *busy, i int)
}

// busy is a server at which several things go on.
type busy struct {
	x *rt.Exec
	n *rpcNode
	// expected are the messages that the server must send.
	expected int
	subs     map[int]*subscriber
	state    map[int]interface{}
}

const (
	busyTarget  = 110 // where messages are sent
	busyRelay   = 120 // the first node on the way there
	busyIntro   = 130 // first node of blinded destinations, not yet a peer
	busyForward = 150 // where messages are forwarded
)

var busyStates = []peerState{
	{name: "10", channels: 1, features: []lnwire.FeatureBit{10}},
	{name: "12", channels: 2, features: []lnwire.FeatureBit{12}},
	{name: "none", channels: 3},
	{name: "all", channels: 1, features: []lnwire.FeatureBit{10, 12, 14}},
	{name: "unknown", noNode: true, channels: 9},
}

var busyChans = []c11Channel{
	{state: 2, peer: 0}, {state: 0, peer: 1}, {state: 4, peer: 2},
	{state: 1, peer: 3}, {state: 3, peer: 4},
}

// sentTo is the one message that was sent to a node.
func (b *busy) sentTo(key int, what string) lndclient.CustomMessage {
	var out []lndclient.CustomMessage
	for _, m := range b.n.lnd.sent {
		if m.Peer == vertexOf(key) {
			out = append(out, m)
		}
	}
	if len(out) != 1 {
		b.x.Failf("wrong messages: %v: %d of %d are sent to its first node",
			what, len(out), len(b.n.lnd.sent))
	}
	return out[0]
}

// arrives checks where a message goes and what is there.
func (b *busy) arrives(m lndclient.CustomMessage, nodes []int, pay *rPayload,
	what string) {

	w := walk(b.x, m, nodes)
	if fmt.Sprint(w.nodes) != fmt.Sprint(nodes) {
		b.x.Failf("wrong destination: %v: went to %v, not %v", what,
			w.nodes, nodes)
	}
	got := *w.payload
	if pay.enc == nil {
		got.enc = nil
	}
	if got.String() != pay.String() {
		b.x.Failf("wrong content: %v: %v, not %v", what, got.String(),
			pay.String())
	}
}

// feed hands a message to the server, from one of many threads.
func (b *busy) feed(data []byte) {
	if !b.n.lnd.push(b.n.lnd.onion(data), nil) {
		b.x.Failf("message stream cancelled")
	}
}

var busyMsgs = map[string][]byte{}

func busyMsg(name string, i int, f func() []byte) []byte {
	k := fmt.Sprint(name, i)
	if busyMsgs[k] == nil {
		busyMsgs[k] = f()
	}
	return busyMsgs[k]
}

func busyPay(i int) *rPayload {
	return &rPayload{
		path: samplePath(20+i, 1+i),
		final: []refTLV{
			{typ: uint64(70 + i), val: fill(9+i, byte(i*7+1))},
			{typ: uint64(170 + i), val: fill(3+i, byte(i*5+2))},
		},
	}
}

func (b *busy) send(i int, req *offersrpc.SendOnionMessageRequest, pay *rPayload,
	what string) {

	req.FinalPayloads = map[uint64][]byte{}
	for _, f := range pay.final {
		req.FinalPayloads[f.typ] = append([]byte{}, f.val...)
	}
	req.ReplyPath = pay.path.rpc()
	_, err := b.n.api.SendOnionMessage(context.Background(), req)
	if err != nil {
		b.x.Failf("not sent: %v: %v", what, err)
	}
}

// activities are all that a server can be busy with.
func activities() map[string]*activity {
	as := map[string]*activity{}
	add := func(a *activity) { as[a.name] = a }

	add(&activity{
		name:   "send",
		before: func(b *busy, i int) { b.expected++ },
		run: func(b *busy, i int) {
			b.send(i, &offersrpc.SendOnionMessageRequest{
				Pubkey: point(busyTarget + i),
			}, busyPay(i), "send")
		},
		after: func(b *busy, i int) {
			b.arrives(b.sentTo(busyRelay+i, "send"),
				[]int{busyRelay + i, busyTarget + i}, busyPay(i), "send")
		},
	})
	dest := func(i int) *rPath {
		return blindedTo(70+i, []byte{9, byte(i)}, busyIntro+i,
			busyIntro+10+i)
	}
	add(&activity{
		name:   "connect",
		before: func(b *busy, i int) { b.expected++ },
		run: func(b *busy, i int) {
			b.send(i, &offersrpc.SendOnionMessageRequest{
				BlindedDestination: dest(i).rpc(),
				DirectConnect:      true,
			}, busyPay(i+2), "connect")
		},
		after: func(b *busy, i int) {
			pay := busyPay(i + 2)
			pay.enc = dest(i).hops[1].data
			b.arrives(b.sentTo(busyIntro+i, "connect"),
				[]int{busyIntro + i, busyIntro + 10 + i}, pay,
				"connect")
		},
	})
	add(&activity{
		name: "no route",
		run: func(b *busy, i int) {
			_, err := b.n.api.SendOnionMessage(context.Background(),
				&offersrpc.SendOnionMessageRequest{
					Pubkey: point(busyTarget + 9 - i),
				})
			if codeOf(err) != "NotFound" {
				b.x.Failf("no route: %v", err)
			}
		},
	})
	add(&activity{
		name: "refused",
		run: func(b *busy, i int) {
			_, err := b.n.api.SendOnionMessage(context.Background(),
				&offersrpc.SendOnionMessageRequest{
					Pubkey:        point(busyTarget + 9 - i),
					FinalPayloads: map[uint64][]byte{uint64(i): {1}},
				})
			if codeOf(err) != "InvalidArgument" {
				b.x.Failf("refused: %v", err)
			}
		},
	})
	add(&activity{
		name: "decode",
		run: func(b *busy, i int) {
			recs := offerMsg.baseRecs()
			recs[10] = fill(8+i, byte('a'+i))
			recs[12] = []byte{0, 2, byte(1 << uint(i)), 0}
			recs[16] = []byte{byte(7 + i)}
			if i%2 == 0 {
				recs[8] = []byte{3}
				recs[14] = []byte{9, 9}
			}
			b.n.checkDecodeRPC(bech32Offer("lno",
				mkStream(offerMsg.sign(recs, 1))))
		},
	})
	add(&activity{
		name: "decode bad",
		run: func(b *busy, i int) {
			recs := offerMsg.baseRecs()
			recs[10] = fill(5+i, byte('x'+i))
			b.n.checkDecodeRPC(bech32Offer("lno",
				mkStream(offerMsg.sign(recs, 2+i))))
		},
	})
	features := [][]uint64{{10}, {12, 13}, {}, {14, 10, 12}}
	add(&activity{
		name: "generate",
		run: func(b *busy, i int) {
			r, err := b.n.api.GenerateBlindedRoute(context.Background(),
				&offersrpc.GenerateBlindedRouteRequest{
					Features: append([]uint64{}, features[i%4]...),
				})
			what := fmt.Sprintf("features %v", features[i%4])
			b.n.checkRoute(busyStates, busyChans, features[i%4], r,
				err, what, true)
			p := fromRPCPath(r.Route)
			best := point(300 + []int{1, 3, 0, 4}[i%4])
			if string(p.first) != string(best) {
				b.x.Failf("wrong peer: %v: %x", what, p.first)
			}
			b.state[i] = r
		},
		after: func(b *busy, i int) {
			// It is still the same.
			r := b.state[i].(*offersrpc.GenerateBlindedRouteResponse)
			b.n.checkRoute(busyStates, busyChans, features[i%4], r,
				nil, "later", true)
		},
	})
	add(&activity{
		name: "generate none",
		run: func(b *busy, i int) {
			_, err := b.n.api.GenerateBlindedRoute(context.Background(),
				&offersrpc.GenerateBlindedRouteRequest{
					Features: []uint64{uint64(100 + 2*i)},
				})
			if codeOf(err) != "Internal" {
				b.x.Failf("route without peer: %v", err)
			}
		},
	})
	add(&activity{
		name: "forward",
		before: func(b *busy, i int) {
			b.expected++
			busyMsg("forward", i, func() []byte {
				over := []byte(nil)
				if i%2 == 1 {
					over = point(160 + i)
				}
				return fwdOnion(34000+i, dataShape{
					data: nextNode(busyForward+i, over),
				}, nil, nil, false)
			})
		},
		run: func(b *busy, i int) { b.feed(busyMsg("forward", i, nil)) },
		after: func(b *busy, i int) {
			o := newOracle(usKey, nil)
			o.message(b.n.lnd.onion(busyMsg("forward", i, nil)))
			m := b.sentTo(busyForward+i, "forward")
			if sends(o.send) != sends([]lndclient.CustomMessage{m}) {
				b.x.Failf("wrong message forwarded")
			}
		},
	})
	receive := func(i int) []byte {
		return busyMsg("receive", i, func() []byte {
			p := &rPayload{path: samplePath(30+i, 1), final: []refTLV{
				{typ: uint64(200 + i), val: fill(12+i, byte(i*9))},
				{typ: uint64(210 + i), val: fill(2, byte(i*11))},
			}}
			return toUs(34100+i, usKey, p.encode())
		})
	}
	add(&activity{
		name: "receive",
		before: func(b *busy, i int) {
			receive(i)
			b.subs[i] = b.n.subscribe("client", uint64(200+i))
		},
		run: func(b *busy, i int) { b.feed(receive(i)) },
		after: func(b *busy, i int) {
			s := b.subs[i]
			want := fmt.Sprintf("%x %v", fill(12+i, byte(i*9)),
				samplePath(30+i, 1))
			if len(s.stream.got) != 1 || s.stream.got[0] != want {
				b.x.Failf("wrong responses: %v, not %v",
					clipStrs(s.stream.got), want)
			}
			if s.thread.Done() {
				b.x.Failf("subscription ended: %v", s.err)
			}
			s.end()
		},
	})
	add(&activity{
		name: "junk",
		before: func(b *busy, i int) {
			busyMsg("junk", i, func() []byte {
				return toUs(34200+i, usKey+1+i, mkStream(
					map[uint64][]byte{64: {1}}))
			})
		},
		run: func(b *busy, i int) { b.feed(busyMsg("junk", i, nil)) },
	})
	add(&activity{
		name: "subscribe",
		run: func(b *busy, i int) {
			for k := 0; k < 2; k++ {
				s := b.n.subscribe("visitor", uint64(220+i))
				if k == 0 {
					rt.Sleep(second)
				}
				s.end()
				// If it is cancelled at once it may not notice
				// that the server is ready.
				if c := codeOf(s.err); c != "Canceled" &&
					(k == 0 || c != "Unavailable") {

					b.x.Failf("subscription ended with: %v", s.err)
				}
			}
		},
	})
	return as
}

// togetherBounds describes them.
const togetherBounds = "; each pair (thorough: triple) of what this property " +
	"is about with one of 12 activities at the same server (sends, " +
	"refused requests, decoding, routes, received and forwarded " +
	"messages, subscriptions), at most 1 preemption at any statement"

// together runs activities at the same time, interleaved at every statement.
func together(x *rt.Exec, as ...*activity) {
	count(x)
	b := &busy{x: x, n: newRPCNode(x, usKey), subs: map[int]*subscriber{},
		state: map[int]interface{}{}}
	l := b.n.lnd
	env := c11Lnd(x, busyStates, busyChans)
	connected := map[route.Vertex]bool{}
	l.onChannels = env.onChannels
	l.onNodeInfo = func(ctx context.Context, k route.Vertex, ch bool) (
		*lndclient.NodeInfo, error) {

		if !ch {
			return &lndclient.NodeInfo{Node: &lndclient.Node{
				PubKey: k, Addresses: []string{k.String()[:8]},
			}}, nil
		}
		return env.onNodeInfo(ctx, k, ch)
	}
	l.onConnect = func(_ context.Context, k route.Vertex, host string,
		perm bool) error {

		if host != k.String()[:8] || !perm {
			x.Failf("wrong connection: to %v at %v", k, host)
		}
		connected[k] = true
		return nil
	}
	l.onPeers = func(context.Context) ([]lndclient.Peer, error) {
		var out []lndclient.Peer
		for i := 0; i < 4; i++ {
			if k := vertexOf(busyIntro + i); connected[k] {
				out = append(out, lndclient.Peer{Pubkey: k})
			}
		}
		return out, nil
	}
	l.onRoutes = func(_ context.Context, q lndclient.QueryRoutesRequest) (
		*lndclient.QueryRoutesResponse, error) {

		for i := 0; i < 4; i++ {
			if q.PubKey == vertexOf(busyTarget+i) {
				return hopsTo(busyRelay+i, busyTarget+i), nil
			}
		}
		return nil, lndclient.ErrNoRouteFound
	}
	b.n.signer.onCall = func(ctx context.Context, k *btcec.PublicKey,
		loc *keychain.KeyLocator) ([32]byte, error) {

		checkLocator(x, ctx, loc)
		return b.n.signer.ecdh.ECDH(k)
	}
	b.n.start()
	for i, a := range as {
		if a.before != nil {
			a.before(b, i)
		}
	}
	x.Quiesce()
	var ts []*rt.Thread
	for i, a := range as {
		i, a := i, a
		ts = append(ts, x.Go(a.name, func() { a.run(b, i) }))
	}
	x.Join(ts...)
	x.Quiesce()
	for i, a := range as {
		if a.after != nil {
			a.after(b, i)
		}
	}
	if len(l.sent) != b.expected {
		x.Failf("wrong messages: %d sent, not %d", len(l.sent), b.expected)
	}
	b.n.stop()
	x.Count("distinct")
}

// togetherWith are all pairs of one of these activities with any other, or
// with another of the same kind.
func togetherWith(thorough bool, names ...string) []*rt.Scenario {
	as := activities()
	var out []*rt.Scenario
	seen := map[string]bool{}
	opt := rt.Options{Bound: 1, SwitchCost: 1, SelectCost: 1,
		NoTimerPreempt: true, StmtPoints: true, Horizon: 1 << 20}
	add := func(list ...*activity) {
		var ns []string
		for _, a := range list {
			ns = append(ns, a.name)
		}
		name := "together/" + strings.Join(ns, " and ")
		if seen[name] {
			return
		}
		seen[name] = true
		out = append(out, &rt.Scenario{Name: name, Opt: opt,
			Body: func(x *rt.Exec) { together(x, list...) }})
	}
	all := []string{
		"send", "connect", "no route", "refused", "decode",
		"decode bad", "generate", "generate none", "forward",
		"receive", "junk", "subscribe",
	}
	for _, n := range names {
		for _, o := range all {
			add(as[n], as[o])
			add(as[o], as[n])
		}
	}
	for i := 0; thorough && i < len(all); i++ {
		for _, o := range all[:i+1] {
			add(as[names[0]], as[all[i]], as[o])
		}
	}
	return out
}
