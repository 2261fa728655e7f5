package main

import (
	"context"
	"errors"
	"fmt"
	"sort"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/offersrpc"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/keychain"
	"github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/routing/route"
	"google.golang.org/protobuf/proto"
)

func init() {
	register(&prop{
		id:   "C29",
		rule: "one message of a conversation; non-trivial: distinct networks, parties, faults and contents",
		bounds: "on every connected network of up to 4 (thorough: 5) nodes, each ordered pair of nodes converses for 4 messages in 4 ways (from a clear or a blinded destination, routed or directly connected), on all of 3 (4) nodes also with every subset of them supporting the feature that is asked for; " +
			"on 3 networks each node restarts, or all peers without a channel disconnect, before each request and each hand-over, and each call to lnd fails, fails although it was done, or takes 5 s; " +
			"networks of 3 and these also as whole daemons; payloads of every size up to 1000 bytes, types at every power of two, 1-20 payloads, routes used 60 times by all others; " +
			"2 or 3 conversations at the same time, interleaved with at most 1 (2) preemption",
		assumptions: []string{"lnd hands messages over between peers, knows the graph and finds the shortest routes", "the sphinx library implements onion routing and route blinding correctly"},
		scenarios:   c29Scenarios,
	})
}

const (
	chatKey     = 400
	chatFeature = 38
)

// chatNet is a network: who has channels with whom, and who advertises a
// feature.
type chatNet struct {
	n     int
	edges [][2]int
	feats uint
	// daemons has nodes run the whole daemon.
	daemons bool
}

func (g *chatNet) String() string {
	s := fmt.Sprint(g.edges)
	if g.feats != 1<<uint(g.n)-1 {
		s += fmt.Sprintf(" features %b", g.feats)
	}
	if g.daemons {
		s += " of daemons"
	}
	return s
}

func (g *chatNet) neighbours(i int) []int {
	var out []int
	for _, e := range g.edges {
		if e[0] == i {
			out = append(out, e[1])
		}
		if e[1] == i {
			out = append(out, e[0])
		}
	}
	sort.Ints(out)
	return out
}

// path is the shortest path from one node to another, without the first.
func (g *chatNet) path(from, to int) []int {
	prev := map[int]int{from: from}
	for q := []int{from}; len(q) > 0; q = q[1:] {
		for _, j := range g.neighbours(q[0]) {
			if _, ok := prev[j]; !ok {
				prev[j] = q[0]
				q = append(q, j)
			}
		}
	}
	if _, ok := prev[to]; !ok || from == to {
		return nil
	}
	var out []int
	for i := to; i != from; i = prev[i] {
		out = append([]int{i}, out...)
	}
	return out
}

func (g *chatNet) has(i int) bool { return g.feats>>uint(i)&1 == 1 }

// chatNets are all connected networks of n nodes.
func chatNets(n int) []*chatNet {
	var all [][2]int
	for i := 0; i < n; i++ {
		for j := 0; j < i; j++ {
			all = append(all, [2]int{j, i})
		}
	}
	var out []*chatNet
	for m := 0; m < 1<<uint(len(all)); m++ {
		g := &chatNet{n: n, feats: 1<<uint(n) - 1}
		for k, e := range all {
			if m>>uint(k)&1 == 1 {
				g.edges = append(g.edges, e)
			}
		}
		connected := true
		for i := 1; i < n; i++ {
			connected = connected && g.path(0, i) != nil
		}
		if connected {
			out = append(out, g)
		}
	}
	return out
}

// chatDaemon starts a node as a daemon and returns what stops it, in builds that
// have daemons.
var chatDaemon func(n *rpcNode) (stop func())

// chat is a network in which clients of the nodes' RPCs converse.
type chat struct {
	x     *rt.Exec
	g     *chatNet
	nodes []*rpcNode
	types []uint64
	// stops has how to stop nodes that are daemons.
	stops []func()
	subs  []map[uint64]*subscriber
	// past is what subscribers were given before their node restarted, and
	// want all that they must have been given.
	past, want []map[uint64][]string
	peers      map[[2]int]bool
	wire       []handOff
	// threads hands messages over on threads of their own.
	threads bool
	// before runs before every request and hand-over.
	before func()
	// fault may fail a call to lnd, or have it fail after it was done.
	fault func(what string) (err error, late bool)
	num   int
}

func newChat(x *rt.Exec, g *chatNet, types ...uint64) *chat {
	c := &chat{x: x, g: g, types: types}
	c.disconnect()
	c.nodes = make([]*rpcNode, g.n)
	c.stops = make([]func(), g.n)
	for i := 0; i < g.n; i++ {
		c.subs = append(c.subs, map[uint64]*subscriber{})
		c.past = append(c.past, map[uint64][]string{})
		c.want = append(c.want, map[uint64][]string{})
		c.boot(i)
	}
	x.Quiesce()
	return c
}

// disconnect has only those remain peers that have a channel.
func (c *chat) disconnect() {
	c.peers = map[[2]int]bool{}
	for _, e := range c.g.edges {
		c.peers[e] = true
		c.peers[[2]int{e[1], e[0]}] = true
	}
}

func (c *chat) index(k route.Vertex) int {
	for i := 0; i < c.g.n; i++ {
		if k == vertexOf(chatKey+i) {
			return i
		}
	}
	c.x.Failf("unknown node: %v", k)
	return 0
}

// guard has a call fail as the fault says. do is what the call does.
func (c *chat) guard(what string, do func() error) error {
	if c.fault == nil {
		return do()
	}
	err, late := c.fault(what)
	if err != nil && !late {
		return err
	}
	if e := do(); e != nil {
		return e
	}
	return err
}

// boot starts a node and its clients' subscriptions.
func (c *chat) boot(i int) {
	n := newRPCNode(c.x, chatKey+i)
	l := n.lnd
	info := func(k route.Vertex) *lndclient.NodeInfo {
		j := c.index(k)
		out := &lndclient.NodeInfo{Node: &lndclient.Node{PubKey: k,
			Addresses: []string{fmt.Sprintf("host%d", j)}}}
		if c.g.has(j) {
			out.Node.Features = []lnwire.FeatureBit{chatFeature}
		}
		for e := range c.g.neighbours(j) {
			out.ChannelCount++
			out.Channels = append(out.Channels, lndclient.ChannelEdge{
				ChannelID: uint64(e)})
		}
		return out
	}
	l.onNodeInfo = func(_ context.Context, k route.Vertex, ch bool) (
		out *lndclient.NodeInfo, err error) {

		err = c.guard("nodeinfo", func() error {
			out = info(k)
			if !ch {
				out.Channels = nil
			}
			return nil
		})
		return out, err
	}
	l.onChannels = func(context.Context, bool, bool) (
		out []lndclient.ChannelInfo, err error) {

		err = c.guard("channels", func() error {
			for _, j := range c.g.neighbours(i) {
				out = append(out, lndclient.ChannelInfo{
					Active: true, ChannelID: uint64(j),
					PubKeyBytes: vertexOf(chatKey + j),
				})
			}
			return nil
		})
		return out, err
	}
	l.onPeers = func(context.Context) (out []lndclient.Peer, err error) {
		err = c.guard("peers", func() error {
			for j := 0; j < c.g.n; j++ {
				if c.peers[[2]int{i, j}] {
					out = append(out, lndclient.Peer{
						Pubkey: vertexOf(chatKey + j)})
				}
			}
			return nil
		})
		return out, err
	}
	l.onConnect = func(_ context.Context, k route.Vertex, host string,
		_ bool) error {

		return c.guard("connect", func() error {
			j := c.index(k)
			if j == i {
				return errors.New("cannot make connection to self")
			}
			if host != fmt.Sprintf("host%d", j) {
				return errors.New("connection refused")
			}
			c.peers[[2]int{i, j}] = true
			c.peers[[2]int{j, i}] = true
			return nil
		})
	}
	l.onRoutes = func(_ context.Context, q lndclient.QueryRoutesRequest) (
		out *lndclient.QueryRoutesResponse, err error) {

		err = c.guard("routes", func() error {
			p := c.g.path(i, c.index(q.PubKey))
			if p == nil {
				return lndclient.ErrNoRouteFound
			}
			for k := range p {
				p[k] += chatKey
			}
			out = hopsTo(p...)
			return nil
		})
		return out, err
	}
	l.onSend = func(_ context.Context, m lndclient.CustomMessage) error {
		return c.guard("send", func() error {
			j := c.index(m.Peer)
			if !c.peers[[2]int{i, j}] {
				return errors.New("peer not connected")
			}
			m := lndclient.CustomMessage{
				Peer: vertexOf(chatKey + i), MsgType: m.MsgType,
				Data: append([]byte{}, m.Data...),
			}
			if c.threads {
				c.x.Go("wire", func() { c.nodes[j].lnd.push(m, nil) })
			} else {
				c.wire = append(c.wire, handOff{from: j, m: m})
			}
			return nil
		})
	}
	n.signer.onCall = func(ctx context.Context, k *btcec.PublicKey,
		_ *keychain.KeyLocator) (out [32]byte, err error) {

		err = c.guard("signer", func() (err error) {
			out, err = n.signer.ecdh.ECDH(k)
			return err
		})
		return out, err
	}
	if c.g.daemons {
		c.stops[i] = chatDaemon(n)
	} else {
		n.start()
	}
	c.nodes[i] = n
	for _, t := range c.types {
		c.subs[i][t] = n.subscribe(fmt.Sprintf("client %d of %d", t, i), t)
	}
}

// halt stops a node.
func (c *chat) halt(i int) {
	n := c.nodes[i]
	for _, t := range c.types {
		s := c.subs[i][t]
		if s.thread.Done() {
			c.x.Failf("subscription ended: at %d for %d: %v", i, t, s.err)
		}
		s.end()
		c.past[i][t] = append(c.past[i][t], s.stream.got...)
	}
	if c.g.daemons {
		c.stops[i]()
		return
	}
	n.stop()
}

func (c *chat) stop() {
	for i := range c.nodes {
		c.halt(i)
	}
}

func (c *chat) got(i int, t uint64) []string {
	return append(append([]string{}, c.past[i][t]...),
		c.subs[i][t].stream.got...)
}

// carry hands everything over that is on its way.
func (c *chat) carry() {
	c.settle()
	for k := 0; len(c.wire) > 0; k++ {
		if k > 60 {
			c.x.Failf("endless: message circulates: %v", c.g)
		}
		if c.before != nil {
			c.before()
		}
		h := c.wire[0]
		c.wire = c.wire[1:]
		c.nodes[h.from].feed(h.m)
		c.settle()
	}
}

// settle waits until nothing goes on, at an lnd that may be slow.
func (c *chat) settle() {
	c.x.Quiesce()
	if c.fault != nil {
		rt.Sleep(60 * second)
		c.x.Quiesce()
	}
}

// check compares what all subscribers were given with what they must be given.
func (c *chat) check(what string) {
	for i := range c.nodes {
		for _, t := range c.types {
			got, want := c.got(i, t), c.want[i][t]
			if fmt.Sprint(got) != fmt.Sprint(want) {
				if n := len(want); len(got) >= n && n > 2 {
					got, want = got[n-2:], want[n-2:]
				}
				c.x.Failf("wrong responses: %v: %v: %v, node %d "+
					"type %v was given %v, not %v", what, c.g,
					c.num, i, t, clipStrs(got), clipStrs(want))
			}
		}
	}
}

// overWire is a message after it was sent over gRPC.
func overWire[T proto.Message](x *rt.Exec, m T) T {
	b, err := proto.Marshal(m)
	if err != nil {
		x.Failf("cannot be sent: %v", err)
	}
	out := m.ProtoReflect().New().Interface()
	if err := proto.Unmarshal(b, out); err != nil {
		x.Failf("cannot be received: %v", err)
	}
	return out.(T)
}

// route has a node generate a route to itself; it must be able to if one of
// its peers has the feature.
func (c *chat) route(i int, what string) *offersrpc.BlindedPath {
	if c.before != nil {
		c.before()
	}
	ok := false
	for _, j := range c.g.neighbours(i) {
		ok = ok || c.g.has(j)
	}
	for try := 0; ; try++ {
		r, err := c.nodes[i].api.GenerateBlindedRoute(
			context.Background(),
			overWire(c.x, &offersrpc.GenerateBlindedRouteRequest{
				Features: []uint64{chatFeature},
			}))
		if err != nil && c.fault != nil && try == 0 {
			continue
		}
		if (err == nil) != ok {
			c.x.Failf("wrong route: %v: %v: node %d, possible %v: %v",
				what, c.g, i, ok, err)
		}
		if err != nil {
			return nil
		}
		return overWire(c.x, r).Route
	}
}

// spoken is what is said in a message.
type spoken map[uint64][]byte

// say sends a message. It is given to its recipient once if that worked, and
// not at all otherwise.
func (c *chat) say(from, to int, dest *offersrpc.BlindedPath, direct bool,
	reply *offersrpc.BlindedPath, w spoken, what string) bool {

	if c.before != nil {
		c.before()
	}
	c.num++
	count(c.x)
	req := &offersrpc.SendOnionMessageRequest{
		BlindedDestination: dest, DirectConnect: direct,
		ReplyPath: reply, FinalPayloads: w,
	}
	if dest == nil {
		req.Pubkey = point(chatKey + to)
	}
	_, err := c.nodes[from].api.SendOnionMessage(context.Background(),
		overWire(c.x, req))
	c.carry()
	if err == nil {
		c.expect(to, reply, w)
	}
	return err == nil
}

// expect has a message arrive.
func (c *chat) expect(to int, reply *offersrpc.BlindedPath, w spoken) {
	for _, t := range c.types {
		if v, ok := w[t]; ok {
			c.want[to][t] = append(c.want[to][t], fmt.Sprintf(
				"%x %v", v, fromRPCPath(reply)))
		}
	}
}

// heard is the reply path of the last response a client was given.
func (c *chat) heard(i int, t uint64) *offersrpc.BlindedPath {
	s := c.subs[i][t].stream.sent
	if len(s) == 0 {
		return nil
	}
	return overWire(c.x, s[len(s)-1]).ReplyPath
}

func startsAt(p *offersrpc.BlindedPath, i int) bool {
	return p != nil && string(p.IntroductionNode) == string(point(chatKey+i))
}

// talk has one client ask another, which answers, and so on.
func (c *chat) talk(b, a int, clear, direct bool, rounds int) {
	what := fmt.Sprintf("%d talks to %d, clear %v, direct %v", b, a, clear,
		direct)
	t := c.types[0]
	dest := (*offersrpc.BlindedPath)(nil)
	if !clear {
		if dest = c.route(a, what); dest == nil {
			return
		}
	}
	for k := 0; k < rounds; k++ {
		reply := c.route(b, what)
		w := spoken{t: []byte(fmt.Sprintf("%d from %d to %d", c.num, b, a))}
		ok := c.say(b, a, dest, direct, reply, w, what)
		c.check(what)
		if !ok {
			// Onions cannot start with a hop to ourselves.
			if !startsAt(dest, b) {
				c.x.Failf("not sent: %v: %v: message %d", what, c.g,
					k)
			}
			return
		}
		if reply == nil {
			return
		}
		// The recipient answers. Its client may have subscribed anew.
		dest = reply
		if len(c.subs[a][t].stream.sent) > 0 {
			dest = c.heard(a, t)
		}
		a, b = b, a
	}
}

// c29All has all pairs converse in all ways.
func c29All(x *rt.Exec, g *chatNet) {
	c := newChat(x, g, 64)
	for b := 0; b < g.n; b++ {
		for a := 0; a < g.n; a++ {
			for m := 0; a != b && m < 4; m++ {
				c.talk(b, a, m&1 == 1, m&2 == 2, 4)
			}
		}
	}
	x.Count("distinct")
	c.stop()
}

var chatSome = []*chatNet{
	{n: 4, edges: [][2]int{{0, 1}, {1, 2}, {2, 3}}, feats: 15},
	{n: 4, edges: [][2]int{{0, 1}, {0, 2}, {0, 3}}, feats: 15},
	{n: 4, edges: [][2]int{{0, 1}, {0, 2}, {1, 3}, {2, 3}}, feats: 15},
}

// c29Restart restarts every node at every point of a conversation, or has all
// peers that have no channel disconnect.
func c29Restart(x *rt.Exec, g *chatNet, mode int) {
	for node := -1; node < g.n; node++ {
		for at := 0; ; at++ {
			c := newChat(x, g, 64)
			steps, done := 0, false
			c.before = func() {
				if steps++; steps-1 != at {
					return
				}
				done = true
				if node < 0 {
					c.disconnect()
					return
				}
				c.halt(node)
				c.boot(node)
				x.Quiesce()
			}
			c.talk(asker(g), 3, mode&1 == 1, mode&2 == 2, 4)
			c.before = nil
			c.talk(3, 0, false, true, 2)
			c.talk(1, 2, true, false, 1)
			c.stop()
			if !done {
				break
			}
			x.Count("distinct")
		}
	}
}

// asker is a node that is not the first of the last node's routes.
func asker(g *chatNet) int {
	if introOf(g, g.n-1) == 0 {
		return 1
	}
	return 0
}

var errChat = errors.New("lnd had a problem")

// c29Fault has each call to lnd fail. Whatever is affected can be repeated.
func c29Fault(x *rt.Exec, g *chatNet, mode int, kind string) {
	for at := 0; ; at++ {
		c := newChat(x, g, 64)
		calls, hit := 0, ""
		c.fault = func(what string) (error, bool) {
			if calls++; calls-1 != at {
				return nil, false
			}
			hit = what
			switch kind {
			case "slow":
				rt.Sleep(5 * second)
				return nil, false
			case "late":
				return errChat, true
			}
			return errChat, false
		}
		b, a := asker(g), 3
		clear, direct := mode&1 == 1, mode&2 == 2
		what := fmt.Sprintf("call %d is %v", at, kind)
		dest := (*offersrpc.BlindedPath)(nil)
		if !clear {
			dest = c.route(a, what)
		}
		for k := 0; k < 3; k++ {
			reply := c.route(b, what)
			for try := 0; ; try++ {
				before := hit
				w := spoken{64: []byte(fmt.Sprintf("%d at %d", k, try))}
				had := len(c.got(a, 64))
				ok := c.say(b, a, dest, direct, reply, w, what)
				affected := hit != before && kind != "slow"
				n := len(c.got(a, 64)) - had
				if affected && n == 0 && ok {
					// It was lost on the way.
					l := c.want[a][64]
					c.want[a][64] = l[:len(l)-1]
				}
				if affected && kind == "late" && !ok && n == 1 {
					c.expect(a, reply, w)
				}
				c.check(what)
				if n == 1 {
					break
				}
				if !affected || try > 0 {
					c.x.Failf("not sent: %v (%v): %v: message %d",
						what, hit, c.g, k)
				}
			}
			dest = c.heard(a, 64)
			a, b = b, a
		}
		c.fault = nil
		c.talk(1, 2, true, false, 2)
		c.talk(3, 0, false, true, 2)
		c.stop()
		if hit == "" {
			return
		}
		x.Count("distinct")
	}
}

// c29Said has messages of many contents.
func c29Said(x *rt.Exec, g *chatNet, all []spoken) {
	seen := map[uint64]bool{}
	var types []uint64
	for _, w := range all {
		for t := range w {
			if !seen[t] && t >= 64 {
				seen[t] = true
				types = append(types, t)
			}
		}
	}
	sort.Slice(types, func(i, j int) bool { return types[i] < types[j] })
	c := newChat(x, g, types...)
	ra := c.route(3, "contents")
	for _, w := range all {
		var ts []uint64
		size, valid := 0, true
		for t, v := range w {
			ts = append(ts, t)
			size += len(v) + 12
			valid = valid && t >= 64
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
		what := fmt.Sprintf("types %v of %d bytes", ts, size)
		rb := c.route(0, what)
		ok := c.say(0, 3, ra, false, rb, w, what)
		c.check(what)
		if !ok && valid && size < 500 || ok && !valid {
			x.Failf("wrong answer: %v: %v: sent %v", what, g, ok)
		}
		if !ok {
			continue
		}
		x.Count("distinct")
		// Each client answers.
		for _, t := range ts {
			if !c.say(3, 0, c.heard(3, t), true, nil,
				spoken{t: w[t]}, what) {

				x.Failf("not sent: %v: %v: answer for %v", what, g, t)
			}
			c.check(what)
		}
	}
	c.stop()
}

// c29Reuse has everyone use one route again and again.
func c29Reuse(x *rt.Exec, g *chatNet, times int) {
	c := newChat(x, g, 64, 1001)
	for a := 0; a < g.n; a++ {
		r := c.route(a, "reuse")
		for k := 0; k < times; k++ {
			for b := 0; b < g.n; b++ {
				if b == a || startsAt(r, b) {
					continue
				}
				w := spoken{64: []byte{byte(k), byte(b)},
					1001: []byte("x")}
				if k%3 == 0 {
					delete(w, 64)
				}
				if !c.say(b, a, r, k%2 == 0, nil, w, "reuse") {
					x.Failf("not sent: reuse: %v: %d to %d, time "+
						"%d", g, b, a, k)
				}
			}
		}
		c.check("reuse")
		x.Count("distinct")
	}
	c.stop()
}

// c29Together has several conversations at the same time. pairs are who asks
// whom.
func c29Together(x *rt.Exec, g *chatNet, pairs [][2]int, clear bool) {
	count(x)
	c := newChat(x, g, 64, 65)
	c.threads = true
	what := fmt.Sprintf("together %v", pairs)
	questions := map[int]int{}
	dests := map[int]*offersrpc.BlindedPath{}
	for _, p := range pairs {
		questions[p[1]]++
		if !clear {
			dests[p[1]] = c.route(p[1], what)
		}
	}
	for _, p := range pairs {
		// Onions cannot start with a hop to ourselves.
		if startsAt(c.route(p[0], what), p[1]) ||
			startsAt(dests[p[1]], p[0]) {

			c.stop()
			return
		}
	}
	var ts []*rt.Thread
	for k, p := range pairs {
		k, b, a := k, p[0], p[1]
		ts = append(ts, x.Go(fmt.Sprintf("asker %d", k), func() {
			reply := c.route(b, what)
			w := spoken{64: []byte(fmt.Sprintf("question %d", k))}
			req := &offersrpc.SendOnionMessageRequest{
				ReplyPath: reply, FinalPayloads: w,
				BlindedDestination: dests[a],
			}
			if clear {
				req.Pubkey = point(chatKey + a)
			}
			c.expect(a, reply, w)
			_, err := c.nodes[b].api.SendOnionMessage(
				context.Background(), overWire(x, req))
			if err != nil {
				x.Failf("not sent: %v: question %d: %v", what, k, err)
			}
		}))
	}
	for a := range c.nodes {
		for q := 0; q < questions[a]; q++ {
			a, q := a, q
			ts = append(ts, x.Go(fmt.Sprintf("answer %d", q), func() {
				s := c.subs[a][64].stream
				x.Wait("question", func() bool { return len(s.sent) > q })
				r := overWire(x, s.sent[q])
				w := spoken{65: append([]byte("answer to "),
					r.Value...)}
				for k, p := range pairs {
					if string(r.Value) == fmt.Sprintf("question %d", k) {
						c.expect(p[0], nil, w)
					}
				}
				_, err := c.nodes[a].api.SendOnionMessage(
					context.Background(), overWire(x,
						&offersrpc.SendOnionMessageRequest{
							BlindedDestination: r.ReplyPath,
							FinalPayloads:      w,
						}))
				if err != nil {
					x.Failf("not sent: %v: answer %s: %v", what,
						r.Value, err)
				}
			}))
		}
	}
	x.Join(ts...)
	x.Quiesce()
	for i := range c.nodes {
		for _, t := range c.types {
			got := append([]string{}, c.got(i, t)...)
			sort.Strings(got)
			sort.Strings(c.want[i][t])
			if fmt.Sprint(got) != fmt.Sprint(c.want[i][t]) {
				x.Failf("wrong responses: %v: %v: node %d type %v was "+
					"given %v, not %v", what, g, i, t, clipStrs(got),
					clipStrs(c.want[i][t]))
			}
		}
	}
	x.Count("distinct")
	c.stop()
}

func c29Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	nodes, withFeats, bound := 4, 3, 1
	if thorough {
		nodes, withFeats, bound = 5, 4, 2
	}
	// Concurrent ones first: they take longest.
	for gi, g := range chatSome {
		for _, pairs := range [][][2]int{
			{{0, 3}, {3, 0}}, {{0, 3}, {1, 3}}, {{1, 2}, {3, 2}},
			{{0, 3}, {0, 2}}, {{2, 0}, {2, 0}}, {{0, 3}, {1, 2}},
			{{1, 3}, {2, 3}, {0, 3}}, {{3, 1}, {1, 2}, {2, 3}},
		} {
			for clear := 0; clear < 2; clear++ {
				g, pairs, clear := g, pairs, clear == 1
				b := bound
				if len(pairs) > 2 {
					b = 1
				}
				out = append(out, &rt.Scenario{
					Name: fmt.Sprintf("together/%d/%v/%v", gi, pairs,
						clear),
					Opt: rt.Options{Bound: b, SwitchCost: 1,
						SelectCost: 1, NoTimerPreempt: true,
						Horizon: 1 << 20},
					Body: func(x *rt.Exec) {
						c29Together(x, g, pairs, clear)
					},
				})
			}
		}
	}
	for n := 2; n <= nodes; n++ {
		for i, g := range chatNets(n) {
			g := g
			out = append(out, longScenario(fmt.Sprintf("all/%d/%d", n, i),
				func(x *rt.Exec) { c29All(x, g) }))
			for f := uint(0); n <= withFeats && f+1 < 1<<uint(n); f++ {
				h := *g
				h.feats = f
				out = append(out, longScenario(fmt.Sprintf(
					"features/%d/%d/%d", n, i, f),
					func(x *rt.Exec) { c29All(x, &h) }))
			}
		}
	}
	// Whole daemons.
	for i, g := range append(chatNets(3), chatSome...) {
		h := *g
		h.daemons = true
		out = append(out, longScenario(fmt.Sprintf("daemons/%d", i),
			func(x *rt.Exec) { c29All(x, &h) }))
		for mode := 0; h.n == 4 && mode < 4; mode++ {
			mode := mode
			out = append(out, longScenario(fmt.Sprintf(
				"daemons/restart/%d/%d", i, mode),
				func(x *rt.Exec) { c29Restart(x, &h, mode) }))
		}
	}
	for i, g := range chatSome {
		for mode := 0; mode < 4; mode++ {
			g, mode := g, mode
			out = append(out, longScenario(fmt.Sprintf("restart/%d/%d",
				i, mode), func(x *rt.Exec) { c29Restart(x, g, mode) }))
			for _, kind := range []string{"error", "late", "slow"} {
				kind := kind
				out = append(out, longScenario(fmt.Sprintf("%v/%d/%d",
					kind, i, mode), func(x *rt.Exec) {
					c29Fault(x, g, mode, kind)
				}))
			}
		}
		g := g
		times := 20
		if thorough {
			times = 200
		}
		out = append(out, longScenario(fmt.Sprintf("reuse/%d", i),
			func(x *rt.Exec) { c29Reuse(x, g, times) }))
	}
	said := func(name string, f func(i int) spoken, from, to int) {
		const split = 100
		for at := from; at < to; at += split {
			var all []spoken
			for i := at; i < to && i < at+split; i++ {
				all = append(all, f(i))
			}
			out = append(out, longScenario(fmt.Sprintf("said/%v/%d", name,
				at), func(x *rt.Exec) { c29Said(x, chatSome[0], all) }))
		}
	}
	said("size", func(i int) spoken { return spoken{64: fill(i, byte(i))} },
		0, 1001)
	said("types", func(i int) spoken {
		t := uint64(1)<<uint(i/3) + uint64(i%3) - 1
		return spoken{t: {byte(i)}}
	}, 0, 192)
	said("many", func(i int) spoken {
		w := spoken{}
		for k := 0; k < i; k++ {
			w[uint64(64+k*k)] = fill(k%5, byte(k))
		}
		return w
	}, 0, 21)
	said("bytes", func(i int) spoken {
		return spoken{64: {byte(i)}, 65: {byte(i), 0, byte(i)}}
	}, 0, 256)
	return out
}

// introOf is the first node of routes to a node: the peer with most channels.
func introOf(g *chatNet, i int) int {
	best := -1
	for _, j := range g.neighbours(i) {
		if best < 0 || len(g.neighbours(j)) > len(g.neighbours(best)) {
			best = j
		}
	}
	return best
}
