package main

import (
	"bytes"
	"context"
	"fmt"
	"strings"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
)

func init() {
	register(&prop{
		id:   "C10",
		rule: "one message sent through a network of messengers; non-trivial: distinct messages that must be delivered",
		bounds: "clear destinations at path lengths 1-8 and at the limits (26, 27, 28, 40), blinded destinations of 1-4 hops (and 26, 27, 28, 40) behind paths of 1-4 hops, routed and direct; 9 payload sets in every order, 4 reply paths, contents the onion cannot hold (types below 64, duplicates, 1 byte steps around the size limit, reply paths of 0 and 256 hops); 8 (thorough: 64) randomness streams; 14 ways x 10 reply paths that share nodes with them (or their negations) x 7 values; " +
			"round trips over a reply path generated by the recipient's own generator; pairs of messages sent at the same time, interleaved at every statement with at most 1 preemption" +
			"; the same request 5 times, the same message 40 times and 240 messages on 6 ways between the same nodes; every split of up to 13 nodes into a path and a blinded destination; on 6 ways: payloads of every size up to 900 bytes, every value of a byte, 0-70 payloads, 1-9 hops to reply over with 0-600 bytes each, each of 650 types" + togetherBounds,
		assumptions: []string{"the sphinx library implements onion routing and route blinding correctly", "all nodes on a path are online and deliver messages"},
		scenarios:   c10Scenarios,
	})
}

var c10Types = []uint64{64, 65, 1001, 1<<32 + 1, 3001}

// network is a set of nodes that are all reachable for each other.
type network struct {
	x     *rt.Exec
	nodes map[[33]byte]*node
	// log is the sequence of hand-offs.
	log  []string
	next int
	// extra is one more type that has handlers.
	extra uint64
}

type handOff struct {
	from int
	m    lndclient.CustomMessage
}

func newNetwork(x *rt.Exec, keys ...int) *network {
	w := &network{x: x, nodes: make(map[[33]byte]*node)}
	for _, k := range keys {
		if w.nodes[toVertex(point(k))] != nil {
			continue
		}
		n := newNode(x, k)
		w.nodes[toVertex(point(k))] = n
		n.start()
		n.lnd.waitSub()
		for _, t := range c10Types {
			n.register(t, n.handler(fmt.Sprintf("h%d", t), nil))
		}
	}
	return w
}

func (w *network) node(key int) *node { return w.nodes[toVertex(point(key))] }

// carry delivers everything that was sent until nothing is in flight and
// returns the hand-offs.
func (w *network) carry(keys []int) []string {
	var log []string
	done := map[*node]int{}
	for {
		w.x.Quiesce()
		moved := false
		for _, k := range keys {
			n := w.node(k)
			for done[n] < len(n.lnd.sent) {
				m := n.lnd.sent[done[n]]
				done[n]++
				moved = true
				to := w.nodes[m.Peer]
				if to == nil || m.MsgType != 513 {
					w.x.Failf("misdirected: node %v sent "+
						"to %v type %v", k, m.Peer,
						m.MsgType)
				}
				log = append(log, fmt.Sprintf("%d>%d", k, to.key))
				to.lnd.push(lndclient.CustomMessage{
					Peer: toVertex(point(k)), MsgType: 513,
					Data: m.Data,
				}, nil)
				w.x.Quiesce()
			}
		}
		if !moved {
			return log
		}
		if len(log) > 200 {
			w.x.Failf("endless: message circulates: %v", log)
		}
	}
}

func (w *network) stop() {
	for _, n := range w.nodes {
		n.stop()
	}
}

func (w *network) reset() {
	for _, n := range w.nodes {
		n.lnd.sent = nil
		n.got = nil
	}
}

// deliveredAt checks that only node key got deliveries, as given.
func (w *network) deliveredAt(key int, want []delivery, blindedDest bool,
	what string) {

	for _, n := range w.nodes {
		got := append([]delivery{}, n.got...)
		for i := range got {
			// What the encrypted data of a clear destination is
			// has not been specified.
			if !blindedDest {
				got[i].enc = ""
			}
		}
		exp := want
		if n.key != key {
			exp = nil
		}
		if deliveries(got) != deliveries(exp) {
			w.x.Failf("wrong deliveries: %v: node %v: got %v, "+
				"want %v", what, n.key, deliveries(got),
				deliveries(exp))
		}
	}
}

// blindedTo is a blinded path along nodes, whose recipient data is data.
func blindedTo(seed int, data []byte, keys ...int) *rPath {
	var bh []*sphinx.BlindedPathHop
	for i, k := range keys {
		d := data
		if i+1 < len(keys) {
			d = nextNode(keys[i+1], nil)
		}
		bh = append(bh, &sphinx.BlindedPathHop{
			NodePub: pubKey(k), Payload: d,
		})
	}
	bp, err := sphinx.BuildBlindedPath(privKey(5000+seed), bh)
	if err != nil {
		panic(err)
	}
	return fromSphinx(bp)
}

func fromSphinx(bp *sphinx.BlindedPath) *rPath {
	p := &rPath{
		first:    bp.IntroductionPoint.SerializeCompressed(),
		blinding: bp.BlindingPoint.SerializeCompressed(),
	}
	for i, h := range bp.BlindedHops {
		p.hops = append(p.hops, rHop{
			key: h.SerializeCompressed(), data: bp.EncryptedData[i],
		})
	}
	return p
}

// c10Send is one message to send.
type c10Send struct {
	// path are the nodes lnd routes to, the last one is the destination or
	// the introduction node.
	path []int
	// blinded are the nodes of the blinded destination, the first one is
	// the introduction node. Empty for a clear destination.
	blinded []int
	direct  bool
	final   []refTLV
	reply   *rPath
	dest    *rPath
	skew    int
}

func (c *c10Send) String() string {
	s := fmt.Sprintf("path %v, blinded %v, direct %v, reply %v, payloads",
		c.path, c.blinded, c.direct, c.reply)
	for _, f := range c.final {
		s += fmt.Sprintf(" %d:%d bytes", f.typ, len(f.val))
	}
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

const senderKey = 40

// request prepares the sender's lnd and makes the request.
func (c *c10Send) request(n *node) *onionmsg.SendMessageRequest {
	target := c.path[len(c.path)-1]
	n.lnd.onRoutes = func(_ context.Context,
		r lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse,
		error) {

		if r.PubKey != toVertex(point(target)) {
			n.x.Failf("wrong target: %v, want %v: %v", r.PubKey,
				target, c)
		}
		return hopsTo(c.path...), nil
	}
	n.lnd.onPeers = func(context.Context) ([]lndclient.Peer, error) {
		return []lndclient.Peer{
			{Pubkey: toVertex(point(91))},
			{Pubkey: toVertex(point(target))},
		}, nil
	}
	var dest *btcec.PublicKey
	var blinded *lnwire.ReplyPath
	if len(c.blinded) > 0 || c.dest != nil {
		d := c.dest
		if d == nil {
			d = blindedTo(1, []byte{6, 1, 1}, c.blinded...)
		}
		blinded = d.real()
	} else {
		dest = pubKey(target)
	}
	var finals []*lnwire.FinalHopPayload
	for _, f := range c.final {
		finals = append(finals, &lnwire.FinalHopPayload{
			TLVType: tlv.Type(f.typ), Value: f.val,
		})
	}
	return onionmsg.NewSendMessageRequest(
		dest, blinded, c.reply.real(), finals, c.direct,
	)
}

// hops are the hand-offs that the message must take.
func (c *c10Send) hops() ([]string, int) {
	nodes := append([]int{senderKey}, c.path...)
	if len(c.blinded) > 0 {
		nodes = append(nodes, c.blinded[1:]...)
	}
	var out []string
	for i := 1; i < len(nodes); i++ {
		out = append(out, fmt.Sprintf("%d>%d", nodes[i-1], nodes[i]))
	}
	return out, nodes[len(nodes)-1]
}

// run sends the message. fits: 1 must be delivered, 0 must fail, 2 may do
// either.
func (c *c10Send) run(x *rt.Exec, fits int) {
	count(x)
	keys := append([]int{senderKey, 91}, c.path...)
	keys = append(keys, c.blinded...)
	w := newNetwork(x, keys...)
	c.runIn(w, keys, fits)
	for _, n := range w.nodes {
		n.stop()
	}
}

func (c *c10Send) runIn(w *network, keys []int, fits int) {
	x := w.x
	n := w.node(senderKey)
	req := c.request(n)
	// Use up randomness, so that other keys are chosen.
	skip := make([]byte, 32)
	for i := 0; i < c.skew; i++ {
		det.Read(skip)
	}
	err := n.m.SendMessage(context.Background(), req)
	sentNow := len(n.lnd.called("send"))
	log := w.carry(keys)
	switch {
	case err != nil && fits == 1:
		x.Failf("send failed: %v: %v", c, err)
	case err == nil && fits == 0:
		x.Failf("send succeeded: %v", c)
	case err != nil:
		if sentNow > 0 || len(log) > 0 {
			x.Failf("sent: although it failed with %v: %v: %v", err,
				c, log)
		}
		w.deliveredAt(0, nil, true, c.String())
		x.Outcome("refused")
		return
	}
	want, at := c.hops()
	if strings.Join(log, " ") != strings.Join(want, " ") {
		x.Failf("wrong path: %v: took %v, want %v", c, log, want)
	}
	enc := ""
	blinded := len(c.blinded) > 0
	if blinded {
		p := blindedTo(1, []byte{6, 1, 1}, c.blinded...)
		enc = fmt.Sprintf("%x", p.hops[len(p.hops)-1].data)
	}
	names := map[uint64]string{}
	for _, t := range c10Types {
		names[t] = fmt.Sprintf("h%d", t)
	}
	if w.extra != 0 {
		names[w.extra] = fmt.Sprintf("h%d", w.extra)
	}
	ds := expectDeliveries(&rPayload{path: c.reply, final: c.final}, names)
	for i := range ds {
		ds[i].enc = enc
	}
	w.deliveredAt(at, ds, blinded, c.String())
	x.Count("distinct")
	x.Outcome("%v", log)
}

func seqKeys(from, n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, from+i)
	}
	return out
}

func c10Payloads() [][]refTLV {
	return [][]refTLV{
		nil,
		{{typ: 64, val: fill(5, 1)}},
		{{typ: 65}},
		{{typ: 64}, {typ: 65, val: fill(1, 1)}},
		{{typ: 1001, val: fill(253, 1)}},
		{{typ: 64, val: fill(3, 1)}, {typ: 1001, val: fill(4, 4)},
			{typ: 1<<32 + 1, val: fill(5, 5)}},
		{{typ: 65, val: fill(30, 1)}, {typ: 3001}},
		{{typ: 99, val: fill(30, 1)}},
		{{typ: 65, val: fill(8, 1)}, {typ: 99, val: fill(4, 1)}},
	}
}

func c10Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f,
			Opt: rt.Options{Horizon: 200000}})
	}
	replies := []*rPath{nil, samplePath(1, 1), samplePath(2, 2), samplePath(3, 3)}
	maxPath, maxBlind := 5, 3
	if thorough {
		maxPath, maxBlind = 8, 4
	}

	// content picks payloads (in every order) and a reply path.
	content := func(x *rt.Exec, c *c10Send) {
		ps := c10Payloads()
		fin := append([]refTLV{}, ps[x.Choose(len(ps), "payloads")]...)
		// Every order.
		for i := range fin {
			j := i + x.Choose(len(fin)-i, "order")
			fin[i], fin[j] = fin[j], fin[i]
		}
		c.final = fin
		c.reply = replies[x.Choose(len(replies), "reply path")]
	}
	for l := 1; l <= maxPath; l++ {
		l := l
		add(fmt.Sprintf("clear path=%d", l), func(x *rt.Exec) {
			c := &c10Send{path: seqKeys(100, l)}
			content(x, c)
			c.run(x, 1)
		})
	}
	add("clear direct", func(x *rt.Exec) {
		c := &c10Send{path: []int{100}, direct: true}
		content(x, c)
		c.run(x, 1)
	})
	for b := 1; b <= maxBlind; b++ {
		for l := 1; l <= 4; l++ {
			b, l := b, l
			blind := func(x *rt.Exec, direct bool) {
				c := &c10Send{
					path: seqKeys(100, l), direct: direct,
				}
				c.blinded = append([]int{100 + l - 1},
					seqKeys(200, b-1)...)
				content(x, c)
				c.run(x, 1)
			}
			add(fmt.Sprintf("blinded path=%d hops=%d", l, b),
				func(x *rt.Exec) { blind(x, false) })
			if l == 1 {
				add(fmt.Sprintf("blinded direct hops=%d", b),
					func(x *rt.Exec) { blind(x, true) })
			}
		}
	}

	// Nodes that occur more than once on the way.
	add("repeated nodes", func(x *rt.Exec) {
		ways := []c10Send{
			{path: []int{100, 101, 100, 102}},
			{path: []int{100, 101}, blinded: []int{101, 100}},
			{path: []int{100, 101}, blinded: []int{101, 100, 101}},
			{path: []int{100}, blinded: []int{100, 101, 100}},
			{path: []int{100, 101, 102},
				blinded: []int{102, 101, 100}},
			{path: []int{100}, blinded: []int{100, senderKey}},
			{path: []int{100, senderKey}},
			{path: []int{senderKey}},
			{path: []int{senderKey}, direct: true},
			{path: []int{senderKey, 100}},
			{path: []int{senderKey}, blinded: []int{senderKey, 100}},
			{path: []int{senderKey}, blinded: []int{senderKey, 100},
				direct: true},
			{path: []int{senderKey}, blinded: []int{senderKey}},
			{path: []int{100, senderKey},
				blinded: []int{senderKey, 101}},
		}
		c := ways[x.Choose(len(ways), "way")]
		content(x, &c)
		c.run(x, 1)
	})

	// What a message says has something in common with where it goes.
	add("coincident", func(x *rt.Exec) {
		ways := []c10Send{
			{path: []int{100}},
			{path: []int{100}, direct: true},
			{path: []int{100, 101}},
			{path: []int{100, -100}},
			{path: []int{100, senderKey, 101}},
			{path: []int{100, 101, 102}, direct: false},
			{path: []int{100}, blinded: []int{100}},
			{path: []int{100}, blinded: []int{100}, direct: true},
			{path: []int{100}, blinded: []int{100, 200}},
			{path: []int{100}, blinded: []int{100, 200}, direct: true},
			{path: []int{100, 101}, blinded: []int{101, 200}},
			{path: []int{100, 101}, blinded: []int{101, senderKey}},
			{path: []int{100, 101}, blinded: []int{101, -101}},
			{path: []int{100, 101}, blinded: []int{101, 100, 200}},
		}
		c := ways[x.Choose(len(ways), "way")]
		target := c.path[len(c.path)-1]
		last := target
		if len(c.blinded) > 0 {
			last = c.blinded[len(c.blinded)-1]
		}
		replies := []*rPath{
			nil,
			blindedTo(2, nil, target, senderKey),
			blindedTo(2, nil, c.path[0], senderKey),
			blindedTo(2, nil, senderKey),
			blindedTo(2, nil, last, target, senderKey),
			blindedTo(2, nil, target),
			blindedTo(2, nil, last),
			blindedTo(2, nil, 91, senderKey),
			blindedTo(2, nil, -target, senderKey),
		}
		if len(c.blinded) > 0 {
			// The same as the blinded destination.
			replies = append(replies, blindedTo(
				1, []byte{6, 1, 1}, c.blinded...,
			))
		}
		c.reply = replies[x.Choose(len(replies), "reply path")]
		v := [][]byte{{}, {0}, point(target), point(senderKey),
			make([]byte, 33), fill(60, 1)}
		if c.reply != nil {
			v = append(v, c.reply.encode())
		}
		a := v[x.Choose(len(v), "value")]
		c.final = []refTLV{{typ: 64, val: a}, {typ: 65, val: a}}
		c.run(x, 1)
	})

	// Randomness.
	skews := 8
	if thorough {
		skews = 64
	}
	split(add, "keys", 8, func(x *rt.Exec, part int) {
		c := &c10Send{path: seqKeys(100, 3),
			skew: part + 8*x.Choose(skews/8, "skew")}
		if x.Choose(2, "blinded") == 1 {
			c.blinded = []int{102, 200}
		}
		c.final = []refTLV{{typ: 64, val: fill(5, 1)}}
		c.reply = replies[1]
		c.run(x, 1)
	})

	// The limits of what an onion holds: a plain hop takes 33 (mac and
	// length) plus 2 + 51 bytes (the encrypted next node id).
	for _, l := range []int{9, 12, 14, 15, 16, 20, 26, 27, 28, 29, 40} {
		l := l
		add(fmt.Sprintf("long clear path=%d", l), func(x *rt.Exec) {
			c := &c10Send{path: seqKeys(100, l)}
			fits := 2
			if l <= 14 {
				fits = 1
			} else if l > 27 {
				fits = 0
			}
			c.final = []refTLV{{typ: 64, val: fill(5, 1)}}
			c.run(x, fits)
		})
		for _, direct := range []bool{false, true} {
			direct := direct
			add(fmt.Sprintf("long blinded hops=%d direct=%v", l,
				direct), func(x *rt.Exec) {

				c := &c10Send{path: []int{100}, direct: direct}
				c.blinded = append([]int{100},
					seqKeys(200, l-1)...)
				c.final = []refTLV{{typ: 64, val: fill(5, 1)}}
				fits := 2
				if l <= 12 {
					fits = 1
				} else if l > 27 {
					fits = 0
				}
				c.run(x, fits)
			})
		}
		add(fmt.Sprintf("long blinded behind path hops=%d", l),
			func(x *rt.Exec) {
				pre := 1 + x.Choose(3, "before")
				c := &c10Send{path: seqKeys(100, pre+1)}
				c.blinded = append([]int{100 + pre},
					seqKeys(200, l-1)...)
				c.final = []refTLV{{typ: 64, val: fill(5, 1)}}
				fits := 2
				if l+pre <= 10 {
					fits = 1
				} else if l+pre > 27 {
					fits = 0
				}
				c.run(x, fits)
			})
	}
	// Tiny hops: blinded destinations whose hops carry little data, so that
	// the number of hops is what limits the onion.
	for _, direct := range []bool{false, true} {
		direct := direct
		add(fmt.Sprintf("many tiny hops direct=%v", direct),
			func(x *rt.Exec) {
				count(x)
				l := []int{1, 2, 25, 26, 27, 28, 29, 60, 255}[x.Choose(9, "hops")]
				w := newNetwork(x, senderKey, 100)
				c := &c10Send{path: []int{100}, direct: direct}
				if !direct {
					c.path = []int{99, 100}
				}
				c.dest = &rPath{first: point(100),
					blinding: point(800)}
				for i := 0; i < l; i++ {
					c.dest.hops = append(c.dest.hops, rHop{
						key: point(900 + i), data: []byte{1},
					})
				}
				n := w.node(senderKey)
				err := n.m.SendMessage(
					context.Background(), c.request(n),
				)
				total := l
				if !direct {
					total++
				}
				switch {
				case total > 27 && err == nil:
					x.Failf("send succeeded: %v hops", total)
				case err != nil && len(n.lnd.called("send")) > 0:
					x.Failf("sent: although it failed: %v", err)
				case total <= 27 && err != nil:
					x.Failf("send failed: %v hops: %v",
						total, err)
				}
				x.Count("distinct")
				x.Outcome("%v", err != nil)
				for _, n := range w.nodes {
					n.stop()
				}
			})
	}

	// Payload sizes around the limit, for each way of sending.
	ways := []c10Send{
		{path: []int{100}}, {path: []int{100}, direct: true},
		{path: []int{100, 101}},
		{path: []int{100}, blinded: []int{100, 200}},
		{path: []int{100, 101}, blinded: []int{101, 200}},
	}
	for i := range ways {
		base := ways[i]
		add(fmt.Sprintf("payload size way=%d", i), func(x *rt.Exec) {
			sizes := []int{0, 1, 252, 253, 254, 255, 256, 900}
			for s := 990; s < 1270; s++ {
				sizes = append(sizes, s)
			}
			sizes = append(sizes, 1300, 1366, 5000, 65535, 65536)
			c := base
			s := sizes[x.Choose(len(sizes), "size")]
			c.final = []refTLV{{typ: 64, val: fill(s, 1)}}
			fits := 2
			if s <= 1000 {
				fits = 1
			} else if s >= 1270 {
				fits = 0
			}
			c.run(x, fits)
		})
		// Contents that cannot be expressed.
		add(fmt.Sprintf("inexpressible way=%d", i), func(x *rt.Exec) {
			c := base
			switch x.Choose(8, "what") {
			case 0:
				c.final = []refTLV{{typ: 63, val: fill(2, 1)}}
			case 1:
				c.final = []refTLV{{typ: 4, val: fill(2, 1)}}
			case 2:
				c.final = []refTLV{{typ: 64, val: fill(2, 1)},
					{typ: 0}}
			case 3:
				c.final = []refTLV{{typ: 64, val: fill(2, 1)},
					{typ: 64, val: fill(2, 2)}}
			case 4:
				c.reply = samplePath(1, 0)
			case 5:
				c.reply = samplePath(1, 256)
			case 6:
				c.reply = samplePath(1, 30)
			case 7:
				c.final = []refTLV{{typ: 2,
					val: samplePath(1, 1).encode()}}
			}
			c.run(x, 0)
		})
	}

	// Several messages through the same network, forwarding interleaved
	// with sending.
	add("several messages", func(x *rt.Exec) {
		count(x)
		keys := []int{senderKey, 91, 100, 101, 102, 200}
		w := newNetwork(x, keys...)
		for i := 0; i < 3; i++ {
			c := []c10Send{
				{path: []int{100, 101, 102}},
				{path: []int{100}, direct: true},
				{path: []int{100, 101}, blinded: []int{101, 200}},
				{path: []int{102}, blinded: []int{102, 101}},
			}[x.Choose(4, "way")]
			c.final = []refTLV{{typ: 64, val: fill(4+i, byte(i))},
				{typ: 1001, val: fill(i, byte(i))}}
			if i != 1 {
				c.reply = replies[i+1]
			}
			w.reset()
			w.node(senderKey).lnd.calls = nil
			c.runIn(w, keys, 1)
		}
		for _, n := range w.nodes {
			n.stop()
		}
	})

	// Messages that are sent at the same time, interleaved statement by
	// statement.
	pairs := [][2]c10Send{
		{{path: []int{100}}, {path: []int{101}}},
		{{path: []int{100, 102}}, {path: []int{101}, direct: true}},
		{{path: []int{102}, blinded: []int{102, 100}},
			{path: []int{101}, blinded: []int{101}}},
	}
	for i, p := range pairs {
		p := p
		add(fmt.Sprintf("concurrent sends %d", i), func(x *rt.Exec) {
			count(x)
			keys := []int{senderKey, 91, 100, 101, 102}
			w := newNetwork(x, keys...)
			n := w.node(senderKey)
			var reqs [2]*onionmsg.SendMessageRequest
			for j := range p {
				p[j].final = []refTLV{{typ: 64,
					val: fill(4+j, byte(j))}}
				if j == 0 {
					p[j].reply = replies[1]
				}
				reqs[j] = p[j].request(n)
			}
			n.lnd.onRoutes = func(_ context.Context,
				r lndclient.QueryRoutesRequest) (
				*lndclient.QueryRoutesResponse, error) {

				for _, c := range p {
					t := c.path[len(c.path)-1]
					if r.PubKey == toVertex(point(t)) {
						return hopsTo(c.path...), nil
					}
				}
				x.Failf("wrong target: %v", r.PubKey)
				return nil, nil
			}
			n.lnd.onPeers = func(context.Context) (
				[]lndclient.Peer, error) {

				return []lndclient.Peer{
					{Pubkey: toVertex(point(100))},
					{Pubkey: toVertex(point(101))},
				}, nil
			}
			var ts []*rt.Thread
			for j := range reqs {
				j := j
				ts = append(ts, x.Go("send", func() {
					err := n.m.SendMessage(
						context.Background(), reqs[j])
					if err != nil {
						x.Failf("send failed: %v: %v",
							&p[j], err)
					}
				}))
			}
			x.Join(ts...)
			w.carry(keys)
			for j, at := range []int{100, 101} {
				if i := len(p[j].path); j == 0 && i == 2 {
					at = 102
				}
				got := append([]delivery{}, w.node(at).got...)
				for g := range got {
					got[g].enc = ""
				}
				want := expectDeliveries(&rPayload{
					path: p[j].reply, final: p[j].final,
				}, map[uint64]string{64: "h64"})
				for g := range want {
					want[g].enc = ""
				}
				if deliveries(got) != deliveries(want) {
					x.Failf("wrong deliveries: %v: node "+
						"%v: got %v, want %v", &p[j],
						at, deliveries(got),
						deliveries(want))
				}
			}
			total := 0
			for _, n := range w.nodes {
				total += len(n.got)
			}
			if total != 2 {
				x.Failf("wrong deliveries: %v in total", total)
			}
			x.Count("distinct")
			for _, n := range w.nodes {
				n.stop()
			}
		})
		o := &out[len(out)-1].Opt
		o.Bound, o.StmtPoints, o.NoTimerPreempt = 1, true, true
		o.SelectCost, o.SwitchCost = 1, 1
	}

	// Round trips: we generate a route to ourselves, send it along, and
	// the recipient answers over it.
	add("round trip", func(x *rt.Exec) {
		count(x)
		keys := []int{senderKey, 91, 100, 101, 102}
		w := newNetwork(x, keys...)
		us := w.node(senderKey)
		us.lnd.onChannels = func(context.Context, bool, bool) (
			[]lndclient.ChannelInfo, error) {

			return []lndclient.ChannelInfo{{
				Active: true, PubKeyBytes: toVertex(point(100)),
			}}, nil
		}
		us.lnd.onNodeInfo = func(_ context.Context, k route.Vertex,
			_ bool) (*lndclient.NodeInfo, error) {

			return &lndclient.NodeInfo{
				Node: &lndclient.Node{PubKey: k},
				Channels: []lndclient.ChannelEdge{{
					ChannelID: 1,
				}},
			}, nil
		}
		skip := make([]byte, 32)
		for i := x.Choose(4, "skew"); i > 0; i-- {
			det.Read(skip)
		}
		bp, err := routes.NewBlindedRouteGenerator(
			us.lnd, pubKey(senderKey),
		).ReplyPath(context.Background(), nil)
		if err != nil {
			x.Failf("no reply path: %v", err)
		}
		out := &c10Send{
			path:  [][]int{{100, 101, 102}, {102}}[x.Choose(2, "path")],
			final: []refTLV{{typ: 64, val: fill(4, 1)}},
			reply: fromSphinx(bp),
		}
		out.runIn(w, keys, 1)

		them := w.node(102)
		got := them.got[0].rawPath
		w.reset()
		back := [][]int{{101, 100}, {100}}[x.Choose(2, "way back")]
		them.lnd.onRoutes = func(_ context.Context,
			r lndclient.QueryRoutesRequest) (
			*lndclient.QueryRoutesResponse, error) {

			if !bytes.Equal(r.PubKey[:], point(100)) {
				x.Failf("wrong target: %v", r.PubKey)
			}
			return hopsTo(back...), nil
		}
		err = them.m.SendMessage(context.Background(),
			onionmsg.NewSendMessageRequest(nil, got, nil,
				[]*lnwire.FinalHopPayload{{
					TLVType: 65, Value: fill(6, 6),
				}}, false))
		if err != nil {
			x.Failf("reply failed: %v", err)
		}
		log := w.carry(keys)
		want := fmt.Sprintf("102>%d", back[0])
		if len(back) == 2 {
			want += " 101>100"
		}
		want += fmt.Sprintf(" 100>%d", senderKey)
		if strings.Join(log, " ") != want {
			x.Failf("wrong path: reply took %v, want %v", log, want)
		}
		w.deliveredAt(senderKey, []delivery{{
			h: "h65", path: "nil",
			payload: fmt.Sprintf("%x", fill(6, 6)),
		}}, false, "reply")
		x.Count("distinct")
		for _, n := range w.nodes {
			n.stop()
		}
	})

	out = append(out, c10Sweeps()...)
	out = append(out, c10Long(thorough)...)
	return append(out, togetherWith(thorough, "send", "connect")...)
}
