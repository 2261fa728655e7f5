package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/carlakc/boltnd/onionmsg"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
)

func init() {
	register(&prop{
		id:   "C13",
		rule: "one forwarded message of some shape, followed by good messages; non-trivial: distinct shapes that must be forwarded",
		bounds: "every combination of 30 shapes of encrypted data, 5 sets of final payloads, reply path or none, first or later hop, send answers (ok, 4 errors), each followed by a good forward and a message for us; 16 session keys; every sequence of 3 records as blinded data; every pair (thorough: triple) of 108 messages that share keys, or use each other's or negated keys, for blinding, session, next node and override; each of them from 12 senders; " +
			"failure of each single ECDH call" +
			"; 250 messages to forward in 4 modes" + togetherBounds,
		assumptions: []string{"the sphinx library implements onion routing and route blinding correctly"},
		scenarios:   c13Scenarios,
	})
}

// ---------------------------------------------------------------------------
// What a node must do with a custom message
// ---------------------------------------------------------------------------

// oracle predicts what a messenger does with the messages it gets.
type oracle struct {
	key   int
	names map[uint64]string
	seen  map[string]bool
	// The predictions so far.
	deliver []delivery
	send    []lndclient.CustomMessage
}

func newOracle(key int, names map[uint64]string) *oracle {
	return &oracle{key: key, names: names, seen: make(map[string]bool)}
}

var peelCache = map[string]*peeled{}

func peel(key int, msg []byte) *peeled {
	k := fmt.Sprintf("%d:%s", key, msg)
	p := peelCache[k]
	if p == nil {
		p = refPeel(key, msg)
		if len(peelCache) > 5000 {
			peelCache = make(map[string]*peeled)
		}
		peelCache[k] = p
	}
	return p
}

// message predicts the effect of one message.
func (o *oracle) message(m lndclient.CustomMessage) {
	if m.MsgType != 513 {
		return
	}
	p := peel(o.key, m.Data)
	if p.err != nil || o.seen[string(m.Data)] {
		return
	}
	o.seen[string(m.Data)] = true
	v, pay := refPayload(p.payload)
	if v != accept {
		return
	}
	if p.final {
		o.deliver = append(o.deliver, expectDeliveries(pay, o.names)...)
		return
	}
	if len(pay.final) > 0 || len(pay.enc) == 0 {
		return
	}
	next, override, ok := refRouteData(o.key, p.blinding, pay.enc)
	if !ok || next == nil {
		return
	}
	blinding := p.nextBlinding
	if override != nil {
		blinding = override
	}
	o.send = append(o.send, lndclient.CustomMessage{
		Peer: toVertex(next), MsgType: 513,
		Data: wireOnion(blinding, p.next),
	})
}

func sends(ms []lndclient.CustomMessage) string {
	s := fmt.Sprintf("%d:", len(ms))
	for _, m := range ms {
		s += fmt.Sprintf(" [to %v type %v %v]", m.Peer, m.MsgType,
			clipHex(m.Data))
		if len(m.Data) > 400 {
			s += fmt.Sprintf("%x", m.Data[400:])
		}
	}
	return s
}

// check compares a node with the predictions.
func (o *oracle) check(n *node, tried []lndclient.CustomMessage, what string) {
	if deliveries(n.got) != deliveries(o.deliver) {
		n.x.Failf("wrong deliveries: %v: got %v, want %v", what,
			deliveries(n.got), deliveries(o.deliver))
	}
	if sends(tried) != sends(o.send) {
		n.x.Failf("wrong messages sent: %v: got %v, want %v", what,
			sends(tried), sends(o.send))
	}
}

// ---------------------------------------------------------------------------
// C13
// ---------------------------------------------------------------------------

type dataShape struct {
	name string
	data []byte
	raw  func(enc []byte) []byte
	omit bool
}

func encFor(key, blinding int, data []byte) []byte {
	bp, err := sphinx.BuildBlindedPath(privKey(blinding),
		[]*sphinx.BlindedPathHop{{NodePub: pubKey(key), Payload: data}})
	if err != nil {
		panic(err)
	}
	return bp.EncryptedData[0]
}

// cryptDataShapes are shapes of blinded data and of its encryption.
func cryptDataShapes() []dataShape {
	good := nextNode(61, nil)
	off := append([]byte{}, point(61)...)
	for isPoint(off) {
		off[32]++
	}
	shapes := []dataShape{
		{name: "good", data: good},
		{name: "override", data: nextNode(61, point(72))},
		{name: "override-other", data: nextNode(62, point(73))},
		{name: "to-us", data: nextNode(usKey, nil)},
		{name: "padding", data: mkStream(map[uint64][]byte{
			1: make([]byte, 10), 4: point(61)})},
		{name: "unknown", data: mkStream(map[uint64][]byte{
			4: point(61), 8: point(72), 65537: fill(7, 1)})},
		{name: "empty", data: []byte{}},
		{name: "only-override", data: mkStream(map[uint64][]byte{
			8: point(72)})},
		{name: "only-padding", data: mkStream(map[uint64][]byte{
			1: make([]byte, 10)})},
		{name: "short-id", data: mkStream(map[uint64][]byte{
			4: point(61)[:32]})},
		{name: "long-id", data: mkStream(map[uint64][]byte{
			4: append(append([]byte{}, point(61)...), 0)})},
		{name: "bad-id", data: mkStream(map[uint64][]byte{4: off})},
		{name: "bad-override", data: mkStream(map[uint64][]byte{
			4: point(61), 8: off})},
		{name: "short-override", data: mkStream(map[uint64][]byte{
			4: point(61), 8: {2}})},
		{name: "empty-override", data: mkStream(map[uint64][]byte{
			4: point(61), 8: {}})},
		{name: "cut", data: good[:len(good)-1]},
		{name: "extra", data: append(append([]byte{}, good...), 9)},
		{name: "unordered", data: cat(mkTLV(8, point(72)),
			mkTLV(4, point(61)))},
		{name: "twice", data: cat(mkTLV(4, point(61)),
			mkTLV(4, point(62)))},
		{name: "type-0", data: cat(mkTLV(0, nil), mkTLV(4, point(61)))},
		{name: "absent", data: good, omit: true},
		{name: "zero", data: good, raw: func([]byte) []byte {
			return []byte{}
		}},
		{name: "one", data: good, raw: func(e []byte) []byte {
			return e[:1]
		}},
		{name: "plain", data: good, raw: func([]byte) []byte {
			return good
		}},
		{name: "no-mac", data: good, raw: func(e []byte) []byte {
			return e[:len(e)-16]
		}},
		{name: "cut-mac", data: good, raw: func(e []byte) []byte {
			return e[:len(e)-1]
		}},
		{name: "flip-mac", data: good, raw: func(e []byte) []byte {
			e = append([]byte{}, e...)
			e[len(e)-1] ^= 1
			return e
		}},
		{name: "flip", data: good, raw: func(e []byte) []byte {
			e = append([]byte{}, e...)
			e[4] ^= 0x80
			return e
		}},
		{name: "other-key", data: good, raw: func([]byte) []byte {
			return encFor(61, 80, good)
		}},
		{name: "other-blinding", data: good, raw: func([]byte) []byte {
			return encFor(usKey, 80, good)
		}},
	}
	return shapes
}

var sendErrs = []error{
	nil, errors.New("send failed"), context.Canceled,
	onionmsg.ErrShuttingDown, onionmsg.ErrLNDShutdown,
}

// fwdOnion is an onion that we forward, as first or as second hop.
func fwdOnion(seed int, s dataShape, final []refTLV, path *rPath,
	later bool) []byte {

	hops := []oHop{{
		key: usKey, data: s.data, rawEnc: s.raw,
		payload: func(enc []byte) []byte {
			recs := map[uint64][]byte{4: enc}
			if s.omit {
				delete(recs, 4)
			}
			if path != nil {
				recs[2] = path.encode()
			}
			for _, f := range final {
				recs[f.typ] = f.val
			}
			return mkStream(recs)
		},
	}, {
		key: 61, payload: constPayload(mkStream(map[uint64][]byte{
			64: fill(9, 64)})),
	}}
	if !later {
		return refOnion(seed, hops...)
	}
	first := oHop{key: 60, data: nextNode(usKey, nil), payload: encPayload}
	full := refOnion(seed, append([]oHop{first}, hops...)...)
	p := refPeel(60, full)
	if p.err != nil {
		panic(p.err)
	}
	return wireOnion(p.nextBlinding, p.next)
}

// fwdNode is a started messenger with handlers for 64 and 65, and the list of
// messages that it tried to send.
func fwdNode(x *rt.Exec, failing map[string]error) (*node, *oracle,
	*[]lndclient.CustomMessage) {

	n := newNode(x, usKey)
	tried := &[]lndclient.CustomMessage{}
	n.lnd.onSend = func(_ context.Context, m lndclient.CustomMessage) error {
		*tried = append(*tried, m)
		return failing[string(m.Data)]
	}
	n.start()
	n.lnd.waitSub()
	names := map[uint64]string{64: "h64", 65: "h65"}
	n.register(64, n.handler("h64", nil))
	n.register(65, n.handler("h65", nil))

	return n, newOracle(usKey, names), tried
}

var (
	goodFwd  []byte
	goodFwd2 []byte
	goodUs   []byte
)

func goodMsgs() {
	if goodFwd == nil {
		goodFwd = fwdOnion(900, dataShape{data: nextNode(61, nil)},
			nil, nil, false)
		goodFwd2 = fwdOnion(901, dataShape{
			data: nextNode(62, point(74))}, nil, nil, false)
		goodUs = toUs(902, usKey, mkStream(map[uint64][]byte{
			64: {1, 2}, 65: {3}}))
	}
}

// coincident is a message that has something in common with others.
type coincident struct {
	blinding, session int
	// next is the node to forward to, 0 for a message to us.
	next, override int
}

func c13Coincident() []coincident {
	var out []coincident
	for _, b := range []int{950, -950, 951} {
		for _, s := range []int{960, -960, 950} {
			for _, n := range [][2]int{
				{0, 0}, {61, 0}, {-61, 0}, {61, 72}, {61, -72},
				{61, 950}, {61, -950}, {61, 61}, {usKey, 0},
				{-usKey, 0}, {950, 0}, {90, 0},
			} {
				out = append(out, coincident{b, s, n[0], n[1]})
			}
		}
	}
	return out
}

var coincidentMsgs = map[coincident][]byte{}

func (c coincident) msg() []byte {
	if m := coincidentMsgs[c]; m != nil {
		return m
	}
	var m []byte
	if c.next == 0 {
		m = refOnionKeys(c.blinding, c.session, oHop{key: usKey,
			payload: constPayload(mkStream(map[uint64][]byte{
				64: {1, 2},
				65: []byte(fmt.Sprint(c.blinding, c.session)),
			}))})
	} else {
		var override []byte
		if c.override != 0 {
			override = point(c.override)
		}
		m = refOnionKeys(c.blinding, c.session, oHop{key: usKey,
			data: nextNode(c.next, override), payload: encPayload,
		}, oHop{key: 61, payload: constPayload(mkStream(
			map[uint64][]byte{64: fill(9, 64)}))})
	}
	coincidentMsgs[c] = m
	return m
}

// c13Pairs sends two or three messages that share (parts of) keys.
func c13Pairs(x *rt.Exec, ms ...coincident) {
	for i := range ms {
		for j := range ms[:i] {
			// The onion keys are only good for one message.
			if ms[i].blinding == ms[j].blinding &&
				ms[i].session == ms[j].session && ms[i] != ms[j] {

				return
			}
		}
	}
	count(x)
	n, o, tried := fwdNode(x, nil)
	for _, c := range ms {
		m := n.lnd.onion(c.msg())
		o.message(m)
		n.feed(m)
		o.check(n, *tried, fmt.Sprint("messages ", ms))
	}
	x.Count("distinct")
	n.stop()
}

func c13Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f})
	}
	finals := [][]refTLV{
		nil, {{typ: 64, val: fill(3, 1)}}, {{typ: 65, val: nil}},
		{{typ: 1001, val: fill(3, 1)}},
		{{typ: 64, val: nil}, {typ: 1 << 40, val: fill(2, 2)}},
	}

	run := func(x *rt.Exec, msg []byte, sendErr error, what string) {
		count(x)
		goodMsgs()
		failing := map[string]error{}
		o0 := newOracle(usKey, nil)
		o0.message(lndclient.CustomMessage{MsgType: 513, Data: msg})
		for _, s := range o0.send {
			failing[string(s.Data)] = sendErr
		}
		n, o, tried := fwdNode(x, failing)
		for _, d := range [][]byte{
			goodFwd2, msg, goodFwd, goodUs,
		} {
			m := n.lnd.onion(d)
			o.message(m)
			n.feed(m)
			o.check(n, *tried, what)
		}
		if len(o0.send) > 0 {
			x.Count("distinct")
		}
		n.stop()
		x.Outcome("%d sends, %d deliveries", len(o.send), len(o.deliver))
	}

	for _, s := range cryptDataShapes() {
		s := s
		add("shape "+s.name, func(x *rt.Exec) {
			f := x.Choose(len(finals), "final payloads")
			var path *rPath
			if x.Choose(2, "reply path") == 1 {
				path = samplePath(3, 2)
			}
			later := x.Choose(2, "later hop") == 1
			e := sendErrs[x.Choose(len(sendErrs), "send")]
			msg := fwdOnion(1, s, finals[f], path, later)
			run(x, msg, e, fmt.Sprintf("data %v, final %v, path %v, "+
				"later %v, send error %v", s.name, finals[f],
				path, later, e))
		})
	}
	seeds := 16
	if thorough {
		seeds = 128
	}
	split(add, "session keys", 8, func(x *rt.Exec, part int) {
		seed := part + 8*x.Choose(seeds/8, "seed")
		later := x.Choose(2, "later hop") == 1
		s := dataShape{data: nextNode(61+seed%2, nil)}
		if x.Choose(2, "override") == 1 {
			s.data = nextNode(61, point(75+seed))
		}
		run(x, fwdOnion(2000+seed, s, nil, nil, later), nil,
			fmt.Sprintf("seed %v later %v", seed, later))
	})

	// Sequences of records as blinded data.
	alpha := [][]byte{
		{}, mkTLV(1, []byte{0, 0}), mkTLV(2, u64(5)),
		mkTLV(4, point(61)), mkTLV(4, point(62)), mkTLV(6, []byte{1}),
		mkTLV(8, point(72)), mkTLV(9, nil), mkTLV(1<<16, []byte{3}),
		{4}, {0xfd, 0, 4}, cat([]byte{4, 34}, point(61)),
	}
	split(add, "record sequences", len(alpha), func(x *rt.Exec, part int) {
		d := cat(alpha[part], alpha[x.Choose(len(alpha), "second")],
			alpha[x.Choose(len(alpha), "third")])
		run(x, fwdOnion(1, dataShape{data: d}, nil, nil, false), nil,
			fmt.Sprintf("data %x", d))
	})

	// Messages that have something in common.
	cs := c13Coincident()
	split(add, "coincident", len(cs), func(x *rt.Exec, part int) {
		second := cs[x.Choose(len(cs), "second")]
		c13Pairs(x, cs[part], second)
		if thorough {
			for _, third := range cs {
				c13Pairs(x, cs[part], second, third)
			}
		}
	})
	// Our own and our neighbours' keys are keys like any other.
	split(add, "own keys", 7, func(x *rt.Exec, part int) {
		b := []int{usKey, -usKey, 61, -61, 90, 72, 952}[part]
		for _, s := range []int{usKey, -usKey, 61, -61, 72, 962} {
			if s == b {
				continue
			}
			for _, n := range [][2]int{
				{0, 0}, {61, 0}, {-61, 0}, {61, usKey}, {61, 61},
				{61, -61}, {usKey, usKey}, {usKey, 0},
				{-usKey, 0}, {usKey, 61}, {72, 72}, {90, 90},
				{90, 0}, {61, 90}, {61, b}, {61, s}, {s, 0},
				{s, b},
			} {
				c13Pairs(x, coincident{b, s, n[0], n[1]})
			}
		}
	})
	// It makes no difference who hands a message to us.
	split(add, "senders", len(cs), func(x *rt.Exec, part int) {
		var keys [][]byte
		for _, k := range []int{usKey, -usKey, 61, -61, 62, 60, 72, 90,
			950, -950} {

			keys = append(keys, point(k))
		}
		keys = append(keys, make([]byte, 33), fill(33, 0xff))
		c := cs[part]
		k := keys[x.Choose(len(keys), "sender")]
		count(x)
		goodMsgs()
		n, o, tried := fwdNode(x, nil)
		for _, d := range [][]byte{c.msg(), goodFwd, goodUs, goodFwd2} {
			m := n.lnd.onion(d)
			m.Peer = toVertex(k)
			o.message(m)
			n.feed(m)
			o.check(n, *tried, fmt.Sprintf("message %v from %x", c, k))
		}
		x.Count("distinct")
		n.stop()
	})

	// It makes no difference what a send fails with.
	eachError(add, "errors", 2, zooNotFound, func(x *rt.Exec, e error) {
		for _, over := range [][]byte{nil, point(72)} {
			run(x, fwdOnion(1, dataShape{data: nextNode(61, over)},
				nil, nil, false), e, fmt.Sprintf("send error "+
				"%T(%v)", e, e))
		}
	})
	for i := len(out) - 2; i < len(out); i++ {
		out[i].Opt.Horizon = 1 << 40
	}

	// One key operation fails: nothing or the right message is sent.
	add("ecdh failure", func(x *rt.Exec) {
		goodMsgs()
		count(x)
		k := x.Choose(12, "failing operation")
		e := zooNotFound[x.Choose(len(zooNotFound), "error")]
		n := newNode(x, usKey)
		calls := 0
		n.useECDH(func() error {
			calls++
			if calls-1 == k {
				return e
			}
			return nil
		})
		n.start()
		n.lnd.waitSub()
		names := map[uint64]string{64: "h64"}
		n.register(64, n.handler("h64", nil))
		for i, d := range [][]byte{goodFwd2, goodFwd, goodUs} {
			before := calls
			was, wasGot := len(n.lnd.sent), len(n.got)
			n.feed(n.lnd.onion(d))
			o := newOracle(usKey, names)
			o.message(n.lnd.onion(d))
			sent, got := n.lnd.sent[was:], n.got[wasGot:]
			hit := before <= k && k < calls
			if hit && len(sent) == 0 && len(got) == 0 {
				x.Outcome("message %d dropped", i)
				continue
			}
			if sends(sent) != sends(o.send) ||
				deliveries(got) != deliveries(o.deliver) {

				x.Failf("wrong messages sent: key operation %v "+
					"fails: message %v: sent %v, want %v, "+
					"got %v, want %v", k, i, sends(sent),
					sends(o.send), deliveries(got),
					deliveries(o.deliver))
			}
		}
		x.Count("distinct")
		n.stop()
	})

	out = append(out, c13Long()...)
	return append(out, togetherWith(thorough, "forward")...)
}
