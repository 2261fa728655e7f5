package main

import (
	"bytes"
	"errors"
	"fmt"
	"sort"

	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
)

func init() {
	register(&prop{
		id:   "C14",
		rule: "one history of incoming custom messages, each compared with the reference; non-trivial: distinct histories in which something is delivered",
		bounds: "every sequence of 3 (thorough: 4) of 18, and of 4 (5) of 8 messages (for us, to forward, replays, foreign types, empty, truncated, modified, wrong blinding, wrong node, malformed payloads); " +
			"key operations, sends and handlers that fail with each of 50 errors, followed by 4 messages; every truncation and every single bit flip of a message followed by the message itself; onions for us and to forward with every raw payload of 1 byte, with every sequence of up to 3 records of an alphabet, and with nested length errors; all strings of up to 2 bytes as messages; every sequence of 3 of 18 messages that share blinding points, session keys, payloads and senders; bursts of up to 6 messages with every interleaving of the stream and the messenger up to 2 (3) preemptions" +
			"; 600 (3000) messages and each of them again afterwards in 3 modes; messages after pauses of up to a year, slow key operations and handlers, messages while requests to send hang at each of their calls" + togetherBounds,
		assumptions: []string{
			"the sphinx library detects modified onions and replays",
			"the replay memory lives as long as the messenger",
			"bytes after an onion message's blob are not constrained",
		},
		scenarios: c14Scenarios,
	})
}

type symbol struct {
	name string
	typ  uint32
	data []byte
}

// c14Symbols is the alphabet of incoming messages.
func c14Symbols() []symbol {
	a := toUs(3000, usKey, (&rPayload{final: []refTLV{
		{typ: 64, val: fill(3, 1)}, {typ: 65, val: fill(4, 2)}}}).encode())
	b := toUs(3001, usKey, (&rPayload{path: samplePath(2, 2),
		enc: fill(5, 5), final: []refTLV{{typ: 64, val: fill(3, 9)}}}).encode())
	f := fwdOnion(3002, dataShape{data: nextNode(61, nil)}, nil, nil, false)
	g := fwdOnion(3003, dataShape{data: nextNode(66, nil)}, nil, nil, false)
	flip := func(m []byte, i int) []byte {
		m = append([]byte{}, m...)
		m[(i+len(m))%len(m)] ^= 1
		return m
	}
	garbage := append(append([]byte{}, point(3)...), 5, 86)
	garbage = append(garbage, fill(1366, 1)...)
	return []symbol{
		{"for us A", 513, a},
		{"for us B", 513, b},
		{"forward F", 513, f},
		{"forward G (send fails)", 513, g},
		{"for us C (handler fails)", 513, toUs(3004, usKey,
			mkStream(map[uint64][]byte{64: {7}, 1001: {1}}))},
		{"A as type 0", 0, a},
		{"A as type 512", 512, a},
		{"A as type 513+65536", 513 + 65536, a},
		{"empty", 513, []byte{}},
		{"half of A", 513, a[:len(a)/2]},
		{"A with a modified mac", 513, flip(a, -1)},
		{"A with a modified onion key", 513, flip(a, 40)},
		{"A with B's blinding point", 513, cat(b[:33], a[33:])},
		{"A for another node", 513, toUs(3000, 61,
			mkStream(map[uint64][]byte{64: {7}}))},
		{"random onion", 513, garbage},
		{"forward with final payload", 513, fwdOnion(3005, dataShape{
			data: nextNode(61, nil)}, []refTLV{{typ: 64}}, nil, false)},
		{"forward with bad data", 513, fwdOnion(3006, dataShape{
			data: nextNode(61, nil), raw: func(e []byte) []byte {
				return e[1:]
			}}, nil, nil, false)},
		{"for us malformed", 513, toUs(3007, usKey,
			[]byte{64, 3, 1, 1})},
	}
}

func c14Node(x *rt.Exec) (*node, *oracle, *[]lndclient.CustomMessage) {
	n, o, tried := fwdNode(x, nil)
	n.lnd.onSend = func(_ ctxT, m lndclient.CustomMessage) error {
		*tried = append(*tried, m)
		if bytes.Equal(m.Peer[:], point(66)) {
			return errors.New("no such peer")
		}
		return nil
	}
	n.register(1001, n.handler("h1001", errors.New("handler error")))
	o.names[1001] = "h1001"
	return n, o, tried
}

// c14Errors lets a key operation, sends or a handler fail, and sends messages
// afterwards that must be processed.
func c14Errors(x *rt.Exec, ss []symbol, what string, k int, e error) {
	count(x)
	n, o, tried := fwdNode(x, nil)
	herr, ops, sending := error(nil), 0, 0
	failing := true
	switch what {
	case "key":
		n.useECDH(func() error {
			ops++
			if failing && ops-1 == k {
				return e
			}
			return nil
		})
	case "send":
		n.lnd.onSend = func(_ ctxT, m lndclient.CustomMessage) error {
			*tried = append(*tried, m)
			sending++
			if failing && sending-1 == k {
				return e
			}
			return nil
		}
	case "handler":
		herr = e
	}
	n.register(1001, n.handler("h1001", herr))
	o.names[1001] = "h1001"
	n.register(66, n.handler("h66", nil))
	o.names[66] = "h66"
	for _, i := range []int{4, 2, 1, 4, 3} {
		n.feed(n.lnd.onion(ss[i].data))
	}
	failing = false
	if len(n.shutdowns) > 0 {
		x.Failf("shutdown requested: %v fails with %T(%v): %v", what, e, e,
			n.shutdowns)
	}
	n.got, *tried = nil, nil
	for i, d := range [][]byte{ss[0].data, goodMsg(3010), goodMsg(3011),
		fwdOnion(3012, dataShape{data: nextNode(61, nil)}, nil, nil,
			false)} {

		m := n.lnd.onion(d)
		o.message(m)
		n.feed(m)
		o.check(n, *tried, fmt.Sprintf("%v %v failed with %T(%v): "+
			"message %v afterwards", what, k, e, e, i))
	}
	x.Count("distinct")
	n.stop()
}

// goodMsg is a message for us.
func goodMsg(seed int) []byte {
	return toUs(seed, usKey, mkStream(map[uint64][]byte{
		64: fill(3, byte(seed)), 66: fill(2, 1), 1001: {1}}))
}

func multiset(ds []delivery) string {
	var s []string
	for _, d := range ds {
		s = append(s, d.String())
	}
	sort.Strings(s)
	return fmt.Sprint(s)
}

func c14Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(*rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f})
	}
	var syms []symbol
	symsOf := func() []symbol {
		if syms == nil {
			syms = c14Symbols()
		}
		return syms
	}
	depth := 3
	if thorough {
		depth = 4
	}

	// Histories.
	split(add, "sequences", 18, func(x *rt.Exec, part int) {
		count(x)
		ss := symsOf()
		n, o, tried := c14Node(x)
		what := ""
		for i := 0; i < depth; i++ {
			k := part
			if i > 0 {
				k = x.Choose(len(ss), "message")
			}
			what += "; " + ss[k].name
			m := lndclient.CustomMessage{
				Peer: toVertex(point(90 + i)), MsgType: ss[k].typ,
				Data: ss[k].data,
			}
			o.message(m)
			n.feed(m)
			o.check(n, *tried, what)
		}
		if len(o.deliver) > 0 {
			x.Count("distinct")
		}
		x.Outcome("%d/%d", len(o.deliver), len(o.send))
		n.stop()
	})

	// Longer histories of fewer messages.
	few := []int{0, 1, 2, 3, 4, 10, 12, 17}
	split(add, "long sequences", len(few), func(x *rt.Exec, part int) {
		count(x)
		ss := symsOf()
		n, o, tried := c14Node(x)
		what := ""
		for i := 0; i < depth+1; i++ {
			k := few[part]
			if i > 0 {
				k = few[x.Choose(len(few), "message")]
			}
			what += "; " + ss[k].name
			m := lndclient.CustomMessage{
				Peer: toVertex(point(90)), MsgType: ss[k].typ,
				Data: ss[k].data,
			}
			o.message(m)
			n.feed(m)
			o.check(n, *tried, what)
		}
		if len(o.deliver) > 0 {
			x.Count("distinct")
		}
		n.stop()
	})

	// Messages that share keys, payloads or a sender, but are not the same.
	split(add, "coincident", 18, func(x *rt.Exec, part int) {
		count(x)
		keys := []int{3200, 3201, usKey}
		type co struct{ b, s int }
		build := func(k int) []byte {
			c := co{k % 3, k / 3 % 3}
			p := mkStream(map[uint64][]byte{64: fill(3, 1)})
			if (c.b+c.s)%2 == 1 {
				p = mkStream(map[uint64][]byte{64: fill(3, 1),
					65: {1}})
			}
			if k < 9 {
				return refOnionKeys(keys[c.b], keys[c.s], oHop{
					key: usKey, payload: constPayload(p)})
			}
			return refOnionKeys(keys[c.b], keys[c.s],
				oHop{key: usKey, data: nextNode(61, nil),
					payload: encPayload},
				oHop{key: 61, payload: constPayload(p)})
		}
		n, o, tried := c14Node(x)
		what := "messages that share keys"
		used := map[int]bool{}
		for i := 0; i < 3; i++ {
			k := part
			if i > 0 {
				k = x.Choose(18, "message")
			}
			// A message with both keys of another is a replay to the
			// sphinx library, whatever it carries.
			if used[k%9] && !used[100+k] {
				break
			}
			used[k%9], used[100+k] = true, true
			what += fmt.Sprintf("; %d", k)
			m := lndclient.CustomMessage{MsgType: 513, Data: build(k),
				Peer: toVertex(point([]int{90, 61, usKey}[i]))}
			o.message(m)
			n.feed(m)
			o.check(n, *tried, what)
		}
		x.Count("distinct")
		n.stop()
	})

	// Whatever fails with whatever error: the next messages are processed.
	for _, what := range []string{"key", "send", "handler"} {
		what := what
		errs := zooNotFound
		if what == "handler" {
			errs = zooInternal
		}
		eachError(add, "errors "+what, 2, errs,
			func(x *rt.Exec, e error) {
				for k := 0; k < 8; k++ {
					if k > 0 && what == "handler" {
						break
					}
					c14Errors(x, symsOf(), what, k, e)
				}
			})
		out[len(out)-1].Opt.Horizon = 1 << 40
		out[len(out)-2].Opt.Horizon = 1 << 40
	}

	// Bursts: messages that arrive while earlier ones are processed.
	for _, seq := range [][]int{
		{0, 1, 2}, {0, 0, 1}, {3, 2, 0}, {4, 0, 4}, {10, 0, 12, 0},
		{17, 16, 2, 2}, {0, 7, 4, 1, 9, 2},
	} {
		seq := seq
		add(fmt.Sprintf("burst %v", seq), func(x *rt.Exec) {
			count(x)
			ss := symsOf()
			n, o, tried := c14Node(x)
			what := ""
			for _, k := range seq {
				m := n.lnd.onion(ss[k].data)
				m.MsgType = ss[k].typ
				o.message(m)
				what += "; " + ss[k].name
				if !n.lnd.push(m, nil) {
					x.Failf("message stream cancelled: %v",
						what)
				}
			}
			x.Quiesce()
			if multiset(n.got) != multiset(o.deliver) {
				x.Failf("wrong deliveries: burst %v: got %v, "+
					"want %v", what, deliveries(n.got),
					deliveries(o.deliver))
			}
			if len(*tried) != len(o.send) {
				x.Failf("wrong messages sent: burst %v: got "+
					"%v, want %v", what, sends(*tried),
					sends(o.send))
			}
			x.Count("distinct")
			n.stop()
		})
		out[len(out)-1].Opt.Bound = 2
		if thorough {
			out[len(out)-1].Opt.Bound = 3
		}
	}

	// batch feeds many messages to one messenger, then one good one each.
	batch := func(x *rt.Exec, ms []lndclient.CustomMessage,
		name func(i int) string) {

		n, o, tried := c14Node(x)
		for i, m := range ms {
			count(x)
			p := peel(usKey, m.Data)
			o.message(m)
			n.feed(m)
			o.check(n, *tried, name(i))
			if p.err == nil && (len(o.deliver) > 0 ||
				len(o.send) > 0) {

				x.Count("distinct")
			}
		}
		goodMsgs()
		for _, d := range [][]byte{goodFwd, goodUs} {
			o.message(n.lnd.onion(d))
			n.feed(n.lnd.onion(d))
			o.check(n, *tried, "good message afterwards")
		}
		n.stop()
	}

	onions := func(ds [][]byte) []lndclient.CustomMessage {
		var ms []lndclient.CustomMessage
		for _, d := range ds {
			ms = append(ms, lndclient.CustomMessage{
				Peer: toVertex(point(90)), MsgType: 513, Data: d,
			})
		}
		return ms
	}

	horizon := func(n int) {
		out[len(out)-1].Opt.Horizon = n
	}

	// Modifications.
	bits := []byte{1, 2, 4, 8, 16, 32, 64, 128}
	for _, which := range []int{0, 2} {
		which := which
		for part := 0; part < 16; part++ {
			part := part
			add(fmt.Sprintf("modified %d/%d", which, part),
				func(x *rt.Exec) {
					s := symsOf()[which]
					var ds [][]byte
					for i := part; i < len(s.data); i += 16 {
						ds = append(ds, s.data[:i])
						for _, b := range bits {
							d := append([]byte{}, s.data...)
							d[i] ^= b
							ds = append(ds, d)
						}
					}
					ds = append(ds, s.data, s.data)
					batch(x, onions(ds), func(i int) string {
						return fmt.Sprintf("modification "+
							"%d of %v: %v", i, s.name,
							clipHex(ds[i]))
					})
				})
			horizon(1000000)
		}
	}

	// Short messages.
	split(add, "short messages", 8, func(x *rt.Exec, part int) {
		var ds [][]byte
		if part == 0 {
			ds = append(ds, nil)
			for a := 0; a < 256; a++ {
				ds = append(ds, []byte{byte(a)})
			}
		}
		for a := part; a < 256; a += 8 {
			for b := 0; b < 256; b++ {
				ds = append(ds, []byte{byte(a), byte(b)})
			}
		}
		batch(x, onions(ds), func(i int) string {
			return fmt.Sprintf("message %x", ds[i])
		})
	})
	for i := len(out) - 8; i < len(out); i++ {
		out[i].Opt.Horizon = 1000000
	}

	// Payloads chosen by a sender.
	path := samplePath(1, 1).encode()
	alpha := [][]byte{
		{}, mkTLV(2, path), mkTLV(2, path[:len(path)-1]), mkTLV(2, nil),
		mkTLV(2, path[:67]), mkTLV(4, nil), mkTLV(4, fill(17, 1)),
		mkTLV(63, nil), mkTLV(64, nil), mkTLV(64, fill(3, 1)),
		mkTLV(65, fill(2, 1)), mkTLV(1<<33, []byte{1}), {64}, {64, 2, 1},
		{0xfd, 0, 64, 0}, {0xff}, mkTLV(3, []byte{1}),
	}
	for _, fwd := range []bool{false, true} {
		fwd := fwd
		mk := func(seed int, p []byte) []byte {
			if !fwd {
				return toUs(seed, usKey, p)
			}
			return refOnion(seed, oHop{
				key: usKey, data: nextNode(61, nil),
				payload: constPayload(p),
			}, oHop{key: 61, payload: constPayload([]byte{64, 0})})
		}
		split(add, fmt.Sprintf("payload records fwd=%v", fwd),
			len(alpha), func(x *rt.Exec, part int) {
				p := cat(alpha[part],
					alpha[x.Choose(len(alpha), "second")])
				p = cat(p, alpha[x.Choose(len(alpha), "third")])
				batch(x, onions([][]byte{mk(3100, p)}),
					func(int) string {
						return fmt.Sprintf("payload %x", p)
					})
			})
		split(add, fmt.Sprintf("payload bytes fwd=%v", fwd), 8,
			func(x *rt.Exec, part int) {
				var ds, ps [][]byte
				for a := part; a < 256; a += 8 {
					ps = append(ps, []byte{byte(a)},
						[]byte{byte(a), 0},
						[]byte{byte(a), 1, byte(a)})
				}
				for i, p := range ps {
					ds = append(ds, mk(3200+i, p))
				}
				batch(x, onions(ds), func(i int) string {
					return fmt.Sprintf("payload %x", ps[i])
				})
			})
		for i := len(out) - 8; i < len(out); i++ {
			out[i].Opt.Horizon = 1000000
		}
	}

	out = append(append(out, c14Long(thorough)...),
		append(c14Idle(), c14Stuck()...)...)
	return append(out, togetherWith(thorough, "junk", "receive")...)
}
