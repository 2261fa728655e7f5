package main

import (
	"errors"
	"fmt"

	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
)

// c12Sweep varies one thing at a time over many values, on a node that lives
// through all of them.
func c12Sweep() []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, types []uint64, f func(*rt.Exec,
		func(what string, msgs ...*rPayload), map[uint64]string,
		*node)) {

		out = append(out, longScenario(name, func(x *rt.Exec) {
			n := newNode(x, usKey)
			n.start()
			n.lnd.waitSub()
			names := map[uint64]string{}
			for i, t := range types {
				names[t] = fmt.Sprintf("h%d", t)
				var err error
				if i%5 == 3 {
					err = errors.New("handler error")
				}
				n.register(t, n.handler(names[t], err))
			}
			seed := 30000
			f(x, func(what string, msgs ...*rPayload) {
				var want []delivery
				count(x)
				for _, p := range msgs {
					seed++
					want = append(want,
						expectDeliveries(p, names)...)
					n.feed(n.lnd.onion(toUs(seed, usKey,
						p.encode())))
				}
				if len(want) > 0 {
					x.Distinct("%v", what)
				}
				if deliveries(n.got) != deliveries(want) {
					x.Failf("wrong deliveries: %v: got %v, "+
						"want %v", what, deliveries(n.got),
						deliveries(want))
				}
				if len(n.lnd.sent) > 0 {
					x.Failf("message sent: for a message "+
						"addressed to us: %v", n.lnd.sent)
				}
				n.stable()
				n.got = nil
			}, names, n)
			n.stop()
		}))
	}
	one := func(t uint64, val []byte) *rPayload {
		return &rPayload{final: []refTLV{{typ: t, val: val}}}
	}

	// Every type, handled and unhandled, next to types it could be taken
	// for.
	var all, even []uint64
	for _, t := range sweepNumbers() {
		if t >= 64 {
			all = append(all, t)
		}
	}
	for i, t := range all {
		if i%2 == 0 {
			even = append(even, t)
		}
	}
	for i, ts := range [][]uint64{all, even, nil} {
		add(fmt.Sprintf("types %d", i), ts, func(x *rt.Exec,
			send func(string, ...*rPayload), names map[uint64]string,
			n *node) {

			for i, t := range all {
				val := fill(3, byte(i))
				send(fmt.Sprintf("type %d", t), one(t, val))
				p := one(t, val)
				for _, o := range []uint64{
					t ^ 1, t ^ 256, t ^ 1<<16, t ^ 1<<32,
					t ^ 1<<63, t + 64, 2 * t, t &^ 0x7f,
				} {
					dup := o < 64
					for _, f := range p.final {
						dup = dup || f.typ == o
					}
					if !dup {
						p.final = append(p.final, refTLV{
							typ: o, val: fill(2, byte(o)),
						})
					}
				}
				send(fmt.Sprintf("type %d with others", t), p)
			}
		})
	}

	// Contents: lengths, bytes, and payloads that are equal to other
	// parts of the message or look like something.
	types := []uint64{64, 65, 66, 1001, 1<<32 + 1}
	for s := 0; s < 4; s++ {
		s := s
		add(fmt.Sprintf("values %d", s), types, func(x *rt.Exec,
			send func(string, ...*rPayload), names map[uint64]string,
			n *node) {

			frame := func(p *rPayload) *rPayload {
				if s&1 == 1 {
					p.path = samplePath(3, 1)
				}
				if s&2 == 2 {
					p.enc = fill(20, 7)
				}
				return p
			}
			for l := 0; l <= 900; l++ {
				send(fmt.Sprintf("length %d", l),
					frame(one(64, fill(l, byte(l)))))
			}
			for c := 0; c < 256; c++ {
				b := byte(c)
				send(fmt.Sprintf("byte %d", c),
					frame(one(65, []byte{b})),
					frame(one(64, []byte{b, b})),
					frame(one(66, []byte{0, b})))
			}
			path := samplePath(4, 2)
			for _, val := range [][]byte{
				nil, point(usKey), point(700), fill(20, 7),
				path.encode(), tu64(64), u64(64), fill(32, 0),
				one(64, fill(3, 3)).encode(),
				mkStream(map[uint64][]byte{4: fill(20, 7)}),
				mkStream(map[uint64][]byte{2: path.encode()}),
				nextNode(61, nil), encFor(usKey, 1000, nextNode(61,
					nil)),
			} {
				p := &rPayload{final: []refTLV{
					{typ: 64, val: val}, {typ: 65, val: val},
					{typ: 67, val: val}, {typ: 1001, val: val},
				}}
				send(fmt.Sprintf("equal values %x", val), frame(p))
				if len(val) > 0 {
					q := *p
					q.enc = val
					send(fmt.Sprintf("equal to encrypted data %x",
						val), &q)
				}
				if val != nil && len(val) < 90 {
					q := *p
					q.path = &rPath{first: point(usKey),
						blinding: point(usKey),
						hops: []rHop{{key: point(usKey),
							data: val}, {
							key: point(usKey), data: val}}}
					send(fmt.Sprintf("equal to path data %x",
						val), &q)
				}
			}
			for l := 1; l <= 600; l++ {
				send(fmt.Sprintf("encrypted data of %d bytes", l),
					&rPayload{enc: fill(l, byte(l)),
						final: []refTLV{{typ: 66}}})
			}
			for h := 1; h <= 14; h++ {
				p := one(1001, fill(h, 1))
				p.path = samplePath(h, h)
				if s&2 == 2 {
					p.enc = fill(h, 2)
				}
				send(fmt.Sprintf("reply path of %d hops", h), p)
			}
			// Keys that coincide, and blinded data of all lengths.
			keys := [][]byte{point(usKey), point(700), point(701)}
			for k := 0; k < 81; k++ {
				p := one(64, fill(3, byte(k)))
				p.path = &rPath{first: keys[k%3],
					blinding: keys[k/3%3], hops: []rHop{
						{key: keys[k/9%3], data: fill(5, 5)},
						{key: keys[k/27%3], data: fill(5, 5)},
					}}
				send(fmt.Sprintf("reply path keys %d", k), p)
			}
			for l := 0; l <= 500; l++ {
				p := one(64, fill(3, byte(l)))
				p.path = &rPath{first: keys[1], blinding: keys[2],
					hops: []rHop{{key: keys[1],
						data: fill(l, byte(l))}}}
				send(fmt.Sprintf("reply path data of %d bytes",
					l), p)
			}
		})
	}

	// From all senders, also with equal keys for blinding and session.
	add("senders", types, func(x *rt.Exec, send func(string,
		...*rPayload), names map[uint64]string, n *node) {

		negated := append([]byte{}, point(usKey)...)
		negated[0] ^= 1
		senders := [][]byte{point(usKey), point(61), point(60), nil,
			point(99), point(1000), negated}
		for i, from := range senders {
			for k := 0; k < 120; k++ {
				count(x)
				p := one(64+uint64(k%3), fill(k%5, byte(k)))
				seed := 40000 + 200*i + k
				msg := toUs(seed, usKey, p.encode())
				if k >= 100 {
					// With keys we may know from elsewhere.
					b := []int{usKey, 61, 700, 1}[k%4]
					s := []int{usKey, 61, 702, 1, 1000}[k/4%5]
					if i > 0 {
						// The same again would be a replay.
						s = 50000 + 200*i + k
					}
					msg = refOnionKeys(b, s, oHop{key: usKey,
						payload: constPayload(p.encode())})
				}
				var m lndclient.CustomMessage
				m.MsgType = 513
				copy(m.Peer[:], from)
				m.Data = msg
				o := newOracle(usKey, names)
				o.message(m)
				n.feed(m)
				if deliveries(n.got) != deliveries(o.deliver) {
					x.Failf("wrong deliveries: %v from %x, case "+
						"%d: got %v, want %v", p, from, k,
						deliveries(n.got),
						deliveries(o.deliver))
				}
				x.Distinct("%v from %x", p, from)
				n.stable()
				n.got = nil
			}
		}
	})
	return out
}
