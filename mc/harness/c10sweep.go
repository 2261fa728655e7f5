package main

import (
	"fmt"

	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightningnetwork/lnd/tlv"
)

// c10Sweeps sends messages of every size, kind and number of payloads, along
// ways of every length.
func c10Sweeps() []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(*rt.Exec)) {
		out = append(out, longScenario(name, f))
	}
	ways := []c10Send{
		{path: []int{100}}, {path: []int{100}, direct: true},
		{path: []int{100, 101}},
		{path: []int{100}, blinded: []int{100}},
		{path: []int{100}, blinded: []int{100, 102}, direct: true},
		{path: []int{100, 101}, blinded: []int{101, 102}},
	}
	keys := []int{senderKey, 91, 100, 101, 102}
	send := func(w *network, c *c10Send, keys []int, fits int) {
		count(w.x)
		w.reset()
		w.node(senderKey).lnd.calls = nil
		c.runIn(w, keys, fits)
	}
	each := func(name string, parts int,
		f func(x *rt.Exec, send func(final []refTLV, reply *rPath),
			w *network, mine func() bool)) {

		sharded(add, name, parts, func(x *rt.Exec, mine func() bool) {
			w := newNetwork(x, keys...)
			i := 0
			f(x, func(final []refTLV, reply *rPath) {
				c := ways[i%len(ways)]
				i++
				c.final, c.reply = final, reply
				send(w, &c, keys, 1)
			}, w, mine)
			w.stop()
		})
	}
	// Every split of ways of up to 13 nodes.
	sharded(add, "splits", 8, func(x *rt.Exec, mine func() bool) {
		var all []int
		all = append(all, senderKey, 91)
		all = append(all, seqKeys(100, 13)...)
		w := newNetwork(x, append(all, seqKeys(200, 13)...)...)
		all = append(all, seqKeys(200, 13)...)
		for p := 1; p <= 13; p++ {
			for b := 0; p+b <= 13; b++ {
				if !mine() {
					continue
				}
				c := c10Send{path: seqKeys(100, p)}
				if b > 0 {
					c.blinded = append([]int{100 + p - 1},
						seqKeys(200, b-1)...)
				}
				n := p + b
				for _, fin := range [][]refTLV{
					nil, {{typ: 64, val: fill(5, 1)}},
					{{typ: 65}, {typ: 64, val: fill(1, 1)}},
				} {
					c.final = fin
					send(w, &c, all, fitsIf(n <= 12))
					d := c
					d.reply = samplePath(n, 1)
					send(w, &d, all, fitsIf(n <= 9))
					d.reply = samplePath(n, 3)
					send(w, &d, all, fitsIf(n <= 6))
				}
			}
		}
		w.stop()
	})
	// Every size.
	each("sizes", 8, func(x *rt.Exec, send func([]refTLV, *rPath),
		w *network, mine func() bool) {

		for s := 0; s <= 900; s++ {
			if !mine() {
				continue
			}
			for range ways {
				send([]refTLV{{typ: 64, val: fill(s, byte(s))}}, nil)
			}
			if s < 700 {
				send([]refTLV{{typ: 65, val: fill(s, 1)}},
					samplePath(s%50, 1))
			}
		}
	})
	// Every value of one byte, and of the first of several.
	each("values", 4, func(x *rt.Exec, send func([]refTLV, *rPath),
		w *network, mine func() bool) {

		for b := 0; b < 256; b++ {
			if !mine() {
				continue
			}
			v := []byte{byte(b)}
			for range ways {
				send([]refTLV{{typ: 64, val: v},
					{typ: 65, val: cat(v, v, fill(5, 3))}}, nil)
			}
		}
	})
	// Every number of payloads and of hops to reply over.
	each("counts", 4, func(x *rt.Exec, send func([]refTLV, *rPath),
		w *network, mine func() bool) {

		for n := 0; n <= 70; n++ {
			if !mine() {
				continue
			}
			var fin, rev []refTLV
			for i := 0; i < n; i++ {
				// Most have no handler, up to five do.
				f := refTLV{typ: uint64(66 + i), val: fill(i%4, 7)}
				if i%16 == 3 {
					f.typ = c10Types[i/16%5]
				}
				fin = append(fin, f)
				rev = append([]refTLV{f}, rev...)
			}
			for range ways {
				send(fin, nil)
			}
			send(rev, samplePath(n, 1))
		}
		for n := 1; n <= 9; n++ {
			if !mine() {
				continue
			}
			for range ways {
				send([]refTLV{{typ: 64, val: fill(n, 1)}},
					samplePath(n, n))
			}
		}
		// Replies over hops with data of every size.
		for s := 0; s <= 600; s++ {
			if !mine() {
				continue
			}
			p := samplePath(s%40, 2)
			p.hops[s%2].data = fill(s, 1)
			send([]refTLV{{typ: 64, val: fill(2, 1)}}, p)
		}
	})
	// Every type.
	each("types", 4, func(x *rt.Exec, send func([]refTLV, *rPath),
		w *network, mine func() bool) {

		for _, t := range sweepNumbers() {
			if t < 64 || !mine() {
				continue
			}
			known := false
			for _, k := range c10Types {
				known = known || k == t
			}
			if !known {
				w.extra = t
				for _, n := range w.nodes {
					n.register(t, n.handler(
						fmt.Sprintf("h%d", t), nil))
				}
			}
			for range ways {
				send([]refTLV{{typ: t, val: fill(3, byte(t))}}, nil)
			}
			send([]refTLV{{typ: t}}, samplePath(int(t%40), 1))
			if !known {
				w.extra = 0
				for _, n := range w.nodes {
					if err := n.m.DeregisterHandler(
						tlv.Type(t)); err != nil {

						x.Failf("deregister: %v: %v", t,
							err)
					}
				}
			}
		}
	})
	return out
}

func fitsIf(ok bool) int {
	if ok {
		return 1
	}
	return 2
}
