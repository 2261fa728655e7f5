package main

import (
	"fmt"

	rt "github.com/carlakc/boltnd/verifrt"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

// contents are payloads with one thing varied: lengths, bytes, reply paths,
// keys that coincide, and everything that a message can carry besides.
func contents(typ uint64, f func(what string, p *rPayload)) {
	one := func(val []byte) *rPayload {
		return &rPayload{final: []refTLV{{typ: typ, val: val}}}
	}
	for l := 0; l <= 1100; l++ {
		f(fmt.Sprintf("%d bytes", l), one(fill(l, byte(l))))
	}
	for c := 0; c < 256; c++ {
		f(fmt.Sprintf("byte %d", c), one([]byte{byte(c)}))
		f(fmt.Sprintf("bytes %d, 0", c), one([]byte{byte(c), 0}))
		f(fmt.Sprintf("bytes 0, %d", c), one([]byte{0, byte(c)}))
	}
	for h := 1; h <= 14; h++ {
		for l := 0; l < 3; l++ {
			p := one(fill(h*l, 1))
			p.path = samplePath(h+l, h)
			for i := range p.path.hops {
				p.path.hops[i].data = fill(l*9, byte(i))
			}
			f(fmt.Sprintf("reply path of %d hops with %d bytes", h,
				l*9), p)
		}
	}
	for l := 0; l <= 800; l++ {
		p := one(fill(l%4, 1))
		p.path = samplePath(1, 2)
		p.path.hops[l%2].data = fill(l, byte(l))
		f(fmt.Sprintf("reply path data of %d bytes", l), p)
	}
	keys := [][]byte{point(usKey), point(700), point(701),
		append([]byte{1 ^ point(700)[0]}, point(700)[1:]...)}
	for k := 0; k < 256; k++ {
		p := one(fill(3, byte(k)))
		p.path = &rPath{first: keys[k%4], blinding: keys[k/4%4],
			hops: []rHop{{key: keys[k/16%4], data: fill(5, 5)},
				{key: keys[k/64], data: fill(5, 5)}}}
		f(fmt.Sprintf("reply path keys %d", k), p)
	}
}

// c19Contents sends every content to subscribers of several types.
func c19Contents() []*rt.Scenario {
	var out []*rt.Scenario
	for part, typ := range []uint64{64, 1001, 1<<63 + 5, 1<<64 - 1} {
		part, typ := part, typ
		out = append(out, longScenario(fmt.Sprintf("contents %d", typ),
			func(x *rt.Exec) {
				n := newRPCNode(x, usKey)
				n.start()
				s := n.subscribe("client", typ)
				x.Quiesce()
				o := n.subscribe("other", 77)
				x.Quiesce()
				seed := 60000 + part*10000
				contents(typ, func(what string, p *rPayload) {
					count(x)
					seed++
					size := len(p.encode())
					if part%2 == 1 && size < 1100 {
						p.enc = fill(1+seed%40, 7)
					}
					if part > 1 && size < 1100 {
						p.final = append([]refTLV{{typ: 76,
							val: fill(4, 4)}}, p.final...)
					}
					val := p.final[len(p.final)-1].val
					n.feed(n.lnd.onion(toUs(seed, usKey,
						p.encode())))
					want := []string{fmt.Sprintf("%x %v", val,
						p.path)}
					if fmt.Sprint(s.stream.got) != fmt.Sprint(want) {
						x.Failf("wrong responses: %v: type "+
							"%v got %v, want %v", what, typ,
							clipStrs(s.stream.got),
							clipStrs(want))
					}
					if len(o.stream.got) > 0 {
						x.Failf("wrong responses: %v: sent "+
							"to another type", what)
					}
					x.Distinct("%v", what)
					s.stream.got = nil
				})
				s.end()
				o.end()
				n.stop()
			}))
	}
	return out
}

// c21Contents passes on every content, and many payloads.
func c21Contents() []*rt.Scenario {
	var out []*rt.Scenario
	for part := 0; part < 4; part++ {
		part := part
		out = append(out, longScenario(fmt.Sprintf("contents %d", part),
			func(x *rt.Exec) {
				n := newRPCNode(x, usKey)
				n.start()
				os := c21Outcomes()[:2]
				run := func(what string, p *rPayload,
					dest *rPath) {

					c := &c21Case{direct: part%2 == 0,
						outcome: os[part%2],
						key: namedKey{"valid", point(c21Node),
							accept},
						dest:  namedPath{"absent", nil, accept},
						reply: namedPath{"absent", nil, accept},
						pay: namedPayloads{what,
							map[uint64][]byte{}, accept},
					}
					if dest != nil {
						c.key = namedKey{"absent", nil, accept}
						c.dest = namedPath{fmt.Sprintf(
							"%d hops", len(dest.hops)),
							dest.rpc(), accept}
					}
					if p.path != nil {
						c.reply = namedPath{"given",
							p.path.rpc(), accept}
					}
					for _, f := range p.final {
						c.pay.recs[f.typ] = f.val
					}
					c.run(x, n)
				}
				var dest *rPath
				if part > 1 {
					dest = c21Dest(1)
				}
				contents(64, func(what string, p *rPayload) {
					// Leave room for the hops before.
					if len(p.encode()) > 950 {
						return
					}
					run(what, p, dest)
				})
				for k := 1; k <= 100; k++ {
					p := &rPayload{}
					for i := 0; i < k; i++ {
						p.final = append(p.final, refTLV{
							typ: 64 + uint64(i*i*(k%7+1)),
							val: fill(i%3, byte(i))})
					}
					run(fmt.Sprintf("%d payloads", k), p, dest)
				}
				for _, t := range sweepNumbers() {
					if t >= 64 {
						run(fmt.Sprintf("type %d", t), &rPayload{
							final: []refTLV{{typ: t,
								val: fill(2, 2)}}}, dest)
					}
				}
				if part > 1 {
					for h := 1; h <= 8; h++ {
						d := blindedTo(40+h, []byte{6, 1, 1},
							seqKeys(c21Intro, h)...)
						run("long destination",
							&rPayload{final: []refTLV{{
								typ: 64}}}, d)
					}
				}
				n.stop()
			}))
	}
	return out
}

// c21Shared has reply paths that have keys and data in common with where the
// message goes.
func c21Shared() []*rt.Scenario {
	var out []*rt.Scenario
	for part := 0; part < 8; part++ {
		part := part
		out = append(out, longScenario(fmt.Sprintf("shared %d", part),
			func(x *rt.Exec) {
				n := newRPCNode(x, usKey)
				n.start()
				direct, hops := part%2 == 0, part/2
				o := c21Outcomes()[part%2]
				dest := blindedTo(41, nil, c21Node)
				if hops > 0 {
					dest = c21Dest(hops)
				}
				last := dest.hops[len(dest.hops)-1]
				keys := [][]byte{
					point(usKey), point(68), dest.first,
					append([]byte{1 ^ dest.first[0]},
						dest.first[1:]...),
					dest.blinding, dest.hops[0].key, last.key,
					point(c21Intro + 1), point(701),
				}
				run := func(what string, p *rPath) {
					c := &c21Case{direct: direct, outcome: o,
						key: namedKey{"absent", nil, accept},
						dest: namedPath{fmt.Sprintf("%d hops",
							hops), dest.rpc(), accept},
						reply: namedPath{what, p.rpc(), accept},
						pay: namedPayloads{"64",
							map[uint64][]byte{64: {1, 2}},
							accept},
					}
					if hops == 0 {
						c.key = namedKey{"valid",
							point(c21Node), accept}
						c.dest = namedPath{"absent", nil, accept}
					}
					c.run(x, n)
				}
				run("the same", dest)
				k := len(keys)
				for i := 0; i < k*k*k; i++ {
					data := last.data
					if i%2 == 0 {
						data = fill(4, 4)
					}
					run(fmt.Sprintf("with keys %d", i), &rPath{
						first:    keys[i%k],
						blinding: keys[i/k%k],
						hops: []rHop{{key: keys[i/k/k],
							data: data}},
					})
				}
				n.stop()
			}))
	}
	return out
}

// c21BadTypes are requests with one payload type that is not a final one.
func c21BadTypes() *rt.Scenario {
	return longScenario("refused types", func(x *rt.Exec) {
		n := newRPCNode(x, usKey)
		n.start()
		for t := uint64(0); t < 64; t++ {
			for k := 0; k < 4; k++ {
				c := &c21Case{direct: k%2 == 0,
					key:   namedKey{"valid", point(c21Node), accept},
					dest:  namedPath{"absent", nil, accept},
					reply: namedPath{"absent", nil, accept},
					pay: namedPayloads{fmt.Sprintf("type %d", t),
						map[uint64][]byte{t: fill(k, 1)},
						reject},
				}
				if k > 1 {
					c.pay.recs[64+t] = fill(1, 1)
				}
				c.run(x, n)
			}
		}
		n.stop()
	})
}

func bit(n int) lndwire.FeatureBit { return lndwire.FeatureBit(n) }

// c22Sweep has requests with many features, of which a peer lacks one, and
// with every feature of a sweep.
func c22Sweep(shard func(string, int, func(*rpcNode, func() bool))) {
	shard("generate/many", 4, func(n *rpcNode, mine func() bool) {
		for k := 1; k <= 66; k++ {
			if k > 20 && k%32 > 2 && k%32 < 31 || !mine() {
				continue
			}
			var req []uint64
			st := []peerState{{name: "has all", channels: 1}}
			for i := 0; i < k; i++ {
				req = append(req, uint64(2*i+10))
				st[0].features = append(st[0].features, bit(2*i+10))
			}
			n.checkGenerate(st, []c11Channel{{0, 0, 0}}, req, false)
			for i := range req {
				s := peerState{name: fmt.Sprintf("lacks %v", req[i]),
					channels: 2}
				for j := range req {
					if j != i {
						s.features = append(s.features,
							bit(2*j+10))
					}
				}
				st = append(st, s)
				n.checkGenerate(st, []c11Channel{{i + 1, 0, 0}},
					req, false)
				n.checkGenerate(st, []c11Channel{{i + 1, 0, 0},
					{0, 0, 1}}, req, false)
				// One feature that does not fit.
				bad := append([]uint64{}, req...)
				bad[i] = 65536 + uint64(i)
				n.checkGenerate(st, []c11Channel{{0, 0, 0}}, bad,
					false)
			}
		}
	})
	shard("generate/sweep", 4, func(n *rpcNode, mine func() bool) {
		for _, f := range sweepNumbers() {
			if !mine() {
				continue
			}
			st := []peerState{
				{name: "none", channels: 4},
				{name: "it", channels: 1},
				{name: "other", channels: 3},
			}
			if f <= 65535 {
				st[1].features = append(st[1].features, bit(int(f)))
				st[2].features = append(st[2].features,
					bit(int(f^1)))
			}
			for _, req := range [][]uint64{{f}, {10, f}, {f, 10},
				{f ^ 1}, {f, f}} {

				n.checkGenerate(st, []c11Channel{{0, 0, 0},
					{1, 0, 1}, {2, 0, 2}}, req, false)
				n.checkGenerate(st, []c11Channel{{1, 0, 0}}, req,
					false)
				n.checkGenerate(st, []c11Channel{{2, 0, 0}}, req,
					false)
			}
		}
	})
}
