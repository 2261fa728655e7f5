package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/carlakc/boltnd/offersrpc"
	rt "github.com/carlakc/boltnd/verifrt"
)

func init() {
	register(&prop{
		id:   "C19",
		rule: "one schedule of arriving messages and subscriptions; non-trivial: distinct sequences of messages for which something must be sent",
		bounds: "every sequence of 3 (thorough: 4) of 6 messages (payload of type A, of B, of both, of another type, A without content, A with a 3 hop reply path) with A or both A and B subscribed (thorough: every subset), before or while the messages arrive; fast clients and clients that block on some of their responses; " +
			"interleaved with at most 1 deviation, selected sequences of up to 5 messages with at most 3 (4); sequences of 40 messages with a client that reads late" +
			"; 300 (2000) messages at 4 speeds, 80 subscribers" +
			"; payloads of every length to 1100, every byte, reply paths of 1-14 hops, reply path data of every length to 800, coincident keys; pauses of up to a year between messages, clients that take as long, messages while RPCs hang at each of their calls" + togetherBounds,
		assumptions: []string{"the gRPC stream delivers what it is given in order"},
		scenarios:   c19Scenarios,
	})
}

// subMsg is one message with what subscribers of A and B must be sent.
type subMsg struct {
	name string
	a, b string
	data []byte
}

const (
	typeA = 64
	typeB = 1001
)

var c19Cache = map[string]*subMsg{}

// subMessage builds the i-th message of a kind: its content depends on i.
func subMessage(kind string, i int) *subMsg {
	key := fmt.Sprint(kind, i)
	if m := c19Cache[key]; m != nil {
		return m
	}
	p := &rPayload{}
	has := func(t uint64, n int) []byte {
		v := fill(n, byte(i*3)+byte(t))
		p.final = append(p.final, refTLV{typ: t, val: v})
		return v
	}
	m := &subMsg{name: kind}
	var av, bv []byte
	switch kind {
	case "A":
		av = has(typeA, 5)
	case "B":
		bv = has(typeB, 6)
		p.path = samplePath(i, 1)
	case "AB":
		av = has(typeA, 7)
		bv = has(typeB, 8)
		p.path = samplePath(i+1, 2)
	case "A same":
		av = append([]byte{}, fill(5, 1)...)
		p.final = append(p.final, refTLV{typ: typeA, val: av})
		p.path = samplePath(1, 1)
	case "AB same":
		av = fill(5, 2)
		bv = av
		p.final = append(p.final, refTLV{typ: typeA, val: av},
			refTLV{typ: typeB, val: bv})
	case "other":
		has(65, 5)
	case "A empty":
		av = has(typeA, 0)
	case "A path":
		av = has(typeA, 300)
		p.path = samplePath(i+2, 3)
	}
	if av != nil {
		m.a = fmt.Sprintf("%x %v", av, p.path)
	}
	if bv != nil {
		m.b = fmt.Sprintf("%x %v", bv, p.path)
	}
	m.data = toUs(6000+i*16+len(kind), usKey, p.encode())
	c19Cache[key] = m
	return m
}

var c19Kinds = []string{"A", "B", "AB", "other", "A empty", "A path"}

// subscriber is one client.
type subscriber struct {
	x      *rt.Exec
	typ    uint64
	stream *fakeStream
	thread *rt.Thread
	err    error
}

func (n *rpcNode) subscribe(name string, typ uint64) *subscriber {
	s := &subscriber{x: n.x, typ: typ, stream: newFakeStream(n.x)}
	s.start(n, name)
	return s
}

func (s *subscriber) start(n *rpcNode, name string) {
	s.thread = n.x.Go(name, func() {
		s.err = n.api.SubscribeOnionPayload(
			&offersrpc.SubscribeOnionPayloadRequest{TlvType: s.typ},
			s.stream,
		)
	})
}

// end cancels the subscription and waits for it.
func (s *subscriber) end() {
	s.stream.cancel()
	s.x.Join(s.thread)
}

// expectSub are the responses for a type.
func expectSub(ms []*subMsg, typ uint64) []string {
	var out []string
	for _, m := range ms {
		r := m.a
		if typ == typeB {
			r = m.b
		}
		if r != "" {
			out = append(out, r)
		}
	}
	return out
}

// c19Case is one scenario of arriving messages.
type c19Case struct {
	kinds []string
	// subs are the subscribed types; during says that they subscribe while
	// the messages arrive.
	subs   []uint64
	during bool
	// slow clients block on their responses.
	slow int
}

func (c *c19Case) String() string {
	return fmt.Sprintf("messages %q, subscribed %v, meanwhile %v, slow %v",
		c.kinds, c.subs, c.during, c.slow)
}

func (c *c19Case) run(x *rt.Exec) {
	count(x)
	n := newRPCNode(x, usKey)
	n.start()
	var ms []*subMsg
	for i, k := range c.kinds {
		ms = append(ms, subMessage(k, i))
	}
	var subs []*subscriber
	for _, t := range c.subs {
		s := &subscriber{x: x, typ: t, stream: newFakeStream(x)}
		switch c.slow {
		case 1:
			// Each response takes a while.
			s.stream.onSend = func(int) error {
				rt.Sleep(time.Second)
				return nil
			}
		case 2:
			// The first one takes until all have arrived.
			s.stream.onSend = func(i int) error {
				if i == 0 {
					rt.Sleep(100 * time.Hour)
				}
				return nil
			}
		}
		subs = append(subs, s)
		s.start(n, fmt.Sprintf("client %v", t))
	}
	if !c.during {
		x.Quiesce()
	}
	feeder := x.Go("lnd", func() {
		for _, m := range ms {
			if !n.lnd.push(n.lnd.onion(m.data), nil) {
				x.Failf("message stream cancelled: %v", c)
			}
		}
	})
	x.Join(feeder)
	x.QuiesceTimers()
	for _, s := range subs {
		want := expectSub(ms, s.typ)
		got := s.stream.got
		if c.during && len(got) < len(want) {
			// From when the subscription became active.
			want = want[len(want)-len(got):]
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			x.Failf("wrong responses: %v: type %v got %v, want %v",
				c, s.typ, clipStrs(got), clipStrs(want))
		}
		if s.thread.Done() {
			x.Failf("subscription ended: %v: %v", c, s.err)
		}
		x.Outcome("%v", len(got))
	}
	x.Count("distinct")
	for _, s := range subs {
		s.end()
	}
	n.stop()
}

func clipStrs(s []string) []string {
	var out []string
	for _, v := range s {
		if len(v) > 60 {
			v = v[:60] + "..."
		}
		out = append(out, v)
	}
	return out
}

func c19Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	depth, bound, nsets, slows := 3, 3, 2, 2
	if thorough {
		depth, bound, nsets, slows = 4, 4, 3, 3
	}
	subsets := [][]uint64{{typeA}, {typeA, typeB}, {typeB}, {typeB, typeA}}

	// Selected sequences, deeper.
	for _, seq := range []string{"A,A", "A,A,A", "A,AB,B", "AB,AB", "A,other,A",
		"A path,A empty,A", "A,A,A,A", "AB,A,B,AB", "A,A,A,A,A",
		"A same,A same", "A same,A,A same", "AB same,AB same"} {

		for d := 0; d < 2; d++ {
			for slow := 0; slow < 3; slow++ {
				c := &c19Case{kinds: strings.Split(seq, ","),
					subs: subsets[0], during: d == 1, slow: slow}
				if strings.Contains(seq, "B") {
					c.subs = subsets[1]
				}
				b := bound
				if len(c.kinds) > 3 || len(c.subs) > 1 {
					b--
				}
				out = append(out, &rt.Scenario{
					Name: fmt.Sprintf("selected/%v", c),
					Opt: rt.Options{Bound: b, SwitchCost: 1,
						SelectCost: 1, NoTimerPreempt: true},
					Body: c.run,
				})
			}
		}
	}

	// All sequences.
	for i, first := range c19Kinds {
		for si, subs := range subsets[:nsets] {
			first, subs := first, subs
			out = append(out, &rt.Scenario{
				Name: fmt.Sprintf("sequences/%d/%d", i, si),
				Opt: rt.Options{Bound: 1, SwitchCost: 1,
					SelectCost: 1, NoTimerPreempt: true},
				Body: func(x *rt.Exec) {
					c := &c19Case{kinds: []string{first}, subs: subs}
					for len(c.kinds) < depth {
						c.kinds = append(c.kinds, c19Kinds[x.Choose(
							len(c19Kinds), "message")])
					}
					c.during = x.Choose(2, "meanwhile") == 1
					c.slow = x.Choose(slows, "slow")
					c.run(x)
				},
			})
		}
	}

	// Many messages.
	for slow := 0; slow < 3; slow++ {
		c := &c19Case{subs: subsets[1], slow: slow}
		for i := 0; i < 40; i++ {
			c.kinds = append(c.kinds, c19Kinds[(i*7+i/3)%len(c19Kinds)])
		}
		out = append(out, &rt.Scenario{
			Name: fmt.Sprintf("many/%d", slow), Body: c.run,
			Opt: rt.Options{NoTimerPreempt: true, SwitchCost: 1,
				SelectCost: 1},
		})
	}
	out = append(append(out, c19Long(thorough)...),
		append(c19Idle(), c19Stuck()...)...)
	out = append(out, c19Contents()...)
	return append(out, togetherWith(thorough, "receive")...)
}
