package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/onionmsg"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"github.com/lightningnetwork/lnd/keychain"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

func init() {
	register(&prop{
		id:   "C27",
		rule: "one construction with one reply, one request with one answer, or one schedule of concurrent requests; non-trivial: distinct replies, answers and points",
		bounds: "constructions: 20 keys, 11 malformed keys, 5 errors, replies after 0-16 s and never; requests: 24 points x 7 answers x 5 errors x delays of 0-16 s and never, in every order of 3 answers, before and after lnd reports another key; " +
			"2 and 3 concurrent requests, every interleaving with at most 3 (thorough: 4) deviations; every shared secret that a server requests for 8 kinds of messages" +
			"; 2 and 3 requests that start up to 16 s apart and take 0-16 s or for ever each, and others while one gets no answer; lnd and signer failing with each of 50 errors; each value of each other field of what lnd reports about its node",
		assumptions: []string{"lnd's calls return once their context is done"},
		scenarios:   c27Scenarios,
	})
}

var errSigner = errors.New("signer fails")

var signerErrors = []error{
	nil, errSigner, status.Error(codes.Unavailable, "x"),
	fmt.Errorf("wrapped: %w", errSigner), context.Canceled,
}

// c27Errors lets lnd and its signer fail with an error.
func c27Errors(x *rt.Exec, e error) {
	c27New(x, c27Key(3), e, 0)
	val := [32]byte{1, 2}
	a := &c27Answer{val: val, err: e}
	for _, p := range c27Points()[:4] {
		count(x)
		n := newECDH(x, c27Signer(x, func(k *btcec.PublicKey) *c27Answer {
			return a
		}))
		for i := 0; i < 3; i++ {
			a.err = e
			if i == 1 {
				a.err = nil
			}
			begin := x.Now()
			got, err := n.ECDH(p)
			a.check(x, got, err, fmt.Sprintf("answer %v of %v", i, a),
				x.Now()-begin)
		}
		x.Count("distinct")
	}
}

// delays that lnd answers after; negative: never.
var lndDelays = []time.Duration{
	0, time.Millisecond, 5 * second, 15*second - 1, 15*second + 1, 16 * second,
	-1,
}

// delayed waits as lnd would.
func delayed(ctx context.Context, d time.Duration) error {
	switch {
	case d == 0:
		return nil
	case d < 0:
		rt.Recv(ctx.Done())
		return ctx.Err()
	}
	if rt.Select(false, rt.CaseRecv(rt.After(d)),
		rt.CaseRecv(ctx.Done())) == 1 {

		return ctx.Err()
	}
	return nil
}

// deadlineIn checks that a call is given up after fifteen seconds.
func deadlineIn(x *rt.Exec, ctx context.Context, what string) {
	at, ok := ctx.Deadline()
	if !ok {
		x.Failf("no deadline: %v", what)
	}
	if left := at.Sub(rt.Now()); left != 15*second {
		x.Failf("wrong deadline: %v: %v left", what, left)
	}
}

func c27Key(n int) []byte {
	b := append([]byte{}, point(n)...)
	if n%2 == 1 {
		b[0] ^= 1
	}
	return b
}

func c27New(x *rt.Exec, key []byte, err error, delay time.Duration) {
	c27NewIn(x, key, err, delay, nil)
}

// c27NewIn lets lnd report noise, too.
func c27NewIn(x *rt.Exec, key []byte, err error, delay time.Duration,
	nz *lndNoise) {

	count(x)
	what := fmt.Sprintf("key %x, error %v, after %v", key, err, delay)
	if nz != nil {
		what += fmt.Sprintf(", noise %v", nz)
	}
	l := newFakeLnd(x, usKey)
	l.onGetInfo = func(ctx context.Context) (*lndclient.Info, error) {
		deadlineIn(x, ctx, what)
		if e := delayed(ctx, delay); e != nil {
			return nil, e
		}
		if err != nil {
			return nil, err
		}
		return &lndclient.Info{IdentityPubkey: toVertex(key)}, nil
	}
	l.noise = nz
	begin := x.Now()
	n, got := onionmsg.NewNodeECDH(l, newFakeSigner(x, usKey))
	took := x.Now() - begin
	if len(l.called("getinfo")) != 1 {
		x.Failf("wrong calls: %v: %v", what, l.calls)
	}
	x.Distinct("%v", what)
	late := delay < 0 || delay > 15*second
	switch {
	case late && got == nil:
		x.Failf("created in spite of late answer: %v", what)
	case late:
		if took != 15*second {
			x.Failf("not given up in time: %v: %v", what, took)
		}
		if !errors.Is(got, context.DeadlineExceeded) {
			x.Failf("wrong error: %v: %v", what, got)
		}
	case err != nil:
		if !failsWith(got, err) {
			x.Failf("wrong error: %v: %v", what, got)
		}
	case !isPoint(key):
		if got == nil {
			x.Failf("malformed key accepted: %v", what)
		}
	case got != nil:
		x.Failf("not created: %v: %v", what, got)
	}
	if got != nil {
		return
	}
	l.id = toVertex(point(99))
	l.onGetInfo = nil
	for i := 0; i < 2; i++ {
		if !bytes.Equal(n.PubKey().SerializeCompressed(), key) {
			x.Failf("wrong key: %v: %x", what,
				n.PubKey().SerializeCompressed())
		}
	}
}

type c27Answer struct {
	val   [32]byte
	err   error
	delay time.Duration
}

func (a *c27Answer) String() string {
	return fmt.Sprintf("%x %v after %v", a.val, a.err, a.delay)
}

// c27Signer answers from a list, checking what it is asked.
func c27Signer(x *rt.Exec, ask func(k *btcec.PublicKey) *c27Answer) *fakeSigner {
	s := newFakeSigner(x, usKey)
	s.onCall = func(ctx context.Context, k *btcec.PublicKey,
		loc *keychain.KeyLocator) ([32]byte, error) {

		checkLocator(x, ctx, loc)
		a := ask(k)
		if a == nil {
			x.Failf("wrong point: %x", k.SerializeCompressed())
		}
		if e := delayed(ctx, a.delay); e != nil {
			return [32]byte{}, e
		}
		return a.val, a.err
	}
	return s
}

func checkLocator(x *rt.Exec, ctx context.Context, loc *keychain.KeyLocator) {
	if loc == nil {
		x.Failf("wrong key locator: none")
	}
	// The node's identity is the first key of family 6.
	if loc.Family != 6 || loc.Index != 0 {
		x.Failf("wrong key locator: %v/%v", loc.Family, loc.Index)
	}
	deadlineIn(x, ctx, "shared secret")
}

func c27Answers() []*c27Answer {
	var vals [][32]byte
	for _, b := range [][]byte{
		make([]byte, 32), ones(32), fill(32, 1), fill(32, 200),
		cat([]byte{1}, make([]byte, 31)), cat(make([]byte, 31), []byte{1}),
		fill(32, 77),
	} {
		var v [32]byte
		copy(v[:], b)
		vals = append(vals, v)
	}
	var out []*c27Answer
	for _, v := range vals {
		for _, e := range signerErrors {
			for _, d := range lndDelays {
				out = append(out, &c27Answer{v, e, d})
			}
		}
	}
	return out
}

func (a *c27Answer) check(x *rt.Exec, got [32]byte, err error, what string,
	took time.Duration) {

	if a.delay < 0 || a.delay > 15*second {
		if !errors.Is(err, context.DeadlineExceeded) {
			x.Failf("wrong error: %v: %v", what, err)
		}
		if took != 15*second {
			x.Failf("not given up in time: %v: %v", what, took)
		}
		return
	}
	if took != a.delay {
		x.Failf("wrong time: %v: %v", what, took)
	}
	if a.err == nil {
		if err != nil || got != a.val {
			x.Failf("answer changed: %v: %x, %v", what, got, err)
		}
		return
	}
	if err != a.err && !(errors.Is(err, a.err) &&
		status.Code(err) == status.Code(a.err)) {

		x.Failf("error changed: %v: %v", what, err)
	}
}

func c27Points() []*btcec.PublicKey {
	var out []*btcec.PublicKey
	for n := 1; n <= 12; n++ {
		for _, flip := range []byte{0, 1} {
			b := append([]byte{}, point(n)...)
			b[0] ^= flip
			out = append(out, toPoint(b))
		}
	}
	return out
}

func newECDH(x *rt.Exec, s *fakeSigner) *onionmsg.NodeECDH {
	n, err := onionmsg.NewNodeECDH(newFakeLnd(x, usKey), s)
	if err != nil {
		x.Failf("not created: %v", err)
	}
	return n
}

func c27Scenarios(thorough bool) []*rt.Scenario {
	var out []*rt.Scenario
	add := func(name string, f func(x *rt.Exec)) {
		out = append(out, &rt.Scenario{Name: name, Body: f,
			Opt: rt.Options{Horizon: 1 << 40}})
	}
	eachError(add, "errors", 1, zooNotFound, c27Errors)
	add("construct", func(x *rt.Exec) {
		for _, d := range lndDelays {
			for n := 1; n <= 10; n++ {
				c27New(x, c27Key(n), nil, d)
				c27New(x, point(n), nil, d)
			}
			for _, b := range badKeys(5) {
				if len(b.key) <= 33 {
					k := toVertex(b.key)
					c27New(x, k[:], nil, d)
				}
			}
			for _, e := range signerErrors[1:] {
				c27New(x, point(1), e, d)
			}
			c27New(x, point(1), context.DeadlineExceeded, d)
		}
	})
	add("noise", func(x *rt.Exec) {
		for _, nz := range infoNoise() {
			c27NewIn(x, c27Key(3), nil, 0, nz)
			c27NewIn(x, c27Key(4), nil, second, nz)
			c27NewIn(x, point(5), errSigner, 0, nz)
			c27NewIn(x, make([]byte, 33), nil, 0, nz)
		}
	})
	split(add, "request", 4, func(x *rt.Exec, part int) {
		for i, p := range c27Points() {
			if i%4 != part {
				continue
			}
			var a *c27Answer
			s := c27Signer(x, func(k *btcec.PublicKey) *c27Answer {
				if !k.IsEqual(p) {
					return nil
				}
				return a
			})
			n := newECDH(x, s)
			for _, a = range c27Answers() {
				count(x)
				x.Distinct("point %x answer %+v", p.SerializeCompressed(), *a)
				begin := x.Now()
				before := s.calls
				got, err := n.ECDH(p)
				a.check(x, got, err, a.String(), x.Now()-begin)
				if s.calls != before+1 {
					x.Failf("wrong number of requests: %v: %v",
						a, s.calls-before)
				}
			}
		}
	})
	// Answers do not depend on what was answered before.
	add("sequence", func(x *rt.Exec) {
		ps := c27Points()
		as := []*c27Answer{
			{val: [32]byte{1}}, {val: [32]byte{2}},
			{err: errSigner}, {delay: -1}, {},
		}
		var seq []int
		var s *fakeSigner
		var cur, pt int
		s = c27Signer(x, func(k *btcec.PublicKey) *c27Answer {
			if !k.IsEqual(ps[pt]) {
				return nil
			}
			return as[cur]
		})
		n := newECDH(x, s)
		for code := 0; code < 125*8; code++ {
			count(x)
			c := code
			seq = nil
			for i := 0; i < 3; i++ {
				seq = append(seq, c%5)
				c /= 5
			}
			for i, k := range seq {
				cur = k
				// The same point again, or another one.
				pt = 0
				if c>>uint(i)&1 == 1 {
					pt = 1
				}
				begin := x.Now()
				got, err := n.ECDH(ps[pt])
				as[k].check(x, got, err, fmt.Sprint(seq, i),
					x.Now()-begin)
			}
		}
	})
	opt := rt.Options{Bound: 3, SwitchCost: 1, SelectCost: 1,
		NoTimerPreempt: true}
	if thorough {
		opt.Bound = 4
	}
	for threads := 2; threads <= 3; threads++ {
		for _, slow := range []time.Duration{0, second, -1} {
			threads, slow := threads, slow
			out = append(out, &rt.Scenario{
				Name: fmt.Sprintf("concurrent/%d/%v", threads, slow),
				Opt:  opt, Body: func(x *rt.Exec) {
					count(x)
					ps := c27Points()
					as := map[string]*c27Answer{}
					for i := 0; i < threads; i++ {
						a := &c27Answer{val: [32]byte{byte(i + 1)}}
						switch i {
						case 0:
							a.delay = slow
						case 2:
							a.err = errSigner
						}
						as[string(ps[i].SerializeCompressed())] = a
					}
					s := c27Signer(x, func(k *btcec.PublicKey) *c27Answer {
						return as[string(k.SerializeCompressed())]
					})
					n := newECDH(x, s)
					var ts []*rt.Thread
					for i := 0; i < threads; i++ {
						i := i
						ts = append(ts, x.Go("ecdh", func() {
							got, err := n.ECDH(ps[i])
							a := as[string(ps[i].SerializeCompressed())]
							took := a.delay
							if took < 0 {
								took = 15 * second
							}
							a.check(x, got, err, a.String(), took)
						}))
					}
					x.Join(ts...)
					x.Count("distinct")
				},
			})
		}
	}
	// All shared secrets of a server come from lnd.
	split(add, "server", 8, func(x *rt.Exec, part int) {
		count(x)
		n := newRPCNode(x, usKey)
		n.prepare()
		n.signer.onCall = func(ctx context.Context, k *btcec.PublicKey,
			loc *keychain.KeyLocator) ([32]byte, error) {

			checkLocator(x, ctx, loc)
			return n.signer.ecdh.ECDH(k)
		}
		n.start()
		s := n.subscribe("client", 64)
		x.Quiesce()
		var data []byte
		pay := (&rPayload{final: []refTLV{{typ: 64, val: []byte{1}}}}).encode()
		responses, sends := 0, 0
		switch part {
		case 0, 1, 2:
			data = toUs(8000+part, usKey, pay)
			responses = 1
		case 3:
			data = toUs(8000+part, usKey+1, pay)
		default:
			h := oHop{key: usKey, data: nextNode(62, nil),
				payload: encPayload}
			if part%2 == 1 {
				h.data = nextNode(62, point(70))
			}
			data = refOnion(8000+part, h, oHop{key: 62,
				payload: constPayload(pay)})
			sends = 1
		}
		n.feed(n.lnd.onion(data))
		x.Count("distinct")
		if n.signer.calls == 0 {
			x.Failf("no shared secret requested: message %v", part)
		}
		if len(s.stream.got) != responses ||
			len(n.lnd.called("send")) != sends {

			x.Failf("wrong result: message %v: %v responses, %v sends",
				part, len(s.stream.got), len(n.lnd.called("send")))
		}
		// Nothing can be read without lnd.
		n.signer.onCall = func(context.Context, *btcec.PublicKey,
			*keychain.KeyLocator) ([32]byte, error) {

			return [32]byte{}, errSigner
		}
		before := len(n.lnd.called("send"))
		for i := 0; i < 2; i++ {
			n.feed(n.lnd.onion(toUs(8020+part+i, usKey, pay)))
		}
		if len(s.stream.got) != responses ||
			len(n.lnd.called("send")) != before {

			x.Failf("processed without lnd: message %v", part)
		}
		s.end()
		n.stop()
	})
	out = append(append(out, c27Stuck()...), c27Overlap(thorough)...)
	return append(out, togetherWith(thorough, "forward", "receive")...)
}
