package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/onionmsg"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/routing/route"
	"github.com/lightningnetwork/lnd/tlv"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// ---------------------------------------------------------------------------
// The environment: lnd
// ---------------------------------------------------------------------------

type ctxT = context.Context

// lndCall is one call that the code made to lnd.
type lndCall struct {
	name string
	args string
	at   time.Duration
}

// fakeLnd is the model of an lnd node. Every call is a scheduling point, is
// recorded, and fails with the caller's context error if that is done already,
// as a grpc client does. Calls that no answer is set for panic (the embedded
// interface is nil), which the explorer reports.
type fakeLnd struct {
	lndclient.LightningClient

	x     *rt.Exec
	id    [33]byte
	calls []lndCall

	// The custom message stream.
	subErr error
	// streamErr is what a failing stream reports.
	streamErr error
	subs      int
	subCtx    context.Context
	msgs      chan lndclient.CustomMessage
	errs      chan error
	onSub     func()
	ctxSeen   func(name string, ctx context.Context)

	// Messages that were sent, and the answers to sends.
	sent   []lndclient.CustomMessage
	onSend func(ctx context.Context, m lndclient.CustomMessage) error

	onGetInfo   func(ctx context.Context) (*lndclient.Info, error)
	onNodeInfo  func(ctx context.Context, k route.Vertex, ch bool) (*lndclient.NodeInfo, error)
	onPeers     func(ctx context.Context) ([]lndclient.Peer, error)
	onConnect   func(ctx context.Context, k route.Vertex, host string, perm bool) error
	onRoutes    func(ctx context.Context, r lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error)
	onChannels  func(ctx context.Context, active, public bool) ([]lndclient.ChannelInfo, error)
	beforeCalls func(name string)

	// noise is in what lnd reports.
	noise *lndNoise

	// slow is how long lnd takes to answer.
	slow time.Duration

	// hangs is a call that is never answered, the hangAt-th of them, and
	// hung how often that has happened.
	hangs        string
	hangAt, hung int

	// gone is what calls fail with once the connection is closed.
	gone     error
	goneChan chan struct{}
}

var errGone = status.Error(codes.Canceled, "the client connection is closing")

// closed has the connection closed: calls and the stream fail.
func (l *fakeLnd) closed() {
	l.gone = errGone
	rt.Close(l.goneChan)
	if l.subCtx != nil && l.subCtx.Err() == nil {
		l.x.Go("closed stream", func() {
			rt.Select(false, rt.CaseSend(l.errs)(errGone),
				rt.CaseRecv(l.subCtx.Done()))
		})
	}
}

func newFakeLnd(x *rt.Exec, key int) *fakeLnd {
	l := &fakeLnd{x: x, streamErr: errStream,
		goneChan: make(chan struct{})}
	copy(l.id[:], point(key))
	return l
}

func (l *fakeLnd) enter(ctx context.Context, name, format string,
	args ...interface{}) error {

	rt.Point("lnd." + name)
	if l.beforeCalls != nil {
		l.beforeCalls(name)
	}
	l.calls = append(l.calls, lndCall{
		name: name, args: fmt.Sprintf(format, args...), at: l.x.Now(),
	})
	l.x.Count("lnd-calls")
	if l.hangs == name {
		if l.hangAt--; l.hangAt == 0 {
			l.hangs = ""
			l.hung++
			rt.Select(false, rt.CaseRecv(ctx.Done()),
				rt.CaseRecv(l.goneChan))
		}
	}
	if l.slow > 0 && name != "subscribe" && name != "getinfo" &&
		ctx.Err() == nil {

		rt.Select(false, rt.CaseRecv(rt.After(l.slow)),
			rt.CaseRecv(ctx.Done()), rt.CaseRecv(l.goneChan))
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	return l.gone
}

// called returns the calls with a name.
func (l *fakeLnd) called(name string) []lndCall {
	var out []lndCall
	for _, c := range l.calls {
		if c.name == name {
			out = append(out, c)
		}
	}
	return out
}

func (l *fakeLnd) SendCustomMessage(ctx context.Context,
	m lndclient.CustomMessage) error {

	if err := l.enter(ctx, "send", "%v", m.Peer); err != nil {
		return err
	}
	m.Data = append([]byte{}, m.Data...)
	if l.onSend != nil {
		if err := l.onSend(ctx, m); err != nil {
			return err
		}
	}
	l.sent = append(l.sent, m)
	return nil
}

func (l *fakeLnd) SubscribeCustomMessages(ctx context.Context) (
	<-chan lndclient.CustomMessage, <-chan error, error) {

	if err := l.enter(ctx, "subscribe", ""); err != nil {
		return nil, nil, err
	}
	if l.onSub != nil {
		l.onSub()
	}
	if l.subErr != nil {
		return nil, nil, l.subErr
	}
	// Like lndclient: messages are handed over directly, one error is
	// buffered.
	l.msgs = make(chan lndclient.CustomMessage)
	l.errs = make(chan error, 1)
	l.subCtx = ctx
	l.subs++

	return l.msgs, l.errs, nil
}

// push hands one message to the subscriber, and gives up when the subscription
// is cancelled or ended (as lndclient does). It reports whether it was taken.
func (l *fakeLnd) push(m lndclient.CustomMessage, abort <-chan struct{}) bool {
	ctx := l.subCtx
	return rt.Select(
		false, rt.CaseSend(l.msgs)(m), rt.CaseRecv(ctx.Done()),
		rt.CaseRecv(abort),
	) == 0
}

func (l *fakeLnd) onion(data []byte) lndclient.CustomMessage {
	return lndclient.CustomMessage{
		Peer: route.Vertex(toVertex(point(90))), MsgType: 513, Data: data,
	}
}

// waitSub blocks until the messenger has subscribed.
func (l *fakeLnd) waitSub() {
	l.x.Wait("subscribed", func() bool { return l.subs > 0 })
}

func toVertex(b []byte) (v [33]byte) {
	copy(v[:], b)
	return v
}

func (l *fakeLnd) GetInfo(ctx context.Context) (*lndclient.Info, error) {
	if err := l.enter(ctx, "getinfo", ""); err != nil {
		return nil, err
	}
	if l.onGetInfo != nil {
		i, err := l.onGetInfo(ctx)
		return l.noise.info(i), err
	}
	return l.noise.info(&lndclient.Info{IdentityPubkey: l.id}), nil
}

func (l *fakeLnd) GetNodeInfo(ctx context.Context, k route.Vertex,
	ch bool) (*lndclient.NodeInfo, error) {

	if err := l.enter(ctx, "nodeinfo", "%v %v", k, ch); err != nil {
		return nil, err
	}
	rnode, err := l.onNodeInfo(ctx, k, ch)
	return l.noise.node(rnode), err
}

func (l *fakeLnd) ListPeers(ctx context.Context) ([]lndclient.Peer, error) {
	if err := l.enter(ctx, "peers", ""); err != nil {
		return nil, err
	}
	rpeers, err := l.onPeers(ctx)
	return l.noise.peers(rpeers), err
}

func (l *fakeLnd) Connect(ctx context.Context, k route.Vertex, host string,
	perm bool) error {

	err := l.enter(ctx, "connect", "%v %v %v", k, host, perm)
	if err != nil {
		return err
	}
	return l.onConnect(ctx, k, host, perm)
}

func (l *fakeLnd) QueryRoutes(ctx context.Context,
	r lndclient.QueryRoutesRequest) (*lndclient.QueryRoutesResponse, error) {

	if err := l.enter(ctx, "routes", "%v", r.PubKey); err != nil {
		return nil, err
	}
	rroute, err := l.onRoutes(ctx, r)
	return l.noise.route(rroute), err
}

func (l *fakeLnd) ListChannels(ctx context.Context, active,
	public bool) ([]lndclient.ChannelInfo, error) {

	err := l.enter(ctx, "channels", "%v %v", active, public)
	if err != nil {
		return nil, err
	}
	rchannels, err := l.onChannels(ctx, active, public)
	return l.noise.channels(rchannels), err
}

// hopsTo answers a route query with these keys.
func hopsTo(keys ...int) *lndclient.QueryRoutesResponse {
	r := &lndclient.QueryRoutesResponse{}
	for _, k := range keys {
		v := route.Vertex(toVertex(point(k)))
		r.Hops = append(r.Hops, &lndclient.Hop{PubKey: &v})
	}
	return r
}

// ---------------------------------------------------------------------------
// Reference onions, built with the sphinx library alone
// ---------------------------------------------------------------------------

// oHop is one hop of a reference onion.
type oHop struct {
	key int
	// data is the blinded data in the clear, rawEnc replaces what it
	// encrypts to.
	data   []byte
	rawEnc func(enc []byte) []byte
	// payload is called with the encrypted data and gives the onion
	// payload of the hop.
	payload func(enc []byte) []byte
}

// refOnion builds an onion message along hops. The seed makes it unique.
func refOnion(seed int, hops ...oHop) []byte {
	return refOnionKeys(1000+2*seed, 1001+2*seed, hops...)
}

// refOnionKeys builds an onion message with these blinding and session keys.
func refOnionKeys(blinding, session int, hops ...oHop) []byte {
	var bh []*sphinx.BlindedPathHop
	for _, h := range hops {
		bh = append(bh, &sphinx.BlindedPathHop{
			NodePub: pubKey(h.key), Payload: h.data,
		})
	}
	bp, err := sphinx.BuildBlindedPath(privKey(blinding), bh)
	if err != nil {
		panic(err)
	}
	var path sphinx.PaymentPath
	for i, h := range hops {
		enc := bp.EncryptedData[i]
		if h.rawEnc != nil {
			enc = h.rawEnc(enc)
		}
		path[i] = sphinx.OnionHop{
			NodePub: *bp.BlindedHops[i],
			HopPayload: sphinx.HopPayload{
				Type:    sphinx.PayloadTLV,
				Payload: h.payload(enc),
			},
		}
	}
	pkt, err := sphinx.NewOnionPacket(
		&path, privKey(session), nil,
		sphinx.DeterministicPacketFiller,
	)
	if err != nil {
		panic(err)
	}
	buf := new(bytes.Buffer)
	if err := pkt.Encode(buf); err != nil {
		panic(err)
	}
	return wireOnion(bp.BlindingPoint.SerializeCompressed(), buf.Bytes())
}

// wireOnion is the wire format of an onion message.
func wireOnion(blinding, onion []byte) []byte {
	return cat(blinding, []byte{
		byte(len(onion) >> 8), byte(len(onion)),
	}, onion)
}

// constPayload ignores the encrypted data.
func constPayload(b []byte) func([]byte) []byte {
	return func([]byte) []byte { return b }
}

// nextNode is blinded data that names the next node (and an override).
func nextNode(key int, override []byte) []byte {
	recs := map[uint64][]byte{4: point(key)}
	if override != nil {
		recs[8] = override
	}
	return mkStream(recs)
}

// encPayload is the payload of an intermediate hop.
func encPayload(enc []byte) []byte {
	return mkStream(map[uint64][]byte{4: enc})
}

// toUs is a one hop onion to key with this onion payload.
func toUs(seed, key int, payload []byte) []byte {
	return refOnion(seed, oHop{key: key, payload: constPayload(payload)})
}

// peeled is what a node finds in an onion message.
type peeled struct {
	err      error
	final    bool
	payload  []byte
	next     []byte
	blinding []byte
	// nextBlinding is the blinding point the next node gets by default.
	nextBlinding []byte
}

// refPeel processes an onion message as the node with this key would.
func refPeel(key int, msg []byte) *peeled {
	p := &peeled{}
	if len(msg) < 35 {
		p.err = fmt.Errorf("short")
		return p
	}
	p.blinding = msg[:33]
	e, err := btcec.ParsePubKey(msg[:33])
	if err != nil {
		p.err = err
		return p
	}
	l := int(msg[33])<<8 | int(msg[34])
	if len(msg) < 35+l {
		p.err = fmt.Errorf("short onion")
		return p
	}
	pkt := &sphinx.OnionPacket{}
	if err := pkt.Decode(bytes.NewReader(msg[35 : 35+l])); err != nil {
		p.err = err
		return p
	}
	ecdh := &sphinx.PrivKeyECDH{PrivKey: privKey(key)}
	log := sphinx.NewMemoryReplayLog()
	r := sphinx.NewRouter(ecdh, &chaincfg.RegressionNetParams, log)
	if err := r.Start(); err != nil {
		panic(err)
	}
	defer r.Stop()
	pp, err := r.ProcessOnionPacket(pkt, nil, 0, e)
	if err != nil {
		p.err = err
		return p
	}
	p.payload = pp.Payload.Payload
	p.final = pp.Action == sphinx.ExitNode
	if pp.NextPacket != nil {
		buf := new(bytes.Buffer)
		if err := pp.NextPacket.Encode(buf); err != nil {
			panic(err)
		}
		p.next = buf.Bytes()
	}

	// E' = SHA256(E || ECDH(k, E)) * E
	ss, err := ecdh.ECDH(e)
	if err != nil {
		panic(err)
	}
	h := sha256.Sum256(cat(msg[:33], ss[:]))
	var f btcec.ModNScalar
	f.SetBytes(&h)
	var ej, nj btcec.JacobianPoint
	e.AsJacobian(&ej)
	btcec.ScalarMultNonConst(&f, &ej, &nj)
	nj.ToAffine()
	p.nextBlinding = btcec.NewPublicKey(&nj.X, &nj.Y).SerializeCompressed()

	return p
}

// refRouteData decodes blinded route data: next node and override.
func refRouteData(key int, blinding, enc []byte) (next, override []byte,
	ok bool) {

	e, err := btcec.ParsePubKey(blinding)
	if err != nil {
		return nil, nil, false
	}
	b, err := sphinx.DecryptBlindedData(
		&sphinx.PrivKeyECDH{PrivKey: privKey(key)}, e, enc,
	)
	if err != nil {
		return nil, nil, false
	}
	recs, okS := refStream(b)
	if !okS {
		return nil, nil, false
	}
	for _, r := range recs {
		switch r.typ {
		case 4:
			if !isPoint(r.val) {
				return nil, nil, false
			}
			next = r.val
		case 8:
			if !isPoint(r.val) {
				return nil, nil, false
			}
			override = r.val
		}
	}
	return next, override, true
}

// ---------------------------------------------------------------------------
// A messenger and what it does
// ---------------------------------------------------------------------------

// delivery is one call of a handler.
type delivery struct {
	h       string
	path    string
	enc     string
	payload string

	rawPath    *lnwire.ReplyPath
	rawEnc     []byte
	rawPayload []byte
}

func (d delivery) String() string {
	return fmt.Sprintf("%v(%v) path=%v enc=%v", d.h, d.payload, d.path, d.enc)
}

// node is one messenger with its lnd.
type node struct {
	x         *rt.Exec
	key       int
	lnd       *fakeLnd
	ecdh      *hookedECDH
	m         *onionmsg.Messenger
	shutdowns []error
	got       []delivery
	onDeliver func(h string)
}

// hookedECDH is the node key, with an environment that may fail.
type hookedECDH struct {
	sphinx.PrivKeyECDH
	pub    *btcec.PublicKey
	before func() error
}

func (h *hookedECDH) ECDH(p *btcec.PublicKey) ([32]byte, error) {
	if h.before != nil {
		if err := h.before(); err != nil {
			return [32]byte{}, err
		}
	}
	// The result is a function of the keys: it is computed once.
	var id [66]byte
	copy(id[:], p.SerializeCompressed())
	copy(id[33:], h.pub.SerializeCompressed())
	s, ok := ecdhCache[id]
	if !ok {
		var err error
		s, err = h.PrivKeyECDH.ECDH(p)
		if err != nil {
			return s, err
		}
		if len(ecdhCache) > 10000 {
			ecdhCache = make(map[[66]byte][32]byte)
		}
		ecdhCache[id] = s
	}
	return s, nil
}

func (h *hookedECDH) PubKey() *btcec.PublicKey { return h.pub }

var ecdhCache = make(map[[66]byte][32]byte)

func (n *node) useECDH(before func() error) { n.ecdh.before = before }

func newNode(x *rt.Exec, key int) *node {
	n := &node{x: x, key: key, lnd: newFakeLnd(x, key)}
	n.ecdh = &hookedECDH{
		PrivKeyECDH: sphinx.PrivKeyECDH{PrivKey: privKey(key)},
		pub:         pubKey(key),
	}
	n.m = onionmsg.NewOnionMessenger(
		&chaincfg.RegressionNetParams, n.lnd, n.ecdh,
		func(err error) {
			rt.Point("shutdown requested")
			n.shutdowns = append(n.shutdowns, err)
		},
	)
	return n
}

func (n *node) start() {
	if err := n.m.Start(); err != nil {
		n.x.Failf("start: %v", err)
	}
}

// handler records its calls under a name and returns err.
func (n *node) handler(name string, err error) onionmsg.OnionMessageHandler {
	return func(p *lnwire.ReplyPath, enc, payload []byte) error {
		rt.Point("handler " + name)
		if n.onDeliver != nil {
			n.onDeliver(name)
		}
		n.got = append(n.got, delivery{
			h: name, path: fromPath(p).String(),
			enc:     fmt.Sprintf("%x", enc),
			payload: fmt.Sprintf("%x", payload),
			rawPath: p, rawEnc: enc, rawPayload: payload,
		})
		n.x.Count("deliveries")
		return err
	}
}

// stable checks that what handlers were given has not changed since.
func (n *node) stable() {
	for _, d := range n.got {
		if fromPath(d.rawPath).String() != d.path ||
			fmt.Sprintf("%x", d.rawEnc) != d.enc ||
			fmt.Sprintf("%x", d.rawPayload) != d.payload {

			n.x.Failf("delivered data changed later: %v", d)
		}
	}
}

func (n *node) register(typ uint64, h onionmsg.OnionMessageHandler) {
	if err := n.m.RegisterHandler(tlv.Type(typ), h); err != nil {
		n.x.Failf("register %v: %v", typ, err)
	}
}

// stop stops the messenger and checks that no goroutine is left.
func (n *node) stop() {
	if err := n.m.Stop(); err != nil {
		n.x.Failf("stop: %v", err)
	}
	n.stable()
	if len(n.shutdowns) > 0 {
		n.x.Failf("shutdown requested: %v", n.shutdowns)
	}
}

// feed hands a message to the messenger and waits until everything that
// follows from it has happened.
func (n *node) feed(m lndclient.CustomMessage) {
	if !n.lnd.push(m, nil) {
		n.x.Failf("message stream cancelled")
	}
	n.x.Quiesce()
}

func deliveries(ds []delivery) string {
	var s []string
	for _, d := range ds {
		s = append(s, d.String())
	}
	return "[" + strings.Join(s, " | ") + "]"
}

// expectDeliveries gives what handlers should see of an onion payload.
func expectDeliveries(p *rPayload, names map[uint64]string) []delivery {
	var out []delivery
	fs := append([]refTLV{}, p.final...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].typ < fs[j].typ })
	for _, f := range fs {
		if names[f.typ] == "" {
			continue
		}
		out = append(out, delivery{
			h: names[f.typ], path: p.path.String(),
			enc:     fmt.Sprintf("%x", p.enc),
			payload: fmt.Sprintf("%x", f.val),
		})
	}
	return out
}

// samplePath is a reply path with n hops.
func samplePath(seed, n int) *rPath {
	p := &rPath{first: point(700 + seed), blinding: point(701 + seed)}
	for i := 0; i < n; i++ {
		p.hops = append(p.hops, rHop{
			key: point(710 + seed + i), data: fill(20+i, byte(seed)),
		})
	}
	return p
}

// sphinxTo is an onion message along a blinded path: every hop gets its
// encrypted data, the last one also the final records.
func sphinxTo(p *rPath, final []byte) []byte {
	var path sphinx.PaymentPath
	for i, h := range p.hops {
		pay := mkStream(map[uint64][]byte{4: h.data})
		if i == len(p.hops)-1 {
			pay = cat(pay, final)
		}
		path[i] = sphinx.OnionHop{
			NodePub: *toPoint(h.key),
			HopPayload: sphinx.HopPayload{
				Type: sphinx.PayloadTLV, Payload: pay,
			},
		}
	}
	pkt, err := sphinx.NewOnionPacket(
		&path, privKey(1), nil, sphinx.DeterministicPacketFiller,
	)
	if err != nil {
		panic(err)
	}
	buf := new(bytes.Buffer)
	if err := pkt.Encode(buf); err != nil {
		panic(err)
	}
	return wireOnion(p.blinding, buf.Bytes())
}
