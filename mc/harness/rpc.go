package main

import (
	"context"
	"errors"
	"fmt"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/chaincfg"
	"github.com/carlakc/boltnd/offersrpc"
	"github.com/carlakc/boltnd/rpcserver"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	sphinx "github.com/lightningnetwork/lightning-onion"
	"github.com/lightningnetwork/lnd/keychain"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

// fakeSigner is lnd's signer with the node's key.
type fakeSigner struct {
	lndclient.SignerClient

	x      *rt.Exec
	ecdh   *hookedECDH
	lnd    *fakeLnd
	calls  int
	onCall func(ctx context.Context, k *btcec.PublicKey,
		loc *keychain.KeyLocator) ([32]byte, error)
}

func newFakeSigner(x *rt.Exec, key int) *fakeSigner {
	return &fakeSigner{x: x, ecdh: &hookedECDH{
		PrivKeyECDH: sphinx.PrivKeyECDH{PrivKey: privKey(key)},
		pub:         pubKey(key),
	}}
}

func (s *fakeSigner) DeriveSharedKey(ctx context.Context, k *btcec.PublicKey,
	loc *keychain.KeyLocator) ([32]byte, error) {

	rt.Point("lnd.ecdh")
	s.calls++
	if err := ctx.Err(); err != nil {
		return [32]byte{}, err
	}
	if s.lnd != nil && s.lnd.gone != nil {
		return [32]byte{}, s.lnd.gone
	}
	if s.onCall != nil {
		return s.onCall(ctx, k, loc)
	}
	return s.ecdh.ECDH(k)
}

// fakeStream is the server side of a subscription. Sends are scheduling
// points, and fail once the stream's context is done, as grpc's do.
type fakeStream struct {
	offersrpc.Offers_SubscribeOnionPayloadServer

	x      *rt.Exec
	ctx    context.Context
	cancel func()
	sent   []*offersrpc.SubscribeOnionPayloadResponse
	// got is what was sent at the time it was sent.
	got []string
	// onSend runs before a response is recorded.
	onSend func(n int) error
}

func newFakeStream(x *rt.Exec) *fakeStream {
	s := &fakeStream{x: x}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	return s
}

func (s *fakeStream) Context() context.Context { return s.ctx }

func (s *fakeStream) Send(r *offersrpc.SubscribeOnionPayloadResponse) error {
	rt.Point("stream.send")
	if err := s.ctx.Err(); err != nil {
		return status.FromContextError(err).Err()
	}
	if s.onSend != nil {
		if err := s.onSend(len(s.sent)); err != nil {
			return err
		}
	}
	s.sent = append(s.sent, r)
	s.got = append(s.got, response(r))
	s.x.Count("responses")
	return nil
}

func (s *fakeStream) SetHeader(metadata.MD) error  { return nil }
func (s *fakeStream) SendHeader(metadata.MD) error { return nil }
func (s *fakeStream) SetTrailer(metadata.MD)       {}
func (s *fakeStream) SendMsg(interface{}) error    { return errors.New("raw") }
func (s *fakeStream) RecvMsg(interface{}) error    { return errors.New("raw") }

// rpcNode is one RPC server with its lnd.
type rpcNode struct {
	x *rt.Exec
	s *rpcserver.Server
	// api is where RPCs are made.
	api       offersrpc.OffersServer
	lnd       *fakeLnd
	signer    *fakeSigner
	services  *lndclient.LndServices
	shutdowns []error
	// infoErr is what lnd fails with.
	infoErr error
	// rpcType is what rpc subscribes to.
	rpcType uint64
}

func newRPCNode(x *rt.Exec, key int) *rpcNode {
	n := &rpcNode{x: x, rpcType: 64, lnd: newFakeLnd(x, key), signer: newFakeSigner(x, key)}
	var err error
	n.s, err = rpcserver.NewServer(func(err error) {
		rt.Point("shutdown requested")
		n.shutdowns = append(n.shutdowns, err)
	})
	if err != nil {
		x.Failf("new server: %v", err)
	}
	n.signer.lnd = n.lnd
	n.api = n.s
	n.services = &lndclient.LndServices{
		Client: n.lnd, Signer: n.signer,
		ChainParams: &chaincfg.RegressionNetParams,
	}
	return n
}

func (n *rpcNode) start() {
	if err := n.s.Start(n.services); err != nil {
		n.x.Failf("server start: %v", err)
	}
	n.lnd.waitSub()
}

func (n *rpcNode) stop() {
	if err := n.s.Stop(); err != nil {
		n.x.Failf("server stop: %v", err)
	}
	if len(n.shutdowns) > 0 {
		n.x.Failf("shutdown requested: %v", n.shutdowns)
	}
	if n.lnd.subCtx != nil && n.lnd.subCtx.Err() == nil {
		n.x.Failf("stream not released: by stop")
	}
}

func (n *rpcNode) feed(m lndclient.CustomMessage) {
	if !n.lnd.push(m, nil) {
		n.x.Failf("message stream cancelled")
	}
	n.x.Quiesce()
}

// code is the grpc status code of an error.
func code(err error) codes.Code { return status.Code(err) }

func codeOf(err error) string {
	if err == nil {
		return "ok"
	}
	if _, ok := status.FromError(err); !ok {
		return "no status: " + err.Error()
	}
	return code(err).String()
}

// fromRPCPath is the path in an RPC message.
func fromRPCPath(p *offersrpc.BlindedPath) *rPath {
	if p == nil {
		return nil
	}
	out := &rPath{first: p.IntroductionNode, blinding: p.BlindingPoint}
	for _, h := range p.Hops {
		out.hops = append(out.hops, rHop{
			key: h.BlindedNodeId, data: h.EncryptedData,
		})
	}
	return out
}

func (p *rPath) rpc() *offersrpc.BlindedPath {
	if p == nil {
		return nil
	}
	out := &offersrpc.BlindedPath{
		IntroductionNode: p.first, BlindingPoint: p.blinding,
	}
	for _, h := range p.hops {
		out.Hops = append(out.Hops, &offersrpc.BlindedHop{
			BlindedNodeId: h.key, EncryptedData: h.data,
		})
	}
	return out
}

func response(r *offersrpc.SubscribeOnionPayloadResponse) string {
	return fmt.Sprintf("%x %v", r.Value, fromRPCPath(r.ReplyPath))
}
