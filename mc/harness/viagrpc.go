//go:build daemon

package main

import (
	"context"
	"reflect"
	"unsafe"

	"github.com/carlakc/boltnd/offersrpc"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

// viaGrpc makes calls the way a gRPC server does that the instance was
// registered with: of what is registered, by the name of the method.
type viaGrpc struct {
	offersrpc.OffersServer

	d        *daemon
	services map[string]*grpcService
}

type grpcService struct {
	impl    interface{}
	methods map[string]*grpc.MethodDesc
	streams map[string]*grpc.StreamDesc
}

// registered are the services of a server, which grpc keeps to itself.
func registered(d *daemon) *viaGrpc {
	s := grpc.NewServer()
	if err := d.b.RegisterGrpcSubserver(s); err != nil {
		d.x.Failf("register: %v", err)
	}
	out := &viaGrpc{d: d, services: map[string]*grpcService{}}
	m := reflect.ValueOf(s).Elem().FieldByName("services")
	for _, name := range m.MapKeys() {
		info := m.MapIndex(name).Elem()
		get := func(field string, to interface{}) {
			f := info.FieldByName(field)
			reflect.ValueOf(to).Elem().Set(reflect.NewAt(f.Type(),
				unsafe.Pointer(f.UnsafeAddr())).Elem())
		}
		g := &grpcService{}
		get("serviceImpl", &g.impl)
		get("methods", &g.methods)
		get("streams", &g.streams)
		out.services[name.String()] = g
	}
	return out
}

const offersService = "offersrpc.Offers"

func (v *viaGrpc) unary(ctx context.Context, method string,
	req proto.Message) (interface{}, error) {

	s := v.services[offersService]
	if s == nil || s.methods[method] == nil {
		v.d.x.Failf("not registered: %v", method)
	}
	return s.methods[method].Handler(s.impl, ctx,
		func(to interface{}) error {
			proto.Merge(to.(proto.Message), req)
			return nil
		}, nil)
}

func (v *viaGrpc) SendOnionMessage(ctx context.Context,
	req *offersrpc.SendOnionMessageRequest) (
	*offersrpc.SendOnionMessageResponse, error) {

	r, err := v.unary(ctx, "SendOnionMessage", req)
	if err != nil {
		return nil, err
	}
	return r.(*offersrpc.SendOnionMessageResponse), nil
}

func (v *viaGrpc) DecodeOffer(ctx context.Context,
	req *offersrpc.DecodeOfferRequest) (*offersrpc.DecodeOfferResponse,
	error) {

	r, err := v.unary(ctx, "DecodeOffer", req)
	if err != nil {
		return nil, err
	}
	return r.(*offersrpc.DecodeOfferResponse), nil
}

func (v *viaGrpc) GenerateBlindedRoute(ctx context.Context,
	req *offersrpc.GenerateBlindedRouteRequest) (
	*offersrpc.GenerateBlindedRouteResponse, error) {

	r, err := v.unary(ctx, "GenerateBlindedRoute", req)
	if err != nil {
		return nil, err
	}
	return r.(*offersrpc.GenerateBlindedRouteResponse), nil
}

// grpcStream hands over one request.
type grpcStream struct {
	offersrpc.Offers_SubscribeOnionPayloadServer

	req proto.Message
}

func (s *grpcStream) RecvMsg(m interface{}) error {
	proto.Merge(m.(proto.Message), s.req)
	return nil
}

func (s *grpcStream) SendMsg(m interface{}) error {
	return s.Offers_SubscribeOnionPayloadServer.Send(
		m.(*offersrpc.SubscribeOnionPayloadResponse))
}

func (v *viaGrpc) SubscribeOnionPayload(
	req *offersrpc.SubscribeOnionPayloadRequest,
	st offersrpc.Offers_SubscribeOnionPayloadServer) error {

	const method = "SubscribeOnionPayload"
	s := v.services[offersService]
	if s == nil || s.streams[method] == nil {
		v.d.x.Failf("not registered: %v", method)
	}
	return s.streams[method].Handler(s.impl, &grpcStream{st, req})
}
