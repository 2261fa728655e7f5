//go:build daemon

package main

import (
	"reflect"
	"time"
	"unsafe"

	"github.com/carlakc/boltnd"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
)

func init() { useLogger = append(useLogger, boltnd.UseLogger) }

// daemon is one boltnd instance with the lnd that it connects to.
type daemon struct {
	x *rt.Exec
	b *boltnd.Boltnd
	// node holds the models behind connections.
	node *rpcNode

	// onConnect answers the n-th attempt (from 0).
	onConnect func(n int) error
	attempts  []time.Duration
	configs   []*lndclient.LndServicesConfig
	// open are the connections made, closed how often each was closed.
	open   int
	closed []int

	requested int
	onRequest func()
}

// newDaemon makes the model of lnd that connections are made to. The instance
// is made by create.
func newDaemon(x *rt.Exec) *daemon {
	n := newRPCNode(x, usKey)
	n.prepare()
	return daemonOf(n)
}

// daemonOf is a daemon with this lnd, to which connections are made from now
// on.
func daemonOf(n *rpcNode) *daemon {
	x := n.x
	d := &daemon{x: x, node: n}
	rt.NewLndServices = func(cfg *lndclient.LndServicesConfig) (
		*lndclient.GrpcLndServices, error) {

		rt.Point("connect to lnd")
		n := len(d.attempts)
		d.attempts = append(d.attempts, x.Now())
		d.configs = append(d.configs, cfg)
		x.Count("attempts")
		if d.onConnect != nil {
			if err := d.onConnect(n); err != nil {
				return nil, err
			}
		}
		i := d.open
		d.open++
		d.closed = append(d.closed, 0)
		s := &lndclient.GrpcLndServices{LndServices: *d.node.services}
		onClose(s, func() {
			rt.Point("close connection")
			d.closed[i]++
			if d.closed[i] == 1 {
				d.node.lnd.closed()
			}
		})
		return s, nil
	}
	return d
}

// onClose sets what happens when the services are closed, which lndclient
// keeps to itself.
func onClose(s *lndclient.GrpcLndServices, f func()) {
	v := reflect.ValueOf(s).Elem().FieldByName("cleanup")
	*(*func())(unsafe.Pointer(v.UnsafeAddr())) = f
}

func (d *daemon) create(opts ...boltnd.ConfigOption) {
	var err error
	d.b, err = boltnd.NewBoltnd(opts...)
	if err != nil {
		d.x.Failf("new instance: %v", err)
	}
	d.node.api = registered(d)
}

// request is the shutdown closure.
func (d *daemon) request() {
	rt.Point("shutdown closure")
	d.requested++
	if d.onRequest != nil {
		d.onRequest()
	}
}
