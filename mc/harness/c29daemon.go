//go:build daemon

package main

import "github.com/carlakc/boltnd"

func init() {
	// The node is a whole daemon, whose RPCs are those that it registers.
	chatDaemon = func(n *rpcNode) func() {
		d := daemonOf(n)
		d.create(boltnd.OptionRequestShutdown(d.request))
		if err := d.b.Start(); err != nil {
			n.x.Failf("start failed: %v", err)
		}
		n.lnd.waitSub()
		return func() {
			if err := d.b.Stop(); err != nil {
				n.x.Failf("stop failed: %v", err)
			}
			if d.requested > 0 {
				n.x.Failf("shutdown requested")
			}
			d.released(history{"conversation"})
		}
	}
}
