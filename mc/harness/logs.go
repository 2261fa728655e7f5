package main

import (
	"hash/fnv"
	"io"

	"github.com/btcsuite/btclog"
	"github.com/carlakc/boltnd/offers"
	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/carlakc/boltnd/rpcserver"
	rt "github.com/carlakc/boltnd/verifrt"
)

// useLogger are the packages that log.
var useLogger = []func(btclog.Logger){
	offers.UseLogger, onionmsg.UseLogger, routes.UseLogger,
	rpcserver.UseLogger,
}

var everything = func() btclog.Logger {
	l := btclog.NewBackend(io.Discard).Logger("MC")
	l.SetLevel(btclog.LevelTrace)

	return l
}()

// setLogs turns logging of everything on for half of the scenarios: what is
// logged, and whether it is, makes no difference.
func setLogs(sc *rt.Scenario) {
	h := fnv.New32a()
	h.Write([]byte(sc.Name))

	l := btclog.Disabled
	if h.Sum32()&1 == 1 {
		l = everything
	}
	for _, use := range useLogger {
		use(l)
	}
}
