package verifrt

import "github.com/lightninglabs/lndclient"

// NewLndServices replaces lndclient.NewLndServices; the harness sets it.
var NewLndServices = lndclient.NewLndServices
