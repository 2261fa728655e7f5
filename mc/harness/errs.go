package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"

	"github.com/carlakc/boltnd/onionmsg"
	"github.com/carlakc/boltnd/routes"
	"github.com/carlakc/boltnd/rpcserver"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightninglabs/lndclient"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

type tempError struct{ timeout bool }

func (e tempError) Error() string   { return "try again" }
func (e tempError) Timeout() bool   { return e.timeout }
func (e tempError) Temporary() bool { return true }

// zoo are errors that lnd and clients may fail with. What they mean elsewhere makes
// no difference, unless a property says so. No "not found" and no
// lndclient.ErrNoRouteFound that is wrapped.
var zoo = []error{
	errors.New("other"), errors.New(""), errors.New("EOF"),
	context.Canceled, context.DeadlineExceeded, io.EOF,
	io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed, os.ErrNotExist,
	os.ErrDeadlineExceeded, syscall.ECONNREFUSED, syscall.EINTR,
	tempError{true}, tempError{false},
	grpc.ErrServerStopped,
	lndclient.ErrVersionIncompatible, lndclient.ErrVersionCheckNotImplemented,
	lndclient.ErrBuildTagsMissing,
	status.Error(codes.Canceled, "context canceled"),
	status.Error(codes.Unknown, "EOF"),
	status.Error(codes.InvalidArgument, "invalid"),
	status.Error(codes.DeadlineExceeded, "too late"),
	status.Error(codes.AlreadyExists, "already connected to peer"),
	status.Error(codes.PermissionDenied, "permission denied"),
	status.Error(codes.ResourceExhausted, "message too large"),
	status.Error(codes.FailedPrecondition, "not yet"),
	status.Error(codes.Aborted, "aborted"),
	status.Error(codes.OutOfRange, "out of range"),
	status.Error(codes.Unimplemented, "unknown service"),
	status.Error(codes.Internal, "internal"),
	status.Error(codes.Unavailable, "server is shutting down"),
	status.Error(codes.DataLoss, "lost"),
	status.Error(codes.Unauthenticated, "wallet locked"),
	status.Error(codes.Unknown, "already connected to peer"),
	status.Error(codes.Unknown, "unable to find a path to destination"),
	status.Error(codes.Unknown, "unable to find node"),
	fmt.Errorf("wrapped: %w", context.Canceled),
	fmt.Errorf("wrapped: %w", context.DeadlineExceeded),
	fmt.Errorf("wrapped: %w", io.EOF),
	fmt.Errorf("wrapped: %w", status.Error(codes.Canceled, "canceled")),
	fmt.Errorf("wrapped: %w", lndclient.ErrVersionIncompatible),
	&net.OpError{Op: "read", Err: errors.New("connection reset")},
	&net.OpError{Op: "dial", Err: syscall.ECONNREFUSED},
}

// zooNotFound are more of them, where a node that is not found is nothing
// special.
var zooNotFound = append(zoo[:len(zoo):len(zoo)],
	status.Error(codes.NotFound, "not found"),
	fmt.Errorf("wrapped: %w", status.Error(codes.NotFound, "not found")),
	fmt.Errorf("wrapped: %w", lndclient.ErrNoRouteFound),
	lndclient.ErrNoRouteFound,
)

// zooInternal are errors that handlers may fail with: also boltnd's own.
var zooInternal = append(zooNotFound[:len(zooNotFound):len(zooNotFound)],
	onionmsg.ErrLNDShutdown, onionmsg.ErrShuttingDown,
	onionmsg.ErrBadMessage, onionmsg.ErrHandlerNotFound,
	onionmsg.ErrNotStarted, onionmsg.ErrNoConnection,
	onionmsg.ErrNoAddresses, onionmsg.ErrHandlerRegistered,
	onionmsg.ErrNoForwardingOnion, onionmsg.ErrNoNextNodeID,
	onionmsg.ErrNoEncryptedData,
	routes.ErrNoChannels, routes.ErrNoRelayingPeers, routes.ErrNoNodeInfo,
	routes.ErrNoPeerChannels, routes.ErrFeatureMismatch,
	rpcserver.ErrShuttingDown,
	fmt.Errorf("wrapped: %w", onionmsg.ErrShuttingDown),
	fmt.Errorf("wrapped: %w", onionmsg.ErrLNDShutdown),
	onionmsg.ErrNoPath,
)

// eachError makes scenarios with each of the errors.
func eachError(add func(string, func(*rt.Exec)), name string, parts int,
	errs []error, f func(x *rt.Exec, e error)) {

	sharded(add, name, parts, func(x *rt.Exec, mine func() bool) {
		for _, e := range errs {
			if mine() {
				f(x, e)
			}
		}
	})
}
