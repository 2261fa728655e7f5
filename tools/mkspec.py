#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text,
        why=why, files=files, mechanism=mechanism, observe=observe,
        technique=technique, note=note, state=state))

ENUM = "exhaustive bounded enumeration on the real code against an independent reference"
SCHED = "stateless model checking of the real code: all schedules up to a preemption bound"
B = lambda s: "Exhaustive within the bounds written to the evidence file; " + s

prop("C01", "Offer strings decode exactly per the bech32-without-checksum grammar",
 "A string is accepted as an offer if and only if it is the prefix lno, the separator 1 and bech32 characters of one case that re-group into whole bytes with zero padding of fewer than five bits, where a + followed by optional whitespace may join characters of the string but may not start or end it. An accepted string yields exactly the bytes it carries, the same for every equivalent spelling (case, + joins). Every other string is refused with an error, never a panic, and never accepted as a different offer.",
 ["inputs"], "all strings",
 "The string test vectors sample about a dozen spellings of one offer; the grammar is about every placement of case, joins, whitespace, padding and foreign characters.",
 ["offers/encoding.go", "offers/bech32.go", "lnwire/bolt12_offer.go"],
 [("string grammar", "offers/encoding.go DecodeOfferStr, stripOffer"), ("bech32 regrouping", "offers/bech32.go decodeBech32")],
 ["offers.DecodeOfferStr"], ENUM, B("the reference grammar in mc/harness/ref.go is trusted."))

prop("C02", "Merkle roots equal the BOLT 12 tree over exactly the records received",
 "The merkle root reported for a decoded offer, invoice request or invoice, and the one calculated for an object before it is signed, equals the BOLT 12 construction over every record of its TLV stream outside the signature range: known and unknown, in ascending order, with their exact bytes, and nothing else. Any change to a non-signature record changes the root, and a change to signature records never does. The same stream always gives the same root.",
 ["inputs"], "all TLV streams of the three message kinds, any number of records",
 "The tests check the published vectors (1-6 leaves) and never a stream with several unknown records or a non-canonical field encoding.",
 ["lnwire/bolt12_merkle.go", "lnwire/bolt12_shared.go", "lnwire/bolt12_offer.go", "lnwire/bolt12_invoice.go", "lnwire/bolt12_invoice_request.go"],
 [("tree construction", "lnwire/bolt12_merkle.go MerkleRoot"), ("leaves from raw records", "lnwire/bolt12_shared.go")],
 ["MerkleRoot fields and functions of lnwire"], ENUM, B("sha256 is assumed collision-free for the values compared."))

prop("C03", "Signatures validate exactly when made over this message by its key",
 "A signed offer or invoice validates if and only if its signature is a valid BIP-340 signature, under the node key that the message itself carries, over the BOLT 12 tagged digest of the merkle root of the records actually received; an invoice request likewise under its payer key. A signature moved to another message kind, field or key, or any modified bit in the signature, key or signed records, makes validation fail. A signature made by the package for an object always validates after encoding and decoding.",
 ["inputs"], "all signed messages, signatures and single modifications of them",
 "The tests sign one fixed object per kind and flip nothing.",
 ["lnwire/bolt12_signature.go", "lnwire/bolt12_offer.go", "lnwire/bolt12_invoice.go", "lnwire/bolt12_invoice_request.go"],
 [("digest and verification", "lnwire/bolt12_signature.go"), ("validation", "Validate methods in lnwire/bolt12_*.go")],
 ["Validate"], ENUM, B("btcec's schnorr implementation is the trusted base."))

prop("C04", "Decoding BOLT 12 messages is strict and never panics",
 "Decoding any byte string as an offer, invoice request or invoice returns without panicking. It succeeds only if the bytes are a canonical TLV stream (strictly ascending types, minimal lengths, no truncation) in which every known field has a well-formed value, and then every field has exactly the value its record holds while absent fields are unset. Anything else returns an error.",
 ["inputs"], "all byte strings",
 "The tests decode a handful of well formed messages; strictness is about every ill-formed one.",
 ["lnwire/bolt12_offer.go", "lnwire/bolt12_invoice.go", "lnwire/bolt12_invoice_request.go", "lnwire/bolt12_shared.go", "lnwire/tu64.go"],
 [("stream decoding", "DecodeOffer, DecodeInvoice, DecodeInvoiceRequest")],
 ["lnwire.DecodeOffer", "lnwire.DecodeInvoice", "lnwire.DecodeInvoiceRequest"], ENUM, B("feature vectors use the code's own length-prefixed format; unknown even types are accepted by design."))

prop("C05", "BOLT 12 messages survive encode and decode unchanged",
 "Encoding an offer, invoice request or invoice and decoding the result gives back an equal message, for every combination of set and unset fields, and encoding that again gives the same bytes. An encoding contains a record for exactly the fields that are set, in ascending order with minimal values. A field set to a value its record cannot express is refused by the encoder instead of being altered.",
 ["inputs"], "all combinations of set fields and boundary values",
 "The tests round trip one full and one empty message per kind; interactions between optional fields are never combined.",
 ["lnwire/bolt12_offer.go", "lnwire/bolt12_invoice.go", "lnwire/bolt12_invoice_request.go"],
 [("record assembly", "records methods in lnwire/bolt12_*.go")],
 ["lnwire.EncodeOffer", "lnwire.EncodeInvoice", "lnwire.EncodeInvoiceRequest"], ENUM, B("time zones and sub-second parts are outside the wire format."))

prop("C06", "Invoice requests are created only when the offer permits them",
 "An invoice request for an offer is created if and only if the requested amount is at least the offer's minimum amount and the quantity is one that the offer permits (unset when the offer has no quantity bounds; otherwise set and within the bounds, where either bound may be absent). A created request names the offer by its merkle root and repeats exactly the offer's chain and features and the amount, quantity, payer key and note given, leaving the offer unchanged. A refusal returns an error and no request.",
 ["inputs"], "all offers (bounds, amounts) and request parameters",
 "The tests take one offer per rule; the rules interact at boundaries (zero, equal, one-sided ranges).",
 ["lnwire/bolt12_invoice_request.go", "lnwire/bolt12_offer.go"],
 [("request rules", "lnwire/bolt12_invoice_request.go NewInvoiceRequest")],
 ["lnwire.NewInvoiceRequest"], ENUM, B("the amount and quantity rules are those of BOLT 12 as the code documents them."))

prop("C07", "Validation accepts exactly the messages that satisfy their rules",
 "Validation accepts a decoded message if and only if its required fields are present (offer: node id and description; invoice request: offer id, payer key and signature; invoice: amount, payment hash, creation time, node id and description), an offer's minimum quantity does not exceed its maximum where both are set, and its signature, where present, is valid for the key the message carries. No combination of other fields changes the verdict, and a missing field never causes a panic.",
 ["inputs"], "all presence combinations of fields with boundary values",
 "The tests remove one field at a time from one message; all other combinations are untested.",
 ["lnwire/bolt12_offer.go", "lnwire/bolt12_invoice.go", "lnwire/bolt12_invoice_request.go"],
 [("rules", "Validate methods in lnwire/bolt12_*.go")],
 ["Validate"], ENUM, B("the rule table in mc/harness/ref.go is trusted."))

prop("C08", "Onion message wire codecs are exact inverses and strict",
 "Encoding an onion message, onion payload, reply path or blinded route data and decoding it gives back an equal value, including empty values, empty payload bodies and any legal set of final hop payloads in any order; a value that does not fit its wire format is refused, never truncated. Decoding any byte string never panics, succeeds only for well-formed input whose nested lengths agree, and returns exactly the records present with final hop payloads in ascending type order. Types below 64 are never accepted as or turned into final hop payloads.",
 ["inputs"], "all values and all byte strings",
 "The tests round trip single examples; boundary lengths, empty bodies, overlapping lengths and mutations are not sampled.",
 ["lnwire/onion_message.go", "lnwire/onion_msg_payload.go", "lnwire/route_blinding.go"],
 [("payload codec", "lnwire/onion_msg_payload.go"), ("message codec", "lnwire/onion_message.go"), ("blinded data codec", "lnwire/route_blinding.go")],
 ["lnwire.EncodeOnionMessagePayload", "lnwire.DecodeOnionMessagePayload", "OnionMessage.Encode/Decode"], ENUM, B("unknown types below 64 are ignored if odd and skipped if even, the code's documented tolerance."))

prop("C09", "Concurrent coding, hashing and signing do not interfere",
 "Any number of offers, invoice requests, invoices and onion payloads may be decoded, encoded, hashed, signed and validated at the same time from different goroutines. Each call returns what it would return if it ran alone. No interleaving corrupts a result or panics.",
 ["schedules", "inputs"], "all interleavings of two or three concurrent calls at statement granularity",
 "Tests call the codecs from one goroutine; a shared buffer only shows under one particular interleaving.",
 ["lnwire/bolt12_merkle.go", "lnwire/bolt12_signature.go", "offers/encoding.go"],
 [("no shared mutable state", "package-level variables of lnwire and offers")],
 ["results of concurrent calls"], SCHED + ", statement granularity", B("interleavings inside third-party packages are atomic."))

prop("C10", "A sent onion message reaches exactly its destination with its contents",
 "An onion message built for a path of nodes, to a clear or a blinded destination, and passed along by each node's own messenger, is handed on exactly along that path and delivered at the destination only, with exactly the final payloads and reply path that were given. This holds for every path length, every length of blinded path, including when the introduction node is our direct peer, and every combination of payloads and reply path. What cannot be expressed in an onion fails with an error at the sender and nothing is sent.",
 ["inputs", "histories"], "all combinations of path length, blinded hops, payload set, reply path",
 "The tests check the pieces with mocked encoders; no test forwards a message through more than one real hop.",
 ["routes/blinded.go", "onionmsg/messenger.go", "onionmsg/onion.go"],
 [("route construction", "routes/blinded.go CreateBlindedRoute"), ("forwarding", "onionmsg/messenger.go forwardMessage")],
 ["messages handed to lnd by each node, handler calls"], "explicit-state enumeration of message histories over a network of real messengers", B("lightning-onion's sphinx is the trusted base."))

prop("C11", "Reply paths use an eligible peer with the most channels",
 "A generated route to our node starts at a peer with whom we have an active channel, who has at least one public channel, a known announcement and every required feature asked for, and who has no fewer channels than any other such peer; it ends at us with the encrypted next hop the introduction node needs. Peers unknown to the graph are skipped, optional feature bits never exclude a peer. Any other lookup failure, having no channels at all, or having no eligible peer fails with the matching error and no route.",
 ["inputs", "configurations"], "all small channel graphs, features and lookup results",
 "The tests fix at most two channels and mock the relay check; the selection over mixed eligibility is never combined.",
 ["routes/blinded.go"], [("selection", "routes/blinded.go getRelayingPeers, createRelayCheck, buildBlindedRoute")],
 ["BlindedRouteGenerator.ReplyPath"], ENUM, B("ties in channel count may be broken either way."))

prop("C12", "Final payloads are handed to exactly their registered handlers",
 "When an onion message addressed to our node arrives, the handler registered for each of its final payload types is called exactly once with that payload's bytes and the message's reply path and encrypted data, in ascending type order, and no other handler is called. A handler that fails, or payloads without a handler, do not affect the delivery of other payloads or of later messages.",
 ["inputs", "histories", "fault_sequences"], "all sets of payloads, of registered handlers and of failing handlers, over sequences of messages",
 "The tests use one payload and one handler.",
 ["onionmsg/messenger.go", "lnwire/onion_msg_payload.go"], [("dispatch", "onionmsg/messenger.go handleOnionMessage")],
 ["handler calls"], "exhaustive enumeration of handler/payload/failure combinations on the real messenger under the controlled scheduler", B("messages are real sphinx onions."))

prop("C13", "Forwarding hands on exactly what the blinded route prescribes",
 "When an onion message that is not addressed to us arrives, exactly one onion message is sent to the node named in our encrypted data, carrying the peeled onion and the blinding point that follows from ours, or the override if our data contains one. If the payload carries final hop payloads, or the encrypted data is missing, not decryptable or names no next node, nothing is sent. A failed send affects only that message.",
 ["inputs", "fault_sequences"], "all payload shapes at a forwarding hop, and send failures",
 "The tests check forwarding with mocked decryption; wrong blinding points are only visible to the next node.",
 ["onionmsg/messenger.go", "onionmsg/onion.go"], [("forwarding", "onionmsg/messenger.go forwardMessage"), ("decryption", "onionmsg/onion.go decryptBlobFunc")],
 ["messages given to lnd"], "exhaustive enumeration of payload shapes on the real messenger under the controlled scheduler", B("sphinx is the trusted base."))

prop("C14", "No sequence of incoming messages stops or confuses message processing",
 "Whatever custom messages peers send, in any order (malformed, truncated, bit-flipped, foreign types, replays), the messenger keeps running and every well-formed onion message addressed to us is delivered once. Delivering the same onion packet again has no effect. Messages that are not onion messages are ignored.",
 ["inputs", "histories"], "all sequences of incoming messages up to a bound, all truncations and single-byte corruptions",
 "The tests send one bad message; recovery after each kind and replay are not covered.",
 ["onionmsg/messenger.go"], [("event loop", "onionmsg/messenger.go manageOnionMessages"), ("replay protection", "sphinx router")],
 ["handler calls, shutdown requests"], "exhaustive enumeration of message histories on the real messenger under the controlled scheduler", B("at most the bound's number of messages per history."))

prop("C15", "Sending connects and routes only as requested, within bounded attempts",
 "Sending without direct connect queries one route, over any channels whatever their liquidity, history or fees, and sends the message to its first hop, failing with a no-path error if there is none and without connecting to anyone. With direct connect, a node we are not peered with is connected permanently at its first advertised address at most once, and the message is sent only once it is seen among our peers, within five looks one second apart; cancelling the caller's context ends the wait. Any failing step fails the call with that error and sends nothing. Concurrent sends do not affect one another.",
 ["fault_sequences", "schedules"], "all outcomes of each lnd call, all numbers of looks before the peer shows up, cancellation at any point",
 "The tests take one outcome sequence per error; the number of looks, timing and cancellation are not combined.",
 ["onionmsg/messenger.go"], [("connect and path choice", "onionmsg/messenger.go SendMessage, lookupAndConnect, multiHopPath")],
 ["calls made to lnd with their virtual times"], "stateless model checking of the real code: all fault sequences and timer/cancel interleavings in virtual time", B("lnd is a model that may answer anything."))

prop("C16", "Handler registration is linearizable and takes effect when it returns",
 "Concurrent registrations and deregistrations behave as if they ran one at a time: a type has at most one handler, exactly one of competing registrations succeeds, deregistering succeeds only for a registered type. Once a registration returns, later messages are handed to it; once a deregistration returns, its handler is never called again. Before start and after stop or failure of the messenger, calls fail with an error instead of blocking.",
 ["schedules", "histories"], "all interleavings of small sets of calls, messages, stop and stream failure",
 "The tests call sequentially from one goroutine.",
 ["onionmsg/messenger.go"], [("registration through the event loop", "onionmsg/messenger.go handleRegistration, manageOnionMessages")],
 ["return values and handler calls"], SCHED + " with a linearizability check", B("preemption bound and thread counts are in the evidence."))

prop("C17", "The messenger stops cleanly and reports a lost lnd exactly once",
 "The messenger starts once and stops once; second calls fail. Stop returns only after all its goroutines have ended and its message stream is released, whatever they were doing, and a clean stop never requests shutdown. If a message stream fails to open, ends or reports an error while we are not stopping, shutdown is requested exactly once with that error, and the messenger can still be stopped.",
 ["schedules", "fault_sequences"], "all interleavings of start, stop, sends, registrations and each stream failure",
 "The tests stop after everything has settled.",
 ["onionmsg/messenger.go"], [("event loop exit", "onionmsg/messenger.go Start, Stop, manageOnionMessages")],
 ["return values, shutdown requests, live goroutines"], SCHED, B("lnd's streams are a model; both outcomes are accepted when a failure races with stop."))

prop("C18", "The RPC server serves only while ready and shuts down cleanly",
 "Every RPC waits until startup has completed and fails with an unavailable error if its caller gives up first; after startup it is served. Start and Stop each take effect once, in either order and concurrently; after both have returned the messenger is not running and no goroutine is left. A failed startup never makes the server ready.",
 ["schedules", "fault_sequences"], "all interleavings of Start, Stop, RPCs and context cancellation, with failing dependencies",
 "The tests start, call and stop one after the other.",
 ["rpcserver/server.go"], [("ready and quit", "rpcserver/server.go Start, Stop, waitForReady")],
 ["return values and error codes, live goroutines"], SCHED, B("lnd is a model."))

prop("C19", "Subscribers receive every payload of their type once and in order",
 "While a subscription is active, its stream is sent each onion payload of its type that arrives at the node, exactly once, in order of arrival, with the payload's bytes and reply path, and nothing else. This holds for every number of payloads in flight, subscribers of several types and any relative speed of the messenger and the client.",
 ["schedules", "inputs"], "all interleavings of arriving messages, subscriptions and sends",
 "The tests deliver one payload and do not check what was sent.",
 ["rpcserver/impl_subscribe_onion_payload.go", "rpcserver/common.go", "onionmsg/messenger.go"],
 [("hand-over", "rpcserver/impl_subscribe_onion_payload.go handleSubscribeOnionPayload")],
 ["responses sent on the stream"], SCHED, B("the gRPC stream is a model."))

prop("C20", "Subscriptions end promptly, release their type and never wedge the node",
 "A subscription ends when the client cancels (canceled), its stream fails (that error) or the server shuts down (aborted), whatever messages are in flight. Its payload type is free again once it has ended, a second subscription to a type in use is refused as unavailable, and other subscriptions, message processing and shutdown are never blocked by one that has ended.",
 ["schedules", "fault_sequences"], "all interleavings of messages, cancellation, send failure, server stop and re-subscription",
 "The tests end one idle subscription at a time.",
 ["rpcserver/impl_subscribe_onion_payload.go", "onionmsg/messenger.go"],
 [("termination", "rpcserver/impl_subscribe_onion_payload.go handleSubscribeOnionPayload")],
 ["return values, deadlocks"], SCHED + " with deadlock detection", B("a client that neither reads nor cancels blocks delivery by design."))

prop("C21", "Send and subscribe requests are validated and mapped without loss",
 "A send request is passed on if and only if it names exactly one well-formed destination, all keys in it parse, its blinded destination has hops and all its payload types are final hop types; what is passed on carries exactly the request's destination, reply path, payloads and direct-connect flag. Malformed requests are refused as invalid arguments before anything is sent. A missing path is reported as not found, any other failure as internal.",
 ["inputs", "fault_sequences"], "all combinations of request fields (absent, valid, each malformation) and send outcomes",
 "The tests take about ten requests; combinations of fields are not covered.",
 ["rpcserver/impl_sendonionmessage.go", "rpcserver/common.go", "rpcserver/impl_subscribe_onion_payload.go"],
 [("parsing", "rpcserver/impl_sendonionmessage.go, rpcserver/common.go")],
 ["gRPC responses, messages given to lnd"], ENUM, B("requests reach the real server through its exported API."))

prop("C22", "Decoded offers and generated routes are reported field for field",
 "The offer returned by the decode RPC has exactly the fields of the offer string (amount, description, features, expiry, issuer, quantities, node key, signature), unset where the offer has none, and a string that is not an offer is refused. The route returned by the generate RPC has the introduction node, blinding point and every hop of the generated path in order; a feature that does not fit 16 bits is refused as an invalid argument, and a generation failure is internal.",
 ["inputs"], "all combinations of offer fields, feature lists and routes",
 "The tests check the empty request and one two-key route.",
 ["rpcserver/impl_decodeoffer.go", "rpcserver/impl_generate_blinded_route.go", "rpcserver/common.go"],
 [("mapping", "composeDecodeOfferResponse, composeBlindedRoute")],
 ["RPC responses"], ENUM, B("route contents are decrypted with the nodes' keys."))

prop("C23", "Every RPC is covered by a macaroon permission",
 "Every method of the gRPC services that are registered with lnd has a non-empty permission entry under its full method name, and there are no entries for methods that do not exist. Each permission names an entity and an action that lnd's macaroons can carry. Methods that make the node send messages require a write permission.",
 ["configurations"], "all registered methods",
 "No test relates the permission table to the service definition; an unlisted method is unreachable or unprotected.",
 ["rpcserver/macaroons.go", "offersrpc/offersrpc_grpc.pb.go", "boltnd.go"], [("table", "rpcserver/macaroons.go")],
 ["Boltnd.Permissions, RegisterGrpcSubserver"], "exhaustive enumeration of the registered methods against the permission table", B("finite, complete."))

prop("C24", "Startup connects to lnd with exactly the configured attempts",
 "Starting tries to connect to lnd until it succeeds, at most the configured number of retries plus one attempt, waiting the configured time between attempts, for every configurable number of retries. It fails with the last connection error if all attempts fail, and makes no further attempt after success.",
 ["configurations", "fault_sequences"], "all 256 retry settings and all positions of the first success",
 "No test runs the startup loop; the boundary setting overflows only at its maximum.",
 ["boltnd.go"], [("retry loop", "boltnd.go Start")],
 ["connection attempts with their virtual times"], "exhaustive enumeration of configurations and fault sequences on the real code in virtual time", B("the connection function is replaced by a model at the overlay."))

prop("C25", "Configuration is validated and options produce the lnd settings given",
 "An instance is created if and only if its configuration has an lnd client configuration whose required version is compatible with the minimum supported and a non-negative wait. Options apply in order to the documented defaults, each setting exactly its own fields; the option built from lnd's own configuration takes its first listener, admin macaroon, certificate and network, and refuses configurations without a listener or with an unsupported network, which like any option error prevents creation. The connection made at startup uses exactly these settings and waits until lnd is unlocked and synced.",
 ["configurations"], "all combinations and orders of options and field values",
 "There are no tests of the configuration at all.",
 ["config.go", "boltnd.go"], [("validation", "config.go Validate, OptionLNDConfig")],
 ["NewBoltnd, resulting connection settings"], ENUM, B("version compatibility follows lndclient's rule."))

prop("C26", "The daemon propagates failure once and releases everything on stop",
 "If message processing loses lnd, the configured shutdown closure is called exactly once, and without a closure nothing breaks. Start and Stop each take effect once, in any order and concurrently; after both have returned the lnd connection has been closed exactly once if it was made, no goroutine is left, and no panic or deadlock occurs. Stopping before or during startup, or while messages are handled, sent or subscribed to, leaves nothing running.",
 ["schedules", "fault_sequences"], "all interleavings of Start, Stop, connection outcomes and stream failures",
 "There are no unit tests of the daemon's lifecycle.",
 ["boltnd.go", "rpcserver/server.go"], [("lifecycle", "boltnd.go Start, Stop, requestShutdown")],
 ["closure calls, connection closes, live goroutines"], SCHED, B("lnd connections are a model replaced at the overlay."))

prop("C27", "Onion cryptography always uses lnd's node identity key",
 "Every shared secret for onion processing is requested from lnd's signer for exactly the given point under the node identity key locator, with a deadline of fifteen seconds, and the signer's answer or error is returned unchanged. The public key reported is the identity key that lnd reported at construction, which fails if lnd does not answer in time or reports a malformed key.",
 ["inputs", "fault_sequences"], "all points, signer answers and errors, and slow or malformed lnd replies",
 "The tests check one call with a mock that does not look at the locator's values under time-outs.",
 ["onionmsg/node_ecdh.go"], [("delegation", "onionmsg/node_ecdh.go ECDH, NewNodeECDH")],
 ["calls made to lnd's signer"], "exhaustive enumeration of replies and faults on the real code in virtual time", B("the signer is a model."))

prop("C28", "RPCs are authorised only with a macaroon that lnd accepts",
 "A call of any of boltnd's RPCs is authorised if and only if it carries exactly one hex-encoded macaroon that lnd, asked with exactly that macaroon, the permissions required and the method's name, reports to be valid. Missing, repeated and malformed macaroons, a negative answer and any failure to ask lnd refuse the call. Nothing is authorised before lnd is connected, an answer is never remembered for another call, and waiting for startup ends with the caller's context.",
 ["inputs", "histories", "fault_sequences"], "all macaroon metadata, lnd answers and failures, methods and sequences of calls before and after startup",
 "The tests never call the validator: lnd hands validation of a subserver's methods to it entirely, so that whatever it lets through is authorised.",
 ["boltnd.go", "rpcserver/macaroons.go"], [("validation", "boltnd.go ValidateMacaroon, rpcserver/macaroons.go ValidateMacaroon")],
 ["Boltnd.ValidateMacaroon, requests made to lnd"], "exhaustive enumeration of requests, answers and call histories on the real code under the controlled scheduler", B("lnd's own check of a macaroon is a model that may answer anything."))

prop("C29", "Clients converse over generated routes using the RPCs alone",
 "Between any two nodes of a connected network that run boltnd, clients can converse through the RPCs alone. A route returned by GenerateBlindedRoute can be used as it is, as a blinded destination or as a reply path, any number of times, by every node but its introduction node, also after nodes have restarted. Each message whose sending succeeded is given exactly once, with its payloads and its reply path, to the recipient's subscribers of its types and to nobody else, as long as the nodes on the way are up and their lnds answer; one whose sending failed is given to nobody, unless lnd reported a failure after it had sent it. The reply path that subscribers are given leads an answer back. A failing call to lnd affects at most the message at hand, which can be sent again; conversations at the same time do not affect each other.",
 ["inputs", "schedules", "histories", "crash_points", "fault_sequences"], "all networks, parties, ways of sending, contents, restarts, failures of lnd and interleavings of conversations",
 "The tests run one component at a time against mocks; no test passes what one RPC returns to another, or a message through more than one node.",
 ["rpcserver/server.go", "rpcserver/impl_generate_blinded_route.go", "rpcserver/impl_sendonionmessage.go", "rpcserver/impl_subscribe_onion_payload.go", "onionmsg/messenger.go", "routes/blinded.go"],
 [("routes and reply paths over RPC", "rpcserver/common.go"), ("routing", "onionmsg/messenger.go SendMessage, handleOnionMessage"), ("route generation", "routes/blinded.go ReplyPath")],
 ["responses of every node's subscriptions"], SCHED, B("lnd (its graph, routes, peers and delivery) is a model; an onion cannot start with a hop to the sender itself."))

BUILT = set(open(os.path.join(HERE, "tools", "built.txt")).read().split())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                "observe_at": p["observe"], "hook_needed": None}}) + "\n")

man = {"version": 1, "setup_cmd": "./setup.sh",
  "checks": [{"property": p["id"], "quick_cmd": "./run.sh " + p["id"],
     "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + p["id"],
     "evidence_file": "evidence/%s.json" % p["id"],
     "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
     for p in P if p["id"] in BUILT],
  "not_applicable": [{"property": p["id"], "reason": "No check has been built for it yet."}
     for p in P if p["id"] not in BUILT],
  "notes": "No hooks are committed in /repo: instrumentation is generated from /repo's working tree into an overlay at build time. See DESIGN.md."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
