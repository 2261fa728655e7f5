package main

import (
	"fmt"
	"time"

	"github.com/carlakc/boltnd/lnwire"
	rt "github.com/carlakc/boltnd/verifrt"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

func init() {
	register(&prop{
		id:        "C06",
		rule:      "an offer and the request made for it; non-trivial: requests that are created",
		bounds:    "every combination of offer minimum amount, minimum and maximum quantity and requested amount and quantity over 7 boundary values each, times presence of chain, features, payer note, expiry (past, now, future), issuer, signature and coinciding values; every number up to 300 and around the powers of two and ten as each bound, with the amount or quantity one below, equal and one above; all swept notes, features and chains; thorough: 10 boundary values",
		scenarios: c06Scenarios,
	})
	register(&prop{
		id:        "C07",
		rule:      "a message that is validated; non-trivial: one that is valid",
		bounds:    "every subset of required and constrained fields of every message, with every value class of each, times signature absent, good, bad and by another key; every pair of quantities over 9 boundary values; every swept value of every field alone, with the required fields and with all fields; as objects and as decoded bytes",
		scenarios: c07Scenarios,
	})
}

// refRequestOK is whether a request may be made.
func refRequestOK(min, qmin, qmax, amt, q uint64) bool {
	if amt < min {
		return false
	}
	if qmin == 0 && qmax == 0 {
		return q == 0
	}
	return q != 0 && q >= qmin && (qmax == 0 || q <= qmax)
}

func c06Scenarios(thorough bool) []*rt.Scenario {
	var scs []*rt.Scenario
	vals := []uint64{0, 1, 2, 3, 1 << 32, 1<<63 + 1, 1<<64 - 1}
	if thorough {
		vals = append(vals, 5, 1<<32-1, 1<<64-2)
	}
	for _, qmin := range vals {
		qmin := qmin
		scs = append(scs, &rt.Scenario{
			Name: fmt.Sprintf("min=%d", qmin),
			Body: func(x *rt.Exec) {
				for _, qmax := range vals {
					for _, min := range vals {
						for _, amt := range vals {
							for _, q := range vals {
								checkRequest(x, min, qmin,
									qmax, amt, q, 0)
							}
						}
					}
				}
			},
		})
	}
	scs = append(scs, &rt.Scenario{
		Name: "fields",
		Body: func(x *rt.Exec) {
			for mask := 0; mask < 32; mask++ {
				for _, q := range []uint64{0, 2} {
					for _, min := range []uint64{0, 5} {
						checkRequest(x, min, q, q, 7, q, mask)
						checkRequest(x, min, q, 0, 7, q, mask)
						checkRequest(x, min, 0, q, 7, q, mask)
					}
				}
			}
		},
	}, &rt.Scenario{
		Name: "masks",
		Body: func(x *rt.Exec) {
			for mask := 0; mask < 2048; mask++ {
				checkRequest(x, 5, 2, 3, 5, 3, mask)
				checkRequest(x, 5, 0, 0, 4, 0, mask)
				checkRequest(x, 0, 0, 0, 0, 0, mask)
			}
		},
	}, &rt.Scenario{
		Name: "sweep",
		Body: func(x *rt.Exec) {
			for _, n := range sweepNumbers() {
				for _, o := range []uint64{n - 1, n, n + 1} {
					checkRequest(x, n, 0, 0, o, 0, 0)
					checkRequest(x, 0, n, 0, 1, o, 0)
					checkRequest(x, 0, 0, n, 1, o, 0)
					checkRequest(x, 0, n, n, 1, o, 0)
					checkRequest(x, 0, n, n+1, 1, o, 0)
					checkRequest(x, n, 1, n, n, o, 0)
				}
			}
		},
	}, &rt.Scenario{
		Name: "contents",
		Body: func(x *rt.Exec) {
			for _, v := range sweepValues(kBytes) {
				checkRequestWith(x, 0, 0, 0, 1, 0, 4, string(v), nil,
					nil)
			}
			for _, v := range sweepValues(kFeatures) {
				checkRequestWith(x, 0, 0, 0, 1, 0, 2, "", v, nil)
			}
			for _, v := range sweepValues(kHash) {
				checkRequestWith(x, 0, 0, 0, 1, 0, 1, "", nil, v)
			}
		},
	}, &rt.Scenario{
		Name: "quantities",
		Body: func(x *rt.Exec) {
			for qmin := uint64(0); qmin < 7; qmin++ {
				for qmax := uint64(0); qmax < 7; qmax++ {
					for q := uint64(0); q < 9; q++ {
						checkRequest(x, 0, qmin, qmax, 1, q, 0)
					}
				}
			}
			for min := uint64(0); min < 20; min++ {
				for amt := uint64(0); amt < 22; amt++ {
					checkRequest(x, min, 0, 0, amt, 0, 0)
				}
			}
		},
	})
	return scs
}

// checkRequest makes one request.
func checkRequest(x *rt.Exec, min, qmin, qmax, amt, q uint64, mask int) {
	checkRequestWith(x, min, qmin, qmax, amt, q, mask, "note",
		[]byte{0, 2, 1, 2}, fill(32, 5))
}

// checkRequestWith makes one request with particular contents.
func checkRequestWith(x *rt.Exec, min, qmin, qmax, amt, q uint64, mask int,
	note string, features, chain []byte) {

	offer := &lnwire.Offer{
		MinimumAmount: lndwire.MilliSatoshi(min),
		QuantityMin:   qmin,
		QuantityMax:   qmax,
		Description:   "d",
		NodeID:        pubKey(1),
		MerkleRoot:    toHash(fill(32, 77)),
	}
	want := map[uint64]string{
		4:  fmt.Sprintf("%x", fill(32, 77)),
		38: fmt.Sprintf("%x", xonly(3)),
	}
	payer := pubKey(3)
	if mask&1 != 0 {
		if mask&512 != 0 {
			chain = fill(32, 77)
		}
		offer.Chainhash = toHash(chain)
		if !allZero(chain) {
			want[3] = fmt.Sprintf("%x", chain)
		}
	}
	if mask&2 != 0 {
		offer.Features = toFeatures(features)
		if !allZero(features[2:]) {
			want[12] = textFeatures(offer.Features)
		}
	}
	if mask&4 == 0 {
		note = ""
	} else if note != "" {
		want[39] = fmt.Sprintf("%x", note)
	}
	if mask&8 != 0 {
		offer.Issuer = "issuer"
	}
	if mask&16 != 0 {
		sig := refSign(privKey(1), "offer", offer.MerkleRoot)
		offer.Signature = &sig
	}
	switch mask & 96 {
	case 32:
		offer.Expiry = time.Unix(1, 0)
	case 64:
		offer.Expiry = time.Unix(4102444800, 0)
	case 96:
		offer.Expiry = time.Now()
	}
	if mask&128 != 0 {
		offer.Description = note
		offer.Issuer = note
	}
	if mask&256 != 0 {
		offer.NodeID = payer
	}
	if mask&1024 != 0 {
		offer.NodeID = nil
		offer.Description = ""
	}
	if amt != 0 {
		want[8] = fmt.Sprintf("%016x", amt)
	}
	if q != 0 {
		want[32] = fmt.Sprintf("%016x", q)
	}
	what := fmt.Sprintf("offer minimum %d quantity %d-%d, request for %d "+
		"quantity %d (mask %d)", min, qmin, qmax, amt, q, mask)

	before := fmt.Sprint(offerFields(offer), offer.MerkleRoot)
	req, err := lnwire.NewInvoiceRequest(
		offer, lndwire.MilliSatoshi(amt), q, payer, note,
	)
	x.Count("cases")
	x.Count("calls")
	x.Tick()
	ok := refRequestOK(min, qmin, qmax, amt, q)
	switch {
	case ok && err != nil:
		x.Failf("request refused: %v: %v", what, err)

	case !ok && err == nil:
		x.Failf("request allowed: %v", what)

	case (req == nil) != (err != nil):
		x.Failf("request and error: %v", what)

	case err == nil:
		x.Distinct("%v", what)
		if d := diffFields(invreqMsg, want,
			invreqFields(req)); d != "" {

			x.Failf("request made wrongly: %v: %v", what, d)
		}
	}
	if after := fmt.Sprint(offerFields(offer),
		offer.MerkleRoot); after != before {

		x.Failf("request changes its offer: %v", what)
	}
}

// checkValid compares Validate with the rules, for the decoded message.
func checkValid(x *rt.Exec, k *msgKind, recs map[uint64][]byte) {
	b := mkStream(recs)
	want := refDecode(k, b)
	x.Count("cases")
	x.Count("calls")
	x.Tick()
	got := realDecode(k, b)
	if got.err != nil {
		if want.verdict == accept {
			x.Failf("well formed %v refused: %x: %v", k.name, b,
				got.err)
		}
		return
	}
	if want.verdict != accept {
		return
	}
	err := got.validate()
	ok := refValid(k, want)
	switch {
	case ok && err != nil:
		x.Failf("valid %v refused: %x: %v", k.name, b, err)
	case !ok && err == nil:
		x.Failf("invalid %v accepted: %x", k.name, b)
	case ok:
		x.Distinct("%v %x", k.name, b)
	}
}

func c07Scenarios(thorough bool) []*rt.Scenario {
	var scs []*rt.Scenario
	add := func(name string, f func(x *rt.Exec)) {
		scs = append(scs, &rt.Scenario{Name: name, Body: f})
	}
	for _, k := range allMsgs {
		k := k
		sweep(add, k, 2, func(x *rt.Exec, recs map[uint64][]byte) {
			checkValid(x, k, recs)
		})
		max := len(k.types())
		if k == invoiceMsg && !thorough {
			max = 6
		}
		sharded(add, "fields/"+k.name, 8, func(x *rt.Exec,
			mine func() bool) {

			forAllSubsets(k.types(), max, func(ts []uint64) {
				if !mine() {
					return
				}
				recs := make(map[uint64][]byte)
				for _, t := range ts {
					recs[t] = fieldValues(k.fields[t], t)[0]
				}
				_, signed := recs[240]
				if !signed {
					checkValid(x, k, recs)
					return
				}
				delete(recs, 240)
				if len(recs) == 0 {
					return
				}
				good := k.sign(recs, 1)
				checkValid(x, k, good)
				checkValid(x, k, k.sign(recs, 2))
			})
		})
		add("missing/"+k.name, func(x *rt.Exec) {
			// Every field but one or two, signed and not.
			for _, t := range k.types() {
				for _, t2 := range k.types() {
					recs := make(map[uint64][]byte)
					for _, o := range k.types() {
						if o != t && o != t2 && o != 240 {
							recs[o] = fieldValues(
								k.fields[o], o)[0]
						}
					}
					checkValid(x, k, recs)
					checkValid(x, k, k.sign(recs, 1))
					checkValid(x, k, k.sign(recs, 2))
				}
			}
		})
		add("values/"+k.name, func(x *rt.Exec) {
			for _, t := range k.types() {
				if t == 240 {
					continue
				}
				for _, v := range fieldValues(k.fields[t], t) {
					recs := k.baseRecs()
					recs[t] = v
					checkValid(x, k, recs)
					checkValid(x, k, k.sign(recs, 1))
					checkValid(x, k, k.sign(recs, 2))
					for _, t2 := range k.required() {
						recs := k.baseRecs()
						delete(recs, t2)
						recs[t] = v
						checkValid(x, k, recs)
						checkValid(x, k, k.sign(recs, 1))
					}
				}
			}
		})
	}
	add("quantities", func(x *rt.Exec) {
		vals := []uint64{
			0, 1, 2, 3, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63,
			1<<64 - 1,
		}
		for _, min := range vals {
			for _, max := range vals {
				recs := offerMsg.baseRecs()
				if min != 0 {
					recs[22] = tu64(min)
				}
				if max != 0 {
					recs[24] = tu64(max)
				}
				checkValid(x, offerMsg, recs)
				checkValid(x, offerMsg, offerMsg.sign(recs, 1))
			}
		}
	})
	return scs
}
