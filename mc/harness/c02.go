package main

import (
	"fmt"

	"github.com/carlakc/boltnd/lnwire"
	rt "github.com/carlakc/boltnd/verifrt"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/tlv"
)

func init() {
	register(&prop{
		id:   "C02",
		rule: "a TLV stream whose merkle root is compared; non-trivial: one that decodes",
		bounds: "every subset of every message's known fields (invoices: up to 5, thorough: all), every count of records from 1 to 300 and selected ones up to 1105, every swept value of every field (numbers up to 300 and around all powers of two and ten, texts of every length up to 300 and up to 65535, every byte, every feature bit up to 519, every bit of a hash) alone, with the required fields and with all fields, " +
			"every type that differs from a known one or an edge of the signature range in one bit above the seventh, every placement of up to 3 unknown records over 18 type classes and 4 value classes, every alternative value of every field, every map iteration order of up to 4 records, every order of up to 5 records passed to the root function",
		scenarios: c02Scenarios,
		assumptions: []string{
			"SHA-256 as implemented by the Go standard library",
		},
	})
}

// checkRoot requires the stream to decode with the reference root.
func checkRoot(x *rt.Exec, k *msgKind, recs map[uint64][]byte) {
	b := mkStream(recs)
	want, got := checkDecode(x, k, b, false, true)
	if want.verdict == accept && got.err != nil {
		x.Failf("%v refused: %x: %v", k.name, b, got.err)
	}
}

// forAlike runs over pairs of a type that means something in a message, known
// or at the edges of the signature range, and an unknown one which differs from
// it in a single high bit.
func forAlike(k *msgKind, f func(t, u uint64)) {
	for _, t := range append([]uint64{
		0, 1, 64, 239, 240, 241, 500, 999, 1000, 1001,
	}, k.types()...) {
		for s := uint(8); s < 64; s++ {
			u := t ^ 1<<s
			if _, known := k.fields[u]; !known && u > t {
				f(t, u)
			}
		}
	}
}

func c02Scenarios(thorough bool) []*rt.Scenario {
	var scs []*rt.Scenario
	add := func(name string, f func(x *rt.Exec)) {
		scs = append(scs, &rt.Scenario{Name: name, Body: f})
	}

	// Unknown types in every position relative to the known ones and to
	// the signature range.
	unknownTypes := []uint64{
		0, 1, 9, 11, 13, 21, 31, 33, 41, 100, 239, 241, 999, 1000,
		1001, 65537, 1 << 33, 1<<64 - 1,
	}
	unknownValues := [][]byte{
		{}, {0}, {1, 2, 3}, fill(260, 1),
	}

	for _, k := range allMsgs {
		k := k
		max := len(k.types())
		if k == invoiceMsg && !thorough {
			max = 5
		}

		sharded(add, "fields/"+k.name, 4, func(x *rt.Exec,
			mine func() bool) {

			forAllSubsets(k.types(), max, func(ts []uint64) {
				if !mine() {
					return
				}
				recs := make(map[uint64][]byte)
				for _, t := range ts {
					recs[t] = fieldValues(k.fields[t], t)[0]
				}
				checkRoot(x, k, recs)
			})
		})

		sweep(add, k, 2, func(x *rt.Exec, recs map[uint64][]byte) {
			checkRoot(x, k, recs)
		})

		add("many/"+k.name, func(x *rt.Exec) {
			// Large numbers of records.
			recs := k.baseRecs()
			for n := uint64(0); n < 1100; n++ {
				recs[1001+2*n] = []byte{byte(n)}
				if n < 300 || n&(n+1) == 0 || n&(n+2) == 0 ||
					n%128 < 3 || n%100 == 0 {

					checkRoot(x, k, recs)
				}
			}
			// Large records, known to be hashed completely.
			for _, n := range []int{
				1000, 4095, 4096, 32767, 32768, 65534, 65535,
			} {
				recs := k.baseRecs()
				recs[1001] = fill(n, 3)
				checkRoot(x, k, recs)
				recs[1001][n-1] ^= 1
				checkRoot(x, k, recs)
			}
		})

		add("values/"+k.name, func(x *rt.Exec) {
			// Every value of every field, alone, in a base message
			// and with every value of every other field.
			for _, t := range k.types() {
				for _, v := range fieldValues(k.fields[t], t) {
					checkRoot(x, k, map[uint64][]byte{t: v})
					for _, t2 := range k.types() {
						if t2 == t {
							continue
						}
						for _, v2 := range fieldValues(
							k.fields[t2], t2,
						) {
							recs := k.baseRecs()
							recs[t], recs[t2] = v, v2
							checkRoot(x, k, recs)
						}
					}
				}
			}
		})

		add("count/"+k.name, func(x *rt.Exec) {
			// Every number of records, for each of several starts.
			for start := uint64(0); start < 3; start++ {
				recs := make(map[uint64][]byte)
				if start > 0 {
					recs = k.baseRecs()
				}
				if start > 1 {
					recs = k.sign(recs, 1)
				}
				for n := uint64(0); n < 40; n++ {
					recs[1001+2*n] = []byte{byte(n)}
					checkRoot(x, k, recs)
				}
			}
		})

		sharded(add, "unknown/"+k.name, 4, func(x *rt.Exec,
			mine func() bool) {

			forAllSubsets(unknownTypes, 3, func(ts []uint64) {
				if !mine() {
					return
				}
				for i := range unknownValues {
					for _, step := range []int{0, 1} {
						recs := k.baseRecs()
						for j, t := range ts {
							if _, known := k.fields[t]; known {
								continue
							}
							recs[t] = unknownValues[(i+
								j*step)%4]
						}
						checkRoot(x, k, recs)
					}
				}
			})
		})

		add("sigrange/"+k.name, func(x *rt.Exec) {
			// The root ignores exactly types 240 to 1000.
			for t := uint64(230); t < 1030; t++ {
				if t == 240 {
					continue
				}
				recs := k.baseRecs()
				recs[t] = []byte{1, 2}
				checkRoot(x, k, recs)
			}
			// With nothing but signature records there is no root.
			for _, t := range []uint64{240, 241, 999, 1000} {
				v := []byte{1}
				if t == 240 {
					v = fill(64, 1)
				}
				checkDecode(x, k, mkTLV(t, v), false, true)
			}
			checkDecode(x, k, nil, false, true)
		})

		add("alike/"+k.name, func(x *rt.Exec) {
			// Types that differ from ones that mean something in a
			// single high bit mean nothing.
			forAlike(k, func(t, u uint64) {
				recs := k.baseRecs()
				recs[u] = []byte{1, 2}
				checkRoot(x, k, recs)
				if kind, known := k.fields[t]; known {
					recs[t] = fieldValues(kind, t)[0]
					checkRoot(x, k, recs)
				}
			})
		})

		// Decoding collects records in maps: enumerate every order in
		// which those may be iterated.
		scs = append(scs, &rt.Scenario{
			Name: "maporder/" + k.name,
			Opt:  rt.Options{MapOrders: true, Bound: 2},
			Body: func(x *rt.Exec) {
				recs := map[uint64][]byte{
					1: {1}, 33: {}, 101: {2, 3}, 1001: {4},
				}
				delete(recs, 33)
				t := k.required()[0]
				recs[t] = fieldValues(k.fields[t], t)[0]
				checkRoot(x, k, recs)
			},
		})
	}

	// The exported root function, with records in every order.
	add("records", func(x *rt.Exec) {
		types := []uint64{1, 2, 8, 240, 1001}
		var perm func(left, cur []uint64)
		perm = func(left, cur []uint64) {
			if len(cur) > 0 {
				recs := make(map[uint64][]byte)
				var in []tlv.Record
				for _, t := range cur {
					v := fill(int(t%7), byte(t))
					recs[t] = v
					in = append(in, tlv.MakePrimitiveRecord(
						tlv.Type(t), &v,
					))
				}
				r, _ := refStream(mkStream(recs))
				want, ok := refMerkle(r)
				got, err := lnwire.MerkleRoot(in)
				x.Count("cases")
				x.Count("calls")
				x.Distinct("records %v", cur)
				if ok != (err == nil) {
					x.Failf("root of %v: %v", cur, err)
				}
				if ok && want != got {
					x.Failf("root of %v wrong", cur)
				}
			}
			for i, t := range left {
				rest := append(append([]uint64{}, left[:i]...),
					left[i+1:]...)
				perm(rest, append(cur[:len(cur):len(cur)], t))
			}
		}
		perm(types, nil)
	})

	// Requests made for offers carry their own root.
	add("requests", func(x *rt.Exec) {
		for mask := 0; mask < 1<<6; mask++ {
			for _, note := range []string{"", "n", "a longer note"} {
				checkRequestRoot(x, mask, note)
			}
		}
	})

	return scs
}

// checkRequestRoot creates a request and compares its root with the one of
// its encoding.
func checkRequestRoot(x *rt.Exec, mask int, note string) {
	recs := offerMsg.baseRecs()
	if mask&1 != 0 {
		recs[2] = fill(32, 7)
	}
	if mask&2 != 0 {
		recs[8] = tu64(10)
	}
	if mask&4 != 0 {
		recs[12] = []byte{0, 1, 2}
	}
	if mask&8 != 0 {
		recs[22] = tu64(1)
		recs[24] = tu64(9)
	}
	if mask&16 != 0 {
		recs[101] = []byte{1}
	}
	quantity := uint64(0)
	if mask&8 != 0 {
		quantity = 4
	}
	amt := lndwire.MilliSatoshi(10)
	if mask&32 != 0 {
		amt = 1 << 40
	}
	offer, err := lnwire.DecodeOffer(mkStream(recs))
	if err != nil {
		x.Failf("offer refused: %v", err)
	}
	req, err := lnwire.NewInvoiceRequest(
		offer, amt, quantity, pubKey(5), note,
	)
	x.Count("cases")
	x.Count("calls")
	if err != nil {
		x.Failf("request refused: %v", err)
	}
	x.Count("distinct")

	r, _ := refStream(mkStream(recs))
	offerRoot, _ := refMerkle(r)
	want := map[uint64][]byte{
		4: offerRoot[:], 8: tu64(uint64(amt)), 38: xonly(5),
	}
	if mask&1 != 0 {
		want[3] = fill(32, 7)
	}
	if mask&4 != 0 {
		want[12] = []byte{0, 1, 2}
	}
	if quantity != 0 {
		want[32] = tu64(quantity)
	}
	if note != "" {
		want[39] = []byte(note)
	}
	r, _ = refStream(mkStream(want))
	root, _ := refMerkle(r)
	if req.MerkleRoot != root {
		x.Failf("request root wrong: mask %d note %q: %v",
			mask, note, fmt.Sprintf("%x", req.MerkleRoot[:]))
	}
	digest := req.SignatureDigest()
	if string(digest[:]) != string(refDigest("invoice_request", root)) {
		x.Failf("request digest wrong: mask %d note %q", mask, note)
	}

	// Filling in the request's payer info, a signature and its digest
	// leave the root that is recomputed by its receiver.
	sig := refSign(privKey(5), "invoice_request", root)
	req.Signature = &sig
	b, err := lnwire.EncodeInvoiceRequest(req)
	if err != nil {
		x.Failf("request encode: %v", err)
	}
	back, err := lnwire.DecodeInvoiceRequest(b)
	if err != nil || back.MerkleRoot != root {
		x.Failf("request root changes in transit: mask %d note %q: %v",
			mask, note, err)
	}
	if err := back.Validate(); err != nil {
		x.Failf("signed request invalid: mask %d: %v", mask, err)
	}
}
