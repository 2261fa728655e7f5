package main

import (
	"fmt"

	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/lnwire"
	rt "github.com/carlakc/boltnd/verifrt"
)

func init() {
	register(&prop{
		id:        "C03",
		rule:      "a signed message and its verdict; non-trivial: one that decodes with a signature",
		bounds:    "every single bit of every signed sample message flipped, 64 keys of either parity, every swept value of every field (numbers up to 300 and around all powers of two and ten, texts of every length up to 300 and up to 65535, every byte, every feature bit up to 519, every bit of a hash) alone, with the required fields and with all fields, every record removed, duplicated value, emptied or added (all types 0..300 and classes beyond), every pair of values swapped, signatures under every other message tag, field tag, key, root and digest construction, every signature shared between messages; every pair of 156 messages put together by hand (3 kinds, 2 roots, 2 keys, 13 signatures) that share a signature or the root and key, validated one after the other, and decoded messages whose root, key or signature is changed and changed back",
		scenarios: c03Scenarios,
		assumptions: []string{
			"btcec's BIP 340 verification is the oracle for a signature over a given digest",
		},
	})
}

// checkSigned compares the implementation's validation with the reference.
func checkSigned(x *rt.Exec, k *msgKind, b []byte, what string) bool {
	want := refDecode(k, b)
	got := realDecode(k, append([]byte{}, b...))
	x.Count("cases")
	x.Count("calls")
	x.Tick()

	if got.err != nil {
		if want.verdict == accept && refValid(k, want) {
			x.Failf("valid %v refused: %v: %x: %v", k.name, what, b,
				got.err)
		}
		return false
	}
	if _, ok := want.recs[240]; ok {
		x.Distinct("%v %v: %x", k.name, what, b)
	}
	err := got.validate()
	valid := want.verdict != reject && refValid(k, want)
	switch {
	case err == nil && !valid:
		x.Failf("invalid %v accepted: %v: %x", k.name, what, b)

	case err != nil && valid:
		x.Failf("valid %v refused: %v: %x: %v", k.name, what, b, err)
	}
	return err == nil
}

func c03Scenarios(thorough bool) []*rt.Scenario {
	var scs []*rt.Scenario
	add := func(name string, f func(x *rt.Exec)) {
		scs = append(scs, &rt.Scenario{Name: name, Body: f})
	}

	for _, k := range allMsgs {
		k := k
		sweep(add, k, 8, func(x *rt.Exec, recs map[uint64][]byte) {
			if _, ok := recs[240]; ok {
				checkSigned(x, k, mkStream(recs), "signature")
				return
			}
			checkSigned(x, k, mkStream(k.sign(recs, 1)), "sweep")
		})
		add("keys/"+k.name, func(x *rt.Exec) {
			// Every one of many keys, whose points have even and odd
			// y coordinates.
			typ := uint64(30)
			if k == invreqMsg {
				typ = 38
			}
			for n := 1; n <= 64; n++ {
				var keys [][]byte
				if k.fields[typ] == kPoint {
					neg := append([]byte{}, point(n)...)
					neg[0] ^= 1
					keys = [][]byte{point(n), neg}
				} else {
					keys = [][]byte{xonly(n)}
				}
				for _, key := range keys {
					recs := k.baseRecs()
					recs[typ] = key
					for _, by := range []int{n, n%64 + 1} {
						checkSigned(x, k, mkStream(
							k.sign(recs, by)),
							fmt.Sprintf("key %d by %d",
								n, by))
					}
				}
			}
		})
		for _, name := range []string{"signed", "full", "unknown"} {
			name := name
			msg := k.samples()[name]

			sharded(add, "bits/"+k.name+"/"+name, 2, func(x *rt.Exec,
				mine func() bool) {

				if !checkSigned(x, k, msg, "untouched") {
					x.Failf("valid %v refused", k.name)
				}
				for i := range msg {
					for bit := 0; bit < 8; bit++ {
						if !mine() {
							continue
						}
						b := append([]byte{}, msg...)
						b[i] ^= 1 << uint(bit)
						checkSigned(x, k, b, fmt.Sprintf(
							"bit %d of byte %d", bit, i))
					}
				}
			})

			add("records/"+k.name+"/"+name, func(x *rt.Exec) {
				r, _ := refStream(msg)
				recs := make(map[uint64][]byte)
				for _, rec := range r {
					recs[rec.typ] = rec.val
				}
				try := func(m map[uint64][]byte, what string) {
					checkSigned(x, k, mkStream(m), what)
				}
				var adds []uint64
				for t := uint64(0); t < 300; t++ {
					adds = append(adds, t)
				}
				adds = append(adds, 999, 1000, 1001, 65535,
					1<<32, 1<<64-1)
				for _, t := range adds {
					m := copyRecs(recs)
					if _, have := m[t]; have {
						delete(m, t)
						try(m, fmt.Sprint("removed ", t))
						m[t] = nil
						try(m, fmt.Sprint("emptied ", t))
						continue
					}
					vals := [][]byte{{}, {1}}
					if kind, ok := k.fields[t]; ok {
						vals = fieldValues(kind, t)
					}
					for _, v := range vals {
						m[t] = v
						try(m, fmt.Sprint("added ", t))
					}
				}
				for _, t := range k.types() {
					for _, v := range fieldValues(k.fields[t], t) {
						m := copyRecs(recs)
						m[t] = v
						try(m, fmt.Sprint("replaced ", t))
					}
				}
				for t := range recs {
					for t2 := range recs {
						m := copyRecs(recs)
						m[t], m[t2] = m[t2], m[t]
						try(m, fmt.Sprint("swapped ", t, t2))
					}
				}
			})
		}

		add("signatures/"+k.name, func(x *rt.Exec) {
			for _, base := range []string{"base", "full", "unknown"} {
				checkSignatures(x, k, base)
			}
		})

		add("manykeys/"+k.name, func(x *rt.Exec) {
			for signer := 1; signer < 5; signer++ {
				for owner := 1; owner < 5; owner++ {
					for _, t := range k.types() {
						kind := k.fields[t]
						if kind != kXOnly && kind != kPoint {
							continue
						}
						recs := k.baseRecs()
						recs[t] = xonly(owner)
						if kind == kPoint {
							recs[t] = point(owner)
						}
						ok := checkSigned(x, k, mkStream(
							k.sign(recs, signer)),
							"keys")
						if t == k.keyField &&
							ok != (signer == owner) {

							x.Failf("key mix up: %v",
								k.name)
						}
					}
				}
			}
		})

		// What is signed when fields hold awkward values.
		add("values/"+k.name, func(x *rt.Exec) {
			for _, t := range k.types() {
				for _, v := range fieldValues(k.fields[t], t) {
					if t == 240 {
						continue
					}
					recs := k.baseRecs()
					recs[t] = v
					for key := 1; key < 3; key++ {
						checkSigned(x, k, mkStream(
							k.sign(recs, key)), "value")
					}
				}
			}
		})

		max := 3
		if thorough {
			max = 6
		}
		sharded(add, "fields/"+k.name, 4, func(x *rt.Exec,
			mine func() bool) {

			forAllSubsets(k.types(), max, func(ts []uint64) {
				if !mine() {
					return
				}
				recs := k.baseRecs()
				for _, t := range ts {
					recs[t] = fieldValues(k.fields[t], t)[0]
				}
				checkSigned(x, k, mkStream(k.sign(recs, 1)),
					"signed")
				bad := k.sign(recs, 1)
				sig := append([]byte{}, bad[240]...)
				sig[63] ^= 1
				bad[240] = sig
				checkSigned(x, k, mkStream(bad), "bad signature")
				delete(bad, 240)
				checkSigned(x, k, mkStream(bad), "unsigned")
			})
		})
	}

	c03Pairs(add)

	// The digest that is handed out for signing.
	add("digest", func(x *rt.Exec) {
		for i := 0; i < 64; i++ {
			var root [32]byte
			copy(root[:], fill(32, byte(i*3)))
			req := &lnwire.InvoiceRequest{MerkleRoot: root}
			got := req.SignatureDigest()
			x.Count("cases")
			if string(got[:]) != string(refDigest(
				"invoice_request", root)) {

				x.Failf("signature digest wrong: %x", root)
			}
		}
	})

	return scs
}

// checkSignatures tries every kind of wrong signature on one message.
func checkSignatures(x *rt.Exec, k *msgKind, base string) {
	r, _ := refStream(k.samples()[base])
	recs := make(map[uint64][]byte)
	for _, rec := range r {
		recs[rec.typ] = rec.val
	}
	delete(recs, 240)
	stream := mkStream(recs)
	r, _ = refStream(stream)
	root, _ := refMerkle(r)

	try := func(sig []byte, what string) {
		m := copyRecs(recs)
		m[240] = sig
		ok := checkSigned(x, k, mkStream(m), what)
		if ok != (what == "good") {
			x.Failf("signature %v: %v accepted=%v", what, k.name, ok)
		}
	}
	sign := func(digest []byte, what string) {
		sig, err := schnorr.Sign(privKey(1), digest)
		if err != nil {
			panic(err)
		}
		try(sig.Serialize(), what)
	}

	good := refSign(privKey(1), k.tag, root)
	try(good[:], "good")

	// Another message's tag, or a tag put together differently.
	for _, tag := range []string{
		"", "offer", "invoice", "invoice_request", "payer",
		"invoice_error", "Offer", "OFFER", "offers", "invoicerequest",
		"invoice-request", "invreq", "lightning",
	} {
		if tag != k.tag {
			sig := refSign(privKey(1), tag, root)
			try(sig[:], "tag "+tag)
		}
	}
	for _, tag := range []string{
		"lightning" + k.tag, k.tag + "signature", k.tag, "signature",
		"lightning" + k.tag + "payer_signature",
		"lightning " + k.tag + " signature", "LnLeaf", "",
		"lightning" + "signature" + k.tag,
		"lightning" + k.tag + "signatures",
	} {
		sign(refTagged([]byte(tag), root[:]), "full tag "+tag)
	}

	// Another digest.
	sign(root[:], "bare root")
	sign(refTagged([]byte("lightning"+k.tag+"signature"), stream)[:],
		"stream rather than root")
	rev := root
	for i := range rev {
		rev[i] = root[31-i]
	}
	sign(refDigest(k.tag, rev), "reversed root")
	sign(refDigest(k.tag, [32]byte{}), "zero root")

	// The root of every sub stream.
	for i := range r {
		sub := append(append([]refTLV{}, r[:i]...), r[i+1:]...)
		if o, ok := refMerkle(sub); ok {
			sign(refDigest(k.tag, o), "root without a record")
		}
	}

	// Malformed signatures.
	try(make([]byte, 64), "zero")
	ones := make([]byte, 64)
	for i := range ones {
		ones[i] = 0xff
	}
	try(ones, "ones")
	try(cat(good[32:], good[:32]), "halves swapped")
	try(cat(good[:32], make([]byte, 32)), "zero s")
	try(cat(make([]byte, 32), good[32:]), "zero r")
	// Signatures made of values that anybody knows.
	digest := refDigest(k.tag, root)
	known := map[string][]byte{
		"zero": make([]byte, 32), "ones": ones[:32], "r": good[:32],
		"s": good[32:], "digest": digest, "root": root[:],
		"key": xonly(1), "other key": xonly(2),
		"one":      append(make([]byte, 31), 1),
		"offer id": recs[4], "hash": recs[42],
	}
	for a, r := range known {
		for b, s := range known {
			sig := cat(r, s)
			if len(sig) == 64 && string(sig) != string(good[:]) {
				try(sig, "of "+a+" and "+b)
			}
		}
	}
	for i := 0; i < 64; i++ {
		b := append([]byte{}, good[:]...)
		b[i] ^= 0x80
		try(b, "bit")
	}

	// Signatures of other messages.
	for _, k2 := range allMsgs {
		for name, msg := range k2.samples() {
			m := refDecode(k2, msg)
			sig, ok := m.recs[240]
			if !ok || string(sig) == string(good[:]) {
				continue
			}
			try(sig, "of "+k2.name+" "+name)
		}
	}
}
