package main

import (
	"bytes"
	"encoding/binary"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/lnwire"
	rt "github.com/carlakc/boltnd/verifrt"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

func init() {
	register(&prop{
		id:        "C05",
		rule:      "a message that is encoded and decoded again; non-trivial: all",
		bounds:    "every subset of every message's fields (offers 2^10, requests 2^9, invoices up to 5 fields, thorough: 2^15), every value class of every pair of fields, every swept value of every field (numbers up to 300 and around all powers of two and ten, texts of every length up to 300 and up to 65535, every byte, every feature bit up to 519, every bit of a hash) alone, with the required fields and with all fields, every decodable sample message with one byte substituted",
		scenarios: c05Scenarios,
		assumptions: []string{
			"fields are constrained to what their Go types document: whole seconds, x-only node keys, expiries within a duration",
			"feature vectors use this code base's length prefixed encoding",
		},
	})
}

func toU64(b []byte) uint64 {
	var v [8]byte
	copy(v[8-len(b):], b)
	return binary.BigEndian.Uint64(v[:])
}

func toHash(b []byte) (h [32]byte) {
	copy(h[:], b)
	return h
}

func toXOnly(b []byte) *btcec.PublicKey {
	k, err := schnorr.ParsePubKey(b)
	if err != nil {
		panic(err)
	}
	return k
}

func toPoint(b []byte) *btcec.PublicKey {
	k, err := btcec.ParsePubKey(b)
	if err != nil {
		panic(err)
	}
	return k
}

// toFeatures reads the code base's feature encoding.
func toFeatures(b []byte) *lndwire.FeatureVector {
	var bits []lndwire.FeatureBit
	v := b[2:]
	for i, c := range v {
		for j := 0; j < 8; j++ {
			if c&(1<<uint(j)) != 0 {
				bits = append(bits, lndwire.FeatureBit(
					(len(v)-1-i)*8+j))
			}
		}
	}
	return lndwire.NewFeatureVector(
		lndwire.NewRawFeatureVector(bits...), lndwire.Features,
	)
}

func toSig(b []byte) *[64]byte {
	var s [64]byte
	copy(s[:], b)
	return &s
}

// realEncode builds the message as an object, without decoding, and has the
// implementation encode it.
func realEncode(k *msgKind, recs map[uint64][]byte) ([]byte, error) {
	get := func(t uint64, f func([]byte)) {
		if v, ok := recs[t]; ok {
			f(v)
		}
	}
	switch k {
	case offerMsg:
		o := &lnwire.Offer{}
		get(2, func(b []byte) { o.Chainhash = toHash(b) })
		get(8, func(b []byte) {
			o.MinimumAmount = lndwire.MilliSatoshi(toU64(b))
		})
		get(10, func(b []byte) { o.Description = string(b) })
		get(12, func(b []byte) { o.Features = toFeatures(b) })
		get(14, func(b []byte) {
			o.Expiry = time.Unix(int64(toU64(b)), 0)
		})
		get(20, func(b []byte) { o.Issuer = string(b) })
		get(22, func(b []byte) { o.QuantityMin = toU64(b) })
		get(24, func(b []byte) { o.QuantityMax = toU64(b) })
		get(30, func(b []byte) { o.NodeID = toXOnly(b) })
		get(240, func(b []byte) { o.Signature = toSig(b) })
		return lnwire.EncodeOffer(o)

	case invreqMsg:
		o := &lnwire.InvoiceRequest{}
		get(3, func(b []byte) { o.Chainhash = toHash(b) })
		get(4, func(b []byte) { o.OfferID = toHash(b) })
		get(8, func(b []byte) {
			o.Amount = lndwire.MilliSatoshi(toU64(b))
		})
		get(12, func(b []byte) { o.Features = toFeatures(b) })
		get(32, func(b []byte) { o.Quantity = toU64(b) })
		get(38, func(b []byte) { o.PayerKey = toXOnly(b) })
		get(39, func(b []byte) { o.PayerNote = string(b) })
		get(50, func(b []byte) { o.PayerInfo = b })
		get(240, func(b []byte) { o.Signature = toSig(b) })
		return lnwire.EncodeInvoiceRequest(o)

	default:
		o := &lnwire.Invoice{}
		get(3, func(b []byte) { o.Chainhash = toHash(b) })
		get(4, func(b []byte) { o.OfferID = toHash(b) })
		get(8, func(b []byte) {
			o.Amount = lndwire.MilliSatoshi(toU64(b))
		})
		get(10, func(b []byte) { o.Description = string(b) })
		get(12, func(b []byte) { o.Features = toFeatures(b) })
		get(30, func(b []byte) { o.NodeID = toPoint(b) })
		get(32, func(b []byte) { o.Quantity = toU64(b) })
		get(38, func(b []byte) { o.PayerKey = toPoint(b) })
		get(39, func(b []byte) { o.PayerNote = string(b) })
		get(40, func(b []byte) {
			o.CreatedAt = time.Unix(int64(toU64(b)), 0)
		})
		get(42, func(b []byte) { o.PaymentHash = toHash(b) })
		get(44, func(b []byte) {
			o.RelativeExpiry = time.Duration(toU64(b)) *
				time.Second
		})
		get(46, func(b []byte) { o.CLTVExpiry = toU64(b) })
		get(50, func(b []byte) { o.PayerInfo = b })
		get(240, func(b []byte) { o.Signature = toSig(b) })
		return lnwire.EncodeInvoice(o)
	}
}

// canonical drops records that hold a field's default value, which encoding
// leaves out, and makes feature vectors minimal.
func canonical(k *msgKind, recs map[uint64][]byte) map[uint64][]byte {
	out := make(map[uint64][]byte)
	for t, v := range recs {
		switch k.fields[t] {
		case kHash:
			if allZero(v) {
				continue
			}
		case kBytes:
			if len(v) == 0 {
				continue
			}
		case kU64:
			if allZero(v) && t != 40 {
				continue
			}
		case kFeatures:
			if allZero(v[2:]) {
				continue
			}
			body := v[2:]
			for body[0] == 0 {
				body = body[1:]
			}
			v = cat([]byte{0, byte(len(body))}, body)
		}
		out[t] = v
	}
	return out
}

// inRange is whether the record's value can be expressed by the object.
func inRange(k *msgKind, t uint64, v []byte) bool {
	return t != 44 || toU64(v) <= 9223372036
}

// checkRoundTrip encodes and decodes one message.
func checkRoundTrip(x *rt.Exec, k *msgKind, recs map[uint64][]byte) {
	for t, v := range recs {
		if !inRange(k, t, v) {
			return
		}
	}
	x.Count("cases")
	x.Count("calls")
	x.Distinct("%v %x", k.name, mkStream(canonical(k, recs)))
	x.Tick()

	want := mkStream(canonical(k, recs))
	got, err := realEncode(k, recs)
	if err != nil {
		x.Failf("%v encode: %x: %v", k.name, want, err)
	}
	if !bytes.Equal(got, want) {
		x.Failf("%v encoded wrongly: %x, not %x", k.name, got, want)
	}
	if len(canonical(k, recs)) == 0 {
		return
	}
	ref := refDecode(k, want)
	if ref.verdict != accept {
		return
	}
	back := realDecode(k, got)
	if back.err != nil {
		x.Failf("%v encoding does not decode: %x: %v", k.name, got,
			back.err)
	}
	if d := diffFields(k, ref.fields, back.fields); d != "" {
		x.Failf("%v changed by a round trip: %x: %v", k.name, got, d)
	}
	if back.root != ref.root {
		x.Failf("%v root wrong after a round trip: %x", k.name, got)
	}
	again, err := back.encode()
	if err != nil || !bytes.Equal(again, got) {
		x.Failf("%v encoding not stable: %x, then %x: %v", k.name, got,
			again, err)
	}
}

// checkStable decodes, encodes and decodes again.
func checkStable(x *rt.Exec, k *msgKind, b []byte) {
	x.Count("cases")
	x.Count("calls")
	x.Tick()
	first := realDecode(k, append([]byte{}, b...))
	if first.err != nil {
		return
	}
	enc, err := first.encode()
	if err != nil {
		x.Failf("decoded %v does not encode: %x: %v", k.name, b, err)
	}
	if len(enc) == 0 {
		return
	}
	x.Count("distinct")
	recs, ok := refStream(enc)
	if !ok {
		x.Failf("%v encoding is not canonical: %x", k.name, enc)
	}
	ref := refDecode(k, enc)
	if ref.root, ok = refMerkle(recs); !ok {
		return
	}
	second := realDecode(k, enc)
	if second.err != nil {
		x.Failf("%v encoding does not decode: %x: %v", k.name, enc,
			second.err)
	}
	if d := diffFields(k, first.fields, second.fields); d != "" {
		x.Failf("%v changed by a round trip: %x to %x: %v", k.name, b,
			enc, d)
	}
}

func c05Scenarios(thorough bool) []*rt.Scenario {
	var scs []*rt.Scenario
	add := func(name string, f func(x *rt.Exec)) {
		scs = append(scs, &rt.Scenario{Name: name, Body: f})
	}
	for _, k := range allMsgs {
		k := k
		sweep(add, k, 2, func(x *rt.Exec, recs map[uint64][]byte) {
			checkRoundTrip(x, k, recs)
		})
		max := len(k.types())
		if k == invoiceMsg && !thorough {
			max = 5
		}
		for variant := 0; variant < 2; variant++ {
			variant := variant
			name := "fields/" + k.name
			if variant == 1 {
				name = "fields2/" + k.name
			}
			sharded(add, name, 4, func(x *rt.Exec,
				mine func() bool) {

				forAllSubsets(k.types(), max, func(ts []uint64) {
					if !mine() {
						return
					}
					recs := make(map[uint64][]byte)
					for _, t := range ts {
						recs[t] = fieldValues(
							k.fields[t], t)[variant]
					}
					checkRoundTrip(x, k, recs)
				})
			})
		}
		sharded(add, "values/"+k.name, 2, func(x *rt.Exec,
			mine func() bool) {

			for _, t := range k.types() {
				for _, v := range fieldValues(k.fields[t], t) {
					checkRoundTrip(x, k, map[uint64][]byte{t: v})
					for _, t2 := range k.types() {
						if t2 == t || !mine() {
							continue
						}
						for _, v2 := range fieldValues(
							k.fields[t2], t2,
						) {
							recs := k.baseRecs()
							recs[t], recs[t2] = v, v2
							checkRoundTrip(x, k, recs)
						}
					}
				}
			}
		})
		add("integers/"+k.name, func(x *rt.Exec) {
			// Every power of two and its neighbours in every
			// integer field.
			for _, t := range k.types() {
				kind := k.fields[t]
				if kind != kTU64 && kind != kU64 {
					continue
				}
				for p := uint(0); p < 64; p++ {
					for d := -1; d <= 1; d++ {
						n := uint64(1)<<p + uint64(d)
						v := tu64(n)
						if kind == kU64 {
							v = u64(n)
						}
						if n == 0 {
							continue
						}
						recs := k.baseRecs()
						recs[t] = v
						checkRoundTrip(x, k, recs)
					}
				}
			}
		})
		add("features/"+k.name, func(x *rt.Exec) {
			for bit := 0; bit < 2000; bit++ {
				n := bit/8 + 1
				v := make([]byte, n)
				v[0] = 1 << uint(bit%8)
				recs := k.baseRecs()
				recs[12] = cat([]byte{byte(n >> 8), byte(n)}, v)
				if n > 255 {
					break
				}
				checkRoundTrip(x, k, recs)
			}
		})
		add("text/"+k.name, func(x *rt.Exec) {
			for _, t := range k.types() {
				if k.fields[t] != kBytes {
					continue
				}
				for c := 0; c < 256; c++ {
					recs := k.baseRecs()
					recs[t] = []byte{byte(c)}
					checkRoundTrip(x, k, recs)
					recs[t] = []byte{'a', byte(c), 'b'}
					checkRoundTrip(x, k, recs)
				}
				for _, l := range []int{
					1, 2, 251, 252, 253, 254, 255, 256, 257,
					1000, 65534, 65535,
				} {
					recs := k.baseRecs()
					recs[t] = fill(l, 1)
					checkRoundTrip(x, k, recs)
				}
			}
		})
		for name, msg := range k.samples() {
			name, msg := name, msg
			sharded(add, "stable/"+k.name+"/"+name, 2, func(
				x *rt.Exec, mine func() bool) {

				checkStable(x, k, msg)
				for i := range msg {
					if !mine() {
						continue
					}
					for c := 0; c < 256; c++ {
						b := append([]byte{}, msg...)
						b[i] = byte(c)
						checkStable(x, k, b)
					}
				}
			})
		}
	}
	return scs
}
