package main

import (
	"bytes"
	"fmt"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offers"
	rt "github.com/carlakc/boltnd/verifrt"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
	"github.com/lightningnetwork/lnd/tlv"
)

func init() {
	register(&prop{
		id:          "C09",
		rule:        "an execution of two or three concurrent calls under one interleaving; non-trivial: distinct results",
		bounds:      "every pair of 14 calls with different inputs, every interleaving at statement granularity with at most 1 preemption (2 for onion messages); thorough: also triples of the same call, and 2 preemptions for all pairs up to the time budget",
		assumptions: []string{"calls into other modules are atomic", "sequentially consistent memory"},
		scenarios:   c09Scenarios,
	})
}

// codecOp is a call with a comparable result.
type codecOp struct {
	name string
	// small calls take few statements.
	small bool
	// run makes the call and returns a function that shows its result.
	run func(v int) func() string
}

func said(s string) func() string { return func() string { return s } }

// lent runs f with a copy of b, which must not change during the call and is
// overwritten after it.
func lent(b []byte, f func(b []byte) func() string) func() string {
	mine := append([]byte{}, b...)
	show := f(mine)
	if !bytes.Equal(mine, b) {
		return said(fmt.Sprintf("input %x changed to %x", b, mine))
	}
	for i := range mine {
		mine[i] ^= 0xa5
	}
	return show
}

// encoded shows the result of an encoder.
func encoded(b []byte, err error) func() string {
	return func() string { return fmt.Sprintf("%x %v", b, err) }
}

// c09Msg is the v-th sample of a message, signed.
func c09Msg(k *msgKind, v int, small bool) []byte {
	recs := k.baseRecs()
	if !small {
		for _, t := range k.types() {
			if t != 240 && t%4 == 0 {
				recs[t] = fieldValues(k.fields[t], t)[0]
			}
		}
		recs[1001] = fill(5+v, byte(v))
		recs[1003] = fill(3+v, byte(v))
	}
	recs[2001] = []byte{byte(v), 1}
	if v == 2 {
		recs[2003] = []byte{9}
	}
	return mkStream(k.sign(recs, 1))
}

func showMsg(m *realMsg) func() string {
	return func() string {
		if m.show != nil {
			m.fields = m.show()
		}
		b, err := m.encode()
		return fmt.Sprintf("%v %x %v %x %v", m.fields, m.root,
			m.validate(), b, err)
	}
}

func codecOps() []*codecOp {
	var ops []*codecOp
	add := func(name string, small bool, run func(v int) func() string) {
		ops = append(ops, &codecOp{name: name, small: small, run: run})
	}
	for _, k := range allMsgs {
		k := k
		var msgs, smalls [3][]byte
		for v := range msgs {
			msgs[v] = c09Msg(k, v, false)
			smalls[v] = c09Msg(k, v, true)
		}
		full := func(b []byte) func() string {
			return lent(b, func(b []byte) func() string {
				m := realDecode(k, b)
				if m.err != nil {
					return said(m.err.Error())
				}
				return showMsg(m)
			})
		}
		add("decode-"+k.name, false, func(v int) func() string {
			return full(msgs[v])
		})
		add("decode-small-"+k.name, true, func(v int) func() string {
			return full(smalls[v])
		})
		add("encode-"+k.name, k == offerMsg, func(v int) func() string {
			recs := map[uint64][]byte{}
			rs, _ := refStream(msgs[v])
			for _, r := range rs {
				if _, known := k.fields[r.typ]; known {
					recs[r.typ] = r.val
				}
			}
			return encoded(realEncode(k, recs))
		})
	}
	add("request", false, func(v int) func() string {
		o := &lnwire.Offer{
			MinimumAmount: 1, QuantityMin: 1, QuantityMax: 5,
			Description: "d", NodeID: pubKey(1),
			MerkleRoot: toHash(fill(32, byte(v))),
		}
		r, err := lnwire.NewInvoiceRequest(o,
			lndwire.MilliSatoshi(1+v), uint64(1+v), pubKey(3), "n")
		if err != nil {
			return said(err.Error())
		}
		return func() string {
			return fmt.Sprintf("%v %x %x", invreqFields(r),
				r.MerkleRoot, r.SignatureDigest())
		}
	})
	var strs [3]string
	for v := range strs {
		strs[v] = bech32Offer("lno", c09Msg(offerMsg, v, true))
		strs[v] = strs[v][:20] + "+ " + strs[v][20:]
	}
	add("string", false, func(v int) func() string {
		o, err := offers.DecodeOfferStr(strs[v])
		if err != nil {
			return said(err.Error())
		}
		return func() string {
			return fmt.Sprintf("%v %x", offerFields(o), o.MerkleRoot)
		}
	})
	var pls [3][]byte
	for v := range pls {
		pls[v] = (&rPayload{path: pathOf(v+1, 2), enc: fill(v+2, 3),
			final: []refTLV{{typ: 64, val: fill(v+1, 1)},
				{typ: 67 + uint64(v), val: fill(v, 2)}}}).encode()
	}
	add("payload-decode", true, func(v int) func() string {
		return lent(pls[v], func(b []byte) func() string {
			p, err := lnwire.DecodeOnionMessagePayload(b)
			if err != nil {
				return said(err.Error())
			}
			return func() string { return fromPayload(p).String() }
		})
	})
	add("payload-encode", true, func(v int) func() string {
		p := &lnwire.OnionMessagePayload{
			ReplyPath:     pathOf(v+1, 3).real(),
			EncryptedData: fill(v+2, 1),
			FinalHopPayloads: []*lnwire.FinalHopPayload{
				{TLVType: tlv.Type(70 + v), Value: fill(v, 3)},
				{TLVType: 64, Value: fill(v+1, 3)},
			},
		}
		return encoded(lnwire.EncodeOnionMessagePayload(p))
	})
	add("blinded-encode", true, func(v int) func() string {
		return encoded(lnwire.EncodeBlindedRouteData(
			&lnwire.BlindedRouteData{
				NextNodeID:           pubKey(v + 1),
				NextBlindingOverride: pubKey(v + 4),
			},
		))
	})
	var blinded [3][]byte
	for v := range blinded {
		var err error
		blinded[v], err = lnwire.EncodeBlindedRouteData(
			&lnwire.BlindedRouteData{NextNodeID: pubKey(v + 1)},
		)
		if err != nil {
			panic(err)
		}
	}
	add("blinded-decode", true, func(v int) func() string {
		return lent(blinded[v], func(b []byte) func() string {
			d, err := lnwire.DecodeBlindedRouteData(b)
			if err != nil {
				return said(err.Error())
			}
			return func() string {
				return fmt.Sprintf("%x %v",
					d.NextNodeID.SerializeCompressed(),
					d.NextBlindingOverride)
			}
		})
	})
	add("message", true, func(v int) func() string {
		m := lnwire.NewOnionMessage(pubKey(v+1), fill(10+v, 3))
		var w bytes.Buffer
		err := m.Encode(&w, 0)
		return lent(w.Bytes(), func(b []byte) func() string {
			var d lnwire.OnionMessage
			err2 := d.Decode(bytes.NewReader(b), 0)
			return func() string {
				return fmt.Sprintf("%x %v %x %v", w.Bytes(), err,
					d.OnionBlob, err2)
			}
		})
	})
	return ops
}

func c09Scenarios(thorough bool) []*rt.Scenario {
	ops := codecOps()
	var scs []*rt.Scenario

	scenario := func(bound int, calls ...*codecOp) {
		name := fmt.Sprintf("b%d", bound)
		want := make([]string, len(calls))
		for i, c := range calls {
			name += "/" + c.name
			want[i] = c.run(i)()
		}
		scs = append(scs, &rt.Scenario{
			Name: name,
			Opt: rt.Options{
				Bound: bound, StmtPoints: true, Horizon: 200000,
			},
			Body: func(x *rt.Exec) {
				var ts []*rt.Thread
				got := make([]string, len(calls))
				shows := make([]func() string, len(calls))
				for i, c := range calls {
					i, c := i, c
					ts = append(ts, x.Go(c.name, func() {
						shows[i] = c.run(i)
						got[i] = shows[i]()
					}))
				}
				x.Join(ts...)
				x.Count("calls")
				for i, c := range calls {
					if now := shows[i](); now != got[i] {
						x.Failf("result changed later: "+
							"%v: %v, was %v", c.name, now,
							got[i])
					}
				}
				x.Outcome("%v", got)
				for i, c := range calls {
					if got[i] != want[i] {
						x.Failf("concurrent call differs: "+
							"%v: got %v, alone %v", c.name,
							got[i], want[i])
					}
				}
			},
		})
	}

	scs = append(scs, c09Histories(ops, thorough)...)
	scs = append(scs, c09Shared(thorough)...)

	for i, a := range ops {
		for _, b := range ops[i:] {
			scenario(1, a, b)
		}
		if thorough {
			scenario(1, a, a, a)
		}
	}
	for _, a := range ops {
		if a.small && (thorough || a.name == "message") {

			scenario(2, a, a)
		}
	}
	if thorough {
		for i, a := range ops {
			for _, b := range ops[i:] {
				if a != b || !a.small {
					scenario(2, a, b)
				}
			}
		}
	}
	return scs
}

// c09Histories makes every sequence of calls one after another. What each
// returned is looked at again after every later call.
func c09Histories(ops []*codecOp, thorough bool) []*rt.Scenario {
	depth := 3
	if thorough {
		depth = 4
	}
	want := map[*codecOp][3]string{}
	for _, o := range ops {
		var w [3]string
		for v := range w {
			w[v] = o.run(v)()
		}
		want[o] = w
	}

	var scs []*rt.Scenario
	for i, a := range ops {
		for v := 0; v < 2; v++ {
			a, v, i := a, v, i
			scs = append(scs, longScenario(fmt.Sprintf("history/%v/%d",
				a.name, v), func(x *rt.Exec) {

				type made struct {
					op   *codecOp
					v    int
					show func() string
				}
				var rec func(h []made, op *codecOp, v int)
				rec = func(h []made, op *codecOp, v int) {
					h = append(h[:len(h):len(h)],
						made{op, v, op.run(v)})
					x.Count("calls")
					// Everything before was looked at when
					// it was new.
					for _, m := range h {
						got := m.show()
						if got != want[m.op][m.v] {
							x.Failf("%v gives %v "+
								"after %d calls "+
								"up to %v, alone %v",
								m.op.name, got,
								len(h), op.name,
								want[m.op][m.v])
						}
					}
					if len(h) == depth {
						return
					}
					for j, o := range ops {
						rec(h, o, (v+1+(i+j)%2)%3)
					}
				}
				rec(nil, a, v)
			}))
		}
	}
	return scs
}

// c09Shared makes two calls at the same time on one object.
func c09Shared(thorough bool) []*rt.Scenario {
	// use is a call on an object that others use as well.
	type use struct {
		name string
		run  func() func() string
	}
	type object struct {
		name string
		make func() (show func() string, uses []use)
	}
	var objects []*object

	for _, k := range allMsgs {
		k := k
		msg := c09Msg(k, 1, false)
		objects = append(objects, &object{k.name, func() (func() string,
			[]use) {

			b := append([]byte{}, msg...)
			m := realDecode(k, b)
			show := func() string {
				return fmt.Sprintf("%v %x %v", m.show(), b, m.err)
			}
			uses := []use{
				{"encode", func() func() string {
					return encoded(m.encode())
				}},
				{"validate", func() func() string {
					return said(fmt.Sprint(m.validate()))
				}},
				{"read", func() func() string {
					return said(show())
				}},
				{"decode", func() func() string {
					m := realDecode(k, b)
					return said(fmt.Sprintf("%v %v %x", m.err,
						m.show(), m.root))
				}},
			}
			return show, uses
		}})
	}

	objects = append(objects, &object{"requests", func() (func() string,
		[]use) {

		o := &lnwire.Offer{
			MinimumAmount: 1, QuantityMin: 1, QuantityMax: 5,
			Description: "d", NodeID: pubKey(1), Issuer: "i",
			MerkleRoot: toHash(fill(32, 7)),
			Features: lndwire.NewFeatureVector(
				lndwire.NewRawFeatureVector(1, 8), nil,
			),
		}
		show := func() string { return fmt.Sprint(offerFields(o)) }
		var uses []use
		for q := uint64(1); q < 3; q++ {
			q := q
			uses = append(uses, use{fmt.Sprintf("request-%d", q),
				func() func() string {
					r, err := lnwire.NewInvoiceRequest(o,
						lndwire.MilliSatoshi(q), q,
						pubKey(3), "n")
					if err != nil {
						return said(err.Error())
					}
					return func() string {
						return fmt.Sprintf("%v %x",
							invreqFields(r),
							r.SignatureDigest())
					}
				}})
		}
		uses = append(uses, use{"encode", func() func() string {
			return encoded(lnwire.EncodeOffer(o))
		}}, use{"validate", func() func() string {
			return said(fmt.Sprint(o.Validate()))
		}})
		return show, uses
	}})

	objects = append(objects, &object{"payload", func() (func() string,
		[]use) {

		p := &lnwire.OnionMessagePayload{
			ReplyPath:     pathOf(3, 0, 2).real(),
			EncryptedData: fill(4, 1),
			FinalHopPayloads: []*lnwire.FinalHopPayload{
				{TLVType: 103, Value: fill(3, 5)},
				{TLVType: 66, Value: fill(1, 3)},
				{TLVType: 64, Value: fill(2, 3)},
			},
		}
		show := func() string { return fromPayload(p).String() }
		uses := []use{
			{"encode", func() func() string {
				return encoded(lnwire.EncodeOnionMessagePayload(p))
			}},
			{"read", func() func() string { return said(show()) }},
		}
		return show, uses
	}})

	objects = append(objects, &object{"message", func() (func() string,
		[]use) {

		m := lnwire.NewOnionMessage(pubKey(2), fill(12, 3))
		show := func() string {
			return fmt.Sprintf("%x %x",
				m.BlindingPoint.SerializeCompressed(), m.OnionBlob)
		}
		uses := []use{
			{"encode", func() func() string {
				var w bytes.Buffer
				err := m.Encode(&w, 0)
				return encoded(w.Bytes(), err)
			}},
			{"read", func() func() string { return said(show()) }},
		}
		return show, uses
	}})

	var scs []*rt.Scenario
	for _, o := range objects {
		_, uses := o.make()
		for i := range uses {
			for j := i; j < len(uses); j++ {
				o, i, j := o, i, j
				_, alone := o.make()
				want := []string{alone[i].run()(), alone[j].run()()}
				bound := 1
				if thorough {
					bound = 2
				}
				scs = append(scs, &rt.Scenario{
					Name: fmt.Sprintf("shared/%v/%v/%v", o.name,
						uses[i].name, uses[j].name),
					Opt: rt.Options{
						Bound: bound, StmtPoints: true,
						Horizon: 200000,
					},
					Body: func(x *rt.Exec) {
						show, uses := o.make()
						before := show()
						calls := []use{uses[i], uses[j]}
						got := make([]func() string, 2)
						var ts []*rt.Thread
						for n, c := range calls {
							n, c := n, c
							ts = append(ts, x.Go(c.name,
								func() { got[n] = c.run() }))
						}
						x.Join(ts...)
						x.Count("calls")
						for n, c := range calls {
							if g := got[n](); g != want[n] {
								x.Failf("%v of a shared %v "+
									"gives %v, alone %v",
									c.name, o.name, g, want[n])
							}
						}
						if now := show(); now != before {
							x.Failf("%v changed from %v to %v",
								o.name, before, now)
						}
						x.Outcome("%v", want)
					},
				})
			}
		}
	}
	return scs
}
