package main

import (
	"bytes"
	"fmt"
	"time"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	rt "github.com/carlakc/boltnd/verifrt"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

// c27Overlap asks lnd for shared secrets at times that overlap in every way:
// each request has its own fifteen seconds.
func c27Overlap(thorough bool) []*rt.Scenario {
	starts := []time.Duration{
		0, second, 7 * second, 14*second + 1, 15*second + 1, 16 * second,
	}
	delays := []time.Duration{
		0, second, 8 * second, 15*second - 2, -1,
	}
	run := func(x *rt.Exec, at, ds []time.Duration) {
		count(x)
		ps := c27Points()
		as := map[string]*c27Answer{}
		for i, d := range ds {
			as[string(ps[i].SerializeCompressed())] = &c27Answer{
				val: [32]byte{byte(i + 1)}, delay: d,
			}
		}
		n := newECDH(x, c27Signer(x, func(k *btcec.PublicKey) *c27Answer {
			return as[string(k.SerializeCompressed())]
		}))
		var ts []*rt.Thread
		for i := range ds {
			i := i
			ts = append(ts, x.Go("ecdh", func() {
				rt.Sleep(at[i])
				begin := x.Now()
				got, err := n.ECDH(ps[i])
				as[string(ps[i].SerializeCompressed())].check(x, got,
					err, fmt.Sprintf("request %d of those at %v "+
						"that take %v", i, at, ds), x.Now()-begin)
			}))
		}
		x.Join(ts...)
		x.Distinct("at %v take %v", at, ds)
	}
	var out []*rt.Scenario
	for num := 2; num <= 3; num++ {
		num := num
		for first := range delays {
			first := first
			out = append(out, longScenario(fmt.Sprintf("overlap %d/%d",
				num, first), func(x *rt.Exec) {

				at := make([]time.Duration, num)
				ds := make([]time.Duration, num)
				ds[0] = delays[first]
				var next func(i int)
				next = func(i int) {
					if i == num {
						run(x, at, ds)
						return
					}
					for _, at[i] = range starts {
						for _, ds[i] = range delays {
							next(i + 1)
						}
					}
				}
				next(1)
			}))
		}
	}
	return out
}

// signedStruct is a message that was put together by hand.
type signedStruct struct {
	kind      *msgKind
	root, key int
	sig       int
	name      string
	validate  func() error
	valid     bool
}

// c03Structs are messages of every kind with each of some keys, roots and
// signatures that fit some of them.
func c03Structs() []*signedStruct {
	roots := [][32]byte{{1}, {2, 9}}
	type signature struct {
		kind      *msgKind
		root, key int
		bad       bool
	}
	var sigs []signature
	for _, k := range allMsgs {
		for r := range roots {
			for key := 1; key <= 2; key++ {
				sigs = append(sigs, signature{k, r, key, false})
			}
		}
	}
	sigs = append(sigs, signature{offerMsg, 0, 1, true})

	var out []*signedStruct
	for _, k := range allMsgs {
		for r := range roots {
			for key := 1; key <= 2; key++ {
				for i, s := range sigs {
					sig := refSign(privKey(s.key), s.kind.tag,
						roots[s.root])
					if s.bad {
						sig[63] ^= 1
					}
					m := &signedStruct{
						kind: k, root: r, key: key, sig: i,
						name: fmt.Sprintf("%v of key %d with root %d, "+
							"signed as %v %v", k.name, key, r,
							s.kind.name, s),
						valid: s.kind == k && s.root == r &&
							s.key == key && !s.bad,
					}
					pub := privKey(key).PubKey()
					f := lndwire.EmptyFeatureVector()
					switch k {
					case offerMsg:
						m.validate = (&lnwire.Offer{
							Description: "a", NodeID: pub,
							MinimumAmount: 1, Features: f,
							MerkleRoot: roots[r],
							Signature:  &sig,
						}).Validate
					case invreqMsg:
						m.validate = (&lnwire.InvoiceRequest{
							OfferID: [32]byte{1}, PayerKey: pub,
							Amount: 1, Features: f,
							MerkleRoot: roots[r],
							Signature:  &sig,
						}).Validate
					default:
						m.validate = (&lnwire.Invoice{
							Amount: 1, PaymentHash: [32]byte{1},
							CreatedAt: time.Unix(1, 0),
							NodeID:    pub, Description: "a",
							MerkleRoot: roots[r],
							Signature:  &sig, Features: f,
						}).Validate
					}
					out = append(out, m)
				}
			}
		}
	}
	return out
}

func (m *signedStruct) check(x *rt.Exec, after string) {
	x.Tick()
	x.Count("calls")
	switch err := m.validate(); {
	case err == nil && !m.valid:
		x.Failf("invalid %v accepted after %v", m.name, after)
	case err != nil && m.valid:
		x.Failf("valid %v refused after %v: %v", m.name, after, err)
	}
}

// c03Pairs checks that what was validated before does not matter.
func c03Pairs(add func(string, func(x *rt.Exec))) {
	sharded(add, "pairs", 8, func(x *rt.Exec, mine func() bool) {
		ms := c03Structs()
		for _, a := range ms {
			for _, b := range ms {
				// Something that they share is needed for one to be
				// taken for the other.
				if !mine() || a.sig != b.sig && (a.root != b.root ||
					a.key != b.key) {

					continue
				}
				x.Count("cases")
				x.Distinct("%v, then %v", a.name, b.name)
				a.check(x, "others")
				b.check(x, a.name)
				a.check(x, b.name)
			}
		}
	})
	// The same of encoded messages, which are changed after they have been
	// decoded.
	add("changed", func(x *rt.Exec) {
		for _, k := range allMsgs {
			for _, name := range []string{"signed", "full", "unknown"} {
				msg := k.samples()[name]
				for bit := 0; bit < 8; bit++ {
					for _, what := range []string{
						"root", "key", "signature",
					} {
						x.Count("cases")
						m, again, err := changedMsg(k, msg, what, bit)
						if err != nil {
							x.Failf("not decoded: %v: %v", k.name, err)
						}
						if err := again(); err != nil {
							x.Failf("valid %v refused: %v", k.name, err)
						}
						x.Tick()
						if m() == nil {
							x.Failf("%v accepted with another %v",
								k.name, what)
						}
						x.Distinct("%v %v other %v %v", k.name, name,
							what, bit)
					}
				}
			}
		}
	})
}

// changedMsg decodes a message and returns functions that validate it with one
// part changed, and as it is.
func changedMsg(k *msgKind, msg []byte, what string, bit int) (func() error,
	func() error, error) {

	flip := byte(1) << uint(bit)
	change := func(root *[32]byte, key **btcec.PublicKey,
		sig **[64]byte) (undo func()) {

		r, p, s := *root, *key, *sig
		switch what {
		case "root":
			root[bit*4] ^= flip
		case "key":
			*key = privKey(40 + bit).PubKey()
		case "signature":
			n := *s
			n[bit*8+1] ^= flip
			*sig = &n
		}
		return func() { *root, *key, *sig = r, p, s }
	}
	switch k {
	case offerMsg:
		o, err := lnwire.DecodeOffer(bytes.Clone(msg))
		if err != nil {
			return nil, nil, err
		}
		return func() error {
			defer change((*[32]byte)(&o.MerkleRoot), &o.NodeID,
				&o.Signature)()
			return o.Validate()
		}, o.Validate, nil

	case invreqMsg:
		o, err := lnwire.DecodeInvoiceRequest(bytes.Clone(msg))
		if err != nil {
			return nil, nil, err
		}
		return func() error {
			defer change((*[32]byte)(&o.MerkleRoot), &o.PayerKey,
				&o.Signature)()
			return o.Validate()
		}, o.Validate, nil

	default:
		o, err := lnwire.DecodeInvoice(bytes.Clone(msg))
		if err != nil {
			return nil, nil, err
		}
		return func() error {
			defer change((*[32]byte)(&o.MerkleRoot), &o.NodeID,
				&o.Signature)()
			return o.Validate()
		}, o.Validate, nil
	}
}
