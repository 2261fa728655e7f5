package main

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/carlakc/boltnd/lnwire"
	rt "github.com/carlakc/boltnd/verifrt"
	"github.com/lightningnetwork/lnd/tlv"
)

func init() {
	register(&prop{
		id:   "C08",
		rule: "a value that is encoded and decoded, or a byte string that is decoded; non-trivial: distinct values that round trip or byte strings that decode",
		bounds: "values: every combination of reply path (none, 1-3, 255, 256 hops, data lengths around 0/255/65535), encrypted data and every subset of up to 3 (thorough: 5) of 14 payload types with 4 bodies, in every order of up to 4 (thorough: 6), and every combination of values that coincide with each other; " +
			"bytes: every truncation, single byte change (all 256 values), single byte insertion and deletion, record move/copy/drop and length change of the samples, all strings of up to 2 bytes, every sequence of 3 records of an alphabet",
		assumptions: []string{
			"records above 65535 bytes are outside the formats' domain (the tlv library's limit)",
			"unknown records below type 64 are ignored",
			"bytes after an onion message's blob are not constrained",
		},
		scenarios: c08Scenarios,
	})
}

// ---------------------------------------------------------------------------
// Reference
// ---------------------------------------------------------------------------

type rHop struct {
	key  []byte
	data []byte
}

type rPath struct {
	first, blinding []byte
	hops            []rHop
}

type rPayload struct {
	path  *rPath
	enc   []byte
	final []refTLV
}

func isPoint(b []byte) bool {
	if len(b) != 33 {
		return false
	}
	_, err := btcec.ParsePubKey(b)
	return err == nil
}

func refPath(b []byte) (*rPath, bool) {
	if len(b) < 67 || !isPoint(b[:33]) || !isPoint(b[33:66]) || b[66] == 0 {
		return nil, false
	}
	p := &rPath{first: b[:33], blinding: b[33:66]}
	n := int(b[66])
	b = b[67:]
	for i := 0; i < n; i++ {
		if len(b) < 35 || !isPoint(b[:33]) {
			return nil, false
		}
		l := int(b[33])<<8 | int(b[34])
		if len(b) < 35+l {
			return nil, false
		}
		p.hops = append(p.hops, rHop{key: b[:33], data: b[35 : 35+l]})
		b = b[35+l:]
	}
	return p, len(b) == 0
}

func (p *rPath) encode() []byte {
	b := cat(p.first, p.blinding, []byte{byte(len(p.hops))})
	for _, h := range p.hops {
		b = cat(b, h.key, []byte{byte(len(h.data) >> 8),
			byte(len(h.data))}, h.data)
	}
	return b
}

func (p *rPath) String() string {
	if p == nil {
		return "nil"
	}
	s := fmt.Sprintf("%x,%x", p.first, p.blinding)
	for _, h := range p.hops {
		s += fmt.Sprintf(";%x:%x", h.key, h.data)
	}
	return s
}

func (p *rPath) real() *lnwire.ReplyPath {
	if p == nil {
		return nil
	}
	r := &lnwire.ReplyPath{
		FirstNodeID: toPoint(p.first), BlindingPoint: toPoint(p.blinding),
	}
	for _, h := range p.hops {
		r.Hops = append(r.Hops, &lnwire.BlindedHop{
			BlindedNodeID: toPoint(h.key), EncryptedData: h.data,
		})
	}
	return r
}

func fromPath(r *lnwire.ReplyPath) *rPath {
	if r == nil {
		return nil
	}
	p := &rPath{
		first:    r.FirstNodeID.SerializeCompressed(),
		blinding: r.BlindingPoint.SerializeCompressed(),
	}
	for _, h := range r.Hops {
		p.hops = append(p.hops, rHop{
			key:  h.BlindedNodeID.SerializeCompressed(),
			data: h.EncryptedData,
		})
	}
	return p
}

// refPayload decodes an onion payload.
func refPayload(b []byte) (verdict, *rPayload) {
	recs, ok := refStream(b)
	if !ok {
		return reject, nil
	}
	out := &rPayload{}
	v := accept
	for _, r := range recs {
		if len(r.val) > 65535 {
			v = dontcare
		}
		switch {
		case r.typ == 2:
			p, ok := refPath(r.val)
			if !ok {
				return reject, nil
			}
			out.path = p
		case r.typ == 4:
			out.enc = r.val
		case r.typ >= 64:
			out.final = append(out.final, r)
		}
	}
	return v, out
}

func (p *rPayload) encode() []byte {
	recs := make(map[uint64][]byte)
	if p.path != nil {
		recs[2] = p.path.encode()
	}
	if len(p.enc) > 0 {
		recs[4] = p.enc
	}
	for _, f := range p.final {
		recs[f.typ] = f.val
	}
	return mkStream(recs)
}

func (p *rPayload) String() string {
	s := fmt.Sprintf("path=%v enc=%x", p.path, p.enc)
	for _, f := range p.final {
		s += fmt.Sprintf(" %d=%x", f.typ, f.val)
	}
	return s
}

func fromPayload(o *lnwire.OnionMessagePayload) *rPayload {
	p := &rPayload{path: fromPath(o.ReplyPath), enc: o.EncryptedData}
	for _, f := range o.FinalHopPayloads {
		p.final = append(p.final, refTLV{
			typ: uint64(f.TLVType), val: f.Value,
		})
	}
	return p
}

// guarded runs f and reports a panic as a violation.
func guarded(x *rt.Exec, what func() string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			x.Failf("panic: %v: %v", what(), r)
		}
	}()
	f()
}

func clipHex(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%x... (%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func count(x *rt.Exec) {
	x.Count("cases")
	x.Count("calls")
	x.Tick()
}

// checkPayloadBytes decodes a byte string as a payload.
func checkPayloadBytes(x *rt.Exec, b []byte) {
	count(x)
	guarded(x, func() string { return "payload " + clipHex(b) }, func() {
		in := append([]byte{}, b...)
		got, err := lnwire.DecodeOnionMessagePayload(in)
		v, want := refPayload(b)
		switch {
		case v == dontcare:
		case v == accept && err != nil:
			x.Failf("payload refused: %v: %v", clipHex(b), err)
		case v == reject && err == nil:
			x.Failf("malformed payload accepted: %v", clipHex(b))
		case v == accept:
			x.Distinct("payload %v", clipHex(b))
			g := fromPayload(got)
			if g.String() != want.String() {
				x.Failf("payload decoded wrongly: %v: got %v, "+
					"want %v", clipHex(b), g, want)
			}
		}
		if !bytes.Equal(in, b) {
			x.Failf("payload changed by decoding: %v", clipHex(b))
		}
	})
}

// checkPayloadValue encodes a payload given in some order.
func checkPayloadValue(x *rt.Exec, p *rPayload, bad bool) {
	count(x)
	guarded(x, func() string { return "value " + p.String() }, func() {
		in := &lnwire.OnionMessagePayload{
			ReplyPath: p.path.real(), EncryptedData: p.enc,
		}
		for _, f := range p.final {
			in.FinalHopPayloads = append(in.FinalHopPayloads,
				&lnwire.FinalHopPayload{
					TLVType: tlv.Type(f.typ), Value: f.val,
				})
		}
		b, err := lnwire.EncodeOnionMessagePayload(in)
		if fromPayload(in).String() != p.String() {
			x.Failf("payload changed by encoding: %v", p)
		}
		if bad {
			if err == nil {
				x.Failf("payload that does not fit is encoded: %v",
					p)
			}
			return
		}
		if err != nil {
			x.Failf("payload not encoded: %v: %v", p, err)
		}
		if want := p.encode(); !bytes.Equal(b, want) {
			x.Failf("payload encoded wrongly: %v: got %v want %v", p,
				clipHex(b), clipHex(want))
		}
		x.Distinct("payload %v", p)
		checkPayloadBytes(x, b)
	})
}

func hopsOf(lens ...int) []rHop {
	var hs []rHop
	for i, l := range lens {
		hs = append(hs, rHop{key: point(10 + i%4), data: fill(l, byte(i))})
	}
	return hs
}

func pathOf(lens ...int) *rPath {
	return &rPath{first: point(1), blinding: point(2), hops: hopsOf(lens...)}
}

func permute(n int, f func([]int)) {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(idx)
			return
		}
		for i := k; i < n; i++ {
			idx[k], idx[i] = idx[i], idx[k]
			rec(k + 1)
			idx[k], idx[i] = idx[i], idx[k]
		}
	}
	rec(0)
}

// mutations calls f with every small change of b.
func mutations(b []byte, f func([]byte)) {
	for i := 0; i <= len(b); i++ {
		f(b[:i:i])
	}
	for i := range b {
		c := append([]byte{}, b...)
		for v := 0; v < 256; v++ {
			c[i] = byte(v)
			f(c)
		}
		f(cat(b[:i], b[i+1:]))
	}
	for i := 0; i <= len(b); i++ {
		for _, v := range []byte{0, 1, 2, 4, 33, 64, 0x7f, 0xfd, 0xff} {
			f(cat(b[:i], []byte{v}, b[i:]))
		}
	}
}

func c08Scenarios(thorough bool) []*rt.Scenario {
	var scs []*rt.Scenario
	add := func(name string, f func(x *rt.Exec)) {
		scs = append(scs, &rt.Scenario{Name: name, Body: f})
	}

	paths := []*rPath{
		nil, pathOf(0), pathOf(1), pathOf(0, 0), pathOf(5, 0, 7),
		pathOf(255), pathOf(256), pathOf(3, 300),
	}
	encs := [][]byte{nil, fill(1, 9), fill(50, 9), fill(252, 1), fill(253, 1)}
	types := []uint64{
		64, 65, 66, 67, 68, 100, 252, 253, 254, 65535, 65536,
		1<<32 - 1, 1 << 32, 1<<64 - 1,
	}
	bodies := [][]byte{nil, {0}, fill(3, 4), fill(253, 5)}

	max := 3
	if thorough {
		max = 5
	}
	sharded(add, "payload/values", 8, func(x *rt.Exec, mine func() bool) {
		forAllSubsets(types, max, func(ts []uint64) {
			if !mine() {
				return
			}
			n := 1
			for range ts {
				n *= len(bodies)
			}
			step := 1
			if n > 64 && !thorough {
				step = 1
			}
			for c := 0; c < n; c += step {
				p := &rPayload{}
				k := c
				for _, t := range ts {
					p.final = append(p.final, refTLV{
						typ: t, val: bodies[k%len(bodies)],
					})
					k /= len(bodies)
				}
				p.path = paths[c%len(paths)]
				p.enc = encs[c/len(paths)%len(encs)]
				checkPayloadValue(x, p, false)
			}
			for _, path := range paths {
				for _, enc := range encs {
					p := &rPayload{path: path, enc: enc}
					for i, t := range ts {
						p.final = append(p.final, refTLV{
							typ: t,
							val: bodies[i%len(bodies)],
						})
					}
					checkPayloadValue(x, p, false)
				}
			}
		})
	})
	// Values that coincide with each other.
	sharded(add, "payload/coincident", 4, func(x *rt.Exec, mine func() bool) {
		keys := [][]byte{point(1), point(2)}
		datas := [][]byte{nil, {7}, fill(3, 5)}
		var vals []*rPath
		for _, first := range keys {
			for _, blinding := range keys {
				for n := 1; n <= 2; n++ {
					c := 1
					for i := 0; i < n; i++ {
						c *= len(keys) * len(datas)
					}
					for v := 0; v < c; v++ {
						p := &rPath{first: first, blinding: blinding}
						for i, w := 0, v; i < n; i++ {
							p.hops = append(p.hops, rHop{
								key:  keys[w%len(keys)],
								data: datas[w/len(keys)%len(datas)],
							})
							w /= len(keys) * len(datas)
						}
						vals = append(vals, p)
					}
				}
			}
		}
		vals = append(vals, nil)
		for _, path := range vals {
			if !mine() {
				continue
			}
			for _, enc := range append([][]byte{nil}, datas[1:]...) {
				checkPayloadValue(x, &rPayload{path: path, enc: enc}, false)
				for _, t := range []uint64{64, 66, 101} {
					for _, v := range datas {
						checkPayloadValue(x, &rPayload{
							path: path, enc: enc,
							final: []refTLV{{typ: t, val: v}},
						}, false)
						for _, v2 := range datas {
							checkPayloadValue(x, &rPayload{
								path: path, enc: enc,
								final: []refTLV{
									{typ: t, val: v},
									{typ: 300, val: v2},
								},
							}, false)
						}
					}
				}
			}
		}
		// Payloads that hold what is encoded elsewhere in them.
		for _, path := range vals[:12] {
			if !mine() {
				continue
			}
			for _, v := range [][]byte{
				path.encode(), path.first, path.hops[0].key,
				(&rPayload{path: path}).encode(),
			} {
				checkPayloadValue(x, &rPayload{path: path, enc: v,
					final: []refTLV{{typ: 64, val: v}, {typ: 67, val: v}},
				}, false)
			}
		}
	})
	add("payload/orders", func(x *rt.Exec) {
		n := 4
		if thorough {
			n = 6
		}
		ts := []uint64{64, 65, 66, 253, 1 << 32, 1<<64 - 1}
		for k := 2; k <= n; k++ {
			permute(k, func(idx []int) {
				p := &rPayload{path: pathOf(1), enc: fill(2, 2)}
				for _, i := range idx {
					p.final = append(p.final, refTLV{
						typ: ts[i], val: fill(i, 1),
					})
				}
				checkPayloadValue(x, p, false)
			})
		}
	})
	add("payload/refused", func(x *rt.Exec) {
		one := func(ts ...uint64) *rPayload {
			p := &rPayload{}
			for _, t := range ts {
				p.final = append(p.final, refTLV{typ: t,
					val: []byte{1}})
			}
			return p
		}
		for t := uint64(0); t < 130; t++ {
			checkPayloadValue(x, one(t), t < 64)
			checkPayloadValue(x, one(100, t), t < 64 || t == 100)
			checkPayloadValue(x, one(t, t), true)
			checkPayloadValue(x, one(200, t, 300), t < 64)
			err := lnwire.ValidateFinalPayload(tlv.Type(t))
			if (err == nil) != (t >= 64) {
				x.Failf("final payload type: %d: %v", t, err)
			}
		}
		for _, n := range []int{0, 1, 2, 3, 10, 254, 255, 256, 257, 511, 512, 513} {
			p := &rPayload{path: pathOf(make([]int, n)...)}
			checkPayloadValue(x, p, n == 0 || n > 255)
		}
		for _, l := range []int{65400, 65433, 65434} {
			// The largest record of 65535 bytes.
			p := &rPayload{path: pathOf(l)}
			if l+67+35 <= 65535 {
				checkPayloadValue(x, p, false)
			}
		}
		for _, l := range []int{65536, 65537, 65540, 131071, 131072} {
			checkPayloadValue(x, &rPayload{path: pathOf(l)}, true)
			checkPayloadValue(x, &rPayload{path: pathOf(2, l)}, true)
		}
		for _, l := range []int{252, 253, 65534, 65535} {
			checkPayloadValue(x, &rPayload{enc: fill(l, 1)}, false)
			checkPayloadValue(x, &rPayload{final: []refTLV{{
				typ: 64, val: fill(l, 1)}}}, false)
			checkPayloadValue(x, &rPayload{final: []refTLV{{
				typ: 67, val: fill(l, 1)}}}, false)
		}
	})

	samples := map[string][]byte{}
	for i, p := range []*rPayload{
		{},
		{path: pathOf(1)},
		{path: pathOf(2, 0), enc: fill(3, 1)},
		{enc: fill(4, 1), final: []refTLV{{typ: 64, val: nil}, {typ: 66}}},
		{path: pathOf(0), enc: fill(1, 3), final: []refTLV{
			{typ: 64, val: fill(2, 1)}, {typ: 65}, {typ: 66, val: fill(3, 1)},
			{typ: 253, val: fill(1, 1)}, {typ: 1 << 40},
		}},
	} {
		samples[fmt.Sprint(i)] = p.encode()
	}
	var names []string
	for n := range samples {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		b := samples[n]
		sharded(add, "payload/bytes/"+n, 2, func(x *rt.Exec, mine func() bool) {
			mutations(b, func(c []byte) {
				if mine() {
					checkPayloadBytes(x, c)
				}
			})
		})
		add("payload/lengths/"+n, func(x *rt.Exec) {
			recs, _ := refStream(b)
			for i := range recs {
				var pre, post []byte
				for _, r := range recs[:i] {
					pre = append(pre, r.raw...)
				}
				for _, r := range recs[i+1:] {
					post = append(post, r.raw...)
				}
				r := recs[i]
				for _, t := range varintForms(r.typ) {
					for _, l := range varintForms(uint64(len(r.val))) {
						checkPayloadBytes(x, cat(pre, t, l, r.val, post))
					}
				}
				for l := uint64(0); l < 700; l++ {
					checkPayloadBytes(x, cat(pre, bigSize(r.typ),
						bigSize(l), r.val, post))
				}
				for _, l := range []uint64{
					0xffff, 0x10000, 1 << 31, 1 << 32, 1 << 62,
					1 << 63, 1<<64 - 1,
				} {
					checkPayloadBytes(x, cat(pre, bigSize(r.typ),
						bigSize(l), r.val, post))
				}
				// Copies and moves.
				checkPayloadBytes(x, cat(pre, post))
				checkPayloadBytes(x, cat(pre, r.raw, r.raw, post))
				checkPayloadBytes(x, cat(r.raw, pre, post))
				checkPayloadBytes(x, cat(pre, post, r.raw))
			}
		})
	}

	sharded(add, "payload/alphabet", 4, func(x *rt.Exec, mine func() bool) {
		var alpha [][]byte
		p := pathOf(1).encode()
		for _, t := range []uint64{
			0, 1, 2, 3, 4, 5, 62, 63, 64, 65, 66, 67, 68, 253, 1 << 33,
		} {
			alpha = append(alpha, mkTLV(t, nil), mkTLV(t, []byte{7}))
			if t == 2 {
				alpha = append(alpha, mkTLV(t, p),
					mkTLV(t, cat(p, []byte{0})),
					mkTLV(t, p[:len(p)-1]),
					mkTLV(t, pathOf(0, 0).encode()))
			}
		}
		alpha = append(alpha, nil)
		for _, a := range alpha {
			for _, b := range alpha {
				if !mine() {
					continue
				}
				for _, c := range alpha {
					checkPayloadBytes(x, cat(a, b, c))
					if thorough {
						for _, d := range alpha {
							checkPayloadBytes(x, cat(a, b, c, d))
						}
					}
				}
			}
		}
	})
	add("payload/short", func(x *rt.Exec) {
		checkPayloadBytes(x, nil)
		for i := 0; i < 256; i++ {
			checkPayloadBytes(x, []byte{byte(i)})
			for j := 0; j < 256; j++ {
				checkPayloadBytes(x, []byte{byte(i), byte(j)})
				checkPayloadBytes(x, []byte{byte(i), 1, byte(j)})
			}
		}
	})
	add("payload/path", func(x *rt.Exec) {
		// Inner fields of the reply path against the record's length.
		for hops := 0; hops < 4; hops++ {
			for count := 0; count < 256; count++ {
				for _, cut := range []int{0, 1, 2, 35, 40} {
					b := pathOf(make([]int, hops)...).encode()
					b[66] = byte(count)
					if cut <= len(b) {
						b = b[:len(b)-cut]
					}
					checkPayloadBytes(x, mkTLV(2, b))
					checkPayloadBytes(x, cat(mkTLV(2, b),
						mkTLV(64, fill(80, 1))))
					checkPayloadBytes(x, cat(mkTLV(2, b),
						mkTLV(4, cat(point(3), []byte{0, 1, 2}))))
				}
			}
		}
		for l := 0; l < 90; l++ {
			for actual := 0; actual < 60; actual += 7 {
				b := pathOf(actual).encode()
				b[67+33], b[67+34] = byte(l>>8), byte(l)
				checkPayloadBytes(x, mkTLV(2, b))
				checkPayloadBytes(x, cat(mkTLV(2, b), mkTLV(4, fill(60, 1))))
			}
		}
		for i := 0; i < 256; i++ {
			for _, at := range []int{0, 33, 67} {
				b := pathOf(1, 1).encode()
				b[at] = byte(i)
				checkPayloadBytes(x, mkTLV(2, b))
				b = pathOf(1, 1).encode()
				b[at+32] = byte(i)
				checkPayloadBytes(x, mkTLV(2, b))
			}
		}
	})

	c08Message(add)
	c08Blinded(add)
	return scs
}

// ---------------------------------------------------------------------------
// Onion messages
// ---------------------------------------------------------------------------

func checkOnionBytes(x *rt.Exec, b []byte) {
	count(x)
	guarded(x, func() string { return "message " + clipHex(b) }, func() {
		m := &lnwire.OnionMessage{}
		err := m.Decode(bytes.NewReader(b), 0)
		ok := len(b) >= 35 && isPoint(b[:33])
		n := 0
		if ok {
			n = int(b[33])<<8 | int(b[34])
			ok = len(b) >= 35+n
		}
		if !ok {
			if err == nil {
				x.Failf("malformed message accepted: %v", clipHex(b))
			}
			return
		}
		if err != nil {
			if len(b) > 35+n {
				return
			}
			x.Failf("message refused: %v: %v", clipHex(b), err)
		}
		x.Distinct("message %v", clipHex(b))
		if !bytes.Equal(m.BlindingPoint.SerializeCompressed(), b[:33]) ||
			!bytes.Equal(m.OnionBlob, b[35:35+n]) {

			x.Failf("message decoded wrongly: %v", clipHex(b))
		}
	})
}

func c08Message(add func(string, func(x *rt.Exec))) {
	add("message/values", func(x *rt.Exec) {
		for key := 1; key < 6; key++ {
			for _, l := range []int{
				0, 1, 2, 31, 255, 256, 257, 1366, 32834, 65534,
				65535, 65536, 65537, 131071, 131072,
			} {
				blob := fill(l, byte(key))
				count(x)
				m := lnwire.NewOnionMessage(pubKey(key), blob)
				var w bytes.Buffer
				err := m.Encode(&w, 0)
				if l > 65535 {
					if err == nil {
						x.Failf("message that does not fit "+
							"is encoded: %d", l)
					}
					continue
				}
				if err != nil {
					x.Failf("message not encoded: %d: %v", l, err)
				}
				want := cat(point(key), []byte{byte(l >> 8),
					byte(l)}, blob)
				if !bytes.Equal(w.Bytes(), want) {
					x.Failf("message encoded wrongly: %d", l)
				}
				checkOnionBytes(x, w.Bytes())
				for i := 0; i < 60; i++ {
					if len(want) >= i {
						checkOnionBytes(x, want[:len(want)-i])
					}
				}
			}
		}
		if lnwire.OnionMessageType != 513 ||
			(&lnwire.OnionMessage{}).MsgType() != 513 {

			x.Failf("message type: %d", lnwire.OnionMessageType)
		}
	})
	add("message/bytes", func(x *rt.Exec) {
		mutations(cat(point(1), []byte{0, 7}, fill(7, 1)),
			func(b []byte) { checkOnionBytes(x, b) })
	})
	add("message/lengths", func(x *rt.Exec) {
		for l := 0; l <= 65535; l++ {
			b := cat(point(1), []byte{byte(l >> 8), byte(l)}, fill(9, 1))
			checkOnionBytes(x, b)
		}
	})
}

// ---------------------------------------------------------------------------
// Blinded route data
// ---------------------------------------------------------------------------

func checkBlindedBytes(x *rt.Exec, b []byte) {
	count(x)
	guarded(x, func() string { return "route data " + clipHex(b) }, func() {
		got, err := lnwire.DecodeBlindedRouteData(append([]byte{}, b...))
		recs, ok := refStream(b)
		want := map[uint64]string{}
		for _, r := range recs {
			if len(r.val) > 65535 {
				return
			}
			if r.typ == 4 || r.typ == 8 {
				ok = ok && isPoint(r.val)
				want[r.typ] = fmt.Sprintf("%x", r.val)
			}
		}
		switch {
		case ok && err != nil:
			x.Failf("route data refused: %v: %v", clipHex(b), err)
		case !ok && err == nil:
			x.Failf("malformed route data accepted: %v", clipHex(b))
		case ok:
			x.Distinct("route data %v", clipHex(b))
			str := func(k *btcec.PublicKey) string {
				if k == nil {
					return ""
				}
				return fmt.Sprintf("%x", k.SerializeCompressed())
			}
			if str(got.NextNodeID) != want[4] ||
				str(got.NextBlindingOverride) != want[8] {

				x.Failf("route data decoded wrongly: %v", clipHex(b))
			}
		}
	})
}

func c08Blinded(add func(string, func(x *rt.Exec))) {
	add("blinded/values", func(x *rt.Exec) {
		keys := []*btcec.PublicKey{nil, pubKey(1), pubKey(2), pubKey(3)}
		for i, next := range keys {
			for j, over := range keys {
				count(x)
				b, err := lnwire.EncodeBlindedRouteData(
					&lnwire.BlindedRouteData{
						NextNodeID:           next,
						NextBlindingOverride: over,
					},
				)
				if err != nil {
					x.Failf("route data not encoded: %v", err)
				}
				var want []byte
				if next != nil {
					want = mkTLV(4, point(i))
				}
				if over != nil {
					want = cat(want, mkTLV(8, point(j)))
				}
				if !bytes.Equal(b, want) {
					x.Failf("route data encoded wrongly: %x", b)
				}
				checkBlindedBytes(x, b)
				mutations(b, func(c []byte) {
					checkBlindedBytes(x, c)
				})
			}
		}
	})
	add("blinded/alphabet", func(x *rt.Exec) {
		var alpha [][]byte
		for t := uint64(0); t < 12; t++ {
			alpha = append(alpha, mkTLV(t, nil), mkTLV(t, []byte{1}),
				mkTLV(t, point(1)), mkTLV(t, xonly(1)))
		}
		alpha = append(alpha, mkTLV(4, point(2)), mkTLV(8, point(3)),
			mkTLV(1<<40, nil), nil)
		for _, a := range alpha {
			for _, b := range alpha {
				for _, c := range alpha {
					checkBlindedBytes(x, cat(a, b, c))
				}
			}
		}
		for i := 0; i < 256; i++ {
			for j := 0; j < 256; j++ {
				checkBlindedBytes(x, []byte{byte(i), byte(j)})
			}
		}
	})
}
