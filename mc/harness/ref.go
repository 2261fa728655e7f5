package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
	"unicode"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
	"github.com/carlakc/boltnd/lnwire"
	lndwire "github.com/lightningnetwork/lnd/lnwire"
)

// This file holds the reference models of the bolt 12 formats. They are
// written from the specification, in terms of raw bytes, and share no code
// with the implementation.

// ---------------------------------------------------------------------------
// TLV streams
// ---------------------------------------------------------------------------

type refTLV struct {
	typ uint64
	val []byte
	raw []byte
}

// bigSize encodes n minimally.
func bigSize(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return []byte{0xfd, byte(n >> 8), byte(n)}
	case n <= 0xffffffff:
		b := make([]byte, 5)
		b[0] = 0xfe
		binary.BigEndian.PutUint32(b[1:], uint32(n))
		return b
	default:
		b := make([]byte, 9)
		b[0] = 0xff
		binary.BigEndian.PutUint64(b[1:], n)
		return b
	}
}

func readBigSize(b []byte) (uint64, []byte, bool) {
	if len(b) == 0 {
		return 0, nil, false
	}
	n := 0
	switch b[0] {
	case 0xfd:
		n = 2
	case 0xfe:
		n = 4
	case 0xff:
		n = 8
	default:
		return uint64(b[0]), b[1:], true
	}
	if len(b) < 1+n {
		return 0, nil, false
	}
	var v uint64
	for _, c := range b[1 : 1+n] {
		v = v<<8 | uint64(c)
	}
	if len(bigSize(v)) != 1+n {
		return 0, nil, false
	}
	return v, b[1+n:], true
}

// refStream splits a stream into its records; false if it is malformed.
func refStream(b []byte) ([]refTLV, bool) {
	var out []refTLV
	for len(b) > 0 {
		typ, rest, ok := readBigSize(b)
		if !ok {
			return nil, false
		}
		l, rest, ok := readBigSize(rest)
		if !ok || l > uint64(len(rest)) {
			return nil, false
		}
		if len(out) > 0 && typ <= out[len(out)-1].typ {
			return nil, false
		}
		val := rest[:l]
		rest = rest[l:]
		out = append(out, refTLV{
			typ: typ, val: val, raw: b[:len(b)-len(rest)],
		})
		b = rest
	}
	return out, true
}

// mkTLV encodes one record.
func mkTLV(typ uint64, val []byte) []byte {
	return cat(bigSize(typ), bigSize(uint64(len(val))), val)
}

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// mkStream encodes records in ascending order of type.
func mkStream(recs map[uint64][]byte) []byte {
	var types []uint64
	for t := range recs {
		types = append(types, t)
	}
	sort.Slice(types, func(i, j int) bool { return types[i] < types[j] })
	var out []byte
	for _, t := range types {
		out = append(out, mkTLV(t, recs[t])...)
	}
	return out
}

// tu64 is the truncated big endian encoding.
func tu64(v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return append([]byte{}, b[8-(bits.Len64(v)+7)/8:]...)
}

func u64(v uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	return b[:]
}

// ---------------------------------------------------------------------------
// Merkle tree and signatures
// ---------------------------------------------------------------------------

func refTagged(tag, msg []byte) []byte {
	t := sha256.Sum256(tag)
	h := sha256.New()
	h.Write(t[:])
	h.Write(t[:])
	h.Write(msg)
	return h.Sum(nil)
}

func refBranch(a, b []byte) []byte {
	if bytes.Compare(a, b) > 0 {
		a, b = b, a
	}
	return refTagged([]byte("LnBranch"), cat(a, b))
}

// refMerkle is the bolt 12 signature merkle root of a stream: each record is
// paired with a nonce leaf, and levels are combined left to right, an odd node
// out moving up unchanged.
func refMerkle(recs []refTLV) ([32]byte, bool) {
	var all []byte
	var leaves []refTLV
	for _, r := range recs {
		if r.typ >= 240 && r.typ <= 1000 {
			continue
		}
		leaves = append(leaves, r)
		all = append(all, r.raw...)
	}
	if len(leaves) == 0 {
		return [32]byte{}, false
	}
	var level [][]byte
	for _, r := range leaves {
		level = append(level, refBranch(
			refTagged([]byte("LnLeaf"), r.raw),
			refTagged(cat([]byte("LnAll"), all), r.raw),
		))
	}
	for len(level) > 1 {
		var next [][]byte
		for i := 0; i+1 < len(level); i += 2 {
			next = append(next, refBranch(level[i], level[i+1]))
		}
		if len(level)%2 == 1 {
			next = append(next, level[len(level)-1])
		}
		level = next
	}
	var out [32]byte
	copy(out[:], level[0])

	return out, true
}

// refDigest is the digest that is signed.
func refDigest(message string, root [32]byte) []byte {
	return refTagged([]byte("lightning"+message+"signature"), root[:])
}

func refSign(key *btcec.PrivateKey, message string, root [32]byte) [64]byte {
	sig, err := schnorr.Sign(key, refDigest(message, root))
	if err != nil {
		panic(err)
	}
	var out [64]byte
	copy(out[:], sig.Serialize())
	return out
}

func refVerify(xonly, digest, sig []byte) bool {
	key, err := schnorr.ParsePubKey(xonly)
	if err != nil {
		return false
	}
	s, err := schnorr.ParseSignature(sig)
	if err != nil {
		return false
	}
	return s.Verify(digest, key)
}

// ---------------------------------------------------------------------------
// bolt 12 messages
// ---------------------------------------------------------------------------

type fieldKind int

const (
	kHash fieldKind = iota
	kTU64
	kBytes
	kFeatures
	kXOnly
	kPoint
	kU64
	kSig
)

type msgKind struct {
	name   string
	tag    string
	fields map[uint64]fieldKind
	names  map[uint64]string
	// keyField holds the key that signs.
	keyField uint64
}

var (
	offerMsg = &msgKind{
		name: "offer", tag: "offer", keyField: 30,
		fields: map[uint64]fieldKind{
			2: kHash, 8: kTU64, 10: kBytes, 12: kFeatures, 14: kTU64,
			20: kBytes, 22: kTU64, 24: kTU64, 30: kXOnly, 240: kSig,
		},
		names: map[uint64]string{
			2: "chain", 8: "amount", 10: "description",
			12: "features", 14: "expiry", 20: "issuer",
			22: "quantity min", 24: "quantity max", 30: "node id",
			240: "signature",
		},
	}
	invreqMsg = &msgKind{
		name: "invoice_request", tag: "invoice_request", keyField: 38,
		fields: map[uint64]fieldKind{
			3: kHash, 4: kHash, 8: kTU64, 12: kFeatures, 32: kTU64,
			38: kXOnly, 39: kBytes, 50: kBytes, 240: kSig,
		},
		names: map[uint64]string{
			3: "chain", 4: "offer id", 8: "amount", 12: "features",
			32: "quantity", 38: "payer key", 39: "payer note",
			50: "payer info", 240: "signature",
		},
	}
	invoiceMsg = &msgKind{
		name: "invoice", tag: "invoice", keyField: 30,
		fields: map[uint64]fieldKind{
			3: kHash, 4: kHash, 8: kTU64, 10: kBytes, 12: kFeatures,
			30: kPoint, 32: kTU64, 38: kPoint, 39: kBytes, 40: kU64,
			42: kHash, 44: kU64, 46: kU64, 50: kBytes, 240: kSig,
		},
		names: map[uint64]string{
			3: "chain", 4: "offer id", 8: "amount",
			10: "description", 12: "features", 30: "node id",
			32: "quantity", 38: "payer key", 39: "payer note",
			40: "created at", 42: "payment hash",
			44: "relative expiry", 46: "cltv", 50: "payer info",
			240: "signature",
		},
	}
	allMsgs = []*msgKind{offerMsg, invreqMsg, invoiceMsg}
)

type verdict int

const (
	reject verdict = iota
	accept
	dontcare
)

func (v verdict) String() string {
	return [...]string{"reject", "accept", "dontcare"}[v]
}

// refMsg is a decoded message: for each known field present with a value that
// differs from the default, its canonical text.
type refMsg struct {
	verdict verdict
	fields  map[uint64]string
	root    [32]byte
	recs    map[uint64][]byte
}

// refFeatureBits reads this code base's feature encoding: a two byte length
// and a big endian bit vector. Whether bytes may follow it is left open.
func refFeatureBits(v []byte) (string, verdict) {
	if len(v) < 2 {
		return "", reject
	}
	l := int(v[0])<<8 | int(v[1])
	switch {
	case len(v) < 2+l:
		return "", reject
	case len(v) > 2+l:
		return "", dontcare
	}
	var set []string
	for i := 0; i < l; i++ {
		for b := 0; b < 8; b++ {
			if v[2+i]&(1<<uint(b)) != 0 {
				set = append(set, fmt.Sprintf("%05d", (l-1-i)*8+b))
			}
		}
	}
	sort.Strings(set)
	return strings.Join(set, ","), accept
}

func allZero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

// refDecode decodes a message of the kind.
func refDecode(k *msgKind, b []byte) *refMsg {
	m := &refMsg{
		fields: make(map[uint64]string), recs: make(map[uint64][]byte),
	}
	recs, ok := refStream(b)
	if !ok {
		return m
	}
	m.verdict = accept
	for _, r := range recs {
		m.recs[r.typ] = r.val
		if len(r.val) > 65535 {
			// Implementations may bound the size of a record.
			m.verdict = dontcare
			return m
		}
		kind, known := k.fields[r.typ]
		if !known {
			continue
		}
		def := false
		text := fmt.Sprintf("%x", r.val)
		switch kind {
		case kHash:
			if len(r.val) != 32 {
				m.verdict = reject
				return m
			}
			def = allZero(r.val)

		case kTU64:
			switch {
			case len(r.val) == 0:
				// The specification allows it, lnd's types do
				// not: either is fine.
				m.verdict = dontcare
				def = true

			case len(r.val) > 8 || r.val[0] == 0:
				m.verdict = reject
				return m
			}
			text = fmt.Sprintf("%016s", text)

		case kBytes:
			def = len(r.val) == 0

		case kFeatures:
			set, v := refFeatureBits(r.val)
			if v == reject {
				m.verdict = reject
				return m
			}
			if v == dontcare {
				m.verdict = dontcare
				delete(m.fields, r.typ)
				m.fields[r.typ] = "?"
				continue
			}
			text = set
			def = set == ""

		case kXOnly:
			if len(r.val) != 32 {
				m.verdict = reject
				return m
			}
			if _, err := schnorr.ParsePubKey(r.val); err != nil {
				m.verdict = reject
				return m
			}

		case kPoint:
			if len(r.val) != 33 {
				m.verdict = reject
				return m
			}
			if _, err := btcec.ParsePubKey(r.val); err != nil {
				m.verdict = reject
				return m
			}

		case kU64:
			if len(r.val) != 8 {
				m.verdict = reject
				return m
			}
			// Creation time zero is the unix epoch, not unset.
			def = allZero(r.val) && r.typ != 40

			// A relative expiry that overflows a duration can be
			// refused, and so can a creation time past the range
			// of signed seconds, but neither may be misread.
			switch n := binary.BigEndian.Uint64(r.val); {
			case r.typ == 44 && n > math.MaxInt64/1000000000,
				r.typ == 40 && n > math.MaxInt64:

				m.verdict = dontcare
			}

		case kSig:
			if len(r.val) != 64 {
				m.verdict = reject
				return m
			}
		}
		if !def {
			m.fields[r.typ] = text
		}
	}

	var have bool
	if m.root, have = refMerkle(recs); !have {
		m.verdict = reject
	}

	return m
}

// realMsg is what the implementation made of the same bytes.
type realMsg struct {
	err      error
	fields   map[uint64]string
	root     [32]byte
	show     func() map[uint64]string
	validate func() error
	encode   func() ([]byte, error)
}

func textFeatures(f *lndwire.FeatureVector) string {
	if f == nil {
		return ""
	}
	var set []string
	for bit := range f.Features() {
		set = append(set, fmt.Sprintf("%05d", bit))
	}
	sort.Strings(set)
	return strings.Join(set, ",")
}

type fieldSet map[uint64]string

func (f fieldSet) hash(t uint64, h [32]byte) {
	if h != [32]byte{} {
		f[t] = fmt.Sprintf("%x", h[:])
	}
}
func (f fieldSet) num(t, v uint64) {
	if v != 0 {
		f[t] = fmt.Sprintf("%016x", v)
	}
}
func (f fieldSet) str(t uint64, s string) {
	if s != "" {
		f[t] = fmt.Sprintf("%x", s)
	}
}
func (f fieldSet) feat(t uint64, v *lndwire.FeatureVector) {
	if s := textFeatures(v); s != "" {
		f[t] = s
	}
}
func (f fieldSet) sig(t uint64, s *[64]byte) {
	if s != nil {
		f[t] = fmt.Sprintf("%x", s[:])
	}
}

func offerFields(o *lnwire.Offer) fieldSet {
	f := fieldSet{}
	f.hash(2, o.Chainhash)
	f.num(8, uint64(o.MinimumAmount))
	f.str(10, o.Description)
	f.feat(12, o.Features)
	if !o.Expiry.IsZero() {
		f[14] = fmt.Sprintf("%016x", uint64(o.Expiry.Unix()))
	}
	f.str(20, o.Issuer)
	f.num(22, o.QuantityMin)
	f.num(24, o.QuantityMax)
	if o.NodeID != nil {
		f[30] = fmt.Sprintf("%x", schnorr.SerializePubKey(o.NodeID))
	}
	f.sig(240, o.Signature)

	return f
}

func invreqFields(i *lnwire.InvoiceRequest) fieldSet {
	f := fieldSet{}
	f.hash(3, i.Chainhash)
	f.hash(4, i.OfferID)
	f.num(8, uint64(i.Amount))
	f.feat(12, i.Features)
	f.num(32, i.Quantity)
	if i.PayerKey != nil {
		f[38] = fmt.Sprintf("%x", schnorr.SerializePubKey(i.PayerKey))
	}
	f.str(39, i.PayerNote)
	f.str(50, string(i.PayerInfo))
	f.sig(240, i.Signature)

	return f
}

func invoiceFields(i *lnwire.Invoice) fieldSet {
	f := fieldSet{}
	f.hash(3, i.Chainhash)
	f.hash(4, i.OfferID)
	f.num(8, uint64(i.Amount))
	f.str(10, i.Description)
	f.feat(12, i.Features)
	if i.NodeID != nil {
		f[30] = fmt.Sprintf("%x", i.NodeID.SerializeCompressed())
	}
	f.num(32, i.Quantity)
	if i.PayerKey != nil {
		f[38] = fmt.Sprintf("%x", i.PayerKey.SerializeCompressed())
	}
	f.str(39, i.PayerNote)
	if !i.CreatedAt.IsZero() {
		f[40] = fmt.Sprintf("%016x", uint64(i.CreatedAt.Unix()))
	}
	f.hash(42, i.PaymentHash)
	f.num(44, uint64(i.RelativeExpiry.Seconds()))
	f.num(46, i.CLTVExpiry)
	f.str(50, string(i.PayerInfo))
	f.sig(240, i.Signature)

	return f
}

// realDecode runs the implementation.
func realDecode(k *msgKind, b []byte) *realMsg {
	switch k {
	case offerMsg:
		o, err := lnwire.DecodeOffer(b)
		if err != nil {
			return &realMsg{err: err}
		}
		return &realMsg{
			fields: offerFields(o), root: o.MerkleRoot,
			show:     func() map[uint64]string { return offerFields(o) },
			validate: o.Validate,
			encode: func() ([]byte, error) {
				return lnwire.EncodeOffer(o)
			},
		}

	case invreqMsg:
		o, err := lnwire.DecodeInvoiceRequest(b)
		if err != nil {
			return &realMsg{err: err}
		}
		return &realMsg{
			fields: invreqFields(o), root: o.MerkleRoot,
			show:     func() map[uint64]string { return invreqFields(o) },
			validate: o.Validate,
			encode: func() ([]byte, error) {
				return lnwire.EncodeInvoiceRequest(o)
			},
		}

	default:
		o, err := lnwire.DecodeInvoice(b)
		if err != nil {
			return &realMsg{err: err}
		}
		return &realMsg{
			fields: invoiceFields(o), root: o.MerkleRoot,
			show:     func() map[uint64]string { return invoiceFields(o) },
			validate: o.Validate,
			encode: func() ([]byte, error) {
				return lnwire.EncodeInvoice(o)
			},
		}
	}
}

func diffFields(k *msgKind, want, got map[uint64]string) string {
	for t := range k.fields {
		if want[t] == "?" {
			continue
		}
		if want[t] != got[t] {
			return fmt.Sprintf("%v %v is %q, not %q", k.name,
				k.names[t], got[t], want[t])
		}
	}
	return ""
}

// refValid is whether the message passes the rules the code documents, given
// its reference decoding.
func refValid(k *msgKind, m *refMsg) bool {
	has := func(t uint64) bool { _, ok := m.fields[t]; return ok }
	sigOK := func() bool {
		sig, ok := m.recs[240]
		if !ok {
			return true
		}
		key := m.recs[k.keyField]
		if len(key) == 33 {
			key = key[1:]
		}
		return refVerify(key, refDigest(k.tag, m.root), sig)
	}
	switch k {
	case offerMsg:
		if !has(30) || !has(10) {
			return false
		}
		if has(22) && has(24) && m.fields[22] > m.fields[24] {
			return false
		}
		return sigOK()

	case invreqMsg:
		return has(4) && has(38) && has(240) && sigOK()

	default:
		return has(8) && has(42) && has(40) && has(30) && has(10) &&
			sigOK()
	}
}

// ---------------------------------------------------------------------------
// Offer strings
// ---------------------------------------------------------------------------

const refCharset = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// bech32Offer encodes bytes as an offer string.
func bech32Offer(hrp string, b []byte) string {
	var sb strings.Builder
	sb.WriteString(hrp)
	sb.WriteByte('1')
	acc, n := 0, 0
	for _, c := range b {
		acc = acc<<8 | int(c)
		n += 8
		for n >= 5 {
			n -= 5
			sb.WriteByte(refCharset[acc>>uint(n)&31])
			acc &= 1<<uint(n) - 1
		}
	}
	if n > 0 {
		sb.WriteByte(refCharset[acc<<uint(5-n)&31])
	}
	return sb.String()
}

// refOfferString returns the bytes an offer string stands for. dontcare is
// returned with the bytes for whitespace in places that the specification is
// silent about: it may be refused, but not mean anything else.
func refOfferString(s string) (verdict, []byte) {
	v := accept
	parts := strings.Split(s, "+")
	joined := ""
	specWS := func(c rune) bool {
		return c == ' ' || c == '\t' || c == '\n' || c == '\r'
	}
	for i, p := range parts {
		trimmed := strings.TrimFunc(p, unicode.IsSpace)
		spec := p
		if i > 0 {
			spec = strings.TrimLeftFunc(p, specWS)
		}
		if trimmed == "" {
			return reject, nil
		}
		if spec != trimmed {
			v = dontcare
		}
		for j := 0; j < len(trimmed); j++ {
			if trimmed[j] < 33 || trimmed[j] > 126 {
				return reject, nil
			}
		}
		joined += trimmed
	}

	hasUpper, hasLower := false, false
	for j := 0; j < len(joined); j++ {
		c := joined[j]
		hasUpper = hasUpper || (c >= 'A' && c <= 'Z')
		hasLower = hasLower || (c >= 'a' && c <= 'z')
	}
	if hasUpper && hasLower {
		return reject, nil
	}
	joined = strings.ToLower(joined)
	if !strings.HasPrefix(joined, "lno1") {
		return reject, nil
	}
	acc, n := 0, 0
	var out []byte
	for j := 4; j < len(joined); j++ {
		d := strings.IndexByte(refCharset, joined[j])
		if d < 0 {
			return reject, nil
		}
		acc = acc<<5 | d
		n += 5
		if n >= 8 {
			n -= 8
			out = append(out, byte(acc>>uint(n)))
			acc &= 1<<uint(n) - 1
		}
	}
	if n > 4 || acc != 0 {
		return reject, nil
	}

	return v, out
}
