package main

import (
	"fmt"
	"sort"

	rt "github.com/carlakc/boltnd/verifrt"
)

// fieldValues are well formed values for a field; the first is the one used
// in base messages.
func fieldValues(kind fieldKind, typ uint64) [][]byte {
	switch kind {
	case kHash:
		return [][]byte{
			fill(32, byte(typ)), make([]byte, 32),
			cat(make([]byte, 31), []byte{1}),
			cat([]byte{1}, make([]byte, 31)),
		}

	case kTU64:
		return [][]byte{
			tu64(1000 + typ), tu64(1), tu64(255), tu64(256),
			tu64(1<<32 - 1), tu64(1 << 32), tu64(1<<63 - 1),
			tu64(1 << 63), tu64(1<<64 - 1),
		}

	case kBytes:
		return [][]byte{
			[]byte("text"), {}, {0}, []byte("\x00\xff\xfe"),
			fill(252, 3), fill(253, 4), fill(300, 5),
			[]byte("\u65e5\u672c\u8a9e"),
		}

	case kFeatures:
		return [][]byte{
			{0, 1, 0x02}, {0, 0}, {0, 1, 0}, {0, 2, 0, 2},
			{0, 2, 0x80, 0x01}, {0, 3, 0, 0, 0},
		}

	case kXOnly:
		return [][]byte{xonly(1), xonly(2)}

	case kPoint:
		neg := append([]byte{}, point(1)...)
		neg[0] ^= 1
		return [][]byte{point(1), point(2), neg}

	case kU64:
		return [][]byte{
			u64(1600000000), u64(1), u64(0), u64(1 << 32),
			u64(9223372036), u64(1<<63 - 1),
		}

	case kSig:
		return [][]byte{fill(64, 9), make([]byte, 64)}
	}
	return nil
}

// types returns the known types of the kind in ascending order.
func (k *msgKind) types() []uint64 {
	var out []uint64
	for t := range k.fields {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// required are the fields without which a message is not valid.
func (k *msgKind) required() []uint64 {
	switch k {
	case offerMsg:
		return []uint64{10, 30}
	case invreqMsg:
		return []uint64{4, 38}
	default:
		return []uint64{8, 10, 30, 40, 42}
	}
}

// baseRecs are the records of a minimal message.
func (k *msgKind) baseRecs() map[uint64][]byte {
	out := make(map[uint64][]byte)
	for _, t := range k.required() {
		out[t] = fieldValues(k.fields[t], t)[0]
	}
	return out
}

func copyRecs(recs map[uint64][]byte) map[uint64][]byte {
	out := make(map[uint64][]byte)
	for t, v := range recs {
		out[t] = v
	}
	return out
}

// sign adds a signature by the n-th key.
func (k *msgKind) sign(recs map[uint64][]byte, key int) map[uint64][]byte {
	out := copyRecs(recs)
	delete(out, 240)
	r, ok := refStream(mkStream(out))
	if !ok {
		panic("sign: bad stream")
	}
	root, ok := refMerkle(r)
	if !ok {
		panic("sign: no records")
	}
	sig := refSign(privKey(key), k.tag, root)
	out[240] = sig[:]
	return out
}

// samples are well formed messages of the kind, by name.
func (k *msgKind) samples() map[string][]byte {
	full := make(map[uint64][]byte)
	for _, t := range k.types() {
		full[t] = fieldValues(k.fields[t], t)[0]
	}
	unknown := copyRecs(k.baseRecs())
	unknown[1] = []byte{1, 2, 3}
	unknown[33] = nil
	unknown[101] = fill(40, 1)
	unknown[1001] = []byte{7}

	return map[string][]byte{
		"base":    mkStream(k.baseRecs()),
		"signed":  mkStream(k.sign(k.baseRecs(), 1)),
		"full":    mkStream(k.sign(full, 1)),
		"unknown": mkStream(k.sign(unknown, 1)),
	}
}

// checkDecode compares the implementation's decoding of arbitrary bytes with
// the reference. What is compared beyond the verdict is up to the caller.
func checkDecode(x *rt.Exec, k *msgKind, b []byte, fields, root bool) (*refMsg,
	*realMsg) {

	want := refDecode(k, b)
	got := realDecode(k, append([]byte{}, b...))
	x.Count("cases")
	x.Count("calls")
	x.Tick()

	switch {
	case got.err != nil && want.verdict == accept:
		x.Failf("well formed %v refused: %x: %v", k.name, b, got.err)

	case got.err == nil && want.verdict == reject:
		x.Failf("malformed %v accepted: %x", k.name, b)
	}
	if got.err != nil {
		return want, got
	}
	x.Distinct("%v %x", k.name, b)
	if fields {
		if d := diffFields(k, want.fields, got.fields); d != "" {
			x.Failf("%v decoded wrongly: %x: %v", k.name, b, d)
		}
	}
	if root && got.root != want.root {
		x.Failf("%v merkle root wrong: %x: is %x, not %x", k.name, b,
			got.root[:], want.root[:])
	}
	return want, got
}

// forAllSubsets calls f with every subset of items of at most max elements.
func forAllSubsets(items []uint64, max int, f func([]uint64)) {
	var rec func(i int, cur []uint64)
	rec = func(i int, cur []uint64) {
		if i == len(items) {
			f(cur)
			return
		}
		rec(i+1, cur)
		if len(cur) < max {
			rec(i+1, append(cur[:len(cur):len(cur)], items[i]))
		}
	}
	rec(0, nil)
}

// shard runs f for every index of n that belongs to the part.
func sharded(add func(string, func(*rt.Exec)), name string, parts int,
	f func(x *rt.Exec, mine func() bool)) {

	for p := 0; p < parts; p++ {
		p := p
		add(fmt.Sprintf("%v/%d", name, p), func(x *rt.Exec) {
			n := 0
			f(x, func() bool {
				n++
				return n%parts == p
			})
		})
	}
}

// split adds one scenario per part.
func split(add func(string, func(*rt.Exec)), name string, parts int,
	f func(x *rt.Exec, part int)) {

	for p := 0; p < parts; p++ {
		p := p
		add(fmt.Sprintf("%v/%d", name, p), func(x *rt.Exec) { f(x, p) })
	}
}
