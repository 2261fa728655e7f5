package main

import (
	"fmt"

	rt "github.com/carlakc/boltnd/verifrt"
)

func init() {
	register(&prop{
		id:        "C04",
		rule:      "a byte string given to a decoder; non-trivial: one that decodes",
		bounds:    "every byte string up to length 2 and every string over 12 structural bytes up to length 5 (thorough: 6) as each message; every single byte substitution, deletion, insertion, truncation and record-level edit of the sample messages; every length 0..70 of every field over 5 content classes; every non minimal varint form; every swept value of every field (numbers up to 300 and around all powers of two and ten, texts of every length up to 300 and up to 65535, every byte, every feature bit up to 519, every bit of a hash) alone, with the required fields and with all fields; every ordered pair and triple of record types",
		scenarios: c04Scenarios,
		assumptions: []string{
			"a record longer than 65535 bytes, a truncated integer of length zero and a feature vector followed by further bytes may be either refused or accepted",
		},
	})
}

func c04Scenarios(thorough bool) []*rt.Scenario {
	var scs []*rt.Scenario
	add := func(name string, f func(x *rt.Exec)) {
		scs = append(scs, &rt.Scenario{Name: name, Body: f})
	}
	check := func(x *rt.Exec, k *msgKind, b []byte) {
		checkDecode(x, k, b, true, false)
	}

	alpha := []byte{0, 1, 2, 3, 4, 8, 10, 30, 240, 0xfc, 0xfd, 0xff}
	depth := 5
	if thorough {
		depth = 6
	}

	for _, k := range allMsgs {
		k := k

		for i := range alpha {
			first := alpha[i]
			add(fmt.Sprintf("strings/%v/%d", k.name, first), func(
				x *rt.Exec) {

				var rec func(b []byte)
				rec = func(b []byte) {
					check(x, k, b)
					if len(b) == depth {
						return
					}
					for _, c := range alpha {
						rec(append(b[:len(b):len(b)], c))
					}
				}
				rec([]byte{first})
			})
		}

		add("tiny/"+k.name, func(x *rt.Exec) {
			check(x, k, nil)
			for a := 0; a < 256; a++ {
				check(x, k, []byte{byte(a)})
				for b := 0; b < 256; b++ {
					check(x, k, []byte{byte(a), byte(b)})
				}
			}
		})

		sweep(add, k, 2, func(x *rt.Exec, recs map[uint64][]byte) {
			check(x, k, mkStream(recs))
		})

		for name, msg := range k.samples() {
			name, msg := name, msg

			sharded(add, "bytes/"+k.name+"/"+name, 4, func(x *rt.Exec,
				mine func() bool) {

				for i := range msg {
					if !mine() {
						continue
					}
					for c := 0; c < 256; c++ {
						b := append([]byte{}, msg...)
						b[i] = byte(c)
						check(x, k, b)
					}
				}
			})

			add("edits/"+k.name+"/"+name, func(x *rt.Exec) {
				for i := 0; i <= len(msg); i++ {
					check(x, k, msg[:i])
					check(x, k, msg[i:])
					for _, c := range alpha {
						check(x, k, cat(msg[:i], []byte{c},
							msg[i:]))
					}
					for n := 1; n < 4 && i+n <= len(msg); n++ {
						check(x, k, cat(msg[:i], msg[i+n:]))
						check(x, k, cat(msg[:i+n], msg[i:]))
					}
				}
			})

			add("varints/"+k.name+"/"+name, func(x *rt.Exec) {
				recs, _ := refStream(msg)
				for i := range recs {
					var pre, post []byte
					for _, r := range recs[:i] {
						pre = append(pre, r.raw...)
					}
					for _, r := range recs[i+1:] {
						post = append(post, r.raw...)
					}
					r := recs[i]
					for _, t := range varintForms(r.typ) {
						for _, l := range varintForms(
							uint64(len(r.val)),
						) {
							check(x, k, cat(pre, t, l,
								r.val, post))
						}
					}
					// Lengths that do not match.
					for _, l := range []uint64{
						0, 1, uint64(len(r.val)) - 1,
						uint64(len(r.val)) + 1, 0xfc,
						0xfd, 0xffff, 0x10000,
						1 << 31, 1 << 32, 1 << 63,
						1<<64 - 1,
					} {
						b := cat(pre, bigSize(r.typ),
							bigSize(l), r.val)
						check(x, k, b)
						check(x, k, cat(b, post))
					}
				}
			})

			add("records/"+k.name+"/"+name, func(x *rt.Exec) {
				// Every record moved, repeated or dropped.
				recs, _ := refStream(msg)
				join := func(rs []refTLV) []byte {
					var b []byte
					for _, r := range rs {
						b = append(b, r.raw...)
					}
					return b
				}
				for i := range recs {
					without := append(append([]refTLV{},
						recs[:i]...), recs[i+1:]...)
					check(x, k, join(without))
					for j := 0; j <= len(recs); j++ {
						dup := append(append(append([]refTLV{},
							recs[:j]...), recs[i]),
							recs[j:]...)
						check(x, k, join(dup))
						if j < len(recs) {
							mv := append(append(append(
								[]refTLV{},
								without[:j]...),
								recs[i]),
								without[j:]...)
							check(x, k, join(mv))
						}
					}
				}
			})
		}

		add("lengths/"+k.name, func(x *rt.Exec) {
			for _, t := range k.types() {
				for l := 0; l <= 70; l++ {
					zero := make([]byte, l)
					ones := make([]byte, l)
					for i := range ones {
						ones[i] = 0xff
					}
					vals := [][]byte{zero, ones, fill(l, 1)}
					if l > 0 {
						v := make([]byte, l)
						v[l-1] = 1
						vals = append(vals, v)
						v = make([]byte, l)
						v[0] = 1
						vals = append(vals, v)
					}
					if l >= 33 {
						vals = append(vals, cat(point(1),
							make([]byte, l-33)))
					}
					if l >= 32 {
						vals = append(vals, cat(xonly(1),
							make([]byte, l-32)))
					}
					for _, v := range vals {
						check(x, k, mkTLV(t, v))
						recs := k.baseRecs()
						recs[t] = v
						check(x, k, mkStream(recs))
					}
				}
				for _, l := range []int{
					252, 253, 254, 255, 256, 65534, 65535,
					65536, 70000,
				} {
					check(x, k, mkTLV(t, make([]byte, l)))
				}
			}
		})

		add("values/"+k.name, func(x *rt.Exec) {
			for _, t := range k.types() {
				for _, v := range fieldValues(k.fields[t], t) {
					check(x, k, mkTLV(t, v))
					for _, t2 := range k.types() {
						if t2 == t {
							continue
						}
						for _, v2 := range fieldValues(
							k.fields[t2], t2,
						) {
							check(x, k, mkStream(map[uint64][]byte{
								t: v, t2: v2,
							}))
						}
					}
				}
			}
			// Truncated integers of every length with every first
			// byte.
			for _, t := range k.types() {
				if k.fields[t] != kTU64 {
					continue
				}
				for l := 1; l <= 9; l++ {
					for c := 0; c < 256; c++ {
						v := fill(l, 3)
						v[0] = byte(c)
						check(x, k, mkTLV(t, v))
					}
				}
			}
		})

		max := 4
		if thorough {
			max = 8
		}
		sharded(add, "fields/"+k.name, 2, func(x *rt.Exec,
			mine func() bool) {

			forAllSubsets(k.types(), max, func(ts []uint64) {
				if !mine() {
					return
				}
				recs := make(map[uint64][]byte)
				for _, t := range ts {
					recs[t] = fieldValues(k.fields[t], t)[0]
				}
				check(x, k, mkStream(recs))
			})
		})

		// Points on and off the curve.
		add("points/"+k.name, func(x *rt.Exec) {
			for _, t := range k.types() {
				kind := k.fields[t]
				if kind != kXOnly && kind != kPoint {
					continue
				}
				for i := 0; i < 256; i++ {
					v := append([]byte{}, xonly(1)...)
					v[31] = byte(i)
					if kind == kPoint {
						v = cat([]byte{2}, v)
					}
					check(x, k, mkTLV(t, v))
					if kind == kPoint {
						v = append([]byte{}, point(1)...)
						v[0] = byte(i)
						check(x, k, mkTLV(t, v))
					}
				}
			}
		})

		add("types/"+k.name, func(x *rt.Exec) {
			// Every type up to 1100 among the required ones, and
			// types around every varint boundary.
			for t := uint64(0); t < 1100; t++ {
				recs := k.baseRecs()
				if _, known := k.fields[t]; !known {
					recs[t] = []byte{1}
				}
				check(x, k, mkStream(recs))
			}
			for _, t := range []uint64{
				0xffff, 0x10000, 0xffffffff, 0x100000000,
				1<<63 - 1, 1 << 63, 1<<64 - 2, 1<<64 - 1,
			} {
				recs := k.baseRecs()
				recs[t] = []byte{1}
				check(x, k, mkStream(recs))
				check(x, k, cat(mkStream(recs), mkTLV(0, nil)))
				check(x, k, cat(mkStream(recs), mkTLV(t, nil)))
			}
			forAlike(k, func(t, u uint64) {
				recs := k.baseRecs()
				recs[u] = []byte{1}
				check(x, k, mkStream(recs))
				if kind, known := k.fields[t]; known {
					recs[u] = fieldValues(kind, t)[0]
					check(x, k, mkStream(recs))
				}
			})
		})
	}

	return scs
}

// varintForms are encodings of n, of which only the first is minimal.
func varintForms(n uint64) [][]byte {
	out := [][]byte{bigSize(n)}
	all := [][]byte{
		{0xfd, byte(n >> 8), byte(n)},
		cat([]byte{0xfe}, u64(n)[4:]),
		cat([]byte{0xff}, u64(n)),
	}
	for _, f := range all {
		if len(f) > len(out[0]) {
			out = append(out, f)
		}
	}
	return out
}
