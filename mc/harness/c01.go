package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/carlakc/boltnd/lnwire"
	"github.com/carlakc/boltnd/offers"
	rt "github.com/carlakc/boltnd/verifrt"
)

// sampleOffers are well formed offers as raw bytes.
func sampleOffers() map[string][]byte {
	unsigned := map[uint64][]byte{10: []byte("d"), 30: xonly(1)}
	signed := func(recs map[uint64][]byte) []byte {
		r, _ := refStream(mkStream(recs))
		root, _ := refMerkle(r)
		sig := refSign(privKey(1), "offer", root)
		recs[240] = sig[:]
		return mkStream(recs)
	}
	return map[string][]byte{
		"unsigned": mkStream(unsigned),
		"signed": signed(map[uint64][]byte{
			8: tu64(1000), 10: []byte("coffee"), 30: xonly(1),
		}),
		"unknown": signed(map[uint64][]byte{
			10: []byte("ab"), 11: {1, 2, 3}, 30: xonly(1),
			31: {9}, 1001: {7, 7},
		}),
	}
}

// bolt12Strings are the strings of the specification's format test vectors
// that are valid.
var bolt12Strings = []string{
	"lno1qcp4256ypqpq86q2pucnq42ngssx2an9wfujqerp0y2pqun4wd68jtn00fkxzcnn9ehhyec6qgqsz83qfwdpl28qqmc78ymlvhmxcsywdk5wrjnj36jryg488qwlrnzyjczlqsp9nyu4phcg6dqhlhzgxagfu7zh3d9re0sqp9ts2yfugvnnm9gxkcnnnkdpa084a6t520h5zhkxsdnghvpukvd43lastpwuh73k29qsy",
	"l+no1qcp4256ypqpq86q2pucnq42ngssx2an9wfujqerp0y2pqun4wd68jtn00fkxzcnn9ehhyec6qgqsz83qfwdpl28qqmc78ymlvhmxcsywdk5wrjnj36jryg488qwlrnzyjczlqsp9nyu4phcg6dqhlhzgxagfu7zh3d9re0sqp9ts2yfugvnnm9gxkcnnnkdpa084a6t520h5zhkxsdnghvpukvd43lastpwuh73k29qsy",
	"lno1qcp4256ypqpq+86q2pucnq42ngssx2an9wfujqerp0y2pqun4wd68jtn0+0fkxzcnn9ehhyec6qgqsz83qfwdpl28qqmc78ymlvhmxcsywdk5wrjnj36jryg488qwlrnzyjczlqsp9nyu4phcg6dqhlhzgxagfu7zh3d9re0+sqp9ts2yfugvnnm9gxkcnnnkdpa084a6t520h5zhkxsdnghvpukvd43lastpwuh73k29qs+y",
	"lno1qcp4256ypqpq+ 86q2pucnq42ngssx2an9wfujqerp0y2pqun4wd68jtn0+  0fkxzcnn9ehhyec6qgqsz83qfwdpl28qqmc78ymlvhmxcsywdk5wrjnj36jryg488qwlrnzyjczlqsp9nyu4phcg6dqhlhzgxagfu7zh3d9re0+\nsqp9ts2yfugvnnm9gxkcnnnkdpa084a6t520h5zhkxsdnghvpukvd43l+\r\nastpwuh73k29qs+\r  y",
}

// checkOfferString compares the implementation's answer for one string with
// the reference.
func checkOfferString(x *rt.Exec, s string) {
	want, raw := refOfferString(s)
	var ref *refMsg
	if want != reject {
		ref = refDecode(offerMsg, raw)
		switch {
		case ref.verdict == reject:
			want = reject
		case !refValid(offerMsg, ref):
			want = reject
		case ref.verdict == dontcare:
			want = dontcare
		}
	}

	got, err := offers.DecodeOfferStr(s)
	x.Count("cases")
	x.Count("calls")
	x.Tick()
	if got == nil && err == nil {
		x.Failf("nil offer without error: %q", s)
	}

	switch {
	case err != nil && want == accept:
		x.Failf("valid offer string refused: %q: %v", s, err)

	case err == nil && want == reject:
		x.Failf("invalid offer string accepted: %q", s)

	case err == nil:
		x.Distinct("%q", s)
		if d := diffFields(offerMsg, ref.fields,
			offerFields(got)); d != "" {

			x.Failf("offer string decoded wrongly: %q: %v", s, d)
		}
		if got.MerkleRoot != lnHash(ref.root) {
			x.Failf("offer string root wrong: %q", s)
		}
	}
}

func init() {
	register(&prop{
		id:        "C01",
		rule:      "an offer string; non-trivial: one that is accepted",
		bounds:    "every 1 and 2 edit variant of sample offers (joins, whitespace, case, all 256 byte substitutions, truncations, extensions), every string of length <=8 (thorough: 9) over {l,n,o,1,q,+,space}, every whitespace/+ sequence up to length 4 (thorough 6) inserted at each boundary class, descriptions of every length up to 700 (3000) and up to 65535, every byte and 11 other characters after a +, every Unicode code point in a string of either case, runs of up to 65536 whitespace characters",
		scenarios: c01Scenarios,
		assumptions: []string{
			"whitespace before a + and around the whole string is left open by the specification: it may be refused but must not change the meaning",
		},
	})
}

func c01Scenarios(thorough bool) []*rt.Scenario {
	var scs []*rt.Scenario
	add := func(name string, f func(x *rt.Exec)) {
		scs = append(scs, &rt.Scenario{Name: name, Body: f})
	}

	add("vectors", func(x *rt.Exec) {
		for _, s := range bolt12Strings {
			checkOfferString(x, s)
			checkOfferString(x, strings.ToUpper(s))
		}
	})

	for name, raw := range sampleOffers() {
		raw := raw
		s := bech32Offer("lno", raw)

		add("joins1/"+name, func(x *rt.Exec) {
			checkOfferString(x, s)
			checkOfferString(x, strings.ToUpper(s))
			seps := []string{
				"+", "+ ", "+\n", "+\r\n  ", "+\t", "++", "+ +",
				" ", "\n", " +", "-", "\x00", "+\x00", "+\u00a0",
				"\u0085", "+\v", "+  \t\r\n",
			}
			for i := 0; i <= len(s); i++ {
				for _, sep := range seps {
					v := s[:i] + sep + s[i:]
					checkOfferString(x, v)
					checkOfferString(x, strings.ToUpper(v))
				}
			}
		})

		for part := 0; part < 8; part++ {
			part := part
			add(fmt.Sprintf("joins2/%v/%d", name, part), func(x *rt.Exec) {
				seps := []string{"+", "+ ", "+\r\n"}
				for i := part; i <= len(s); i += 8 {
					for j := i; j <= len(s); j++ {
						for k, a := range seps {
							// Every pair of separators in
							// the thorough tier, one per
							// position otherwise.
							if !thorough && k != (i+j)%3 {
								continue
							}
							b := seps[(i+2*j)%3]
							checkOfferString(x, s[:i]+a+
								s[i:j]+b+s[j:])
						}
					}
				}
			})
		}

		add("everyjoin/"+name, func(x *rt.Exec) {
			// A join after every n-th character.
			for n := 1; n < 20; n++ {
				for _, sep := range []string{"+", "+ ", "+\n"} {
					var sb strings.Builder
					for i := 0; i < len(s); i++ {
						if i > 0 && i%n == 0 {
							sb.WriteString(sep)
						}
						sb.WriteByte(s[i])
					}
					checkOfferString(x, sb.String())
				}
			}
		})

		add("bytes/"+name, func(x *rt.Exec) {
			for i := 0; i < len(s); i++ {
				for c := 0; c < 256; c++ {
					b := []byte(s)
					b[i] = byte(c)
					checkOfferString(x, string(b))
				}
			}
		})

		add("case/"+name, func(x *rt.Exec) {
			up := strings.ToUpper(s)
			for i := 0; i <= len(s); i++ {
				checkOfferString(x, up[:i]+s[i:])
				checkOfferString(x, s[:i]+up[i:])
				checkOfferString(x, up[:i]+"+"+s[i:])
				if i < len(s) {
					checkOfferString(x, s[:i]+up[i:i+1]+s[i+1:])
					checkOfferString(x, up[:i]+s[i:i+1]+up[i+1:])
				}
			}
		})

		add("length/"+name, func(x *rt.Exec) {
			for i := 0; i <= len(s); i++ {
				checkOfferString(x, s[:i])
				checkOfferString(x, s[i:])
			}
			for _, a := range refCharset {
				checkOfferString(x, s+string(a))
				for _, b := range refCharset {
					checkOfferString(x, s+string(a)+string(b))
				}
			}
			for i := 0; i < len(s); i++ {
				checkOfferString(x, s[:i]+s[i+1:])
				checkOfferString(x, s[:i]+s[i:i+1]+s[i:])
			}
		})

		add("hrp/"+name, func(x *rt.Exec) {
			data := s[4:]
			for _, hrp := range []string{
				"", "l", "ln", "lno", "lnr", "lni", "lnbc", "lnoo",
				"lno1lno", "1", "11", "lno1", "on", "bc", "LNO",
				"Lno", "lnO", "lno+", "l+n+o", "lno ", " lno",
				"lno-", "lna",
			} {
				checkOfferString(x, hrp+"1"+data)
				checkOfferString(x, hrp+data)
				checkOfferString(x, strings.ToUpper(hrp+"1"+data))
				checkOfferString(x, hrp+"1"+strings.ToUpper(data))
			}
		})

		add("edges/"+name, func(x *rt.Exec) {
			alpha := []string{"+", " ", "\n", "q", "\t"}
			depth := 4
			if thorough {
				depth = 6
			}
			var rec func(prefix string, d int)
			rec = func(prefix string, d int) {
				for _, at := range []int{
					0, 1, 3, 4, 5, len(s) / 2, len(s) - 1, len(s),
				} {
					checkOfferString(x, s[:at]+prefix+s[at:])
				}
				if d == 0 {
					return
				}
				for _, a := range alpha {
					rec(prefix+a, d-1)
				}
			}
			rec("", depth)
		})
	}

	// Offers of every shape, valid or not, as strings.
	add("offers", func(x *rt.Exec) {
		forAllSubsets(offerMsg.types(), 4, func(ts []uint64) {
			recs := make(map[uint64][]byte)
			signed := false
			for _, t := range ts {
				if t == 240 {
					signed = true
					continue
				}
				recs[t] = fieldValues(offerMsg.fields[t], t)[0]
			}
			if !signed || len(recs) == 0 {
				checkOfferString(x, bech32Offer("lno", mkStream(recs)))
				return
			}
			for key := 1; key < 3; key++ {
				checkOfferString(x, bech32Offer("lno",
					mkStream(offerMsg.sign(recs, key))))
			}
		})
		for _, t := range offerMsg.types() {
			for _, v := range fieldValues(offerMsg.fields[t], t) {
				recs := offerMsg.baseRecs()
				recs[t] = v
				checkOfferString(x, bech32Offer("lno", mkStream(recs)))
			}
		}
	})

	// Long offers: every length up to a bound, and some large ones.
	for part := 0; part < 4; part++ {
		part := part
		add(fmt.Sprintf("long/%d", part), func(x *rt.Exec) {
			max := 700
			if thorough {
				max = 3000
			}
			var ns []int
			for n := part; n < max; n += 4 {
				ns = append(ns, n)
			}
			ns = append(ns, 4000+part, 32768+part, 65532+part)
			for _, n := range ns {
				recs := offerMsg.baseRecs()
				recs[10] = bytes.Repeat([]byte("d"), n)
				raw := mkStream(recs)
				s := bech32Offer("lno", raw)
				checkOfferString(x, s)
				checkOfferString(x, strings.ToUpper(s))
				for _, at := range []int{
					1, 4, len(s) / 2, len(s) - 1,
				} {
					checkOfferString(x, s[:at]+"+\n"+s[at:])
					checkOfferString(x, s[:at]+"\n"+s[at:])
				}
				checkOfferString(x, s+"q")
				checkOfferString(x, s[:len(s)-1])
				checkOfferString(x, s[:len(s)-1]+"b")
				checkOfferString(x, bech32Offer("lnr", raw))
				checkOfferString(x, strings.Join(
					strings.Split(s, ""), "+",
				))
			}
		})
	}

	add("spaces", func(x *rt.Exec) {
		s := bech32Offer("lno", mkStream(offerMsg.baseRecs()))
		mid := len(s) / 2
		for c := 0; c < 256; c++ {
			b := string([]byte{byte(c)})
			r := string(rune(c))
			for _, w := range []string{
				b, r, b + " ", " " + b, "\n" + r, b + b,
			} {
				for _, at := range []int{1, 4, mid, len(s) - 1} {
					checkOfferString(x, s[:at]+"+"+w+s[at:])
				}
				checkOfferString(x, s+"+"+w)
				checkOfferString(x, "+"+w+s)
			}
		}
		for _, w := range []string{
			"\u1680", "\u2000", "\u2003", "\u2028", "\u2029",
			"\u202f", "\u205f", "\u3000", "\ufeff", "\u200b",
			"\U0001f600",
		} {
			checkOfferString(x, s[:mid]+"+"+w+s[mid:])
			checkOfferString(x, s[:mid]+w+s[mid:])
		}
		for _, n := range []int{2, 7, 8, 15, 63, 64, 255, 256, 1000, 65536} {
			for _, w := range []string{" ", "\n", "\t", "\r\n", " \n"} {
				run := strings.Repeat(w, n)
				checkOfferString(x, s[:mid]+"+"+run+s[mid:])
				checkOfferString(x, s[:mid]+run+s[mid:])
				checkOfferString(x, s[:mid]+"+"+run+"+"+s[mid:])
				checkOfferString(x, s+"+"+run)
			}
			checkOfferString(x, s[:mid]+strings.Repeat("+", n)+s[mid:])
		}
	})

	// Letters beyond ASCII, some of which have ASCII letters as their other
	// case.
	for part := 0; part < 16; part++ {
		part := part
		add(fmt.Sprintf("runes/%d", part), func(x *rt.Exec) {
			s := bech32Offer("lno", mkStream(offerMsg.baseRecs()))
			up := strings.ToUpper(s)
			mid := len(s) / 2
			for c := rune(0x80 + part); c <= 0x10ffff; c += 16 {
				r := string(c)
				checkOfferString(x, s[:mid]+r+s[mid+1:])
				checkOfferString(x, up[:mid]+r+up[mid+1:])
				if c > 0xffff {
					continue
				}
				checkOfferString(x, up[:mid]+"+"+r+up[mid+1:])
				checkOfferString(x, s[:mid]+r+"+"+s[mid:])
			}
			for i := part; i < len(s); i += 16 {
				for _, r := range []string{
					"\u212a", "\u017f", "\u0130", "\u0131",
					"\uff11", "\u0661", "\uff0b",
				} {
					checkOfferString(x, s[:i]+r+s[i+1:])
					checkOfferString(x, up[:i]+r+up[i+1:])
					checkOfferString(x, up[:i]+"+"+r+up[i+1:])
				}
			}
		})
	}

	depth := 8
	if thorough {
		depth = 9
	}
	alpha := "lno1q+ "
	for _, first := range alpha {
		first := string(first)
		add(fmt.Sprintf("short/%q", first), func(x *rt.Exec) {
			var rec func(s string)
			rec = func(s string) {
				checkOfferString(x, s)
				if len(s) == depth {
					return
				}
				for _, a := range alpha {
					rec(s + string(a))
				}
			}
			rec(first)
			if first == "l" {
				checkOfferString(x, "")
			}
		})
	}

	return scs
}

func lnHash(b [32]byte) (h [32]byte) { return b }

var _ = lnwire.EncodeOffer
