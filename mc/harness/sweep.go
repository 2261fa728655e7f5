package main

import (
	"bytes"
	"encoding/hex"

	rt "github.com/carlakc/boltnd/verifrt"
)

// sweepNumbers are the numbers at which something may change: all small ones,
// and those around the powers of two and ten.
func sweepNumbers() []uint64 {
	seen := make(map[uint64]bool)
	var out []uint64
	add := func(n uint64) {
		if !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for n := uint64(0); n <= 300; n++ {
		add(n)
	}
	for k := uint(8); k < 64; k++ {
		for d := uint64(0); d < 3; d++ {
			add(uint64(1)<<k + d - 1)
		}
	}
	for n := uint64(1000); ; n *= 10 {
		for d := uint64(0); d < 3; d++ {
			add(n + d - 1)
		}
		if n > 1<<63/5 {
			break
		}
	}
	// The supply of bitcoin, and times of note.
	for _, n := range []uint64{
		2100000000000000, 2100000000000000000, 1231006505, 1700000000,
		4102444800, 9223372036, 9223372037, 253402300799, 253402300800,
	} {
		add(n)
	}
	add(1<<64 - 1)
	return out
}

// chains are the genesis hashes that code may know.
var chains = []string{
	"6fe28c0ab6f1b372c1a6a246ae63f74f931e8365e15a089c68d6190000000000",
	"43497fd7f826957108f4a30fd9cec3aeba79972084e90ead01ea330900000000",
	"06226e46111a0b59caaf126043eb5bbf28c34f3a5e332a1fc7b2b73cf188910f",
	"f61eee3b63a380a477a063af32b2bbc97c9ff9f01f2c4225e973988108000000",
	"683e86bd5c6d110d91b94b97137ba6bfe02dbbdb8e3dff722a669b5d69d77af6",
	"e2bf047e7e5a191aa4ef34d314979dc9986e0f19251edaba5940fd1fe365a712",
}

// sweepValues are many well formed values for a field.
func sweepValues(kind fieldKind) [][]byte {
	var out [][]byte
	switch kind {
	case kHash:
		for _, c := range chains {
			b, _ := hex.DecodeString(c)
			r := append([]byte{}, b...)
			for i := range r {
				r[i] = b[len(b)-1-i]
			}
			out = append(out, b, r)
		}
		for i := 0; i < 256; i++ {
			b := make([]byte, 32)
			b[i/8] = 1 << uint(i%8)
			out = append(out, b)
		}
		out = append(out, fill(32, 0xff), bytes.Repeat([]byte{0xff}, 32))

	case kTU64:
		for _, n := range sweepNumbers() {
			if n != 0 {
				out = append(out, tu64(n))
			}
		}

	case kU64:
		for _, n := range sweepNumbers() {
			if n < 1<<63 {
				out = append(out, u64(n))
			}
		}

	case kBytes:
		for n := 0; n <= 300; n++ {
			out = append(out, bytes.Repeat([]byte("d"), n))
		}
		for _, n := range []int{511, 512, 639, 640, 1023, 1024, 4096, 65535} {
			out = append(out, bytes.Repeat([]byte("d"), n))
		}
		for c := 0; c < 256; c++ {
			out = append(out, []byte{byte(c)}, []byte{'a', byte(c)},
				[]byte{byte(c), 'a'})
		}
		for _, s := range []string{
			" text", "text ", "  ", "te xt", "te  xt", "\n", "text\n",
			"text\r\n", "\ttext", "Text", "TEXT", "text\x00", "\x00text",
			"\ufefftext", "e\u0301", "\u00e9", "\u202etext", "\U0001f600",
			"%s", "%!", "<a>", "&amp;", "\\n", "\"text\"", "null", "nil",
			"0", "false", "lno1", "user@example.com",
		} {
			out = append(out, []byte(s))
		}

	case kFeatures:
		vec := func(body []byte) {
			out = append(out, cat(
				[]byte{byte(len(body) >> 8), byte(len(body))}, body,
			))
		}
		for n := 0; n < 520; n++ {
			body := make([]byte, n/8+1)
			body[0] = 1 << uint(n%8)
			vec(body)
		}
		for a := 0; a < 24; a++ {
			for b := 0; b < a; b++ {
				body := make([]byte, a/8+1)
				body[len(body)-1-a/8] |= 1 << uint(a%8)
				body[len(body)-1-b/8] |= 1 << uint(b%8)
				vec(body)
			}
		}
		for n := 0; n < 64; n++ {
			vec(bytes.Repeat([]byte{0xff}, n))
		}

	case kXOnly:
		for n := 1; n < 40; n++ {
			out = append(out, xonly(n))
		}

	case kPoint:
		for n := 1; n < 40; n++ {
			neg := append([]byte{}, point(n)...)
			neg[0] ^= 1
			out = append(out, point(n), neg)
		}

	case kSig:
		out = append(out, fill(64, 9), make([]byte, 64),
			bytes.Repeat([]byte{0xff}, 64))
	}
	return out
}

// sweep calls f with every field at every value of its sweep, alone, with the
// required fields and with all fields.
func sweep(add func(string, func(*rt.Exec)), k *msgKind, parts int,
	f func(x *rt.Exec, recs map[uint64][]byte)) {

	sharded(add, "sweep/"+k.name, parts, func(x *rt.Exec, mine func() bool) {
		full := make(map[uint64][]byte)
		for _, t := range k.types() {
			if t != 240 {
				full[t] = fieldValues(k.fields[t], t)[0]
			}
		}
		for _, t := range k.types() {
			for _, v := range sweepValues(k.fields[t]) {
				for _, from := range []map[uint64][]byte{
					nil, k.baseRecs(), full,
				} {
					if !mine() {
						continue
					}
					recs := copyRecs(from)
					recs[t] = v
					f(x, recs)
				}
			}
		}
	})
}
