package main

import (
	"crypto/sha256"
	"fmt"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/btcsuite/btcd/btcec/v2/schnorr"
)

// privKey returns the n-th fixed private key; privKey(-n) is its negation.
func privKey(n int) *btcec.PrivateKey {
	if k, ok := privCache[n]; ok {
		return k
	}
	if n < 0 {
		k := &btcec.PrivateKey{}
		k.Key.Set(&privKey(-n).Key).Negate()
		privCache[n] = k
		return k
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("verifmc key %d", n)))
	k, _ := btcec.PrivKeyFromBytes(h[:])
	privCache[n] = k
	return k
}

var privCache = map[int]*btcec.PrivateKey{}

var pubCache = map[int]*btcec.PublicKey{}

func pubKey(n int) *btcec.PublicKey {
	if k, ok := pubCache[n]; ok {
		return k
	}
	k := privKey(n).PubKey()
	pubCache[n] = k
	return k
}

func xonly(n int) []byte { return schnorr.SerializePubKey(pubKey(n)) }
func point(n int) []byte { return pubKey(n).SerializeCompressed() }

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = seed + byte(i*7)
	}
	return b
}
