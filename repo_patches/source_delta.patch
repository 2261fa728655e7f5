From 680ad774bc92dd333803d341638876e679c5c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 01/18] fix: offers: refuse + joins with nothing but whitespace
 beside them

---
 offers/bech32.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/offers/bech32.go b/offers/bech32.go
index dd22b92..ce09112 100644
--- a/offers/bech32.go
+++ b/offers/bech32.go
@@ -120,18 +120,18 @@ func stripOffer(offer string) (string, error) {
 	parts := strings.Split(offer, "+")
 
 	for i, part := range parts {
-		// If any of our parts are empty, we either had consecutive or
-		// starting / ending "+" in our string.
-		if part == "" {
-			return "", ErrIncorrectSplit
-		}
-
 		// We should allow whitespace following a "+" character. Trim
 		// all whitespace so that we can check that except for spaces,
 		// all other characters are bech32. We replace the entry in our
 		// slice to strip out these paces.
 		parts[i] = strings.TrimSpace(part)
 
+		// If any of our parts are empty, we either had consecutive or
+		// starting / ending "+" in our string.
+		if parts[i] == "" {
+			return "", ErrIncorrectSplit
+		}
+
 		// Check that each split is in our charset.
 		if err := checkASCII(parts[i]); err != nil {
 			return "", fmt.Errorf("%w: part: %v", err, part)
-- 
2.43.0


From 416e4cccbdd6acbb821b4cbd3ef58d61074bd196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 02/18] fix: lnwire: give each unknown record its own value in
 the merkle root

---
 lnwire/bolt12_merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 85d9f41..3bf3192 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -289,6 +289,10 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 	var records []tlv.Record
 
 	for tlvType, tlvBytes := range parsedTypes {
+		// Our encode function captures these bytes, so it needs its own
+		// copy of the loop variable.
+		tlvBytes := tlvBytes
+
 		// If the value of a parsed type is not included in our map, it
 		// was recognized by our code so we don't need to include it.
 		if len(tlvBytes) == 0 {
-- 
2.43.0


From bebe0ebc3e8039370d22a9c7fcf4f05ee267af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 03/18] fix: lnwire: calculate decoded merkle roots from the
 records received

---
 lnwire/bolt12_invoice.go         |  2 +-
 lnwire/bolt12_invoice_request.go |  2 +-
 lnwire/bolt12_merkle.go          |  5 +++--
 lnwire/bolt12_offer.go           |  2 +-
 lnwire/bolt12_shared.go          | 27 +++++++++++++++------------
 5 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index f5f174b..5a77579 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -398,7 +398,7 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index e89ee4d..3240905 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -404,7 +404,7 @@ func DecodeInvoiceRequest(b []byte) (*InvoiceRequest, error) {
 		i.Signature = &signature
 	}
 
-	i.MerkleRoot, err = decodeMerkleRoot(i, tlvMap)
+	i.MerkleRoot, err = decodeMerkleRoot(b)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index 3bf3192..f86afe4 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -294,8 +294,9 @@ func unknownRecordsFromParsed(parsedTypes map[tlv.Type][]byte) []tlv.Record {
 		tlvBytes := tlvBytes
 
 		// If the value of a parsed type is not included in our map, it
-		// was recognized by our code so we don't need to include it.
-		if len(tlvBytes) == 0 {
+		// was recognized by our code so we don't need to include it. A
+		// record that has an empty value is not nil.
+		if tlvBytes == nil {
 			continue
 		}
 
diff --git a/lnwire/bolt12_offer.go b/lnwire/bolt12_offer.go
index c90134b..030cc75 100644
--- a/lnwire/bolt12_offer.go
+++ b/lnwire/bolt12_offer.go
@@ -342,7 +342,7 @@ func DecodeOffer(offerBytes []byte) (*Offer, error) {
 		offer.Signature = &signature
 	}
 
-	offer.MerkleRoot, err = decodeMerkleRoot(offer, tlvMap)
+	offer.MerkleRoot, err = decodeMerkleRoot(offerBytes)
 	if err != nil {
 		return nil, fmt.Errorf("merkle root: %w", err)
 	}
diff --git a/lnwire/bolt12_shared.go b/lnwire/bolt12_shared.go
index 47028c1..4877d3e 100644
--- a/lnwire/bolt12_shared.go
+++ b/lnwire/bolt12_shared.go
@@ -61,21 +61,24 @@ type tlvTree interface {
 }
 
 // decodeMerkleRoot produces a tlv merkle tree root for a tlv stream that we
-// have decoded. Since the sender may have populated the tree with odd tlv
-// records that are unknown to us, we include odd unknown records that were
-// parsed but not understood (by our decoding, the sender would have known
-// them) in our tree.
-func decodeMerkleRoot(recordProducer tlvTree,
-	tlvMap map[tlv.Type][]byte) (lntypes.Hash, error) {
-
-	populatedRecords, err := recordProducer.records()
+// have decoded. The root commits to the records exactly as the sender encoded
+// them, including records that are unknown to us and known records that we
+// would encode differently (or not at all, if they hold a default value), so
+// it is calculated from the stream itself rather than from the decoded fields.
+func decodeMerkleRoot(b []byte) (lntypes.Hash, error) {
+	// Our stream does not recognize any types, so the parsed types contain
+	// the raw value of every record.
+	stream, err := tlv.NewStream()
 	if err != nil {
-		return lntypes.Hash{}, fmt.Errorf("get records: %w", err)
+		return lntypes.Hash{}, fmt.Errorf("new stream: %w", err)
 	}
 
-	root, err := MerkleRoot(
-		append(populatedRecords, unknownRecordsFromParsed(tlvMap)...),
-	)
+	tlvMap, err := stream.DecodeWithParsedTypes(bytes.NewReader(b))
+	if err != nil {
+		return lntypes.Hash{}, fmt.Errorf("decode stream: %w", err)
+	}
+
+	root, err := MerkleRoot(unknownRecordsFromParsed(tlvMap))
 	if err != nil {
 		return lntypes.Hash{}, fmt.Errorf("merkle root: %w", err)
 	}
-- 
2.43.0


From db5e4c145722fb43e0bb76c9018369729d116110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 04/18] fix: lnwire: build the merkle tree level by level

---
 lnwire/bolt12_merkle.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lnwire/bolt12_merkle.go b/lnwire/bolt12_merkle.go
index f86afe4..e479139 100644
--- a/lnwire/bolt12_merkle.go
+++ b/lnwire/bolt12_merkle.go
@@ -128,17 +128,23 @@ func MerkleRoot(records []tlv.Record) (lntypes.Hash, error) {
 // CalculateRoot combines a set of branches into a merkle root.
 func CalculateRoot(branches []*TLVBranch) chainhash.Hash {
 	for len(branches) != 1 {
-		left, right := orderNodes(branches[0], branches[1])
+		// Combine the branches in this level of the tree in pairs.
+		nextLevel := make([]*TLVBranch, 0, (len(branches)+1)/2)
 
-		newBranch := &TLVBranch{
-			left:  left,
-			right: right,
+		for len(branches) > 1 {
+			left, right := orderNodes(branches[0], branches[1])
+
+			nextLevel = append(nextLevel, &TLVBranch{
+				left:  left,
+				right: right,
+			})
+
+			branches = branches[2:]
 		}
 
-		// Remove the individual branches from our set, and add our
-		// combined branch.
-		branches = branches[2:]
-		branches = append(branches, newBranch)
+		// A lone branch at the end of a level moves up to the next
+		// level unchanged.
+		branches = append(nextLevel, branches...)
 	}
 
 	// We exit when we only have one branch left, this is our root.
-- 
2.43.0


From dcee4739ae1d13d927bc6282e4904fe12dcc7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 05/18] fix: lnwire: refuse invoice expiries that overflow a
 duration

---
 lnwire/bolt12_invoice.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lnwire/bolt12_invoice.go b/lnwire/bolt12_invoice.go
index 5a77579..58dd97f 100644
--- a/lnwire/bolt12_invoice.go
+++ b/lnwire/bolt12_invoice.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"math"
 	"time"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -64,6 +65,10 @@ const (
 
 	// invSigType is a record for a signature over the invoice.
 	invSigType tlv.Type = 240
+
+	// maxRelativeExpiry is the largest relative expiry in seconds that can
+	// be expressed as a duration.
+	maxRelativeExpiry = uint64(math.MaxInt64 / time.Second)
 )
 
 var (
@@ -77,6 +82,10 @@ var (
 
 	// ErrNoAmount is returned when an invoice doesn't have an amount tlv.
 	ErrNoAmount = errors.New("invoice requires amount")
+
+	// ErrRelativeExpiry is returned when an invoice's relative expiry is
+	// too large to be expressed as a duration.
+	ErrRelativeExpiry = errors.New("relative expiry too large")
 )
 
 // Invoice represents a bolt 12 invoice.
@@ -391,6 +400,11 @@ func DecodeInvoice(b []byte) (*Invoice, error) {
 	}
 
 	if _, ok := tlvMap[invRelativeExpiryType]; ok {
+		if relativeExpiry > maxRelativeExpiry {
+			return nil, fmt.Errorf("%w: %v", ErrRelativeExpiry,
+				relativeExpiry)
+		}
+
 		i.RelativeExpiry = time.Second * time.Duration(relativeExpiry)
 	}
 
-- 
2.43.0


From 75aaa097ab54ab0a024b01a8b5b8229f4f983e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 06/18] fix: lnwire: a quantity range may be bounded on one
 side only

---
 lnwire/bolt12_invoice_request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lnwire/bolt12_invoice_request.go b/lnwire/bolt12_invoice_request.go
index 3240905..dbbae36 100644
--- a/lnwire/bolt12_invoice_request.go
+++ b/lnwire/bolt12_invoice_request.go
@@ -138,7 +138,7 @@ func NewInvoiceRequest(offer *Offer, amount lnwire.MilliSatoshi,
 		haveMinQuantity = offer.QuantityMin != 0
 		haveMaxQuantity = offer.QuantityMax != 0
 
-		quantitySpecified = haveMinQuantity && haveMaxQuantity
+		quantitySpecified = haveMinQuantity || haveMaxQuantity
 	)
 
 	// Fail if the offer has a quantity range but the request does not set
-- 
2.43.0


From 54b2270ba580c51c56455bafb983a3825a99bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 07/18] fix: lnwire: keep final hop payloads that have no body

---
 lnwire/onion_msg_payload.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 0a4f7fd..93fc350 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -166,8 +166,9 @@ func DecodeOnionMessagePayload(o []byte) (*OnionMessagePayload, error) {
 		}
 
 		// Skip any tlvs that have been recognized in our decoding (a
-		// zero entry means that we recognized the entry).
-		if len(tlvBytes) == 0 {
+		// nil entry means that we recognized the entry). Tlvs that we
+		// did not recognize may legitimately have an empty value.
+		if tlvBytes == nil {
 			continue
 		}
 
-- 
2.43.0


From 36d7696befd61867490ca097983d5bc35a935e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 08/18] fix: lnwire: hold reply paths to the length of their
 record

---
 lnwire/onion_msg_payload.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index 93fc350..fed5b25 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -41,6 +41,10 @@ var (
 	// ErrNoHops is returned when we handle a reply path that does not
 	// have any hops (this makes no sense).
 	ErrNoHops = errors.New("reply path requires hops")
+
+	// ErrTrailingReplyPath is returned when a reply path's record is longer
+	// than the hops that it contains.
+	ErrTrailingReplyPath = errors.New("trailing bytes after reply path")
 )
 
 // OnionMessagePayload contains the contents of an onion message payload.
@@ -314,6 +318,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 	l uint64) error {
 
 	if p, ok := val.(*ReplyPath); ok && l > 35 {
+		// Our reply path must occupy exactly the length declared for
+		// its record, so we can't read past it.
+		limited := &io.LimitedReader{R: r, N: int64(l)}
+		r = limited
+
 		err := tlv.DPubKey(r, &p.FirstNodeID, buf, 33)
 		if err != nil {
 			return fmt.Errorf("decode first id: %w", err)
@@ -342,6 +351,11 @@ func decodeReplyPath(r io.Reader, val interface{}, buf *[8]byte,
 			p.Hops = append(p.Hops, hop)
 		}
 
+		if limited.N != 0 {
+			return fmt.Errorf("%w: %v", ErrTrailingReplyPath,
+				limited.N)
+		}
+
 		return nil
 	}
 
-- 
2.43.0


From 09f3900d43c3301ddb6a7ac92e0c44b79b19c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 09/18] fix: lnwire: fail to encode lengths that do not fit

---
 lnwire/onion_message.go     |  5 +++++
 lnwire/onion_msg_payload.go | 18 ++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/lnwire/onion_message.go b/lnwire/onion_message.go
index e6550d6..7a99d7e 100644
--- a/lnwire/onion_message.go
+++ b/lnwire/onion_message.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/btcsuite/btcd/btcec/v2"
 	lndwire "github.com/lightningnetwork/lnd/lnwire"
@@ -76,6 +77,10 @@ func (o *OnionMessage) Encode(w *bytes.Buffer, _ uint32) error {
 	}
 
 	onionLen := len(o.OnionBlob)
+	if onionLen > math.MaxUint16 {
+		return fmt.Errorf("onion blob too long: %v", onionLen)
+	}
+
 	if err := lndwire.WriteElement(w, uint16(onionLen)); err != nil {
 		return fmt.Errorf("encode onion len: %w", err)
 	}
diff --git a/lnwire/onion_msg_payload.go b/lnwire/onion_msg_payload.go
index fed5b25..3c36cd0 100644
--- a/lnwire/onion_msg_payload.go
+++ b/lnwire/onion_msg_payload.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 
 	"github.com/btcsuite/btcd/btcec/v2"
@@ -45,6 +46,14 @@ var (
 	// ErrTrailingReplyPath is returned when a reply path's record is longer
 	// than the hops that it contains.
 	ErrTrailingReplyPath = errors.New("trailing bytes after reply path")
+
+	// ErrTooManyHops is returned when a reply path has more hops than we
+	// can express in its encoding.
+	ErrTooManyHops = errors.New("too many hops in reply path")
+
+	// ErrEncryptedDataLen is returned when a blinded hop has more encrypted
+	// data than we can express in its encoding.
+	ErrEncryptedDataLen = errors.New("encrypted data too long")
 )
 
 // OnionMessagePayload contains the contents of an onion message payload.
@@ -292,6 +301,10 @@ func encodeReplyPath(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded path: %w", err)
 		}
 
+		if len(p.Hops) > math.MaxUint8 {
+			return fmt.Errorf("%w: %v", ErrTooManyHops, len(p.Hops))
+		}
+
 		hopCount := uint8(len(p.Hops))
 		if hopCount == 0 {
 			return ErrNoHops
@@ -385,6 +398,11 @@ func encodeBlindedHop(w io.Writer, val interface{}, buf *[8]byte) error {
 			return fmt.Errorf("encode blinded id: %w", err)
 		}
 
+		if len(b.EncryptedData) > math.MaxUint16 {
+			return fmt.Errorf("%w: %v", ErrEncryptedDataLen,
+				len(b.EncryptedData))
+		}
+
 		dataLen := uint16(len(b.EncryptedData))
 		if err := tlv.EUint16(w, &dataLen, buf); err != nil {
 			return fmt.Errorf("data len: %w", err)
-- 
2.43.0


From a8090864731a2f8dd8e5cb5c5ef0c3f92d225fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 10/18] fix: routes: include payloads and reply path when the
 introduction node is our peer

---
 routes/blinded.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/routes/blinded.go b/routes/blinded.go
index aa904e8..f8de647 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -694,12 +694,18 @@ func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
 	for i, hop := range req.blindedDestination.Hops {
-		sphinxHop, err := createSphinxHop(
-			*hop.BlindedNodeID,
-			&lnwire.OnionMessagePayload{
-				EncryptedData: hop.EncryptedData,
-			},
-		)
+		payload := &lnwire.OnionMessagePayload{
+			EncryptedData: hop.EncryptedData,
+		}
+
+		// If we're on the last hop, add our optional final payload
+		// and reply path.
+		if i == len(req.blindedDestination.Hops)-1 {
+			payload.FinalHopPayloads = req.finalPayloads
+			payload.ReplyPath = req.replyPath
+		}
+
+		sphinxHop, err := createSphinxHop(*hop.BlindedNodeID, payload)
 		if err != nil {
 			return nil, fmt.Errorf("sphinx hop "+
 				"%v: %w", i, err)
-- 
2.43.0


From 0e10d3b53cabf20944921f6a7828f0f7272ff2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 11/18] fix: routes: fail routes with more hops than an onion
 can hold

---
 routes/blinded.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/routes/blinded.go b/routes/blinded.go
index f8de647..cf7d263 100644
--- a/routes/blinded.go
+++ b/routes/blinded.go
@@ -53,6 +53,10 @@ var (
 	// the final hop in a path provided for a send to a blinded route.
 	ErrNoIntroductionNode = errors.New("introduction node should be " +
 		"final hop when sending to a blinded path")
+
+	// ErrTooManyHops is returned when a route has more hops than fit in an
+	// onion.
+	ErrTooManyHops = errors.New("route exceeds maximum hops")
 )
 
 // BlindedRouteGenerator produces blinded routes.
@@ -563,6 +567,11 @@ func blindedToSphinx(blindedRoute *sphinx.BlindedPath,
 		extraHopCount = len(extraHops)
 	)
 
+	if ourHopCount+extraHopCount > sphinx.NumMaxHops {
+		return nil, fmt.Errorf("%w: %v", ErrTooManyHops,
+			ourHopCount+extraHopCount)
+	}
+
 	// Fill in the blinded node id and encrypted data for all hops. This
 	// requirement differs from blinded hops used for payments, where we
 	// don't use the blinded introduction node id. However, since onion
@@ -693,6 +702,11 @@ func createOnionMessage(sphinxPath *sphinx.PaymentPath,
 func directToBlinded(req *BlindedRouteRequest) (*BlindedRouteResponse, error) {
 	var sphinxPath sphinx.PaymentPath
 
+	if len(req.blindedDestination.Hops) > sphinx.NumMaxHops {
+		return nil, fmt.Errorf("%w: %v", ErrTooManyHops,
+			len(req.blindedDestination.Hops))
+	}
+
 	for i, hop := range req.blindedDestination.Hops {
 		payload := &lnwire.OnionMessagePayload{
 			EncryptedData: hop.EncryptedData,
-- 
2.43.0


From 11d1d35861ad9ccfd55f8febfb262069edf32ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 12/18] fix: boltnd: connect to lnd when the maximum number of
 retries is set

---
 boltnd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boltnd.go b/boltnd.go
index 6ad6cdd..d25c860 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -71,7 +71,7 @@ func (b *Boltnd) Start() error {
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
 	var connErr error
-	for i := 0; i < int(b.cfg.LNDRetires+1); i++ {
+	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
 		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
-- 
2.43.0


From a6e81c83edd84347adc77df782a25e90edcecdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 13/18] fix: rpcserver: release a blocked handler before
 deregistering it

---
 rpcserver/impl_subscribe_onion_payload.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rpcserver/impl_subscribe_onion_payload.go b/rpcserver/impl_subscribe_onion_payload.go
index 9427e0b..e6d98fa 100644
--- a/rpcserver/impl_subscribe_onion_payload.go
+++ b/rpcserver/impl_subscribe_onion_payload.go
@@ -62,6 +62,11 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	messenger onionmsg.OnionMessenger,
 	send func(*offersrpc.SubscribeOnionPayloadResponse) error) error {
 
+	// Our handler must not outlive this subscription, so it uses a context
+	// that we cancel on exit.
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	// Create an onion message handler which will consume messages from
 	// our incoming channel, dropping messages if our server is shut down
 	// or the client cancels their context.
@@ -96,6 +101,10 @@ func handleSubscribeOnionPayload(ctx context.Context, tlvType tlv.Type,
 	}
 
 	defer func() {
+		// If our stream failed, the messenger may be blocked on handing
+		// us a message. Release it, or it can't deregister us.
+		cancel()
+
 		if err := messenger.DeregisterHandler(tlvType); err != nil {
 			log.Errorf("Deregister handler: %v failed: %v",
 				tlvType, err)
-- 
2.43.0


From 293f6559441239b231c0c6883c3814cb116256b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 14/18] fix: onionmsg: deliver every payload of a message when
 one handler fails

---
 onionmsg/messenger.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index bba4af2..95dfaa5 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -857,7 +857,9 @@ func handleOnionMessage(msg lndclient.CustomMessage,
 		}
 
 		// For each of our final hop payloads, identify a handling
-		// function (if any) and handoff the payload.
+		// function (if any) and handoff the payload. If a handler
+		// fails, we still deliver the other payloads in the message.
+		var handlerErr error
 		for _, extraData := range payload.FinalHopPayloads {
 			handler, ok := kit.handlers[extraData.TLVType]
 			if !ok {
@@ -873,14 +875,14 @@ func handleOnionMessage(msg lndclient.CustomMessage,
 			if err := handler(
 				payload.ReplyPath, payload.EncryptedData,
 				extraData.Value,
-			); err != nil {
-				return fmt.Errorf("handler for: %v/%x "+
+			); err != nil && handlerErr == nil {
+				handlerErr = fmt.Errorf("handler for: %v/%x "+
 					"failed: %w", extraData.TLVType,
 					extraData.Value, err)
 			}
 		}
 
-		return nil
+		return handlerErr
 
 	// We don't support forwarding at present, so we fail if an onion with
 	// more hops is received.
-- 
2.43.0


From ff6fbd6fed1c37531dafbc119bb025940da5a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 15/18] fix: rpcserver: do not start the messenger once the
 server is stopped

---
 rpcserver/server.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rpcserver/server.go b/rpcserver/server.go
index 574335e..4d64072 100644
--- a/rpcserver/server.go
+++ b/rpcserver/server.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"sync/atomic"
 
 	"github.com/carlakc/boltnd/offersrpc"
@@ -28,6 +29,10 @@ type Server struct {
 	started int32 // to be used atomically
 	stopped int32 // to be used atomically
 
+	// messengerLock ensures that we do not start our messenger once the
+	// server has been stopped, even if it is stopped while starting up.
+	messengerLock sync.Mutex
+
 	// lnd provides a connection to lnd's other grpc servers. Since we need
 	// to connect to the grpc servers, this can't be done while we're busy
 	// setting up ourselves as a sub-server. Consequently, this value will
@@ -87,6 +92,18 @@ func (s *Server) Start(lnd *lndclient.LndServices) error {
 		lnd.Client, nodeKeyECDH.PubKey(),
 	)
 
+	// If we've been stopped in the meantime there is nobody left to stop
+	// our messenger, so we don't start it.
+	s.messengerLock.Lock()
+	defer s.messengerLock.Unlock()
+
+	select {
+	case <-s.quit:
+		return ErrShuttingDown
+
+	default:
+	}
+
 	// Finally setup an onion messenger using the onion router.
 	s.onionMsgr = onionmsg.NewOnionMessenger(
 		lnd.ChainParams, lnd.Client, nodeKeyECDH, s.requestShutdown,
@@ -110,6 +127,9 @@ func (s *Server) Stop() error {
 	log.Info("Stopping rpc server")
 	defer log.Info("Stopped rpc server")
 
+	s.messengerLock.Lock()
+	defer s.messengerLock.Unlock()
+
 	// Signal to goroutines to shut down.
 	close(s.quit)
 
-- 
2.43.0


From ec66d1c37bec115f0bab7ff97daddd883c460d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 16/18] fix: boltnd: close the connection to lnd when stopped
 during startup

---
 boltnd.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/boltnd.go b/boltnd.go
index d25c860..0f7e4ee 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -22,6 +23,9 @@ type Boltnd struct {
 	started int32 // to be used atomically
 	stopped int32 // to be used atomically
 
+	// lndLock guards our connection to lnd, which we may be asked to close
+	// while we are starting up.
+	lndLock   sync.Mutex
 	lnd       *lndclient.GrpcLndServices
 	rpcServer *rpcserver.Server
 
@@ -70,11 +74,14 @@ func (b *Boltnd) Start() error {
 
 	// We allow zero retires, so we iterate with retries + 1 to allow at
 	// least one connection attempt for lnd.
-	var connErr error
+	var (
+		lnd     *lndclient.GrpcLndServices
+		connErr error
+	)
 	for i := 0; i < int(b.cfg.LNDRetires)+1; i++ {
 		log.Infof("Attempt: %v to connect to lnd", i)
 
-		b.lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
+		lnd, connErr = lndclient.NewLndServices(b.cfg.LndClientCfg)
 		if connErr != nil {
 			log.Errorf("error starting lndclient: %w (attempt: %v)",
 				connErr, i)
@@ -93,13 +100,33 @@ func (b *Boltnd) Start() error {
 		return fmt.Errorf("could not connect to lnd: %w", connErr)
 	}
 
-	if err := b.rpcServer.Start(&b.lnd.LndServices); err != nil {
+	if err := b.setLnd(lnd); err != nil {
+		return err
+	}
+
+	if err := b.rpcServer.Start(&lnd.LndServices); err != nil {
 		return fmt.Errorf("error starting rpcserver: %v", err)
 	}
 
 	return nil
 }
 
+// setLnd sets our connection to lnd. If we have already been stopped, the
+// connection is closed and an error is returned.
+func (b *Boltnd) setLnd(lnd *lndclient.GrpcLndServices) error {
+	b.lndLock.Lock()
+	defer b.lndLock.Unlock()
+
+	if atomic.LoadInt32(&b.stopped) == 1 {
+		lnd.Close()
+		return errors.New("boltnd stopped during startup")
+	}
+
+	b.lnd = lnd
+
+	return nil
+}
+
 // Stop shuts down the boltnd implementation.
 func (b *Boltnd) Stop() error {
 	if !atomic.CompareAndSwapInt32(&b.stopped, 0, 1) {
@@ -112,6 +139,9 @@ func (b *Boltnd) Stop() error {
 		return fmt.Errorf("could not stop rpcserver: %v", err)
 	}
 
+	b.lndLock.Lock()
+	defer b.lndLock.Unlock()
+
 	if b.lnd != nil {
 		b.lnd.Close()
 	}
-- 
2.43.0


From 605ce65b4e3dcbb300f42d9c92985c697b456684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:42 +0000
Subject: [PATCH 17/18] fix: onionmsg: fail handler registration once the event
 loop has exited

---
 onionmsg/messenger.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/onionmsg/messenger.go b/onionmsg/messenger.go
index 95dfaa5..f3501c3 100644
--- a/onionmsg/messenger.go
+++ b/onionmsg/messenger.go
@@ -167,6 +167,10 @@ type Messenger struct {
 	// signal to calling code that it should gracefully exit.
 	requestShutdown func(err error)
 
+	// exited is closed once our main event loop has exited, which may
+	// happen before we're asked to shut down if our streams fail.
+	exited chan struct{}
+
 	wg   sync.WaitGroup
 	quit chan struct{}
 }
@@ -187,6 +191,7 @@ func NewOnionMessenger(params *chaincfg.Params, lnd LndOnionMsg,
 		onionMsgHandlers:    make(map[tlv.Type]OnionMessageHandler),
 		handlerRegistration: make(chan *registerHandler),
 		requestShutdown:     shutdown,
+		exited:              make(chan struct{}),
 		quit:                make(chan struct{}),
 	}
 }
@@ -207,6 +212,8 @@ func (m *Messenger) Start() error {
 		defer m.wg.Done()
 
 		err := m.manageOnionMessages(context.Background())
+		close(m.exited)
+
 		if err != nil && err != ErrShuttingDown {
 			m.requestShutdown(err)
 		}
@@ -281,6 +288,10 @@ func (m *Messenger) handleRegistration(request *registerHandler,
 	select {
 	case m.handlerRegistration <- request:
 
+	case <-m.exited:
+		return fmt.Errorf("%w: could not %v: %v",
+			ErrShuttingDown, action, request.tlvType)
+
 	case <-m.quit:
 		return fmt.Errorf("%w: could not %v: %v",
 			ErrShuttingDown, action, request.tlvType)
-- 
2.43.0


From ed5e3480329ed016ace714d28aef6c3f1c148fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 18/18] fix: rpcserver: have lnd validate the macaroons of our
 calls

lnd leaves the validation of macaroons entirely to the external validator that
is registered for a method, so accepting every call allowed anybody who can
reach lnd's grpc port to use our methods without a macaroon.
---
 boltnd.go              | 13 +++++-----
 rpcserver/macaroons.go | 58 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 64 insertions(+), 7 deletions(-)

diff --git a/boltnd.go b/boltnd.go
index 0f7e4ee..f9153ed 100644
--- a/boltnd.go
+++ b/boltnd.go
@@ -187,13 +187,14 @@ func (b *Boltnd) Permissions() map[string][]bakery.Op {
 // met. A non-nil error is returned if any of the checks fail.
 //
 // NOTE: This is part of the lnd.ExternalValidator interface.
-func (b *Boltnd) ValidateMacaroon(_ context.Context,
-	_ []bakery.Op, _ string) error {
+func (b *Boltnd) ValidateMacaroon(ctx context.Context,
+	requiredPermissions []bakery.Op, fullMethod string) error {
 
-	// lnd will run validation for us, so we don't need to perform any
-	// additional validation.
-	// TODO - check that this is the case!
-	return nil
+	// Once we're registered as an external validator for our methods, lnd
+	// does not validate the macaroons provided for them itself.
+	return b.rpcServer.ValidateMacaroon(
+		ctx, requiredPermissions, fullMethod,
+	)
 }
 
 // setupLoggers registers all of our loggers if a config option to setup loggers
diff --git a/rpcserver/macaroons.go b/rpcserver/macaroons.go
index 420ec5d..10449da 100644
--- a/rpcserver/macaroons.go
+++ b/rpcserver/macaroons.go
@@ -1,6 +1,16 @@
 package rpcserver
 
-import "gopkg.in/macaroon-bakery.v2/bakery"
+import (
+	"context"
+	"encoding/hex"
+	"fmt"
+
+	"github.com/lightninglabs/lndclient"
+	"github.com/lightningnetwork/lnd/macaroons"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
+	"gopkg.in/macaroon-bakery.v2/bakery"
+)
 
 // RPCServerPermissions is the set of macaroon permissions needed for each
 // api.
@@ -22,3 +32,49 @@ var RPCServerPermissions = map[string][]bakery.Op{
 		Action: "read",
 	}},
 }
+
+// ValidateMacaroon asks lnd whether the macaroon in the context's gRPC metadata
+// has the permissions required to call the method provided. This function
+// blocks until the server is ready, because lnd can't be reached before.
+func (s *Server) ValidateMacaroon(ctx context.Context,
+	requiredPermissions []bakery.Op, fullMethod string) error {
+
+	if err := s.waitForReady(ctx); err != nil {
+		return err
+	}
+
+	macHex, err := macaroons.RawMacaroonFromContext(ctx)
+	if err != nil {
+		return status.Error(codes.Unauthenticated, err.Error())
+	}
+
+	macBytes, err := hex.DecodeString(macHex)
+	if err != nil {
+		return status.Errorf(
+			codes.Unauthenticated, "macaroon: %v", err,
+		)
+	}
+
+	permissions := make(
+		[]lndclient.MacaroonPermission, len(requiredPermissions),
+	)
+	for i, op := range requiredPermissions {
+		permissions[i] = lndclient.MacaroonPermission{
+			Entity: op.Entity,
+			Action: op.Action,
+		}
+	}
+
+	valid, err := s.lnd.Client.CheckMacaroonPermissions(
+		ctx, macBytes, permissions, fullMethod,
+	)
+	if err != nil {
+		return fmt.Errorf("check macaroon: %w", err)
+	}
+
+	if !valid {
+		return status.Error(codes.PermissionDenied, "permission denied")
+	}
+
+	return nil
+}
-- 
2.43.0

