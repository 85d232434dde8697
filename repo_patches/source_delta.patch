From aaa06572495a6aa1d27aa35ba7e5c4c95d19375f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:45 +0000
Subject: [PATCH 01/30] fix: bls: reject empty batches and batches with more
 keys than messages

---
 bls/bls.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index 353517f..ce7f1c0 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -488,6 +488,10 @@ func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
 }
 
 func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistinct bool) error {
+	if len(msgList) == 0 || len(pkeys) != len(msgList) {
+		return fmt.Errorf("bls: the nr of Public Keys (%d) and the nr of messages (%d) must be the same and not zero", len(pkeys), len(msgList))
+	}
+
 	if !allowDistinct && !distinct(msgList) {
 		return errors.New("bls: Messages are not distinct")
 	}
-- 
2.43.0


From 6600a3f5c9b02478810d68a692750ec7395000f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:48 +0000
Subject: [PATCH 02/30] fix: bls: aggregating equal keys or signatures gave a
 wrong point

---
 bls/bls.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index ce7f1c0..68c5bce 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -235,7 +235,8 @@ func (apk *Apk) Aggregate(pk *PublicKey) error {
 		return err
 	}
 
-	apk.gx.Add(apk.gx, gxt)
+	// the sum goes into a fresh point: bn256 miscalculates the in-place addition of equal points
+	apk.gx = newG2().Add(apk.gx, gxt)
 	return nil
 }
 
@@ -301,7 +302,8 @@ func (sigma *Signature) AggregateBytes(other []byte) error {
 
 // Aggregate two Signature
 func (sigma *Signature) Aggregate(other *Signature) *Signature {
-	sigma.e.Add(sigma.e, other.e)
+	// the sum goes into a fresh point: bn256 miscalculates the in-place addition of equal points
+	sigma.e = newG1().Add(sigma.e, other.e)
 	return sigma
 }
 
-- 
2.43.0


From 4dee03a47e2ce5ef35359d62971f32a63029d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:52 +0000
Subject: [PATCH 03/30] fix: bls: reject non canonical encodings and leave the
 receiver alone when decoding fails

---
 bls/bls.go | 64 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 68c5bce..958e257 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -6,6 +6,7 @@
 package bls
 
 import (
+	"bytes"
 	"crypto/rand"
 	"crypto/subtle"
 	"encoding/base64"
@@ -314,7 +315,7 @@ func (sigma *Signature) Compress() []byte {
 
 // Decompress reconstructs the 64 byte signature from the compressed form
 func (sigma *Signature) Decompress(x []byte) error {
-	e, err := bn256.Decompress(x)
+	e, err := decompressG1(x)
 	if err != nil {
 		return err
 	}
@@ -332,7 +333,7 @@ func (sigma *Signature) Unmarshal(msg []byte) error {
 	var err error
 	var e *bn256.G1
 	if len(msg) == 33 {
-		e, err = bn256.Decompress(msg)
+		e, err = decompressG1(msg)
 		if err != nil {
 			return err
 		}
@@ -340,8 +341,8 @@ func (sigma *Signature) Unmarshal(msg []byte) error {
 		return nil
 	}
 
-	e = newG1()
-	if _, err := e.Unmarshal(msg); err != nil {
+	e, err = unmarshalG1(msg)
+	if err != nil {
 		return err
 	}
 	sigma.e = e
@@ -405,7 +406,7 @@ func (usig *UnsafeSignature) Compress() []byte {
 
 // Decompress reconstructs the 64 byte signature from the compressed form
 func (usig *UnsafeSignature) Decompress(x []byte) error {
-	e, err := bn256.Decompress(x)
+	e, err := decompressG1(x)
 	if err != nil {
 		return err
 	}
@@ -420,8 +421,8 @@ func (usig *UnsafeSignature) Marshal() []byte {
 
 // Unmarshal a byte array into an UnsafeSignature
 func (usig *UnsafeSignature) Unmarshal(msg []byte) error {
-	e := newG1()
-	if _, err := e.Unmarshal(msg); err != nil {
+	e, err := unmarshalG1(msg)
+	if err != nil {
 		return err
 	}
 	usig.e = e
@@ -524,7 +525,7 @@ func verifyBatch(pkeys []*bn256.G2, msgList [][]byte, sig *bn256.G1, allowDistin
 
 // VerifyCompressed verifies a Compressed marshalled signature
 func VerifyCompressed(pks []*bn256.G2, msgList [][]byte, compressedSig []byte, allowDistinct bool) error {
-	sig, err := bn256.Decompress(compressedSig)
+	sig, err := decompressG1(compressedSig)
 	if err != nil {
 		return err
 	}
@@ -562,12 +563,7 @@ func (pk *PublicKey) UnmarshalText(data []byte) error {
 	if err != nil {
 		return err
 	}
-	pk.gx = newG2()
-	_, err = pk.gx.Unmarshal(bs)
-	if err != nil {
-		return err
-	}
-	return nil
+	return pk.Unmarshal(bs)
 }
 
 // Marshal returns the binary representation of the G2 point being the public key
@@ -577,14 +573,50 @@ func (pk *PublicKey) Marshal() []byte {
 
 // Unmarshal a public key from a byte array
 func (pk *PublicKey) Unmarshal(data []byte) error {
-	pk.gx = newG2()
-	_, err := pk.gx.Unmarshal(data)
+	gx, err := unmarshalG2(data)
 	if err != nil {
 		return err
 	}
+	pk.gx = gx
 	return nil
 }
 
+// unmarshalG1 decodes a G1 point, accepting only the encoding that Marshal produces for it
+func unmarshalG1(data []byte) (*bn256.G1, error) {
+	e := newG1()
+	if _, err := e.Unmarshal(data); err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(e.Marshal(), data) {
+		return nil, errors.New("bls: non canonical encoding of a signature")
+	}
+	return e, nil
+}
+
+// decompressG1 decodes a compressed G1 point, accepting only the encoding that Compress produces for it
+func decompressG1(data []byte) (*bn256.G1, error) {
+	e, err := bn256.Decompress(data)
+	if err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(e.Compress(), data) {
+		return nil, errors.New("bls: non canonical encoding of a compressed signature")
+	}
+	return e, nil
+}
+
+// unmarshalG2 decodes a G2 point, accepting only the encoding that Marshal produces for it
+func unmarshalG2(data []byte) (*bn256.G2, error) {
+	gx := newG2()
+	if _, err := gx.Unmarshal(data); err != nil {
+		return nil, err
+	}
+	if !bytes.Equal(gx.Marshal(), data) {
+		return nil, errors.New("bls: non canonical encoding of a public key")
+	}
+	return gx, nil
+}
+
 func encodeToText(data []byte) []byte {
 	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(data)))
 	base64.RawURLEncoding.Encode(buf, data)
-- 
2.43.0


From cc44324ffa6faa0124973b720b174a7d336d734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:32 +0000
Subject: [PATCH 04/30] fix: bls: encoding a key or a signature raced with its
 concurrent use

---
 bls/bls.go | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/bls/bls.go b/bls/bls.go
index 958e257..3fa775a 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -121,6 +121,8 @@ func GenKeyPair(randReader io.Reader) (*PublicKey, *SecretKey, error) {
 		return nil, nil, err
 	}
 
+	// marshaling normalizes the point while nobody else can see it
+	_ = gx.Marshal()
 	return &PublicKey{gx}, &SecretKey{x}, nil
 }
 
@@ -184,16 +186,10 @@ func NewApk(pk *PublicKey) *Apk {
 	}
 }
 
-// Copy the APK by marshalling and unmarshalling the internals. It is somewhat
-// wasteful but does the job
+// Copy the APK
 func (apk *Apk) Copy() *Apk {
-	g2 := new(bn256.G2)
-	b := apk.gx.Marshal()
-	// no need to check errors. We deal with well formed APKs
-	_, _ = g2.Unmarshal(b)
-
 	cpy := &Apk{
-		PublicKey: &PublicKey{g2},
+		PublicKey: &PublicKey{newG2().Set(apk.gx)},
 	}
 	return cpy
 }
@@ -269,15 +265,9 @@ func UnmarshalSignature(sig []byte) (*Signature, error) {
 	return sigma, nil
 }
 
-// Copy (inefficiently) the Signature by unmarshaling and marshaling the
-// embedded G1
+// Copy the Signature
 func (sigma *Signature) Copy() *Signature {
-	b := sigma.e.Marshal()
-	s := &Signature{
-		e: new(bn256.G1),
-	}
-	_, _ = s.e.Unmarshal(b)
-	return s
+	return &Signature{e: newG1().Set(sigma.e)}
 }
 
 // Add creates an aggregated signature from a normal BLS Signature and related public key
@@ -310,7 +300,7 @@ func (sigma *Signature) Aggregate(other *Signature) *Signature {
 
 // Compress the signature to the 32 byte form
 func (sigma *Signature) Compress() []byte {
-	return sigma.e.Compress()
+	return newG1().Set(sigma.e).Compress()
 }
 
 // Decompress reconstructs the 64 byte signature from the compressed form
@@ -325,7 +315,7 @@ func (sigma *Signature) Decompress(x []byte) error {
 
 // Marshal a Signature into a byte array
 func (sigma *Signature) Marshal() []byte {
-	return sigma.e.Marshal()
+	return newG1().Set(sigma.e).Marshal()
 }
 
 // Unmarshal a byte array into a Signature
@@ -401,7 +391,7 @@ func UnsafeSign(key *SecretKey, msg []byte) (*UnsafeSignature, error) {
 
 // Compress the signature to the 32 byte form
 func (usig *UnsafeSignature) Compress() []byte {
-	return usig.e.Compress()
+	return newG1().Set(usig.e).Compress()
 }
 
 // Decompress reconstructs the 64 byte signature from the compressed form
@@ -416,7 +406,7 @@ func (usig *UnsafeSignature) Decompress(x []byte) error {
 
 // Marshal an UnsafeSignature into a byte array
 func (usig *UnsafeSignature) Marshal() []byte {
-	return usig.e.Marshal()
+	return newG1().Set(usig.e).Marshal()
 }
 
 // Unmarshal a byte array into an UnsafeSignature
@@ -554,7 +544,7 @@ func (pk *PublicKey) Aggregate(pp *PublicKey) *PublicKey {
 
 // MarshalText encodes the string representation of the public key
 func (pk *PublicKey) MarshalText() ([]byte, error) {
-	return encodeToText(pk.gx.Marshal()), nil
+	return encodeToText(pk.Marshal()), nil
 }
 
 // UnmarshalText decode the string/byte representation into the public key
@@ -568,7 +558,8 @@ func (pk *PublicKey) UnmarshalText(data []byte) error {
 
 // Marshal returns the binary representation of the G2 point being the public key
 func (pk *PublicKey) Marshal() []byte {
-	return pk.gx.Marshal()
+	// bn256 normalizes the point in place: a copy keeps a shared key safe for concurrent use
+	return newG2().Set(pk.gx).Marshal()
 }
 
 // Unmarshal a public key from a byte array
-- 
2.43.0


From 8264de99e3e47b4e5d00c47d67e9c8d2d49b671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 05/30] fix: bls: aggregating nothing returned nil without an
 error, a batch of one aliased its signature

---
 bls/bls.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bls/bls.go b/bls/bls.go
index 3fa775a..3a28653 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -209,6 +209,10 @@ func UnmarshalApk(b []byte) (*Apk, error) {
 // AggregateApk aggregates the public key according to the following formula:
 // apk ← ∏ⁿᵢ₌₁ pk^H₁(pkᵢ)
 func AggregateApk(pks []*PublicKey) (*Apk, error) {
+	if len(pks) == 0 {
+		return nil, errors.New("bls: no public key to aggregate")
+	}
+
 	var apk *Apk
 	for i, pk := range pks {
 		if i == 0 {
@@ -429,10 +433,14 @@ func UnsafeAggregate(one, other *UnsafeSignature) *UnsafeSignature {
 // UnsafeBatch is a utility function to aggregate distinct messages
 // (if not distinct the scheme is vulnerable to chosen-key attack)
 func UnsafeBatch(sigs ...*UnsafeSignature) (*UnsafeSignature, error) {
+	if len(sigs) == 0 {
+		return nil, errors.New("bls: no signature to aggregate")
+	}
+
 	var sum *UnsafeSignature
 	for i, sig := range sigs {
 		if i == 0 {
-			sum = sig
+			sum = &UnsafeSignature{e: newG1().Set(sig.e)}
 		} else {
 			sum = UnsafeAggregate(sum, sig)
 		}
-- 
2.43.0


From 11a46db26188feeec3766e036d24c0dae59b39e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:24 +0000
Subject: [PATCH 06/30] fix: bls: public keys outside of the group of order q
 (and the identity) were accepted

---
 bls/bls.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bls/bls.go b/bls/bls.go
index 3a28653..4332bca 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -613,9 +613,29 @@ func unmarshalG2(data []byte) (*bn256.G2, error) {
 	if !bytes.Equal(gx.Marshal(), data) {
 		return nil, errors.New("bls: non canonical encoding of a public key")
 	}
+	if isInfinity(gx) || !isInfinity(timesOrder(gx)) {
+		return nil, errors.New("bls: the public key is not a point of order q")
+	}
 	return gx, nil
 }
 
+// timesOrder multiplies a point of the twist by the order of G2. bn256.ScalarMult would reduce the scalar to zero,
+// bn256.Unmarshal checks nothing but the curve equation
+func timesOrder(gx *bn256.G2) *bn256.G2 {
+	res := newG2().Set(gx)
+	for i := bn256.Order.BitLen() - 2; i >= 0; i-- {
+		res = newG2().Add(res, res)
+		if bn256.Order.Bit(i) == 1 {
+			res = newG2().Add(res, gx)
+		}
+	}
+	return res
+}
+
+func isInfinity(gx *bn256.G2) bool {
+	return len(newG2().Set(gx).Marshal()) == 1
+}
+
 func encodeToText(data []byte) []byte {
 	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(data)))
 	base64.RawURLEncoding.Encode(buf, data)
-- 
2.43.0


From c0040c3480626cbc9407a0b5d09b30e995c15260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:26 +0000
Subject: [PATCH 07/30] fix: mlsag: a ring of one could neither sign nor verify

---
 mlsag/mlsag.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 0f857e7..5e0b536 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -211,7 +211,7 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	var prevChallenge ristretto.Scalar
 	prevChallenge.Set(&CjPlusOne)
 
-	for k := secretIndex + 2; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
+	for k := (secretIndex + 2) % numUsers; k != (secretIndex+1)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 
 		prevIndex := (i - 1) % numUsers
@@ -269,7 +269,7 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 
 	var prevChallenge = sig.c
 
-	for k := index + 1; k != (index)%numUsers; k = (k + 1) % numUsers {
+	for k := (index + 1) % numUsers; k != (index)%numUsers; k = (k + 1) % numUsers {
 		i := k % numUsers
 		prevIndex := (i - 1) % numUsers
 		if prevIndex < 0 {
-- 
2.43.0


From 238d9695bc5b18dac41d3eb01861e63a79c79fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:29 +0000
Subject: [PATCH 08/30] fix: mlsag: proving again and SubCommToZero corrupted
 issued signatures and the caller's keys

---
 mlsag/dualkey.go |  6 +++++-
 mlsag/mlsag.go   | 11 +++++++----
 mlsag/proof.go   | 11 ++++++++++-
 mlsag/pubkeys.go |  6 ++++++
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/mlsag/dualkey.go b/mlsag/dualkey.go
index 5876479..f2abffa 100644
--- a/mlsag/dualkey.go
+++ b/mlsag/dualkey.go
@@ -31,7 +31,7 @@ func (d *DualKey) SetCommToZero(key ristretto.Scalar) ristretto.Point {
 }
 
 func (d *DualKey) SetMsg(msg []byte) {
-	d.Proof.msg = msg
+	d.Proof.msg = append([]byte(nil), msg...)
 }
 
 // SubCommToZero subtracts p from every point from the second public key
@@ -49,6 +49,10 @@ func (d *DualKey) Prove() (*Signature, ristretto.Point, error) {
 		return nil, ristretto.Point{}, errors.New("primary key or commitment to zero cannot be zero")
 	}
 
+	// Drop the secrets of a previous call
+	d.privKeys = nil
+	d.signerPubKeys = PubKeys{}
+
 	d.AddSecret(d.dualkeys[0])
 	d.AddSecret(d.dualkeys[1])
 
diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 5e0b536..89fbf66 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -248,11 +248,14 @@ func (proof *Proof) prove(skipLastKeyImage bool) (*Signature, []ristretto.Point,
 	// replace real response in responses array
 	responses[proof.index] = realResponse
 
+	// The signature must not change together with the proof it comes from
 	sig := &Signature{
-		c:       challenges[0],
-		r:       responses,
-		PubKeys: proof.pubKeysMatrix,
-		Msg:     proof.msg,
+		c:   challenges[0],
+		r:   responses,
+		Msg: append([]byte(nil), proof.msg...),
+	}
+	for i := range proof.pubKeysMatrix {
+		sig.PubKeys = append(sig.PubKeys, proof.pubKeysMatrix[i].clone())
 	}
 
 	return sig, keyImages, nil
diff --git a/mlsag/proof.go b/mlsag/proof.go
index 71a130f..020e40b 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -30,7 +30,7 @@ type Proof struct {
 
 func (p *Proof) addPubKeys(keys PubKeys) {
 	//	// xxx: return an error if there is already a key vector in marix and their sizes do not match
-	p.pubKeysMatrix = append(p.pubKeysMatrix, keys)
+	p.pubKeysMatrix = append(p.pubKeysMatrix, keys.clone())
 }
 
 func (p *Proof) AddDecoy(keys PubKeys) {
@@ -45,6 +45,15 @@ func (p *Proof) AddDecoys(keys []PubKeys) {
 }
 
 func (proof *Proof) addSignerPubKey() {
+	// Remove the signers pubkey which a previous proof left in the matrix
+	var decoys []PubKeys
+	for _, keys := range proof.pubKeysMatrix {
+		if keys.decoy {
+			decoys = append(decoys, keys)
+		}
+	}
+	proof.pubKeysMatrix = decoys
+
 	// Add signers pubkey to matrix
 	proof.signerPubKeys.decoy = false
 	proof.addPubKeys(proof.signerPubKeys)
diff --git a/mlsag/pubkeys.go b/mlsag/pubkeys.go
index ebc2cd6..22dbf04 100644
--- a/mlsag/pubkeys.go
+++ b/mlsag/pubkeys.go
@@ -31,6 +31,12 @@ func (p *PubKeys) Equals(other PubKeys) bool {
 	return true
 }
 
+// clone returns a copy which does not share the keys with p
+func (p PubKeys) clone() PubKeys {
+	p.keys = append([]ristretto.Point(nil), p.keys...)
+	return p
+}
+
 func (p PubKeys) Encode(w io.Writer) error {
 	for i := range p.keys {
 		err := binary.Write(w, binary.BigEndian, p.keys[i].Bytes())
-- 
2.43.0


From 728df0994a571170b43b6b166df44d8503341abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:31 +0000
Subject: [PATCH 09/30] fix: mlsag: the position of the signer was predictable
 from the time of signing

---
 mlsag/proof.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mlsag/proof.go b/mlsag/proof.go
index 020e40b..9731831 100644
--- a/mlsag/proof.go
+++ b/mlsag/proof.go
@@ -1,9 +1,9 @@
 package mlsag
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
-	"time"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -78,9 +78,12 @@ func privKeyToPubKey(privkey ristretto.Scalar) ristretto.Point {
 
 // shuffle all pubkeys and sets the index
 func (p *Proof) shuffleSet() error {
-	r := rand.New(rand.NewSource(time.Now().Unix()))
 	for i := len(p.pubKeysMatrix) - 1; i > 0; i-- {
-		j := r.Intn(i + 1)
+		r, err := rand.Int(rand.Reader, big.NewInt(int64(i+1)))
+		if err != nil {
+			return err
+		}
+		j := int(r.Int64())
 		p.pubKeysMatrix[i], p.pubKeysMatrix[j] = p.pubKeysMatrix[j], p.pubKeysMatrix[i]
 	}
 	// XXX: Optimise away the below for loop by storing the index when appended
-- 
2.43.0


From eebfa6925bb3d52f96f87a282e493cce68b5a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:34 +0000
Subject: [PATCH 10/30] fix: mlsag: Verify panicked on malformed signatures and
 accepted uninitialised points

---
 mlsag/mlsag.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 89fbf66..3a44a8e 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -268,6 +268,21 @@ func (sig *Signature) Verify(keyImages []ristretto.Point) (bool, error) {
 	}
 
 	numUsers := len(sig.r)
+	numKeysPerUser := sig.PubKeys[0].Len()
+	if len(sig.PubKeys) != numUsers || len(keyImages) > numKeysPerUser {
+		return false, errors.New("the number of responses, pubkeys and key images do not match")
+	}
+	for i := range sig.r {
+		if sig.r[i].Len() != numKeysPerUser || sig.PubKeys[i].Len() != numKeysPerUser {
+			return false, errors.New("all vectors of responses and pubkeys must be the same size")
+		}
+		if hasInvalidPoint(sig.PubKeys[i].keys) {
+			return false, errors.New("invalid point in the pubkeys")
+		}
+	}
+	if hasInvalidPoint(keyImages) {
+		return false, errors.New("invalid point in the key images")
+	}
 	index := 0
 
 	var prevChallenge = sig.c
@@ -421,6 +436,17 @@ func CalculateKeyImage(privKey ristretto.Scalar, pubKey ristretto.Point) ristret
 	return keyImage
 }
 
+// hasInvalidPoint reports whether one of the points is the zero value of its type, which
+// belongs to no curve and absorbs whatever it is added to
+func hasInvalidPoint(points []ristretto.Point) bool {
+	for i := range points {
+		if points[i].Z.IsNonZeroI() == 0 {
+			return true
+		}
+	}
+	return false
+}
+
 func isNumInList(x int, numList []int) bool {
 	for _, b := range numList {
 		if b == x {
-- 
2.43.0


From 9a55dc9b8078480b1b411f73564b5ca1643feac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:06 +0000
Subject: [PATCH 11/30] fix: mlsag: Decode allocated what the peer asked for
 and took non canonical encodings, Equals ignored or overran responses

---
 mlsag/mlsag.go     | 39 +++++++++++++++++++++++++++++++++++----
 mlsag/pubkeys.go   |  7 +------
 mlsag/responses.go |  4 +---
 3 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/mlsag/mlsag.go b/mlsag/mlsag.go
index 3a44a8e..afd9e72 100644
--- a/mlsag/mlsag.go
+++ b/mlsag/mlsag.go
@@ -41,6 +41,18 @@ func (s *Signature) Encode(w io.Writer, encodeKeys bool) error {
 		return err
 	}
 
+	// Decode expects as many pubkeys as responses
+	if encodeKeys {
+		if len(s.PubKeys) != len(s.r) {
+			return errors.New("the number of responses and pubkeys do not match")
+		}
+		for i := range s.PubKeys {
+			if s.PubKeys[i].Len() != s.r[0].Len() {
+				return errors.New("all vectors of responses and pubkeys must be the same size")
+			}
+		}
+	}
+
 	// Encode the responses
 	for i := range s.r {
 		err = s.r[i].Encode(w)
@@ -80,18 +92,30 @@ func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
 	if err != nil {
 		return err
 	}
+	if lenR == 0 {
+		s.r = nil
+		if decodeKeys {
+			s.PubKeys = nil
+		}
+		return nil
+	}
 	err = binary.Read(r, binary.BigEndian, &numResponses)
 	if err != nil {
 		return err
 	}
+	if numResponses == 0 {
+		return errors.New("cannot have zero responses per user")
+	}
 
-	// Decode the responses
-	s.r = make([]Responses, lenR)
+	// Decode the responses. The slice grows with the data, since lenR is not to be trusted
+	s.r = nil
 	for i := uint32(0); i < lenR; i++ {
-		err = s.r[i].Decode(r, numResponses)
+		var res Responses
+		err = res.Decode(r, numResponses)
 		if err != nil {
 			return err
 		}
+		s.r = append(s.r, res)
 	}
 
 	if !decodeKeys {
@@ -115,6 +139,10 @@ func (s Signature) Equals(other Signature, includeKeys bool) bool {
 		return ok
 	}
 
+	if len(s.r) != len(other.r) {
+		return false
+	}
+
 	for i := range s.r {
 		ok = s.r[i].Equals(other.r[i])
 		if !ok {
@@ -463,7 +491,7 @@ func readerToPoint(r io.Reader, p *ristretto.Point) error {
 		return err
 	}
 	ok := p.SetBytes(&x)
-	if !ok {
+	if !ok || !bytes.Equal(p.Bytes(), x[:]) {
 		return errors.New("point not encodable")
 	}
 	return nil
@@ -475,5 +503,8 @@ func readerToScalar(r io.Reader, s *ristretto.Scalar) error {
 		return err
 	}
 	s.SetBytes(&x)
+	if !bytes.Equal(s.Bytes(), x[:]) {
+		return errors.New("scalar not encodable")
+	}
 	return nil
 }
diff --git a/mlsag/pubkeys.go b/mlsag/pubkeys.go
index 22dbf04..54c78d7 100644
--- a/mlsag/pubkeys.go
+++ b/mlsag/pubkeys.go
@@ -53,17 +53,12 @@ func (p *PubKeys) Decode(r io.Reader, numKeys uint32) error {
 		return errors.New("struct is nil")
 	}
 
-	var xBytes [32]byte
 	var x ristretto.Point
 	for i := uint32(0); i < numKeys; i++ {
-		err := binary.Read(r, binary.BigEndian, &xBytes)
+		err := readerToPoint(r, &x)
 		if err != nil {
 			return err
 		}
-		ok := x.SetBytes(&xBytes)
-		if !ok {
-			return errors.New("point not encodable")
-		}
 		p.AddPubKey(x)
 	}
 	return nil
diff --git a/mlsag/responses.go b/mlsag/responses.go
index df8f892..2b3ffaa 100644
--- a/mlsag/responses.go
+++ b/mlsag/responses.go
@@ -48,14 +48,12 @@ func (res *Responses) Decode(r io.Reader, numResponses uint32) error {
 		return errors.New("struct is nil")
 	}
 
-	var xBytes [32]byte
 	var x ristretto.Scalar
 	for i := uint32(0); i < numResponses; i++ {
-		err := binary.Read(r, binary.BigEndian, &xBytes)
+		err := readerToScalar(r, &x)
 		if err != nil {
 			return err
 		}
-		x.SetBytes(&xBytes)
 		res.AddResponse(x)
 	}
 	return nil
-- 
2.43.0


From 91c43bc52c96303ad706771a6056dcfe0d18e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:09 +0000
Subject: [PATCH 12/30] fix: blsag: Sign left the mixins out of the ring and
 gave the position of the signer away

---
 ringsig/blsag/blsag.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index 7a639bb..c4f7ea4 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -2,8 +2,8 @@ package blsag
 
 import (
 	"bytes"
-	"math/rand"
-	"time"
+	"crypto/rand"
+	"math/big"
 
 	ristretto "github.com/bwesterb/go-ristretto"
 )
@@ -25,8 +25,11 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 	pK.ScalarMultBase(&sK)
 
 	// secret j index
-	rand.Seed(time.Now().UnixNano())
-	j := rand.Intn(len(mixin) + 1)
+	r, err := rand.Int(rand.Reader, big.NewInt(int64(len(mixin)+1)))
+	if err != nil {
+		panic(err)
+	}
+	j := int(r.Int64())
 
 	// Hp(pK)
 	var hPK ristretto.Point
@@ -42,7 +45,7 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	// generate s_i where i =/= j and s_i E Zq
 	sVals := make([]ristretto.Scalar, len(mixin)+1)
-	for i := 1; i < len(sVals); i++ {
+	for i := 0; i < len(sVals); i++ {
 		var s ristretto.Scalar
 		s.Rand()
 		sVals[i] = s
@@ -69,6 +72,8 @@ func Sign(m []byte, mixin []ristretto.Point, sK ristretto.Scalar) RingSignature
 
 	pubKeys := make([]ristretto.Point, len(mixin)+1)
 	pubKeys[j] = pK // add signer
+	copy(pubKeys, mixin[:j])
+	copy(pubKeys[j+1:], mixin[j:])
 
 	for i := j + 1; ; i++ {
 
-- 
2.43.0


From 3c645edd2cbcd370bff84c3a471f12b4ffcd8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:12 +0000
Subject: [PATCH 13/30] fix: blsag: Verify panicked on malformed rings and
 accepted uninitialised points

---
 ringsig/blsag/blsag.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ringsig/blsag/blsag.go b/ringsig/blsag/blsag.go
index c4f7ea4..9629faf 100644
--- a/ringsig/blsag/blsag.go
+++ b/ringsig/blsag/blsag.go
@@ -113,6 +113,19 @@ func Verify(m []byte, ringsig RingSignature) bool {
 	// For all i, c_i+1 = H(m, L_i, R_i)
 
 	numPubKeys := len(ringsig.PubKeys)
+	if numPubKeys == 0 || len(ringsig.S) != numPubKeys {
+		return false
+	}
+
+	// the zero value of a point belongs to no curve and absorbs whatever it is added to
+	if ringsig.I.Z.IsNonZeroI() == 0 {
+		return false
+	}
+	for i := range ringsig.PubKeys {
+		if ringsig.PubKeys[i].Z.IsNonZeroI() == 0 {
+			return false
+		}
+	}
 
 	currC := ringsig.C // this is first c value c[0]
 
-- 
2.43.0


From 48bab559a664a9354b11ec5b3ee8fb1ac5980a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:24 +0000
Subject: [PATCH 14/30] fix: rangeproof: Prove and Verify depended on the
 number of values of the last proof, and raced on it

---
 rangeproof/debug.go      | 34 +++++++++++++++++------------
 rangeproof/poly.go       | 16 +++++++-------
 rangeproof/rangeproof.go | 47 ++++++++++++++++++++++------------------
 3 files changed, 54 insertions(+), 43 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index ecaaacc..73db3df 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -43,14 +43,16 @@ func debugT0(aL, aR []ristretto.Scalar, y, z ristretto.Scalar) (ristretto.Scalar
 
 	aRPlusZ := vector.AddScalar(aR, z)
 
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	m := len(aL) / N
+
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
 	hada, err := vector.Hadamard(yNM, aRPlusZ)
 	if err != nil {
 		return ristretto.Scalar{}, err
 	}
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, m)
 
 	rightIP, err := vector.Add(zMTwoN, hada)
 	if err != nil {
@@ -71,23 +73,25 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 	var P ristretto.Point
 	P.SetZero()
 
+	m := len(l) / N
+
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32((N * M)))
+	ped.BaseVector.Compute(uint32((N * m)))
 
 	G := ped.BaseVector.Bases
 
-	lG, err := vector.Exp(l, G, N, M)
+	lG, err := vector.Exp(l, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<l(x), G>")
 	}
 	// <aL,G>
-	aLG, err := vector.Exp(aL, G, N, M)
+	aLG, err := vector.Exp(aL, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<aL,G>")
 	}
 	// x<sL, G>
-	sLG, err := vector.Exp(sL, G, N, M)
+	sLG, err := vector.Exp(sL, G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "x<sL, G>")
 	}
@@ -97,7 +101,7 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 	// <-z1, G>
 	var zNeg ristretto.Scalar
 	zNeg.Neg(&z)
-	zNegG, err := vector.Exp(vector.FromScalar(zNeg, uint32(N*M)), G, N, M)
+	zNegG, err := vector.Exp(vector.FromScalar(zNeg, uint32(N*m)), G, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<-z1, G>")
 	}
@@ -112,30 +116,32 @@ func debugLxG(l []ristretto.Scalar, x, z ristretto.Scalar, aL, aR, sL []ristrett
 // < r(x), H'> = <aR, H> + x<sR, H> + <z*y^(n*m), H'> + sum( (< <z^(j+1),2^n>, H') ) from j = 1 to j = m
 func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []ristretto.Scalar) (bool, error) {
 
+	m := len(r) / N
+
 	genData := []byte("dusk.BulletProof.vec1")
 
 	genData = append(genData, uint8(1))
 
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32((N * M)))
+	ped2.BaseVector.Compute(uint32((N * m)))
 
 	H := ped2.BaseVector.Bases
 
 	Hprime := computeHprime(H, y)
 
 	// <r(x), H'>
-	rH, err := vector.Exp(r, Hprime, N, M)
+	rH, err := vector.Exp(r, Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<r(x), H'>")
 	}
 
 	// <aR,H>
-	aRH, err := vector.Exp(aR, H, N, M)
+	aRH, err := vector.Exp(aR, H, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<aR,H>")
 	}
 	// x<sR, H>
-	sRH, err := vector.Exp(sR, H, N, M)
+	sRH, err := vector.Exp(sR, H, N, m)
 	if err != nil {
 
 		return false, errors.Wrap(err, "x<sR, H>")
@@ -145,18 +151,18 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	xsRH.ScalarMult(&sRH, &x)
 
 	// y^(n*m)
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(N*m))
 
 	// z*y^nm
 	zMulYn := vector.MulScalar(yNM, z)
 
 	// p = <z*y^nm , H'>
-	p, err := vector.Exp(zMulYn, Hprime, N, M)
+	p, err := vector.Exp(zMulYn, Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "<z*y^nm , H'>")
 	}
 	// k = sum( (< <z^(j+1) * 2^n>, H') ) from j = 1 to j = m
-	k, err := vector.Exp(sumZMTwoN(z), Hprime, N, M)
+	k, err := vector.Exp(sumZMTwoN(z, m), Hprime, N, m)
 	if err != nil {
 		return false, errors.Wrap(err, "k = sum()...")
 	}
diff --git a/rangeproof/poly.go b/rangeproof/poly.go
index eef6fe7..2c5f25d 100644
--- a/rangeproof/poly.go
+++ b/rangeproof/poly.go
@@ -24,9 +24,9 @@ func computePoly(aL, aR, sL, sR []ristretto.Scalar, y, z ristretto.Scalar) (*pol
 	l1 := sL
 
 	// calculate r_0
-	yNM := vector.ScalarPowers(y, uint32(N*M))
+	yNM := vector.ScalarPowers(y, uint32(len(aL)))
 
-	zMTwoN := sumZMTwoN(z)
+	zMTwoN := sumZMTwoN(z, len(aL)/N)
 
 	r0 := vector.AddScalar(aR, z)
 
@@ -155,20 +155,20 @@ func (p *polynomial) computeT0(y, z ristretto.Scalar, v []ristretto.Scalar, n, m
 // calculates sum( z^(1+j) * ( 0^(j-1)n || 2 ^n || 0^(m-j)n ) ) from j = 1 to j=M (71)
 // implementation taken directly from java implementation.
 // XXX: Look into ways to speed this up, and improve readability
-// XXX: pass n and m as parameters
-func sumZMTwoN(z ristretto.Scalar) []ristretto.Scalar {
+// XXX: pass n as parameter
+func sumZMTwoN(z ristretto.Scalar, m int) []ristretto.Scalar {
 
-	res := make([]ristretto.Scalar, N*M)
+	res := make([]ristretto.Scalar, N*m)
 
-	zM := vector.ScalarPowers(z, uint32(M+3))
+	zM := vector.ScalarPowers(z, uint32(m+3))
 
 	var two ristretto.Scalar
 	two.SetBigInt(big.NewInt(2))
 	twoN := vector.ScalarPowers(two, N)
 
-	for i := 0; i < M*N; i++ {
+	for i := 0; i < m*N; i++ {
 		res[i].SetZero()
-		for j := 1; j <= M; j++ {
+		for j := 1; j <= m; j++ {
 			if (i >= (j-1)*N) && (i < j*N) {
 				res[i].MulAdd(&zM[j+1], &twoN[i-(j-1)*N], &res[i])
 			}
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 129dbeb..39bd255 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -20,6 +20,7 @@ import (
 const N = 64
 
 // M is the number of outputs for one bulletproof
+// Deprecated: the number of outputs is the one of the proof at hand, this variable has no effect
 var M = 1
 
 // M is the maximum number of values allowed per rangeproof
@@ -48,14 +49,14 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		return Proof{}, errors.New("length of slice v is zero")
 	}
 
-	M = len(v)
-	if M > maxM {
+	m := len(v)
+	if m > maxM {
 		return Proof{}, fmt.Errorf("maximum amount of values must be less than %d", maxM)
 	}
 
 	// Pad zero values until we have power of two
-	padAmount := innerproduct.DiffNextPow2(uint32(M))
-	M = M + int(padAmount)
+	padAmount := innerproduct.DiffNextPow2(uint32(m))
+	m = m + int(padAmount)
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
@@ -63,10 +64,10 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	}
 
 	// commitment to values v
-	Vs := make([]pedersen.Commitment, 0, M)
+	Vs := make([]pedersen.Commitment, 0, m)
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32((N * M)))
+	ped.BaseVector.Compute(uint32((N * m)))
 
 	// Hash for Fiat-Shamir
 	hs := fiatshamir.HashCacher{Cache: []byte{}}
@@ -81,8 +82,8 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 		hs.Append(V.Value.Bytes())
 	}
 
-	aLs := make([]ristretto.Scalar, 0, N*M)
-	aRs := make([]ristretto.Scalar, 0, N*M)
+	aLs := make([]ristretto.Scalar, 0, N*m)
+	aRs := make([]ristretto.Scalar, 0, N*m)
 
 	for i := range v {
 		// Compute Bitcommits aL and aR to v
@@ -95,7 +96,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	A := computeA(ped, aLs, aRs)
 
 	// // Compute S
-	S, sL, sR := computeS(ped)
+	S, sL, sR := computeS(ped, m)
 
 	// // update Fiat-Shamir
 	hs.Append(A.Value.Bytes(), S.Value.Bytes())
@@ -154,7 +155,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 			return Proof{}, errors.New("[Prove]: Test t0 value does not match the value calculated from the polynomial")
 		}
 
-		polyt0 := poly.computeT0(y, z, v, N, uint32(M))
+		polyt0 := poly.computeT0(y, z, v, N, uint32(m))
 		if !polyt0.Equals(&poly.t0) {
 			return Proof{}, errors.New("[Prove]: t0 value from delta function, does not match the polynomial t0 value(Correct)")
 		}
@@ -180,11 +181,11 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 
 	var yinv ristretto.Scalar
 	yinv.Inverse(&y)
-	Hpf := vector.ScalarPowers(yinv, uint32(N*M))
+	Hpf := vector.ScalarPowers(yinv, uint32(N*m))
 
 	genData = append(genData, uint8(1))
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32(N * M))
+	ped2.BaseVector.Compute(uint32(N * m))
 
 	H := ped2.BaseVector.Bases
 	G := ped.BaseVector.Bases
@@ -216,10 +217,10 @@ func computeA(ped *pedersen.Pedersen, aLs, aRs []ristretto.Scalar) pedersen.Comm
 }
 
 // S = kH + sL*G + sR * H
-func computeS(ped *pedersen.Pedersen) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
+func computeS(ped *pedersen.Pedersen, m int) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
 
-	sL, sR := make([]ristretto.Scalar, N*M), make([]ristretto.Scalar, N*M)
-	for i := 0; i < N*M; i++ {
+	sL, sR := make([]ristretto.Scalar, N*m), make([]ristretto.Scalar, N*m)
+	for i := 0; i < N*m; i++ {
 		var randA ristretto.Scalar
 		randA.Rand()
 		sL[i] = randA
@@ -322,14 +323,16 @@ func computeHprime(H []ristretto.Point, y ristretto.Scalar) []ristretto.Point {
 // Verify takes a bullet proof and returns true only if the proof was valid
 func Verify(p Proof) (bool, error) {
 
+	m := len(p.V)
+
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
-	ped.BaseVector.Compute(uint32(N * M))
+	ped.BaseVector.Compute(uint32(N * m))
 
 	genData = append(genData, uint8(1))
 
 	ped2 := pedersen.New(genData)
-	ped2.BaseVector.Compute(uint32(N * M))
+	ped2.BaseVector.Compute(uint32(N * m))
 
 	G := ped.BaseVector.Bases
 	H := ped2.BaseVector.Bases
@@ -354,6 +357,8 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	var c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11 ristretto.Point
 
+	m := len(V)
+
 	var c ristretto.Scalar
 	c.Rand()
 
@@ -378,7 +383,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	// h vector scalars : y Had (bsInv - zM2N) - z points : H
 	bs := vector.MulScalar(sInv, ipproof.B)
-	zAnd2 := sumZMTwoN(z)
+	zAnd2 := sumZMTwoN(z, m)
 	h, err := vector.Sub(bs, zAnd2)
 	if err != nil {
 		return false, errors.Wrap(err, "[h1]")
@@ -386,7 +391,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 
 	var yinv ristretto.Scalar
 	yinv.Inverse(&y)
-	Hpf := vector.ScalarPowers(yinv, uint32(N*M))
+	Hpf := vector.ScalarPowers(yinv, uint32(N*m))
 
 	h, err = vector.Hadamard(h, Hpf)
 	if err != nil {
@@ -401,7 +406,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	}
 
 	// G basepoint gbp : (c * w(ab-t)) + t-D(y,z) point : G
-	delta := computeDelta(y, z, N, uint32(M))
+	delta := computeDelta(y, z, N, uint32(m))
 	var tMinusDelta ristretto.Scalar
 	tMinusDelta.Sub(&t, &delta)
 
@@ -449,7 +454,7 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	c8.PublicScalarMult(&c8, &c)
 
 	// scalar: z_j+2  points: Vj
-	zM := vector.ScalarPowers(z, uint32(M))
+	zM := vector.ScalarPowers(z, uint32(m))
 	var zSq ristretto.Scalar
 	zSq.Square(&z)
 	zM = vector.MulScalar(zM, zSq)
-- 
2.43.0


From 565508fc40b81f044ec07ee16e7c7b006df900e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:28 +0000
Subject: [PATCH 15/30] fix: innerproduct: Decode ignored undecodable points,
 which made forged range proofs verify

---
 rangeproof/innerproduct/innerproduct.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index f9ef448..923ca74 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -401,6 +401,9 @@ func (proof *Proof) Encode(w io.Writer) error {
 	if err != nil {
 		return err
 	}
+	if len(proof.L) != len(proof.R) {
+		return errors.New("proof was not formatted correctly")
+	}
 	lenL := uint32(len(proof.L))
 
 	for i := uint32(0); i < lenL; i++ {
@@ -433,6 +436,9 @@ func (proof *Proof) Decode(r io.Reader) error {
 	}
 	proof.A.SetBytes(&ABytes)
 	proof.B.SetBytes(&BBytes)
+	if !bytes.Equal(proof.A.Bytes(), ABytes[:]) || !bytes.Equal(proof.B.Bytes(), BBytes[:]) {
+		return errors.New("scalar not encodable")
+	}
 
 	buf := &bytes.Buffer{}
 	_, err = buf.ReadFrom(r)
@@ -440,7 +446,7 @@ func (proof *Proof) Decode(r io.Reader) error {
 		return err
 	}
 	numBytes := len(buf.Bytes())
-	if numBytes%32 != 0 {
+	if numBytes%64 != 0 {
 		return errors.New("proof was not formatted correctly")
 	}
 	lenL := uint32(numBytes / 64)
@@ -458,8 +464,12 @@ func (proof *Proof) Decode(r io.Reader) error {
 		if err != nil {
 			return err
 		}
-		proof.L[i].SetBytes(&LBytes)
-		proof.R[i].SetBytes(&RBytes)
+		if !proof.L[i].SetBytes(&LBytes) || !bytes.Equal(proof.L[i].Bytes(), LBytes[:]) {
+			return errors.New("point not encodable")
+		}
+		if !proof.R[i].SetBytes(&RBytes) || !bytes.Equal(proof.R[i].Bytes(), RBytes[:]) {
+			return errors.New("point not encodable")
+		}
 	}
 
 	return nil
-- 
2.43.0


From 38de530149e4b41a41d1a9fe312340328e232afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 16/30] fix: rangeproof: Verify panicked on malformed proofs
 and accepted uninitialised points

---
 rangeproof/rangeproof.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 39bd255..52e62a0 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -324,6 +324,12 @@ func computeHprime(H []ristretto.Point, y ristretto.Scalar) []ristretto.Point {
 func Verify(p Proof) (bool, error) {
 
 	m := len(p.V)
+	if m < 1 || m > maxM || innerproduct.DiffNextPow2(uint32(m)) != 0 {
+		return false, errors.New("the number of commitments is not a power of two between 1 and the maximum allowed")
+	}
+	if p.IPProof == nil || len(p.IPProof.L) != len(p.IPProof.R) || len(p.IPProof.L) > 31 || 1<<uint(len(p.IPProof.L)) != N*m {
+		return false, errors.New("the inner product proof does not match the number of commitments")
+	}
 
 	genData := []byte("dusk.BulletProof.vec1")
 	ped := pedersen.New(genData)
@@ -489,7 +495,8 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 	var zero ristretto.Point
 	zero.SetZero()
 
-	ok := zero.Equals(&sum)
+	// the zero value of a point belongs to no curve, and makes the sum equal to anything
+	ok := sum.Z.IsNonZeroI() == 1 && zero.Equals(&sum)
 	if !ok {
 		return false, errors.New("megacheck failed")
 	}
-- 
2.43.0


From e3e4a854d5f82d17881b5b8be1603b05b708c2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:34 +0000
Subject: [PATCH 17/30] fix: rangeproof: proving 2^N - 1 in debug mode failed

---
 rangeproof/debug.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rangeproof/debug.go b/rangeproof/debug.go
index 73db3df..e28f8ab 100644
--- a/rangeproof/debug.go
+++ b/rangeproof/debug.go
@@ -177,12 +177,12 @@ func debugRxHPrime(r []ristretto.Scalar, x, y, z ristretto.Scalar, aR, sR []rist
 	return rH.Equals(&rhs), nil
 }
 
-// debugsizeOfV returns true if v is less than 2^N - 1
+// debugsizeOfV returns true if v is not more than 2^N - 1
 func debugsizeOfV(v *big.Int) bool {
 	var twoN, e, one = big.NewInt(2), big.NewInt(int64(N)), big.NewInt(int64(1))
 	twoN.Exp(twoN, e, nil)
 	twoN.Sub(twoN, one)
 
 	cmp := v.Cmp(twoN)
-	return (cmp == -1)
+	return (cmp <= 0)
 }
-- 
2.43.0


From 7e85b8040c72cdd34a5022af26c539b266a3bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:37 +0000
Subject: [PATCH 18/30] fix: rangeproof: Prove padded the values in the
 caller's array

---
 rangeproof/rangeproof.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 52e62a0..87ec430 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -57,6 +57,7 @@ func Prove(v []ristretto.Scalar, debug bool) (Proof, error) {
 	// Pad zero values until we have power of two
 	padAmount := innerproduct.DiffNextPow2(uint32(m))
 	m = m + int(padAmount)
+	v = append([]ristretto.Scalar(nil), v...)
 	for i := uint32(0); i < padAmount; i++ {
 		var zeroScalar ristretto.Scalar
 		zeroScalar.SetZero()
-- 
2.43.0


From 8054c5d177df25099d3635a68ffbe0d9a3e06025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:41 +0000
Subject: [PATCH 19/30] fix: rangeproof: Equals overran the commitments and
 ignored the inner product proof

---
 rangeproof/innerproduct/innerproduct.go |  4 ++++
 rangeproof/rangeproof.go                | 22 +++++++++++++---------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 923ca74..dcd827e 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -485,6 +485,10 @@ func (proof *Proof) Equals(other Proof) bool {
 		return false
 	}
 
+	if len(proof.L) != len(other.L) || len(proof.R) != len(other.R) || len(proof.L) != len(proof.R) {
+		return false
+	}
+
 	for i := range proof.L {
 		if ok := proof.L[i].Equals(&other.L[i]); !ok {
 			return false
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 87ec430..534cc58 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -595,14 +595,16 @@ func (p *Proof) Decode(r io.Reader, includeCommits bool) error {
 
 // Equals returns proof equality with commitments
 func (p *Proof) Equals(other Proof, includeCommits bool) bool {
-	if len(p.V) != len(other.V) && includeCommits {
-		return false
-	}
+	if includeCommits {
+		if len(p.V) != len(other.V) {
+			return false
+		}
 
-	for i := range p.V {
-		ok := p.V[i].EqualValue(other.V[i])
-		if !ok {
-			return ok
+		for i := range p.V {
+			ok := p.V[i].EqualValue(other.V[i])
+			if !ok {
+				return ok
+			}
 		}
 	}
 
@@ -634,8 +636,10 @@ func (p *Proof) Equals(other Proof, includeCommits bool) bool {
 	if !ok {
 		return ok
 	}
-	return true
-	// return p.IPProof.Equals(*other.IPProof)
+	if p.IPProof == nil || other.IPProof == nil {
+		return p.IPProof == other.IPProof
+	}
+	return p.IPProof.Equals(*other.IPProof)
 }
 
 func readerToPoint(r io.Reader, p *ristretto.Point) error {
-- 
2.43.0


From d61f9537c4dcc00a649640dfe761ef6e3f484570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:13 +0000
Subject: [PATCH 20/30] fix: rangeproof, pedersen: Decode allocated what the
 peer asked for and took non canonical encodings

---
 rangeproof/pedersen/pedersen.go | 10 +++++++---
 rangeproof/rangeproof.go        | 10 +++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 75c6c3f..196f291 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -1,6 +1,7 @@
 package pedersen
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
@@ -79,7 +80,7 @@ func (c *Commitment) Decode(r io.Reader) error {
 		return err
 	}
 	ok := c.Value.SetBytes(&cBytes)
-	if !ok {
+	if !ok || !bytes.Equal(c.Value.Bytes(), cBytes[:]) {
 		return errors.New("could not set bytes for commitment, not an encodable point")
 	}
 	return nil
@@ -93,13 +94,16 @@ func DecodeCommitments(r io.Reader) ([]Commitment, error) {
 		return nil, err
 	}
 
-	comms := make([]Commitment, lenV)
+	// The slice grows with the data, since lenV is not to be trusted
+	comms := []Commitment{}
 
 	for i := uint32(0); i < lenV; i++ {
-		err := comms[i].Decode(r)
+		var c Commitment
+		err := c.Decode(r)
 		if err != nil {
 			return nil, err
 		}
+		comms = append(comms, c)
 	}
 
 	return comms, nil
diff --git a/rangeproof/rangeproof.go b/rangeproof/rangeproof.go
index 534cc58..842626b 100644
--- a/rangeproof/rangeproof.go
+++ b/rangeproof/rangeproof.go
@@ -1,6 +1,7 @@
 package rangeproof
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -508,6 +509,10 @@ func megacheckWithC(ipproof *innerproduct.Proof, mu, x, y, z, t, taux, w ristret
 // Encode a Proof
 func (p *Proof) Encode(w io.Writer, includeCommits bool) error {
 
+	if p.IPProof == nil {
+		return errors.New("proof has no inner product proof")
+	}
+
 	if includeCommits {
 		err := pedersen.EncodeCommitments(w, p.V)
 		if err != nil {
@@ -649,7 +654,7 @@ func readerToPoint(r io.Reader, p *ristretto.Point) error {
 		return err
 	}
 	ok := p.SetBytes(&x)
-	if !ok {
+	if !ok || !bytes.Equal(p.Bytes(), x[:]) {
 		return errors.New("point not encodable")
 	}
 	return nil
@@ -661,5 +666,8 @@ func readerToScalar(r io.Reader, s *ristretto.Scalar) error {
 		return err
 	}
 	s.SetBytes(&x)
+	if !bytes.Equal(s.Bytes(), x[:]) {
+		return errors.New("scalar not encodable")
+	}
 	return nil
 }
-- 
2.43.0


From ab40dc54db6cd8c6f734a8823490094c247a2f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:17 +0000
Subject: [PATCH 21/30] fix: pedersen: CommitToVectors wrote into the array of
 the caller's generator data

---
 rangeproof/pedersen/pedersen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 196f291..ab563a3 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -201,7 +201,7 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 			sum.Add(&sum, &commit)
 		} else {
 
-			genData := append(p.GenData, uint8(i))
+			genData := append(append([]byte(nil), p.GenData...), uint8(i))
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
-- 
2.43.0


From 6638b04644d3bae60de3c76f6e6d30e0b3be1895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:21 +0000
Subject: [PATCH 22/30] fix: vector: subtracting zero aliased the operand, the
 powers of zero lacked 0^0 = 1

---
 rangeproof/vector/vector.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/rangeproof/vector/vector.go b/rangeproof/vector/vector.go
index dacd1fa..43bad34 100644
--- a/rangeproof/vector/vector.go
+++ b/rangeproof/vector/vector.go
@@ -69,10 +69,6 @@ func Neg(a []ristretto.Scalar) []ristretto.Scalar {
 // SubScalar Subtracts a scalars value b, from every element in the slice a
 func SubScalar(a []ristretto.Scalar, b ristretto.Scalar) []ristretto.Scalar {
 
-	if b.IsNonZeroI() == 0 {
-		return a
-	}
-
 	res := make([]ristretto.Scalar, len(a))
 
 	for i := 0; i < len(a); i++ {
@@ -150,10 +146,6 @@ func ScalarPowers(a ristretto.Scalar, n uint32) []ristretto.Scalar {
 		return res
 	}
 
-	if a.IsNonZeroI() == 0 {
-		return res
-	}
-
 	var k ristretto.Scalar
 	k.SetOne()
 	res[0] = k
-- 
2.43.0


From 6528f2f4af8dc49d3e126e91f3e37ee57b2024f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:24 +0000
Subject: [PATCH 23/30] fix: innerproduct: Generate and Verify panicked on
 mismatched sizes and accepted uninitialised points

---
 rangeproof/innerproduct/innerproduct.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index dcd827e..58d0213 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -27,9 +27,12 @@ func Generate(GVec, HVec []ristretto.Point, aVec, bVec, HprimeFactors []ristrett
 
 	// XXX : When n is not a power of two, will the bulletproof struct pad it
 	// or will the inner product proof struct?
-	if !isPower2(uint32(n)) {
+	if n == 0 || !isPower2(uint32(n)) {
 		return nil, errors.New("[IPProof]: size of n (NM) is not a power of 2")
 	}
+	if len(HVec) != len(GVec) || len(aVec) != len(GVec) || len(bVec) != len(GVec) || len(HprimeFactors) != len(GVec) {
+		return nil, errors.New("[IPProof]: the vectors do not have the same size")
+	}
 
 	a := make([]ristretto.Scalar, len(aVec))
 	copy(a, aVec)
@@ -337,6 +340,10 @@ func (proof *Proof) VerifScalars() ([]ristretto.Scalar, []ristretto.Scalar, []ri
 
 // Verify is used for unit tests and verifies that a given proof evaluates to the point P
 func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristretto.Scalar, Q, P ristretto.Point, n int) bool {
+	if len(proof.L) != len(proof.R) || len(proof.L) > 31 || 1<<uint(len(proof.L)) != len(G) || len(H) != len(G) || len(HprimeFactor) < len(G) {
+		return false
+	}
+
 	uSq, uInvSq, s := proof.VerifScalars()
 
 	sInv := make([]ristretto.Scalar, len(s))
@@ -387,7 +394,7 @@ func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristrett
 	if err != nil {
 		return false
 	}
-	return have.Equals(&P)
+	return have.Z.IsNonZeroI() == 1 && P.Z.IsNonZeroI() == 1 && have.Equals(&P)
 }
 
 // Encode a Proof
-- 
2.43.0


From 62a750ad0c635a7a08154f8fefa79e686f4c81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:24 +0000
Subject: [PATCH 24/30] fix: merkletree: hashing two nodes wrote into the array
 of a payload's hash

---
 merkletree/merkletree.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 8f6ea8c..7e1b569 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -50,7 +50,7 @@ func VerifyNode(n *Node) ([]byte, error) {
 		return nil, err
 	}
 
-	return hash.Sha3256(append(leftBytes, rightBytes...))
+	return hashPair(leftBytes, rightBytes)
 }
 
 // CalculateNodeHash is a helper function for calculating the hash of a node
@@ -59,7 +59,13 @@ func CalculateNodeHash(n *Node) ([]byte, error) {
 		return n.Data.CalculateHash()
 	}
 
-	return hash.Sha3256(append(n.Left.Hash, n.Right.Hash...))
+	return hashPair(n.Left.Hash, n.Right.Hash)
+}
+
+// hashPair hashes the concatenation of two hashes. The hashes belong to the payloads, hence the
+// concatenation must not take place in their arrays
+func hashPair(left, right []byte) ([]byte, error) {
+	return hash.Sha3256(bytes.Join([][]byte{left, right}, nil))
 }
 
 // NewTree constructs a merkletree using the Payload/Content pl
@@ -123,9 +129,7 @@ func createIntermediate(nl []*Node) (*Node, error) {
 		if i+1 == len(nl) {
 			right = i
 		}
-		payloadHash := append(nl[left].Hash, nl[right].Hash...)
-
-		h, err := hash.Sha3256(payloadHash)
+		h, err := hashPair(nl[left].Hash, nl[right].Hash)
 		if err != nil {
 			return nil, err
 		}
@@ -208,8 +212,7 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 					return false, err
 				}
 
-				h, err := hash.Sha3256(append(leftBytes, rightBytes...))
-
+				h, err := hashPair(leftBytes, rightBytes)
 				if err != nil {
 					return false, err
 				}
-- 
2.43.0


From b63322b5fad1b4257f98585a3ecc8e7d813cb4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:26 +0000
Subject: [PATCH 25/30] fix: merkletree: RebuildTree took the duplicate for
 content, VerifyContent ignored the merkle root

---
 merkletree/merkletree.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/merkletree/merkletree.go b/merkletree/merkletree.go
index 7e1b569..43e1453 100644
--- a/merkletree/merkletree.go
+++ b/merkletree/merkletree.go
@@ -156,6 +156,10 @@ func createIntermediate(nl []*Node) (*Node, error) {
 func (t *Tree) RebuildTree() error {
 	var pl []Payload
 	for _, node := range t.Leaves {
+		// create adds the duplicate of the last leaf again
+		if node.IsDup {
+			continue
+		}
 		pl = append(pl, node.Data)
 	}
 
@@ -200,6 +204,7 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 		}
 
 		if ok {
+			root := leaf.Hash
 			currentParent := leaf.Parent
 			for currentParent != nil {
 				rightBytes, err := CalculateNodeHash(currentParent.Right)
@@ -221,10 +226,11 @@ func (t *Tree) VerifyContent(data Payload) (bool, error) {
 					return false, nil
 				}
 
+				root = h
 				currentParent = currentParent.Parent
 			}
 
-			return true, nil
+			return bytes.Equal(root, t.MerkleRoot), nil
 		}
 	}
 
-- 
2.43.0


From 5bc8492624cf3bcd8641cab86da29c5f7aa08059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:39 +0000
Subject: [PATCH 26/30] fix: bls: the text form of a key was accepted with line
 breaks in it

---
 bls/bls.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bls/bls.go b/bls/bls.go
index 4332bca..450636c 100644
--- a/bls/bls.go
+++ b/bls/bls.go
@@ -645,5 +645,12 @@ func encodeToText(data []byte) []byte {
 func decodeText(data []byte) ([]byte, error) {
 	buf := make([]byte, base64.RawURLEncoding.DecodedLen(len(data)))
 	n, err := base64.RawURLEncoding.Decode(buf, data)
-	return buf[:n], err
+	if err != nil {
+		return nil, err
+	}
+	// the decoder skips line breaks and ignores trailing bits
+	if !bytes.Equal(encodeToText(buf[:n]), data) {
+		return nil, errors.New("bls: non canonical text encoding")
+	}
+	return buf[:n], nil
 }
-- 
2.43.0


From d8d680e55694b58b7af669995db159a1cfe8fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:01 +0000
Subject: [PATCH 27/30] fix: the vectors of a commitment to more than 257
 shared generators

---
 rangeproof/pedersen/pedersen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index ab563a3..38eee18 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -201,7 +201,11 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 			sum.Add(&sum, &commit)
 		} else {
 
-			genData := append(append([]byte(nil), p.GenData...), uint8(i))
+			// As many bytes as the index takes, or two vectors would share their generators
+			genData := append([]byte(nil), p.GenData...)
+			for k := i; k > 0; k >>= 8 {
+				genData = append(genData, uint8(k))
+			}
 			ped2 := New(genData)
 
 			commit := ped2.commitToScalars(nil, vector...)
-- 
2.43.0


From 1b0c8a5e62bdd21ca4c74c0310b2015048f5583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:01 +0000
Subject: [PATCH 28/30] fix: a commitment to no vectors was not blinded

---
 rangeproof/pedersen/pedersen.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rangeproof/pedersen/pedersen.go b/rangeproof/pedersen/pedersen.go
index 38eee18..ec5c9ec 100644
--- a/rangeproof/pedersen/pedersen.go
+++ b/rangeproof/pedersen/pedersen.go
@@ -193,6 +193,11 @@ func (p *Pedersen) CommitToVectors(vectors ...[]ristretto.Scalar) Commitment {
 	var sum ristretto.Point
 	sum.SetZero()
 
+	// The blinding factor is committed to along with the first vector
+	if len(vectors) == 0 {
+		sum = p.commitToScalars(&blind)
+	}
+
 	for i, vector := range vectors {
 		if i == 0 {
 
-- 
2.43.0


From 77f4f325a94af3d057ef796111d3e12a0f0b25eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:01 +0000
Subject: [PATCH 29/30] fix: an inner-product proof was accepted with more
 factors than generators

---
 rangeproof/innerproduct/innerproduct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rangeproof/innerproduct/innerproduct.go b/rangeproof/innerproduct/innerproduct.go
index 58d0213..e2e726f 100644
--- a/rangeproof/innerproduct/innerproduct.go
+++ b/rangeproof/innerproduct/innerproduct.go
@@ -340,7 +340,7 @@ func (proof *Proof) VerifScalars() ([]ristretto.Scalar, []ristretto.Scalar, []ri
 
 // Verify is used for unit tests and verifies that a given proof evaluates to the point P
 func (proof *Proof) Verify(G, H, L, R []ristretto.Point, HprimeFactor []ristretto.Scalar, Q, P ristretto.Point, n int) bool {
-	if len(proof.L) != len(proof.R) || len(proof.L) > 31 || 1<<uint(len(proof.L)) != len(G) || len(H) != len(G) || len(HprimeFactor) < len(G) {
+	if len(proof.L) != len(proof.R) || len(proof.L) > 31 || 1<<uint(len(proof.L)) != len(G) || len(H) != len(G) || len(HprimeFactor) != len(G) {
 		return false
 	}
 
-- 
2.43.0


From 0d5bef7fa3d34386f15604670d344cc9fe45baa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:39 +0000
Subject: [PATCH 30/30] fix: vector.Neg of an empty vector returns memory of
 its own

---
 rangeproof/vector/vector.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/rangeproof/vector/vector.go b/rangeproof/vector/vector.go
index 43bad34..83762cc 100644
--- a/rangeproof/vector/vector.go
+++ b/rangeproof/vector/vector.go
@@ -53,10 +53,6 @@ func Sub(a, b []ristretto.Scalar) ([]ristretto.Scalar, error) {
 
 // Neg Negates a vector a
 func Neg(a []ristretto.Scalar) []ristretto.Scalar {
-	if len(a) == 0 {
-		return a
-	}
-
 	res := make([]ristretto.Scalar, len(a))
 
 	for i := range a {
-- 
2.43.0

