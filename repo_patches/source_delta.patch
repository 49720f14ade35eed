From c8ce94046fbfda4bb3b26f53f73e107db14ef35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:02 +0000
Subject: [PATCH 01/24] fix: ctr_drbg: last partial block must use the next
 counter value and current key

---
 drbg/ctr_drbg.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 10ad81d..7f23162 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -147,8 +147,12 @@ func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
 	}
 
 	// Copy remainder - case for out being not block aligned
-	c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
-	copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	if len(out)%BlockLen != 0 {
+		c.inc()
+		c.blockEnc.SetKey(c.key[:])
+		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
+		copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	}
 
 	c.update(seedBuf[:])
 	c.counter += 1
-- 
2.43.0


From 9b5f9eb77a90a943b950d6b10a37cfd5e9d89458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 02/24] fix: ctr_drbg: Init must start from zero key and V on a
 reused object

---
 drbg/ctr_drbg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 7f23162..2dd1a1f 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -79,6 +79,9 @@ func (c *CtrDrbg) Init(entropy, personalization []byte) bool {
 		seedBuf[i] ^= personalization[i]
 	}
 
+	// Instantiation starts from key and V set to 0 (SP800-90A, 10.2.1.3.1)
+	c.key = [KeyLen]byte{}
+	c.v = [BlockLen]byte{}
 	c.blockEnc.SetKey(c.key[:])
 	c.update(seedBuf[:])
 	c.counter = 1
-- 
2.43.0


From fce825d350986b5ff8318185ef4cf564deb9cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:56 +0000
Subject: [PATCH 03/24] fix: cpuid: AES-NI flag is reported in ECX of leaf 1,
 not in EBX

---
 utils/cpuid_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cpuid_amd64.go b/utils/cpuid_amd64.go
index 3f20c01..16504ec 100644
--- a/utils/cpuid_amd64.go
+++ b/utils/cpuid_amd64.go
@@ -23,7 +23,7 @@ func init() {
 		return
 	}
 
-	_, ecx, _, _ := cpuid(1, 0)
+	_, _, ecx, _ := cpuid(1, 0)
 	X86.HasAES = bitn(ecx, 25)
 
 	_, ecx, _, _ = cpuid(7, 0)
-- 
2.43.0


From 9c6569d77b3b700af75bbe4d40661e8c1586266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 04/24] fix: drbg/aes: AES-NI cipher must use the round count
 of the key that was set

---
 drbg/internal/aes/cipher_asm.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index e2738fd..4c47d4b 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -21,13 +21,16 @@ func decryptBlockAsm(nr int, xk *uint32, dst, src *byte)
 func expandKeyAsm(nr int, key *byte, enc *uint32, dec *uint32)
 
 type AESAsm struct {
-	enc [32 + 28]uint32
-	dec [32 + 28]uint32
+	enc    [32 + 28]uint32
+	dec    [32 + 28]uint32
+	rounds int
 }
 
 func (c *AESAsm) SetKey(key []byte) error {
 	var rounds int
 	switch len(key) {
+	default:
+		return KeySizeError(len(key))
 	case 128 / 8:
 		rounds = 10
 	case 192 / 8:
@@ -36,6 +39,7 @@ func (c *AESAsm) SetKey(key []byte) error {
 		rounds = 14
 	}
 
+	c.rounds = rounds
 	expandKeyAsm(rounds, &key[0], &c.enc[0], &c.dec[0])
 	return nil
 }
@@ -52,7 +56,7 @@ func (c *AESAsm) Encrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	encryptBlockAsm(len(c.enc)/4-1, &c.enc[0], &dst[0], &src[0])
+	encryptBlockAsm(c.rounds, &c.enc[0], &dst[0], &src[0])
 }
 
 func (c *AESAsm) Decrypt(dst, src []byte) {
@@ -65,7 +69,7 @@ func (c *AESAsm) Decrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	decryptBlockAsm(len(c.dec)/4-1, &c.dec[0], &dst[0], &src[0])
+	decryptBlockAsm(c.rounds, &c.dec[0], &dst[0], &src[0])
 }
 
 // expandKey is used by BenchmarkExpand to ensure that the asm implementation
-- 
2.43.0


From 1bd8baa743f75ef3254f9c0da261a651fda0ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 05/24] fix: sha3: Sum must not change the state of the hash

---
 hash/sha3/sha3.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hash/sha3/sha3.go b/hash/sha3/sha3.go
index d08dff8..f464fd4 100644
--- a/hash/sha3/sha3.go
+++ b/hash/sha3/sha3.go
@@ -191,7 +191,8 @@ func (c *state) Read(out []byte) (nread int, err error) {
 }
 
 // Sum applies padding to the hash state and then squeezes out the desired
-// number of output bytes.
+// number of output bytes. It works on a copy, so the state of the hash is not
+// changed and the caller can keep writing and summing.
 func (c *state) Sum(in []byte) []byte {
 	l := len(in)
 	// create buffer if nil has been provided
@@ -206,7 +207,8 @@ func (c *state) Sum(in []byte) []byte {
 	}
 
 	in = in[:l+c.Size()]
-	c.Read(in[l:])
+	dup := *c
+	dup.Read(in[l:])
 	return in
 }
 
-- 
2.43.0


From 2c02f72cf28d995c60a5349f41176989a8ce5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:12 +0000
Subject: [PATCH 06/24] fix: sha3: cSHAKE bytepad must not add a block when
 input is already aligned

---
 hash/sha3/shake.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/sha3/shake.go b/hash/sha3/shake.go
index 16f2634..cfa2dd5 100644
--- a/hash/sha3/shake.go
+++ b/hash/sha3/shake.go
@@ -54,7 +54,7 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
+	padlen := (w - (len(buf) % w)) % w
 	return append(buf, make([]byte, padlen)...)
 }
 
-- 
2.43.0


From 0617f8436c22b6a849a8dc31b967f4908067e594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 07/24] fix: sm3: Write must report number of bytes consumed

---
 hash/sm3/sm3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hash/sm3/sm3.go b/hash/sm3/sm3.go
index 90c6eeb..835e7d0 100644
--- a/hash/sm3/sm3.go
+++ b/hash/sm3/sm3.go
@@ -56,6 +56,7 @@ func (d *digest) Reset() {
 }
 
 func (d *digest) Write(input []byte) (nn int, err error) {
+	nn = len(input)
 
 	// current possition in the buffer
 	idx := int(d.len & uint64((d.BlockSize() - 1)))
@@ -76,7 +77,7 @@ func (d *digest) Write(input []byte) (nn int, err error) {
 
 	// this eventually could be done in d.compress
 	copy(d.b[:], input[nblocks*d.BlockSize():])
-	return len(input), nil
+	return nn, nil
 }
 
 func (d *digest) Sum(in []byte) []byte {
-- 
2.43.0


From 473abb0beb4f0afba56004cf8cb3fc1e59f0a26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 08/24] fix: sidh: public key import must overwrite previous
 content

---
 dh/sidh/common/utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/common/utils.go b/dh/sidh/common/utils.go
index e5ff4b3..988a204 100644
--- a/dh/sidh/common/utils.go
+++ b/dh/sidh/common/utils.go
@@ -19,6 +19,7 @@ func BytesToFp2(fp2 *Fp2, input []byte, bytelen int) {
 		panic("input byte slice too short")
 	}
 
+	*fp2 = Fp2{}
 	for i := 0; i < bytelen; i++ {
 		j := i / 8
 		k := uint64(i % 8)
-- 
2.43.0


From dd012f765b9bc944aaf93b8d2a3152736d0193ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 09/24] fix: csidh: public key import must overwrite previous
 content

---
 dh/csidh/csidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index d8f9c21..0844b3b 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -247,6 +247,7 @@ func (c *PublicKey) Import(key []byte) bool {
 	if len(key) != numWords*limbByteSize {
 		return false
 	}
+	c.a = fp{}
 	for i := 0; i < len(key); i++ {
 		j := i / limbByteSize
 		k := uint64(i % 8)
-- 
2.43.0


From 01165dc0db7bbd5bd53fc172fa15b5d876b8ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 10/24] fix: csidh: private key import must not panic on too
 long input

---
 dh/csidh/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index 0844b3b..1ef1055 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -200,7 +200,7 @@ func (c *PrivateKey) Import(key []byte) bool {
 	if len(key) < len(c.e) {
 		return false
 	}
-	for i, v := range key {
+	for i, v := range key[:len(c.e)] {
 		c.e[i] = int8(v)
 	}
 	return true
-- 
2.43.0


From 846d9ff949d483d312bade0fedd3ee072f9a8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 11/24] fix: sike: derive shared secret from the ciphertext
 only, not from whole buffer

---
 dh/sidh/sike.go  | 2 +-
 kem/mkem/sike.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index 611b68b..bb8a65f 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -100,7 +100,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *PublicKey) error {
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 150ebab..ef26a4c 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -144,7 +144,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
-- 
2.43.0


From 8f17444dc89bba51e41d57a01f3f0fc20af9b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 12/24] fix: mkem: re-encryption check must use the decrypted
 message

---
 kem/mkem/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index ef26a4c..8a2635b 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -351,7 +351,7 @@ func (c *MultiKEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.Pu
 	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
 	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
 	for i := 0; i < skA.Params.MsgLen; i++ {
-		cti[i] ^= c.msg[i]
+		cti[i] ^= m[i]
 	}
 
 	// S is chosen at random when generating a key and unknown to other party. It is
-- 
2.43.0


From a22644441ca7194593cea6530d492677730b6e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:26 +0000
Subject: [PATCH 13/24] fix: mkem: MultiPKE must reset hash before deriving the
 first mask

---
 kem/mkem/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 8927754..58d98f4 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -94,9 +94,9 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	for i, pk := range keys {
 		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
 
+		c.H.Reset()
 		c.H.Write(ss[:])
 		c.H.Read(ss[:16])
-		c.H.Reset()
 		for j := 0; j < 16; j++ {
 			c.Cts[i][j] = pt[j] ^ ss[j]
 		}
-- 
2.43.0


From 5ee5399fb88d9514ea5d82d6ec052524e7167a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 14/24] fix: sidh: force top bit of private key also when key
 bit length is multiple of 8

---
 dh/sidh/sidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index b3e923b..ae28363 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -215,7 +215,7 @@ func (prv *PrivateKey) Generate(rand io.Reader) error {
 	// space starts from 0, but I'm not comfortable with having low
 	// value scalars used for private keys. It is still secrure as per
 	// table 5.1 in [SIKE].
-	prv.Scalar[len(prv.Scalar)-1] |= 1 << ((dp.SecretBitLen % 8) - 1)
+	prv.Scalar[(dp.SecretBitLen-1)/8] |= 1 << ((dp.SecretBitLen - 1) % 8)
 
 	return nil
 }
-- 
2.43.0


From 66359e74ffc41467d23bfd3ddb6460d48b7da20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:30 +0000
Subject: [PATCH 15/24] fix: sidh: GeneratePrivateKey must report RNG failure

---
 dh/sidh/sidh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index ae28363..226972e 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -310,8 +310,8 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	}
 }
 
-func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) {
-	prv.Generate(rng)
+func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) error {
+	return prv.Generate(rng)
 }
 
 func GeneratePublicKey(pub *PublicKey, prv *PrivateKey) {
-- 
2.43.0


From 1a3d4c02a84d6fe3bf8c8c59b6eb55cb7c297f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 16/24] fix: sidh/p434: portable code must be built with noasm
 tag on amd64

---
 dh/sidh/internal/p434/arith_generic.go          | 2 +-
 dh/sidh/internal/templates/arith_generic.gotemp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/internal/p434/arith_generic.go b/dh/sidh/internal/p434/arith_generic.go
index 028012f..3a3bf99 100644
--- a/dh/sidh/internal/p434/arith_generic.go
+++ b/dh/sidh/internal/p434/arith_generic.go
@@ -1,7 +1,7 @@
 // Code generated by go generate; DO NOT EDIT.
 // This file was generated by robots.
 
-// +build noasm,arm64 !amd64
+// +build noasm !amd64
 
 package p434
 
diff --git a/dh/sidh/internal/templates/arith_generic.gotemp b/dh/sidh/internal/templates/arith_generic.gotemp
index b7c69b5..a61a0fa 100644
--- a/dh/sidh/internal/templates/arith_generic.gotemp
+++ b/dh/sidh/internal/templates/arith_generic.gotemp
@@ -1,7 +1,7 @@
 // Code generated by go generate; DO NOT EDIT.
 // This file was generated by robots.
 
-// +build {{if .OPT_ARM}}noasm !amd64,!arm64{{else}}noasm,arm64 !amd64{{end}}
+// +build {{if .OPT_ARM}}noasm !amd64,!arm64{{else}}noasm !amd64{{end}}
 
 package {{ .PACKAGE}}
 
-- 
2.43.0


From b4fe15b1a4e0e3d36cedc2c3848ebe98d43f58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 17/24] fix: csidh: portable code must be built on platforms
 without assembly

---
 dh/csidh/fp511_generic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/csidh/fp511_generic.go b/dh/csidh/fp511_generic.go
index 4d51009..032fb65 100644
--- a/dh/csidh/fp511_generic.go
+++ b/dh/csidh/fp511_generic.go
@@ -1,4 +1,4 @@
-// +build noasm arm64
+// +build noasm !amd64
 
 package csidh
 
-- 
2.43.0


From a627181fa226754f9b644fe76b3ed2fc6b82ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 18/24] fix: refuse to derive a SIDH secret from keys of the
 same torsion group

---
 dh/sidh/sidh.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 226972e..5866a76 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -260,7 +260,9 @@ func (prv *PrivateKey) GeneratePublicKey(pub *PublicKey) {
 func (prv *PrivateKey) DeriveSecret(ss []byte, pub *PublicKey) {
 	var isA = (prv.KeyVariant & KeyVariantSidhA) == KeyVariantSidhA
 
-	if (pub.KeyVariant == prv.KeyVariant) || (pub.Params.ID != prv.Params.ID) {
+	var isPubA = (pub.KeyVariant & KeyVariantSidhA) == KeyVariantSidhA
+
+	if (isPubA == isA) || (pub.Params.ID != prv.Params.ID) {
 		panic("sidh: public and private are incompatbile")
 	}
 
-- 
2.43.0


From 8c39bdec38209aebb057a057e4e12541aa2cc476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 19/24] fix: drop the SIKE value S when a private key is
 re-initialized as a SIDH key

---
 dh/sidh/sidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 5866a76..5cfb702 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -307,6 +307,7 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	} else {
 		c.Scalar = make([]byte, c.Params.B.SecretByteLen)
 	}
+	c.S = nil
 	if v == KeyVariantSike {
 		c.S = make([]byte, c.Params.MsgLen)
 	}
-- 
2.43.0


From d09ef6640fe42e2e38fdf6dd913de0afff8b9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 20/24] fix: SIDH key export panics on a too small buffer
 instead of truncating or writing past its length

---
 dh/sidh/sidh.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 5cfb702..616858d 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -102,6 +102,10 @@ func (pub *PublicKey) Import(input []byte) error {
 // Exports currently stored key. In case structure hasn't been filled with key data
 // returned byte string is filled with zeros.
 func (pub *PublicKey) Export(out []byte) {
+	if len(out) < pub.Size() {
+		panic("sidh: output buffer too small")
+	}
+
 	var feTmp [3]common.Fp2
 	ssSz := pub.Params.SharedSecretSize
 	switch pub.Params.ID {
@@ -148,6 +152,10 @@ func NewPrivateKey(id uint8, v KeyVariant) *PrivateKey {
 // Exports currently stored key. In case structure hasn't been filled with key data
 // returned byte string is filled with zeros.
 func (prv *PrivateKey) Export(out []byte) {
+	if len(out) < prv.Size() {
+		panic("sidh: output buffer too small")
+	}
+
 	copy(out, prv.S)
 	copy(out[len(prv.S):], prv.Scalar)
 }
-- 
2.43.0


From 8bb233889f646966c03322aa48decdcd8de33e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:42 +0000
Subject: [PATCH 21/24] fix: SIKE decapsulation refuses keys of another field
 than the KEM

---
 dh/sidh/sike.go  | 4 ++++
 kem/mkem/sike.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index bb8a65f..b4c584b 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -122,6 +122,10 @@ func (c *KEM) Decapsulate(secret []byte, prv *PrivateKey, pub *PublicKey, cipher
 		panic("Public and private key are of different type")
 	}
 
+	if pub.Params.ID != c.params.ID || prv.Params.ID != c.params.ID {
+		panic("KEM and keys use different fields")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 8a2635b..e1be12b 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -166,6 +166,10 @@ func (c *KEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.PublicK
 		panic("Public and private key are of different type")
 	}
 
+	if pub.Params.ID != c.params.ID || prv.Params.ID != c.params.ID {
+		panic("KEM and keys use different fields")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
-- 
2.43.0


From 70fe57e9828bafa86a55efdbcdacf23dbc7129d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:03 +0000
Subject: [PATCH 22/24] fix: CSIDH PKE and mPKE masked the plaintext with a
 known value for invalid public keys

---
 kem/mkem/csidh.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 58d98f4..d24d21b 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -46,14 +46,16 @@ func (c *MultiPKE) Allocate(recipients_nb uint, rng *drbg.CtrDrbg) {
 	c.Cts = make([][SharedSecretSz]byte, recipients_nb)
 }
 
-// PKE encryption
+// PKE encryption. Returns all-zero ciphertext in case public key is invalid.
 func (c *PKE) Enc(pk *csidh.PublicKey, pt *[16]byte) (ct ciphertext) {
 	var ss [64]byte
 	var pkA csidh.PublicKey
 	var skA csidh.PrivateKey
 
 	csidh.GeneratePrivateKey(&skA, c.Rng)
-	csidh.DeriveSecret(&ss, pk, &skA, c.Rng)
+	if !csidh.DeriveSecret(&ss, pk, &skA, c.Rng) {
+		return
+	}
 
 	c.H.Reset()
 	c.H.Write(ss[:])
@@ -84,7 +86,8 @@ func (c *PKE) Dec(sk *csidh.PrivateKey, ct *ciphertext) (pt [16]byte) {
 	return
 }
 
-// mPKE encryption
+// mPKE encryption. Ciphertext for a recipient with invalid public key is
+// set to zero.
 func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	var ss [64]byte
 	var pkA csidh.PublicKey
@@ -92,7 +95,10 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 
 	csidh.GeneratePrivateKey(&skA, c.Rng)
 	for i, pk := range keys {
-		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
+		if !csidh.DeriveSecret(&ss, &pk, &skA, c.Rng) {
+			c.Cts[i] = [SharedSecretSz]byte{}
+			continue
+		}
 
 		c.H.Reset()
 		c.H.Write(ss[:])
-- 
2.43.0


From 95e678b67a2c23bc0c97d25587f2ebe6363cf50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:13 +0000
Subject: [PATCH 23/24] fix: csidh: validation and key derivation wrote to the
 keys they were given, racing with other users of the same key

---
 dh/csidh/csidh.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index 1ef1055..901ec23 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -148,7 +148,7 @@ func groupAction(pub *PublicKey, prv *PrivateKey, rng io.Reader) {
 	for {
 		var P point
 		var rhs fp
-		prv.randFp(&P.x, rng)
+		pub.randFp(&P.x, rng)
 		P.z = one
 		montEval(&rhs, &A.a, &P.x)
 		sign := rhs.isNonQuadRes()
@@ -292,7 +292,9 @@ func Validate(pub *PublicKey, rng io.Reader) bool {
 		return false
 	}
 
-	// Check if pub represents a supersingular curve.
+	// Check if pub represents a supersingular curve. Working buffer is
+	// local, as 'pub' may be in use by other goroutines.
+	var gen fpRngGen
 	for {
 		var P point
 		var A = point{pub.a, one}
@@ -301,7 +303,7 @@ func Validate(pub *PublicKey, rng io.Reader) bool {
 		// supersingularity. Probability of random P having big
 		// enough order is very high, as proven by W.Castryck et
 		// al. (ia.cr/2018/383, ch 5)
-		pub.randFp(&P.x, rng)
+		gen.randFp(&P.x, rng)
 		P.z = one
 
 		xDbl(&P, &P, &A)
-- 
2.43.0


From 5f83f66eb46c6c02388869aeb69344c8df866f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:27 +0000
Subject: [PATCH 24/24] fix: drbg: build without the AES assembly (noasm tag,
 other platforms)

---
 drbg/internal/aes/asm_amd64.s     |  2 +-
 drbg/internal/aes/asm_arm64.s     |  2 +-
 drbg/internal/aes/cipher_asm.go   |  2 +-
 drbg/internal/aes/cipher_noasm.go | 11 +++++++++++
 4 files changed, 14 insertions(+), 3 deletions(-)
 create mode 100644 drbg/internal/aes/cipher_noasm.go

diff --git a/drbg/internal/aes/asm_amd64.s b/drbg/internal/aes/asm_amd64.s
index b51da88..4d8f347 100644
--- a/drbg/internal/aes/asm_amd64.s
+++ b/drbg/internal/aes/asm_amd64.s
@@ -2,7 +2,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-// +build amd64, !noasm
+// +build amd64,!noasm
 
 #include "textflag.h"
 
diff --git a/drbg/internal/aes/asm_arm64.s b/drbg/internal/aes/asm_arm64.s
index ef35d4f..14dc93a 100644
--- a/drbg/internal/aes/asm_arm64.s
+++ b/drbg/internal/aes/asm_arm64.s
@@ -2,7 +2,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-// +build arm64, !noasm
+// +build arm64,!noasm
 
 #include "textflag.h"
 DATA rotInvSRows<>+0x00(SB)/8, $0x080f0205040b0e01
diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index 4c47d4b..5b3abc9 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -1,7 +1,7 @@
 // Copyright 2012 The Go Authors. All rights reserved.
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
-// +build amd64, !noasm
+// +build amd64,!noasm arm64,!noasm
 
 package aes
 
diff --git a/drbg/internal/aes/cipher_noasm.go b/drbg/internal/aes/cipher_noasm.go
new file mode 100644
index 0000000..19f34c6
--- /dev/null
+++ b/drbg/internal/aes/cipher_noasm.go
@@ -0,0 +1,11 @@
+// +build noasm !amd64,!arm64
+
+package aes
+
+// AESAsm is the portable implementation where there is no assembly one.
+type AESAsm = AES
+
+// expandKey is used by BenchmarkExpand.
+func expandKey(key []byte, enc, dec []uint32) {
+	expandKeyGo(key, enc, dec)
+}
-- 
2.43.0

