From 16c85ad709a48ea3ea0232afde52bc917a2ca71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 01/25] fix: sha3: Sum must not change the state of the hash

hash.Hash requires that Sum leaves the underlying state usable: a second
Sum returned the following output block and Write failed after Sum.
---
 hash/sha3/sha3.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hash/sha3/sha3.go b/hash/sha3/sha3.go
index d08dff8..c4ef643 100644
--- a/hash/sha3/sha3.go
+++ b/hash/sha3/sha3.go
@@ -206,7 +206,9 @@ func (c *state) Sum(in []byte) []byte {
 	}
 
 	in = in[:l+c.Size()]
-	c.Read(in[l:])
+	// Squeeze a copy, so that caller can keep writing and summing
+	dup := *c
+	dup.Read(in[l:])
 	return in
 }
 
-- 
2.43.0


From c3de1d4d927f0f09ab8f224adbffa5862118162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 02/25] fix: sha3: cSHAKE must not pad an already aligned
 prefix

bytepad (SP 800-185, 2.3.3) adds zeros only until the length is a multiple
of the rate. A full block of zeros was added when the encoded N and S
already were aligned.
---
 hash/sha3/shake.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/sha3/shake.go b/hash/sha3/shake.go
index 16f2634..cfa2dd5 100644
--- a/hash/sha3/shake.go
+++ b/hash/sha3/shake.go
@@ -54,7 +54,7 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
+	padlen := (w - (len(buf) % w)) % w
 	return append(buf, make([]byte, padlen)...)
 }
 
-- 
2.43.0


From 9622418c3dfb841e2f7dc85d9b29e34bdfd45c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 03/25] fix: sm3: Write must return number of bytes written

Write returned 0 for short input and otherwise length of the input left
after the first block, so that io.Copy and others failed with "short write".
---
 hash/sm3/sm3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hash/sm3/sm3.go b/hash/sm3/sm3.go
index 90c6eeb..017d328 100644
--- a/hash/sm3/sm3.go
+++ b/hash/sm3/sm3.go
@@ -56,7 +56,7 @@ func (d *digest) Reset() {
 }
 
 func (d *digest) Write(input []byte) (nn int, err error) {
-
+	nn = len(input)
 	// current possition in the buffer
 	idx := int(d.len & uint64((d.BlockSize() - 1)))
 	d.len += uint64(len(input))
@@ -76,7 +76,7 @@ func (d *digest) Write(input []byte) (nn int, err error) {
 
 	// this eventually could be done in d.compress
 	copy(d.b[:], input[nblocks*d.BlockSize():])
-	return len(input), nil
+	return nn, nil
 }
 
 func (d *digest) Sum(in []byte) []byte {
-- 
2.43.0


From 3bb6033f3a1aa3b388525319bdce602789224a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 04/25] fix: utils: AES support is signalled in ECX of CPUID
 leaf 1

Bit 25 of EBX was used, which is a part of the initial APIC ID: HasAES
depended on the core the program was started on.
---
 utils/cpuid_amd64.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cpuid_amd64.go b/utils/cpuid_amd64.go
index 3f20c01..e5a3137 100644
--- a/utils/cpuid_amd64.go
+++ b/utils/cpuid_amd64.go
@@ -23,11 +23,11 @@ func init() {
 		return
 	}
 
-	_, ecx, _, _ := cpuid(1, 0)
+	_, _, ecx, _ := cpuid(1, 0)
 	X86.HasAES = bitn(ecx, 25)
 
-	_, ecx, _, _ = cpuid(7, 0)
-	X86.HasBMI2 = bitn(ecx, 8)
-	X86.HasADX = bitn(ecx, 19)
-	X86.HasRDSEED = bitn(ecx, 18)
+	_, ebx, _, _ := cpuid(7, 0)
+	X86.HasBMI2 = bitn(ebx, 8)
+	X86.HasADX = bitn(ebx, 19)
+	X86.HasRDSEED = bitn(ebx, 18)
 }
-- 
2.43.0


From 10367fd72a4db418597bb190384336d8cd8cf0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 05/25] fix: drbg: partial block must use next counter value
 and current key

Last block of a request which is not a multiple of 16 bytes was encrypted
without incrementing V: it repeated the previous block of the output or,
for requests shorter than 16 bytes, used the key from before last update.
---
 drbg/ctr_drbg.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 10ad81d..b0f7bdd 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -147,8 +147,12 @@ func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
 	}
 
 	// Copy remainder - case for out being not block aligned
-	c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
-	copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	if rem := len(out) % BlockLen; rem != 0 {
+		c.inc()
+		c.blockEnc.SetKey(c.key[:])
+		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
+		copy(out[blocks*BlockLen:], c.tmpBlk[:rem])
+	}
 
 	c.update(seedBuf[:])
 	c.counter += 1
-- 
2.43.0


From b55f8a7174f31dce1d3bd248444eaf60999dc41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 06/25] fix: drbg: Init must instantiate from zeroed Key and V

Initialization of already used object was mixing in previous state.
---
 drbg/ctr_drbg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index b0f7bdd..a507a36 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -79,6 +79,9 @@ func (c *CtrDrbg) Init(entropy, personalization []byte) bool {
 		seedBuf[i] ^= personalization[i]
 	}
 
+	// Instantiation starts with zeroed Key and V (SP800-90A, 10.2.1.3.1)
+	c.key = [KeyLen]byte{}
+	c.v = [BlockLen]byte{}
 	c.blockEnc.SetKey(c.key[:])
 	c.update(seedBuf[:])
 	c.counter = 1
-- 
2.43.0


From bde861e540f36e35af6c4f5863d670e49170a4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 07/25] fix: aes: assembly implementation must use number of
 rounds of the key

14 rounds were always done, so AES-128 and AES-192 were wrong. Additionally
return an error for keys of unsupported size, instead of using a key
schedule which was not expanded.
---
 drbg/internal/aes/cipher_asm.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index e2738fd..867b781 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -23,6 +23,8 @@ func expandKeyAsm(nr int, key *byte, enc *uint32, dec *uint32)
 type AESAsm struct {
 	enc [32 + 28]uint32
 	dec [32 + 28]uint32
+	// number of rounds, depends on the key size
+	rounds int
 }
 
 func (c *AESAsm) SetKey(key []byte) error {
@@ -34,8 +36,11 @@ func (c *AESAsm) SetKey(key []byte) error {
 		rounds = 12
 	case 256 / 8:
 		rounds = 14
+	default:
+		return KeySizeError(len(key))
 	}
 
+	c.rounds = rounds
 	expandKeyAsm(rounds, &key[0], &c.enc[0], &c.dec[0])
 	return nil
 }
@@ -52,7 +57,7 @@ func (c *AESAsm) Encrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	encryptBlockAsm(len(c.enc)/4-1, &c.enc[0], &dst[0], &src[0])
+	encryptBlockAsm(c.rounds, &c.enc[0], &dst[0], &src[0])
 }
 
 func (c *AESAsm) Decrypt(dst, src []byte) {
@@ -65,7 +70,7 @@ func (c *AESAsm) Decrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	decryptBlockAsm(len(c.dec)/4-1, &c.dec[0], &dst[0], &src[0])
+	decryptBlockAsm(c.rounds, &c.dec[0], &dst[0], &src[0])
 }
 
 // expandKey is used by BenchmarkExpand to ensure that the asm implementation
-- 
2.43.0


From 925daa88782844450b531283335eba6b7905be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:20 +0000
Subject: [PATCH 08/25] fix: build without assembly

With -tags noasm (and on other architectures than amd64 and arm64) p434,
csidh and drbg didn't compile, as neither assembly nor portable code was
selected.
---
 dh/csidh/fp511_generic.go                       |  2 +-
 dh/sidh/internal/p434/arith_generic.go          |  2 +-
 dh/sidh/internal/templates/arith_generic.gotemp |  2 +-
 drbg/internal/aes/cipher_asm.go                 |  2 +-
 drbg/internal/aes/cipher_noasm.go               | 12 ++++++++++++
 5 files changed, 16 insertions(+), 4 deletions(-)
 create mode 100644 drbg/internal/aes/cipher_noasm.go

diff --git a/dh/csidh/fp511_generic.go b/dh/csidh/fp511_generic.go
index 4d51009..032fb65 100644
--- a/dh/csidh/fp511_generic.go
+++ b/dh/csidh/fp511_generic.go
@@ -1,4 +1,4 @@
-// +build noasm arm64
+// +build noasm !amd64
 
 package csidh
 
diff --git a/dh/sidh/internal/p434/arith_generic.go b/dh/sidh/internal/p434/arith_generic.go
index 028012f..3a3bf99 100644
--- a/dh/sidh/internal/p434/arith_generic.go
+++ b/dh/sidh/internal/p434/arith_generic.go
@@ -1,7 +1,7 @@
 // Code generated by go generate; DO NOT EDIT.
 // This file was generated by robots.
 
-// +build noasm,arm64 !amd64
+// +build noasm !amd64
 
 package p434
 
diff --git a/dh/sidh/internal/templates/arith_generic.gotemp b/dh/sidh/internal/templates/arith_generic.gotemp
index b7c69b5..a61a0fa 100644
--- a/dh/sidh/internal/templates/arith_generic.gotemp
+++ b/dh/sidh/internal/templates/arith_generic.gotemp
@@ -1,7 +1,7 @@
 // Code generated by go generate; DO NOT EDIT.
 // This file was generated by robots.
 
-// +build {{if .OPT_ARM}}noasm !amd64,!arm64{{else}}noasm,arm64 !amd64{{end}}
+// +build {{if .OPT_ARM}}noasm !amd64,!arm64{{else}}noasm !amd64{{end}}
 
 package {{ .PACKAGE}}
 
diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index 867b781..4db4d13 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -1,7 +1,7 @@
 // Copyright 2012 The Go Authors. All rights reserved.
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
-// +build amd64, !noasm
+// +build amd64,!noasm arm64,!noasm
 
 package aes
 
diff --git a/drbg/internal/aes/cipher_noasm.go b/drbg/internal/aes/cipher_noasm.go
new file mode 100644
index 0000000..8fd27ec
--- /dev/null
+++ b/drbg/internal/aes/cipher_noasm.go
@@ -0,0 +1,12 @@
+// +build !amd64,!arm64 noasm
+
+package aes
+
+// AESAsm falls back to portable implementation if assembly is not available.
+type AESAsm struct {
+	AES
+}
+
+func expandKey(key []byte, enc, dec []uint32) {
+	expandKeyGo(key, enc, dec)
+}
-- 
2.43.0


From 551dfd5f7a951c3983d05dc26955087a82679d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 09/25] fix: sidh: Import must replace the key held by the
 object

BytesToFp2 combined the input with the previous content of the field
element, so importing into a used PublicKey produced a mix of both keys.
---
 dh/sidh/common/utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/common/utils.go b/dh/sidh/common/utils.go
index e5ff4b3..988a204 100644
--- a/dh/sidh/common/utils.go
+++ b/dh/sidh/common/utils.go
@@ -19,6 +19,7 @@ func BytesToFp2(fp2 *Fp2, input []byte, bytelen int) {
 		panic("input byte slice too short")
 	}
 
+	*fp2 = Fp2{}
 	for i := 0; i < bytelen; i++ {
 		j := i / 8
 		k := uint64(i % 8)
-- 
2.43.0


From 25c0952a3e58448c3ba856e952d12f824ed69015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 10/25] fix: sike: hash only the ciphertext when encapsulating
 into a bigger buffer

With a ciphertext buffer longer than CiphertextSize() the shared secret
depended on the bytes after the ciphertext and couldn't be recovered by
decapsulation.
---
 dh/sidh/sike.go  | 2 +-
 kem/mkem/sike.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index 611b68b..bb8a65f 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -100,7 +100,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *PublicKey) error {
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 150ebab..ef26a4c 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -144,7 +144,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
-- 
2.43.0


From d44f93558e2501b0e661b6dcc1c1586450e37fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 11/25] fix: sidh: set top bit of generated p434 keys of the
 2-torsion group

SecretBitLen of those keys is a multiple of 8, and the top bit was not
set. Keys came from <0..2^e2-1> instead of <2^(e2-1)..2^e2-1>.
---
 dh/sidh/sidh.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index b3e923b..4e3e202 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -210,12 +210,16 @@ func (prv *PrivateKey) Generate(rand io.Reader) error {
 		return err
 	}
 
-	prv.Scalar[len(prv.Scalar)-1] &= (1 << (dp.SecretBitLen % 8)) - 1
+	msb := dp.SecretBitLen - 1
+	prv.Scalar[msb/8] &= (1 << (msb%8 + 1)) - 1
+	for i := msb/8 + 1; i < uint(len(prv.Scalar)); i++ {
+		prv.Scalar[i] = 0
+	}
 	// Make sure scalar is SecretBitLen long. SIKE spec says that key
 	// space starts from 0, but I'm not comfortable with having low
 	// value scalars used for private keys. It is still secrure as per
 	// table 5.1 in [SIKE].
-	prv.Scalar[len(prv.Scalar)-1] |= 1 << ((dp.SecretBitLen % 8) - 1)
+	prv.Scalar[msb/8] |= 1 << (msb % 8)
 
 	return nil
 }
-- 
2.43.0


From b5b574b728223f272b87fe245d790b707a3c15a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 12/25] fix: sidh: GeneratePrivateKey must report RNG failure

---
 dh/sidh/sidh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 4e3e202..d410e31 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -314,8 +314,8 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	}
 }
 
-func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) {
-	prv.Generate(rng)
+func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) error {
+	return prv.Generate(rng)
 }
 
 func GeneratePublicKey(pub *PublicKey, prv *PrivateKey) {
-- 
2.43.0


From 2bc160d00c0405d26424db01d2590e30cb781d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 13/25] fix: sidh: Init must drop value S of a SIKE key

A SIKE private key initialized again for SIDH still carried S, which
made Import and Export use the wrong part of the buffer.
---
 dh/sidh/sidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index d410e31..b2e9ded 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -309,6 +309,7 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	} else {
 		c.Scalar = make([]byte, c.Params.B.SecretByteLen)
 	}
+	c.S = nil
 	if v == KeyVariantSike {
 		c.S = make([]byte, c.Params.MsgLen)
 	}
-- 
2.43.0


From 3919f5351e6ce82bbb275556da97689de45813af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 14/25] fix: sidh: Export must refuse too small buffers

A short buffer got a part of the public key before Export panicked, or
the key was written behind its end if the capacity was big enough. A
private key was silently truncated.
---
 dh/sidh/sidh.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index b2e9ded..e3ce941 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -103,6 +103,9 @@ func (pub *PublicKey) Import(input []byte) error {
 // returned byte string is filled with zeros.
 func (pub *PublicKey) Export(out []byte) {
 	var feTmp [3]common.Fp2
+	if len(out) < pub.Size() {
+		panic("sidh: output buffer to small")
+	}
 	ssSz := pub.Params.SharedSecretSize
 	switch pub.Params.ID {
 	case Fp434:
@@ -148,6 +151,9 @@ func NewPrivateKey(id uint8, v KeyVariant) *PrivateKey {
 // Exports currently stored key. In case structure hasn't been filled with key data
 // returned byte string is filled with zeros.
 func (prv *PrivateKey) Export(out []byte) {
+	if len(out) < prv.Size() {
+		panic("sidh: output buffer to small")
+	}
 	copy(out, prv.S)
 	copy(out[len(prv.S):], prv.Scalar)
 }
-- 
2.43.0


From 1830457279bc73de55441dcd139f951756e9ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 15/25] fix: sike: Decapsulate must refuse keys of other domain
 parameters

The result was a meaningless secret instead of a panic when the public
key belonged to another parameter set.
---
 dh/sidh/sike.go  | 4 ++++
 kem/mkem/sike.go | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index bb8a65f..289668c 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -122,6 +122,10 @@ func (c *KEM) Decapsulate(secret []byte, prv *PrivateKey, pub *PublicKey, cipher
 		panic("Public and private key are of different type")
 	}
 
+	if pub.Params.ID != c.params.ID || prv.Params.ID != c.params.ID {
+		panic("Domain parameters of the keys and KEM are different")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index ef26a4c..1695ac3 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -166,6 +166,10 @@ func (c *KEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.PublicK
 		panic("Public and private key are of different type")
 	}
 
+	if pub.Params.ID != c.params.ID || prv.Params.ID != c.params.ID {
+		panic("Domain parameters of the keys and KEM are different")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
@@ -303,6 +307,10 @@ func (c *MultiKEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.Pu
 		panic("Public and private key are of different type")
 	}
 
+	if pub.Params.ID != c.params.ID || prv.Params.ID != c.params.ID {
+		panic("Domain parameters of the keys and KEM are different")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
-- 
2.43.0


From a7eb9aa065a75067929c65505405bf787cbd4549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 16/25] fix: sidh: DeriveSecret must refuse keys of the same
 torsion group

SIDH-B and SIKE keys are both keys of the 3-torsion group, no secret can
be derived from such a pair.
---
 dh/sidh/sidh.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index e3ce941..b1ec591 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -270,7 +270,9 @@ func (prv *PrivateKey) GeneratePublicKey(pub *PublicKey) {
 func (prv *PrivateKey) DeriveSecret(ss []byte, pub *PublicKey) {
 	var isA = (prv.KeyVariant & KeyVariantSidhA) == KeyVariantSidhA
 
-	if (pub.KeyVariant == prv.KeyVariant) || (pub.Params.ID != prv.Params.ID) {
+	// Keys must correspond to different torsion groups
+	if ((pub.KeyVariant & KeyVariantSidhA) == (prv.KeyVariant & KeyVariantSidhA)) ||
+		(pub.Params.ID != prv.Params.ID) {
 		panic("sidh: public and private are incompatbile")
 	}
 
-- 
2.43.0


From 3112c048c1f1bcf7ba4038b30e9629132f936c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 17/25] fix: csidh: Import must replace the public key held by
 the object

The input was combined with the previous content of the key.
---
 dh/csidh/csidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index d8f9c21..0844b3b 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -247,6 +247,7 @@ func (c *PublicKey) Import(key []byte) bool {
 	if len(key) != numWords*limbByteSize {
 		return false
 	}
+	c.a = fp{}
 	for i := 0; i < len(key); i++ {
 		j := i / limbByteSize
 		k := uint64(i % 8)
-- 
2.43.0


From a72a8ef465c3032e666cd794d84c57fee6acfe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 18/25] fix: csidh: Import must refuse too long private keys

Import of more than PrivateKeySize bytes panicked after the key was
overwritten.
---
 dh/csidh/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index 0844b3b..21a7b6d 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -197,7 +197,7 @@ func groupAction(pub *PublicKey, prv *PrivateKey, rng io.Reader) {
 // PrivateKey operations
 
 func (c *PrivateKey) Import(key []byte) bool {
-	if len(key) < len(c.e) {
+	if len(key) != len(c.e) {
 		return false
 	}
 	for i, v := range key {
-- 
2.43.0


From b804cddca7d2bad7f30369860b214fbe04572e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 19/25] fix: mkem: Decapsulate must re-encrypt the decrypted
 message

MultiKEM.Decapsulate compared the ciphertext with an encryption of the
message chosen by the last Encapsulate call on the same object, so that
decapsulating with a different object was always rejected.
---
 kem/mkem/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 1695ac3..6aed3d7 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -359,7 +359,7 @@ func (c *MultiKEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.Pu
 	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
 	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
 	for i := 0; i < skA.Params.MsgLen; i++ {
-		cti[i] ^= c.msg[i]
+		cti[i] ^= m[i]
 	}
 
 	// S is chosen at random when generating a key and unknown to other party. It is
-- 
2.43.0


From fd6990ddccb1fecbf4bd741db47b868607f60006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 20/25] fix: mkem: Encrypt must reset hash before first use

PKE.Enc and PKE.Dec leave H in squeezing state, so that an Encrypt call
which follows them produced a wrong ciphertext for the first recipient.
---
 kem/mkem/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 8927754..58d98f4 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -94,9 +94,9 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	for i, pk := range keys {
 		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
 
+		c.H.Reset()
 		c.H.Write(ss[:])
 		c.H.Read(ss[:16])
-		c.H.Reset()
 		for j := 0; j < 16; j++ {
 			c.Cts[i][j] = pt[j] ^ ss[j]
 		}
-- 
2.43.0


From 98e0f9e5a3a71d610ba84dc3004f176450922ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:15 +0000
Subject: [PATCH 21/25] fix: mkem: do not encrypt to invalid public keys

DeriveSecret leaves the shared secret untouched if the public key is
invalid. Result was ignored, so that the plaintext was encrypted with a
key known to everybody.
---
 kem/mkem/csidh.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 58d98f4..676e6f2 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -46,14 +46,16 @@ func (c *MultiPKE) Allocate(recipients_nb uint, rng *drbg.CtrDrbg) {
 	c.Cts = make([][SharedSecretSz]byte, recipients_nb)
 }
 
-// PKE encryption
+// PKE encryption. Function panics if public key is invalid.
 func (c *PKE) Enc(pk *csidh.PublicKey, pt *[16]byte) (ct ciphertext) {
 	var ss [64]byte
 	var pkA csidh.PublicKey
 	var skA csidh.PrivateKey
 
 	csidh.GeneratePrivateKey(&skA, c.Rng)
-	csidh.DeriveSecret(&ss, pk, &skA, c.Rng)
+	if !csidh.DeriveSecret(&ss, pk, &skA, c.Rng) {
+		panic("mkem: invalid public key")
+	}
 
 	c.H.Reset()
 	c.H.Write(ss[:])
@@ -84,7 +86,7 @@ func (c *PKE) Dec(sk *csidh.PrivateKey, ct *ciphertext) (pt [16]byte) {
 	return
 }
 
-// mPKE encryption
+// mPKE encryption. Function panics if any of public keys is invalid.
 func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	var ss [64]byte
 	var pkA csidh.PublicKey
@@ -92,7 +94,9 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 
 	csidh.GeneratePrivateKey(&skA, c.Rng)
 	for i, pk := range keys {
-		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
+		if !csidh.DeriveSecret(&ss, &pk, &skA, c.Rng) {
+			panic("mkem: invalid public key")
+		}
 
 		c.H.Reset()
 		c.H.Write(ss[:])
-- 
2.43.0


From 4a48f5d1274cad5898222fbf788f690630b5b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:35 +0000
Subject: [PATCH 22/25] fix: csidh: do not write to shared keys when they are
 only read

---
 dh/csidh/csidh.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index 21a7b6d..2306151 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -123,6 +123,8 @@ func groupAction(pub *PublicKey, prv *PrivateKey, rng io.Reader) {
 	var e [2][primeCount]uint8
 	var done = [2]bool{false, false}
 	var A = coeff{a: pub.a, c: one}
+	// Local, as 'prv' may be used concurrently
+	var gen fpRngGen
 
 	k[0][0] = 4
 	k[1][0] = 4
@@ -148,7 +150,7 @@ func groupAction(pub *PublicKey, prv *PrivateKey, rng io.Reader) {
 	for {
 		var P point
 		var rhs fp
-		prv.randFp(&P.x, rng)
+		gen.randFp(&P.x, rng)
 		P.z = one
 		montEval(&rhs, &A.a, &P.x)
 		sign := rhs.isNonQuadRes()
@@ -292,6 +294,9 @@ func Validate(pub *PublicKey, rng io.Reader) bool {
 		return false
 	}
 
+	// Local, as 'pub' may be used concurrently
+	var gen fpRngGen
+
 	// Check if pub represents a supersingular curve.
 	for {
 		var P point
@@ -301,7 +306,7 @@ func Validate(pub *PublicKey, rng io.Reader) bool {
 		// supersingularity. Probability of random P having big
 		// enough order is very high, as proven by W.Castryck et
 		// al. (ia.cr/2018/383, ch 5)
-		pub.randFp(&P.x, rng)
+		gen.randFp(&P.x, rng)
 		P.z = one
 
 		xDbl(&P, &P, &A)
-- 
2.43.0


From abbfc0f36d6acf2cf251a0ee5917b1495fb0c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:04 +0000
Subject: [PATCH 23/25] fix: sidh: KEM.Reset clears the sponge that produced
 the shared secret

---
 dh/sidh/sike.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index 289668c..b3004af 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -190,6 +190,11 @@ func (c *KEM) Reset() {
 	for i := range c.secretBytes {
 		c.secretBytes[i] = 0
 	}
+
+	// The sponge has absorbed the message and produced the shared secret
+	if c.shake != nil {
+		c.shake.Reset()
+	}
 }
 
 // Returns size of resulting ciphertext.
-- 
2.43.0


From da493de882829d7a39443e3178bf6e5487695a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:04 +0000
Subject: [PATCH 24/25] fix: mkem: Reset clears the sponge and the j-invariant

---
 kem/mkem/sike.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 6aed3d7..1a382f9 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -391,6 +391,17 @@ func (c *KEM) Reset() {
 	for i := range c.secretBytes {
 		c.secretBytes[i] = 0
 	}
+
+	// The sponge has absorbed the message and produced the shared secret
+	if c.shake != nil {
+		c.shake.Reset()
+	}
+}
+
+// Resets internal state of MultiKEM, j-invariant included.
+func (c *MultiKEM) Reset() {
+	c.KEM.Reset()
+	c.j = [common.MaxSharedSecretBsz]byte{}
 }
 
 // Returns size of resulting ciphertext.
-- 
2.43.0


From 2e45f86f6f83e985fa14c72434535161ceca9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:04 +0000
Subject: [PATCH 25/25] fix: drbg: don't keep the key schedule of a superseded
 key

---
 drbg/ctr_drbg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index a507a36..40beb86 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -106,6 +106,9 @@ func (c *CtrDrbg) update(data []byte) {
 
 	copy(c.key[:], c.tmpBlk[:KeyLen])
 	copy(c.v[:], c.tmpBlk[KeyLen:])
+
+	// Don't keep key schedule of the previous key (backtracking resistance)
+	c.blockEnc.SetKey(c.key[:])
 }
 
 func (c *CtrDrbg) Reseed(entropy, data []byte) {
-- 
2.43.0

