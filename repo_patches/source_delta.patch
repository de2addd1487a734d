From 666f6bd6b1a1ea74a7cc712c8fabf002fbc16295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:27 +0000
Subject: [PATCH 01/12] fix: reject P-256/P-384 public keys with coordinates
 not below p

---
 graviola/src/mid/p256.rs | 5 +++++
 graviola/src/mid/p384.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/graviola/src/mid/p256.rs b/graviola/src/mid/p256.rs
index b48b4af..0b39024 100644
--- a/graviola/src/mid/p256.rs
+++ b/graviola/src/mid/p256.rs
@@ -270,6 +270,11 @@ impl AffineMontPoint {
             return Err(Error::NotOnCurve);
         }
 
+        // the conversion above reduces mod p; coordinates must already be reduced.
+        if point.as_bytes_uncompressed() != bytes {
+            return Err(Error::OutOfRange);
+        }
+
         Ok(point)
     }
 
diff --git a/graviola/src/mid/p384.rs b/graviola/src/mid/p384.rs
index 35ac6e8..fe6b0f2 100644
--- a/graviola/src/mid/p384.rs
+++ b/graviola/src/mid/p384.rs
@@ -270,6 +270,11 @@ impl AffineMontPoint {
             return Err(Error::NotOnCurve);
         }
 
+        // the conversion above reduces mod p; coordinates must already be reduced.
+        if point.as_bytes_uncompressed() != bytes {
+            return Err(Error::OutOfRange);
+        }
+
         Ok(point)
     }
 
-- 
2.43.0


From 19d37ff89905f45834e56b5f9919f105477f2c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:14 +0000
Subject: [PATCH 02/12] fix: reject RSA public exponents that are even or less
 than three

---
 graviola/src/mid/rsa_pub.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graviola/src/mid/rsa_pub.rs b/graviola/src/mid/rsa_pub.rs
index f734e0a..8477c55 100644
--- a/graviola/src/mid/rsa_pub.rs
+++ b/graviola/src/mid/rsa_pub.rs
@@ -19,7 +19,8 @@ impl RsaPublicKey {
         let n_len = n.len_bytes();
         if n.is_even()
             || !(MIN_PUBLIC_MODULUS_BYTES..=MAX_PUBLIC_MODULUS_BYTES).contains(&n_len)
-            || e == 0
+            || e < 3
+            || e & 1 == 0
         {
             return Err(Error::OutOfRange);
         }
-- 
2.43.0


From 4b6b376769cf2b19c1f3887a509739868ae4cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:15 +0000
Subject: [PATCH 03/12] fix: require RSA signatures to be as long as the
 modulus

---
 graviola/src/high/rsa.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 0519f9e..8a3ac5b 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -139,6 +139,9 @@ impl VerifyingKey {
         digest_info: &[u8],
         hash: &[u8],
     ) -> Result<(), Error> {
+        if signature.len() != self.0.modulus_len_bytes() {
+            return Err(Error::BadSignature);
+        }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
@@ -212,7 +215,7 @@ impl VerifyingKey {
     fn _verify_pss<H: Hash>(&self, signature: &[u8], message: &[u8]) -> Result<(), Error> {
         let hash = H::hash(message);
 
-        if signature.len() > self.0.modulus_len_bytes() {
+        if signature.len() != self.0.modulus_len_bytes() {
             return Err(Error::BadSignature);
         }
         let c = PosInt::from_bytes(signature).map_err(|_| Error::BadSignature)?;
-- 
2.43.0


From 8c3b85e9f3b688e9f08e16af4db9bacd3068152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:13 +0000
Subject: [PATCH 04/12] fix: RSA signatures for moduli whose bit length is not
 a multiple of 64

---
 graviola/src/high/pkcs1.rs   | 42 ++++++++++++++++++++++++++++++------
 graviola/src/high/rsa.rs     | 23 ++++++++++++++------
 graviola/src/low/posint.rs   | 15 +++++++++++++
 graviola/src/mid/rsa_priv.rs |  4 ++++
 graviola/src/mid/rsa_pub.rs  |  4 ++++
 5 files changed, 74 insertions(+), 14 deletions(-)

diff --git a/graviola/src/high/pkcs1.rs b/graviola/src/high/pkcs1.rs
index ae9d4ee..b8f71a0 100644
--- a/graviola/src/high/pkcs1.rs
+++ b/graviola/src/high/pkcs1.rs
@@ -75,11 +75,13 @@ pub(crate) static DIGESTINFO_SHA512: &[u8] = &[
 ///
 /// `sLen` is fixed as `hLen`.
 /// `MGF` is `MGF1` with hash `H`.
-/// `out` is the modulus-length output buffer.
+/// `out` is the `em_bits`-length (in bits, rounded up to bytes) output buffer.
+/// `em_bits` is one less than the modulus length in bits.
 /// `hash` is the message hash, made by the caller using `H`.
 /// `rng` is used to generate the salt.
-pub(crate) fn encode_pss_sig<H: Hash>(
+pub(crate) fn encode_pss_sig_bits<H: Hash>(
     out: &mut [u8],
+    em_bits: usize,
     rng: &mut dyn RandomSource,
     hash: &[u8],
 ) -> Result<(), Error> {
@@ -132,7 +134,7 @@ pub(crate) fn encode_pss_sig<H: Hash>(
 
     // 11. Set the leftmost 8emLen - emBits bits of the leftmost octet in
     //     maskedDB to zero.
-    db[0] &= 0x7f;
+    db[0] &= 0xff >> (8 * em_len - em_bits);
 
     // 12. Let EM = maskedDB || H || 0xbc.
     let (bc, h_out) = h_bc.split_last_mut().unwrap();
@@ -149,10 +151,17 @@ pub(crate) fn encode_pss_sig<H: Hash>(
 ///
 /// `MGF` is `MGF1` with hash `H`.
 ///
-/// `em` is the modulus-length input and temporary buffer.
+/// `em` is the `em_bits`-length (in bits, rounded up to bytes) input and
+/// temporary buffer.
+///
+/// `em_bits` is one less than the modulus length in bits.
 ///
 /// `m_hash` is the message hash, made by the caller using `H`.
-pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+pub(crate) fn verify_pss_sig_bits<H: Hash>(
+    em: &mut [u8],
+    em_bits: usize,
+    m_hash: &[u8],
+) -> Result<(), Error> {
     // 1.   If the length of M is greater than the input limitation for
     //      the hash function (2^61 - 1 octets for SHA-1), output
     //      "inconsistent" and stop.
@@ -181,7 +190,8 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
     // 6.   If the leftmost 8emLen - emBits bits of the leftmost octet in
     //      maskedDB are not all equal to zero, output "inconsistent" and
     //      stop.
-    if masked_db[0] & 0x80 != 0x00 {
+    let top_mask = 0xff >> (8 * em_len - em_bits);
+    if masked_db[0] & !top_mask != 0x00 {
         return Err(Error::BadSignature);
     }
 
@@ -192,7 +202,7 @@ pub(crate) fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<()
 
     // 9.   Set the leftmost 8emLen - emBits bits of the leftmost octet
     //      in DB to zero.
-    db[0] &= 0x7f;
+    db[0] &= top_mask;
 
     // 10.  If the emLen - hLen - sLen - 2 leftmost octets of DB are not
     //      zero or if the octet at position emLen - hLen - sLen - 1 (the
@@ -243,6 +253,24 @@ fn mgf1_xor<H: Hash>(seed: &[u8], h_len: usize, out: &mut [u8]) {
     }
 }
 
+/// `encode_pss_sig_bits` for moduli that are a whole number of bytes.
+#[cfg(test)]
+fn encode_pss_sig<H: Hash>(
+    out: &mut [u8],
+    rng: &mut dyn RandomSource,
+    hash: &[u8],
+) -> Result<(), Error> {
+    let em_bits = out.len() * 8 - 1;
+    encode_pss_sig_bits::<H>(out, em_bits, rng, hash)
+}
+
+/// `verify_pss_sig_bits` for moduli that are a whole number of bytes.
+#[cfg(test)]
+fn verify_pss_sig<H: Hash>(em: &mut [u8], m_hash: &[u8]) -> Result<(), Error> {
+    let em_bits = em.len() * 8 - 1;
+    verify_pss_sig_bits::<H>(em, em_bits, m_hash)
+}
+
 #[cfg(test)]
 #[cfg_attr(coverage_nightly, coverage(off))]
 mod tests {
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 8a3ac5b..9724756 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -146,7 +146,8 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes = m.to_bytes(&mut m_bytes)?;
+        let m_bytes = &mut m_bytes[..self.0.modulus_len_bytes()];
+        m.to_bytes_padded(m_bytes)?;
 
         let mut actual_m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
         let actual_m = &mut actual_m[..self.0.modulus_len_bytes()];
@@ -222,9 +223,12 @@ impl VerifyingKey {
         let m = self.0.public_op(c).map_err(|_| Error::BadSignature)?;
 
         let mut m_bytes = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m_bytes_len = m.to_bytes(&mut m_bytes)?.len();
+        let em_bits = self.0.modulus_len_bits() - 1;
+        let m_bytes = &mut m_bytes[..em_bits.div_ceil(8)];
+        m.to_bytes_padded(m_bytes)
+            .map_err(|_| Error::BadSignature)?;
 
-        pkcs1::verify_pss_sig::<H>(&mut m_bytes[..m_bytes_len], hash.as_ref())
+        pkcs1::verify_pss_sig_bits::<H>(m_bytes, em_bits, hash.as_ref())
     }
 }
 
@@ -525,7 +529,9 @@ impl SigningKey {
 
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        let signature = &mut signature[..self.0.modulus_len_bytes()];
+        c.to_bytes_padded(signature)?;
+        Ok(signature)
     }
 
     fn _sign_pss<'a, H: Hash>(
@@ -540,12 +546,15 @@ impl SigningKey {
         let hash = H::hash(message);
 
         let mut m = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES];
-        let m = &mut m[..self.0.modulus_len_bytes()];
+        let em_bits = self.0.modulus_len_bits() - 1;
+        let m = &mut m[..em_bits.div_ceil(8)];
 
-        pkcs1::encode_pss_sig::<H>(m, &mut SystemRandom, hash.as_ref())?;
+        pkcs1::encode_pss_sig_bits::<H>(m, em_bits, &mut SystemRandom, hash.as_ref())?;
         let m = PosInt::from_bytes(m)?;
         let c = self.0.private_op(&m).map_err(|_| Error::BadSignature)?;
-        c.to_bytes(signature)
+        let signature = &mut signature[..self.0.modulus_len_bytes()];
+        c.to_bytes_padded(signature)?;
+        Ok(signature)
     }
 }
 
diff --git a/graviola/src/low/posint.rs b/graviola/src/low/posint.rs
index cfbdaff..b2909eb 100644
--- a/graviola/src/low/posint.rs
+++ b/graviola/src/low/posint.rs
@@ -105,6 +105,21 @@ impl<const N: usize> PosInt<N> {
         Ok(out)
     }
 
+    /// Like `to_bytes`, but fills all of `out`, padding with zeroes on the left.
+    pub(crate) fn to_bytes_padded(&self, out: &mut [u8]) -> Result<(), Error> {
+        if out.len() < self.len_bytes() {
+            return Err(Error::OutOfRange);
+        }
+
+        out.fill(0x00);
+        for (chunk, word) in out.rchunks_mut(8).zip(self.as_words().iter()) {
+            let word = word.to_be_bytes();
+            chunk.copy_from_slice(&word[word.len() - chunk.len()..]);
+        }
+
+        Ok(())
+    }
+
     /// Like `to_bytes`, but guarantees a zero byte prefix.
     ///
     /// This means, if the result is used in an ASN.1 encoded integer, the encoding
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 209eb77..15a9867 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -91,6 +91,10 @@ impl RsaPrivateKey {
         self.public.modulus_len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.public.modulus_len_bits()
+    }
+
     pub(crate) fn encode_components<'a>(
         &self,
         buffer: &'a mut RsaComponentsBuffer,
diff --git a/graviola/src/mid/rsa_pub.rs b/graviola/src/mid/rsa_pub.rs
index 8477c55..7c4c7a6 100644
--- a/graviola/src/mid/rsa_pub.rs
+++ b/graviola/src/mid/rsa_pub.rs
@@ -47,6 +47,10 @@ impl RsaPublicKey {
         self.n.len_bytes()
     }
 
+    pub(crate) fn modulus_len_bits(&self) -> usize {
+        self.n.len_bits()
+    }
+
     /// m = c ** e mod n
     pub(crate) fn public_op(&self, mut c: RsaPosInt) -> Result<RsaPosInt, Error> {
         if !c.less_than(&self.n) {
-- 
2.43.0


From bd5931496049349dd2e336584e00bc87a95898ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:14 +0000
Subject: [PATCH 05/12] fix: RSA private keys with p less than q, of unequal
 widths, or with zero CRT exponents

---
 graviola/src/mid/rsa_priv.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index 15a9867..c340dd2 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -41,6 +41,10 @@ impl RsaPrivateKey {
         if p.is_even()
             || q.is_even()
             || !(MIN_PRIVATE_MODULUS_BYTES..=MAX_PRIVATE_MODULUS_BYTES).contains(&p_len)
+            // `private_op()` works on both halves at one width
+            || q.len_bytes().div_ceil(8) != p_len.div_ceil(8)
+            || dp.is_zero()
+            || dq.is_zero()
         {
             return Err(Error::OutOfRange);
         }
@@ -168,8 +172,13 @@ impl RsaPrivateKey {
         // (we don't support multiprime rsa)
 
         // iii. Let h = (m_1 - m_2) * qInv mod p.
+        //
+        // (m_2 is reduced mod q, which may be larger than p.)
+        let m_2_mod_p = m_2
+            .widen::<{ MAX_PRIVATE_MODULUS_WORDS * 2 }>()
+            .reduce(&self.p, &self.p_montifier);
         let h = m_1
-            .sub_mod(&m_2, &self.p)
+            .sub_mod(&m_2_mod_p, &self.p)
             .mont_mul(&self.iqmp_mont, &self.p, self.p0);
 
         // iv.  Let m = m_2 + q * h.
-- 
2.43.0


From 26b2902dc6ea78c273de0d97eb800e250e980df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:16 +0000
Subject: [PATCH 06/12] fix: reject RSA private keys with negative components

---
 graviola/src/high/rsa.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index 9724756..adc4419 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -286,7 +286,14 @@ impl SigningKey {
             return Err(Error::OutOfRange);
         }
 
-        if decoded.modulus.is_negative() {
+        if decoded.modulus.is_negative()
+            || decoded.prime1.is_negative()
+            || decoded.prime2.is_negative()
+            || decoded.privateExponent.is_negative()
+            || decoded.exponent1.is_negative()
+            || decoded.exponent2.is_negative()
+            || decoded.coefficient.is_negative()
+        {
             return Err(Error::OutOfRange);
         }
 
-- 
2.43.0


From 41de5547cbae2c34f94b6eee2bb65b74d926a24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:18 +0000
Subject: [PATCH 07/12] fix: encode RSA public exponents of 2^31 or more as
 positive integers

---
 graviola/src/high/rsa.rs     | 3 ++-
 graviola/src/mid/rsa_priv.rs | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index adc4419..f4f1520 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -85,7 +85,8 @@ impl VerifyingKey {
 
         let mut buffer = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 1];
         let public_modulus = self.0.n.to_bytes_asn1(&mut buffer)?;
-        let public_exponent = self.0.e.to_be_bytes();
+        let mut public_exponent = [0u8; 5];
+        public_exponent[1..].copy_from_slice(&self.0.e.to_be_bytes());
 
         let pub_key = pkix::RSAPublicKey {
             modulus: asn1::Integer::new(public_modulus),
diff --git a/graviola/src/mid/rsa_priv.rs b/graviola/src/mid/rsa_priv.rs
index c340dd2..f4e24dc 100644
--- a/graviola/src/mid/rsa_priv.rs
+++ b/graviola/src/mid/rsa_priv.rs
@@ -104,7 +104,7 @@ impl RsaPrivateKey {
         buffer: &'a mut RsaComponentsBuffer,
     ) -> Result<RsaComponents<'a>, Error> {
         let (public_modulus, buffer) = buffer.0.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
-        let (public_exponent, buffer) = buffer.split_at_mut(4);
+        let (public_exponent, buffer) = buffer.split_at_mut(5);
         let (p, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (q, buffer) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
         let (d, buffer) = buffer.split_at_mut(MAX_PUBLIC_MODULUS_BYTES + 1);
@@ -113,7 +113,7 @@ impl RsaPrivateKey {
         let (iqmp, _) = buffer.split_at_mut(MAX_PRIVATE_MODULUS_BYTES + 1);
 
         let public_modulus = self.public.n.to_bytes_asn1(public_modulus)?;
-        public_exponent.copy_from_slice(&self.public.e.to_be_bytes());
+        public_exponent[1..].copy_from_slice(&self.public.e.to_be_bytes());
 
         let p = self.p.to_bytes_asn1(p)?;
         let q = self.q.to_bytes_asn1(q)?;
@@ -222,7 +222,7 @@ impl RsaComponentsBuffer {
         // public modulus and private exponent
         (MAX_PUBLIC_MODULUS_BYTES + 1) * 2 +
             // public exponent
-            4 +
+            5 +
             // private moduli and crt components
             (MAX_PRIVATE_MODULUS_BYTES + 1) * 5;
 }
@@ -235,7 +235,7 @@ impl Drop for RsaComponentsBuffer {
 
 impl Default for RsaComponentsBuffer {
     fn default() -> Self {
-        Self([0u8; 4619])
+        Self([0u8; Self::LEN])
     }
 }
 
-- 
2.43.0


From f6dfc110b9decb535893a96bab1482c28c65fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:28 +0000
Subject: [PATCH 08/12] fix: reject trailing data after PKCS#8 private keys

---
 graviola/src/high/pkcs8.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graviola/src/high/pkcs8.rs b/graviola/src/high/pkcs8.rs
index 66d5bbf..eee6c5e 100644
--- a/graviola/src/high/pkcs8.rs
+++ b/graviola/src/high/pkcs8.rs
@@ -26,8 +26,7 @@ impl<'a> Key<'a> {
         algorithm: &asn1::ObjectId,
         parameters: Option<asn1::Any<'_>>,
     ) -> Result<Self, Error> {
-        let oak = pkix::OneAsymmetricKey::parse(&mut asn1::Parser::new(slice))
-            .map_err(Error::Asn1Error)?;
+        let oak = pkix::OneAsymmetricKey::from_bytes(slice).map_err(Error::Asn1Error)?;
 
         match (oak.version, oak.publicKey.inner()) {
             (pkix::Pkcs8Version::Pkcs8v1, None) => {}
-- 
2.43.0


From e3ef78445174efb41b38e530e7c934ee5a82db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:29 +0000
Subject: [PATCH 09/12] fix: reject Ed25519 SPKI public keys with algorithm
 parameters

---
 graviola/src/high/ed25519.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graviola/src/high/ed25519.rs b/graviola/src/high/ed25519.rs
index 1a094c8..6c83e4f 100644
--- a/graviola/src/high/ed25519.rs
+++ b/graviola/src/high/ed25519.rs
@@ -19,7 +19,10 @@ impl Ed25519VerifyingKey {
         let _entry = Entry::new_public();
         let decoded = pkix::SubjectPublicKeyInfo::from_bytes(bytes).map_err(Error::Asn1Error)?;
 
-        if decoded.algorithm.algorithm != asn1::oid::id_ed25519 {
+        // RFC8410 section 3: "the parameters MUST be absent"
+        if decoded.algorithm.algorithm != asn1::oid::id_ed25519
+            || decoded.algorithm.parameters.is_some()
+        {
             return Err(KeyFormatError::MismatchedSpkiAlgorithm.into());
         }
 
-- 
2.43.0


From c1b2fe3e04faf6990e67eca53b887a1ef96e8cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:29 +0000
Subject: [PATCH 10/12] fix: reject PKCS#8 v2 ECDSA and RSA keys with a
 mismatched public key

---
 graviola/src/high/ecdsa.rs | 19 ++++++++++++++++---
 graviola/src/high/rsa.rs   | 19 +++++++++++++++----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/graviola/src/high/ecdsa.rs b/graviola/src/high/ecdsa.rs
index 2a6e056..ca48aa0 100644
--- a/graviola/src/high/ecdsa.rs
+++ b/graviola/src/high/ecdsa.rs
@@ -33,12 +33,25 @@ impl<C: Curve> SigningKey<C> {
     /// Load an ECDSA private key in PKCS#8 format.
     pub fn from_pkcs8_der(bytes: &[u8]) -> Result<Self, Error> {
         let _entry = Entry::new_secret();
-        pkcs8::Key::decode(
+        let p8 = pkcs8::Key::decode(
             bytes,
             &asn1::oid::id_ecPublicKey,
             Some(asn1::Any::ObjectId(C::oid())),
-        )
-        .and_then(|k| Self::from_sec1_der(k.private_key()))
+        )?;
+
+        let key = Self::from_sec1_der(p8.private_key())?;
+
+        if let Some(alleged_pub_key) = p8.public_key() {
+            let mut pub_key_buf = [0u8; MAX_UNCOMPRESSED_PUBLIC_KEY_LEN];
+            let actual_pub_key = key
+                .private_key
+                .public_key_encode_uncompressed(&mut pub_key_buf)?;
+            if alleged_pub_key != actual_pub_key {
+                return Err(KeyFormatError::MismatchedPkcs8PublicKey.into());
+            }
+        }
+
+        Ok(key)
     }
 
     /// Encode this private key in PKCS#8 DER format.
diff --git a/graviola/src/high/rsa.rs b/graviola/src/high/rsa.rs
index f4f1520..3693a67 100644
--- a/graviola/src/high/rsa.rs
+++ b/graviola/src/high/rsa.rs
@@ -3,7 +3,7 @@
 
 pub use rsa_priv::KeySize;
 
-use crate::Error;
+use crate::error::{Error, KeyFormatError};
 use crate::high::asn1::{self, Type, pkix};
 use crate::high::hash::{self, Hash};
 use crate::high::{pkcs1, pkcs8};
@@ -381,12 +381,23 @@ impl SigningKey {
     /// `privateKeyAlgorithm` inside this encoding must be `rsaEncryption`.
     pub fn from_pkcs8_der(bytes: &[u8]) -> Result<Self, Error> {
         let _entry = Entry::new_secret();
-        pkcs8::Key::decode(
+        let p8 = pkcs8::Key::decode(
             bytes,
             &asn1::oid::rsaEncryption,
             Some(asn1::Any::Null(asn1::Null)),
-        )
-        .and_then(|k| Self::from_pkcs1_der(k.private_key()))
+        )?;
+
+        let key = Self::from_pkcs1_der(p8.private_key())?;
+
+        if let Some(alleged_pub_key) = p8.public_key() {
+            let mut pub_key_buf = [0u8; rsa_pub::MAX_PUBLIC_MODULUS_BYTES + 64];
+            let actual_pub_key = key.public_key().to_pkcs1_der(&mut pub_key_buf)?;
+            if alleged_pub_key != actual_pub_key {
+                return Err(KeyFormatError::MismatchedPkcs8PublicKey.into());
+            }
+        }
+
+        Ok(key)
     }
 
     /// Returns the matching public key.
-- 
2.43.0


From cc57c339c1a4f75fc26d93979b1c2023fc222f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:49 +0000
Subject: [PATCH 11/12] fix: rustls-graviola: refuse oversized TLS 1.2
 ChaCha20-Poly1305 records

RFC 5246 6.2.3 bounds the plaintext of a record to 2^14 bytes; the AES-GCM
decrypter already refuses longer ones.
---
 rustls-graviola/src/aead.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rustls-graviola/src/aead.rs b/rustls-graviola/src/aead.rs
index 52d4d49..562905a 100644
--- a/rustls-graviola/src/aead.rs
+++ b/rustls-graviola/src/aead.rs
@@ -177,6 +177,10 @@ impl MessageDecrypter for ChaChaTls12Cipher {
             .decrypt(&nonce.0, &aad, payload, tag)
             .map_err(|_| rustls::Error::DecryptError)?;
 
+        if cipher_len > MAX_FRAGMENT_LEN {
+            return Err(rustls::Error::PeerSentOversizedRecord);
+        }
+
         m.payload.truncate(cipher_len);
         Ok(m.into_plain_message())
     }
-- 
2.43.0


From 2b8f631afbae87161b039c498de3fcf350e1fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:43 +0000
Subject: [PATCH 12/12] fix: wipe hash state when dropped, so that HMAC keys do
 not outlive their owner

---
 graviola/src/low/generic/blockwise.rs |  8 ++++++++
 graviola/src/low/generic/zeroise.rs   |  1 +
 graviola/src/mid/sha2.rs              | 14 +++++++++++++-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/graviola/src/low/generic/blockwise.rs b/graviola/src/low/generic/blockwise.rs
index 0a4b9bd..c129fce 100644
--- a/graviola/src/low/generic/blockwise.rs
+++ b/graviola/src/low/generic/blockwise.rs
@@ -1,6 +1,8 @@
 // Written for Graviola by Joe Birr-Pixton, 2024.
 // SPDX-License-Identifier: Apache-2.0 OR ISC OR MIT-0
 
+use crate::low;
+
 #[derive(Clone)]
 pub(crate) struct Blockwise<const N: usize> {
     buffer: [u8; N],
@@ -89,6 +91,12 @@ impl<const N: usize> Blockwise<N> {
     }
 }
 
+impl<const N: usize> Drop for Blockwise<N> {
+    fn drop(&mut self) {
+        low::zeroise(&mut self.buffer);
+    }
+}
+
 pub(crate) enum FinalBlocks<const N: usize> {
     One([u8; N]),
     Two([[u8; N]; 2]),
diff --git a/graviola/src/low/generic/zeroise.rs b/graviola/src/low/generic/zeroise.rs
index 68eea39..34b7bf8 100644
--- a/graviola/src/low/generic/zeroise.rs
+++ b/graviola/src/low/generic/zeroise.rs
@@ -19,6 +19,7 @@ pub(crate) fn zeroise_value<T: Zeroable>(v: &mut T) {
 pub(crate) trait Zeroable {}
 
 impl Zeroable for u8 {}
+impl Zeroable for u32 {}
 impl Zeroable for u64 {}
 impl Zeroable for usize {}
 
diff --git a/graviola/src/mid/sha2.rs b/graviola/src/mid/sha2.rs
index 575c8cb..42b8811 100644
--- a/graviola/src/mid/sha2.rs
+++ b/graviola/src/mid/sha2.rs
@@ -6,7 +6,7 @@
 //! This is SHA256, SHA384, and SHA512.
 //! These are all described in [FIPS180](https://nvlpubs.nist.gov/nistpubs/FIPS/NIST.FIPS.180-4.pdf).
 
-use crate::low::Blockwise;
+use crate::low::{Blockwise, zeroise};
 
 /// A context for incremental computation of SHA256.
 #[derive(Clone)]
@@ -91,6 +91,12 @@ impl Sha256Context {
     pub const OUTPUT_SZ: usize = 32;
 }
 
+impl Drop for Sha256Context {
+    fn drop(&mut self) {
+        zeroise(&mut self.h);
+    }
+}
+
 /// A context for incremental computation of SHA384.
 #[derive(Clone)]
 pub struct Sha384Context {
@@ -221,6 +227,12 @@ impl Sha512Context {
     pub const OUTPUT_SZ: usize = 64;
 }
 
+impl Drop for Sha512Context {
+    fn drop(&mut self) {
+        zeroise(&mut self.h);
+    }
+}
+
 #[cfg(test)]
 #[cfg_attr(coverage_nightly, coverage(off))]
 mod tests {
-- 
2.43.0

