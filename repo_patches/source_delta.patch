From f973aff4f670eddf2fe6babea88ae71591bac725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 01/48] fix: reject trailing data in SSH signatures

---
 src/ssh/signature.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 8dd3c18..0feef89 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -266,6 +266,14 @@ impl VerifiedSshSignature {
     }
 }
 
+/// A signature is only well formed if nothing follows its last field.
+fn reject_trailing_data(reader: &Reader<'_>, signature_buf: &[u8]) -> Result<()> {
+    if reader.get_offset() != signature_buf.len() {
+        return Err(Error::InvalidFormat);
+    }
+    Ok(())
+}
+
 /// Verify an SSH key signature. This is used when validating both SSH Certificates
 /// as well as detached SSHSIG signatures. This function is pub(crate) because it should
 /// not be used directly, instead it should be integrated through different types provided
@@ -291,8 +299,8 @@ pub(crate) fn verify_signature(
 
     match &public_key.kind {
         PublicKeyKind::Ecdsa(key) => {
-            let sig_reader = reader.read_bytes()?;
-            let mut sig_reader = Reader::new(&sig_reader);
+            let sig_bytes = reader.read_bytes()?;
+            let mut sig_reader = Reader::new(&sig_bytes);
 
             let (alg, len) = match sig_type.name {
                 "ecdsa-sha2-nistp256" | "sk-ecdsa-sha2-nistp256@openssh.com" => {
@@ -307,6 +315,11 @@ pub(crate) fn verify_signature(
             // Read the S value
             let s_bytes = sig_reader.read_positive_mpint()?;
 
+            // Nothing may follow the two integers
+            if sig_reader.get_offset() != sig_bytes.len() {
+                return Err(Error::InvalidFormat);
+            }
+
             // (r/s)_bytes are user controlled so ensure maliciously crafted signatures
             // can't cause integer underflow.
             if r_bytes.len() > len || s_bytes.len() > len {
@@ -330,6 +343,7 @@ pub(crate) fn verify_signature(
             if let Some(sk_application) = &key.sk_application {
                 let flags = reader.read_raw_bytes(1)?[0];
                 let signature_counter = reader.read_u32()?;
+                reject_trailing_data(&reader, signature_buf)?;
 
                 let mut app_hash = digest::digest(&digest::SHA256, sk_application.as_bytes())
                     .as_ref()
@@ -344,6 +358,7 @@ pub(crate) fn verify_signature(
 
                 UnparsedPublicKey::new(alg, &key.key).verify(&app_hash, &sig)?;
             } else {
+                reject_trailing_data(&reader, signature_buf)?;
                 UnparsedPublicKey::new(alg, &key.key).verify(signed_bytes, &sig)?;
             }
 
@@ -357,6 +372,7 @@ pub(crate) fn verify_signature(
                 _ => return Err(Error::KeyTypeMismatch),
             };
             let signature = reader.read_bytes()?;
+            reject_trailing_data(&reader, signature_buf)?;
             let public_key = RsaPublicKeyComponents {
                 n: &key.n,
                 e: &key.e,
@@ -378,6 +394,7 @@ pub(crate) fn verify_signature(
             if let Some(sk_application) = &key.sk_application {
                 let flags = reader.read_raw_bytes(1)?[0];
                 let signature_counter = reader.read_u32()?;
+                reject_trailing_data(&reader, signature_buf)?;
 
                 let mut app_hash = digest::digest(&digest::SHA256, sk_application.as_bytes())
                     .as_ref()
@@ -392,6 +409,7 @@ pub(crate) fn verify_signature(
 
                 peer_public_key.verify(&app_hash, &signature)?;
             } else {
+                reject_trailing_data(&reader, signature_buf)?;
                 peer_public_key.verify(signed_bytes, &signature)?;
             }
 
-- 
2.43.0


From 3add047017af002c3feebdcea6db939967251e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 02/48] fix: require the signature algorithm to match the exact
 key type

---
 src/ssh/signature.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 0feef89..8398988 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -297,6 +297,12 @@ pub(crate) fn verify_signature(
         return Err(Error::KeyTypeMismatch);
     }
 
+    // The kind does not tell hardware backed keys or different curves apart. The
+    // signature algorithm must be one of exactly this type of key.
+    if public_key.key_type.plain != sig_type.plain {
+        return Err(Error::KeyTypeMismatch);
+    }
+
     match &public_key.kind {
         PublicKeyKind::Ecdsa(key) => {
             let sig_bytes = reader.read_bytes()?;
-- 
2.43.0


From 95ec9b0fbcda5566b4d5bacfc7b274ddac3f8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 03/48] fix: reject trailing data in certificate option values

---
 src/ssh/cert.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 385b566..1915c54 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -490,7 +490,13 @@ fn read_options(buf: &[u8]) -> Result<HashMap<String, String>> {
         // otherwise we have a `flag` option which is the `empty` string.
         let value_buf = reader.read_bytes()?;
         let value = if !value_buf.is_empty() {
-            Reader::new(&value_buf).read_string()?
+            let mut value_reader = Reader::new(&value_buf);
+            let value = value_reader.read_string()?;
+            // The value is exactly one string
+            if value_reader.get_offset() != value_buf.len() {
+                return Err(Error::InvalidFormat);
+            }
+            value
         } else {
             "".to_string()
         };
-- 
2.43.0


From 05d10b95dfa48c1948e86f3ea30a1435ef22b244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 04/48] fix: reject certificates with duplicate options

---
 src/ssh/cert.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 1915c54..e20b2e9 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -501,7 +501,10 @@ fn read_options(buf: &[u8]) -> Result<HashMap<String, String>> {
             "".to_string()
         };
 
-        options.insert(name, value);
+        // Every option may only appear once
+        if options.insert(name, value).is_some() {
+            return Err(Error::InvalidFormat);
+        }
     }
 
     Ok(options)
-- 
2.43.0


From 08f9995fb5c3f46e583ab50f418f560a60ae0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 05/48] fix: reject trailing data after a certificate

---
 src/ssh/cert.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index e20b2e9..0c5e916 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -202,6 +202,11 @@ impl Certificate {
         let signed_len = reader.get_offset();
         let signature = reader.read_bytes()?;
 
+        // The signature is the last field
+        if reader.get_offset() != data.len() {
+            return Err(Error::InvalidFormat);
+        }
+
         reader.set_offset(0)?;
         let signed_bytes = reader.read_raw_bytes(signed_len)?;
 
-- 
2.43.0


From f60f35b4726c0859894b0c286074468c47537926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 06/48] fix: require the certificate type name to match its
 encoded type

---
 src/ssh/cert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 0c5e916..94c7b32 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -157,7 +157,7 @@ impl Certificate {
         let mut cert = Certificate::from_bytes(&decoded)?;
         cert.comment = comment;
 
-        if cert.key_type.kind != outer_kt.kind {
+        if cert.key_type != outer_kt {
             return Err(Error::KeyTypeMismatch);
         }
         Ok(cert)
-- 
2.43.0


From 61c55d1c1d3eb397167f75304ec9ba95c385cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 07/48] fix: report the reserved field of a new certificate as
 it is encoded

---
 src/ssh/cert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 94c7b32..8d005fd 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -313,7 +313,7 @@ impl Certificate {
             valid_before: 0,
             critical_options: HashMap::new(),
             extensions: HashMap::new(),
-            reserved: vec![0, 0, 0, 0, 0, 0, 0, 0],
+            reserved: vec![],
             signature_key: signing_key.clone(),
             signature: vec![],
             comment: None,
-- 
2.43.0


From 4781585345348ad0e34029a5bc77e0cabecc6973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 08/48] fix: write certificate options in lexical order

---
 src/ssh/writer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ssh/writer.rs b/src/ssh/writer.rs
index 523ce77..50153e3 100644
--- a/src/ssh/writer.rs
+++ b/src/ssh/writer.rs
@@ -196,7 +196,11 @@ impl Writer {
 
         self.write_u32(total_length);
 
-        for (k, v) in map {
+        // Options must be lexically ordered by name
+        let mut sorted: Vec<_> = map.iter().collect();
+        sorted.sort();
+
+        for (k, v) in sorted {
             self.write_string(k);
             if v.is_empty() {
                 self.write_u32(0x0);
-- 
2.43.0


From f17cf496a2c918007042635a2f9bbad3ff5b74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 09/48] fix: do not read certificates as plain public keys

---
 src/ssh/pubkey.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 592b08f..7ecabd6 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -256,6 +256,11 @@ impl PublicKey {
     pub(crate) fn from_reader(kt_name: &str, reader: &mut Reader<'_>) -> Result<PublicKey> {
         let kt = KeyType::from_name(kt_name)?;
 
+        // Certificates carry more than a public key, see `Certificate`
+        if kt.is_cert {
+            return Err(Error::KeyTypeMismatch);
+        }
+
         let kind = match kt.kind {
             KeyTypeKind::Rsa | KeyTypeKind::RsaCert => {
                 let k = RsaPublicKey {
-- 
2.43.0


From 9d6062da7ff3a46ef850bf9469abc943c1d86025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 10/48] fix: reject ECDSA public keys whose curve does not
 match their type

---
 src/ssh/pubkey.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 7ecabd6..ebbb716 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -273,6 +273,10 @@ impl PublicKey {
             KeyTypeKind::Ecdsa | KeyTypeKind::EcdsaCert => {
                 let identifier = reader.read_string()?;
                 let curve = Curve::from_identifier(&identifier)?;
+                // The key type names the curve as well
+                if !kt.plain.contains(curve.identifier) {
+                    return Err(Error::KeyTypeMismatch);
+                }
                 let key = reader.read_bytes()?;
                 let sk_application = match kt.is_sk {
                     true => Some(reader.read_string()?),
-- 
2.43.0


From f1c3dc04e29b049d738d488ef1492c24efe6e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:20 +0000
Subject: [PATCH 11/48] fix: reject trailing data after a public key

---
 src/ssh/pubkey.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index ebbb716..da6167c 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -215,6 +215,9 @@ impl PublicKey {
 
         // Construct a new `PublicKey` value and preserve the `comment` value.
         let k = PublicKey::from_reader(kt_name, &mut reader)?;
+        if reader.get_offset() != decoded.len() {
+            return Err(Error::InvalidFormat);
+        }
         let key = PublicKey {
             key_type,
             kind: k.kind,
@@ -247,7 +250,12 @@ impl PublicKey {
     pub fn from_bytes<T: ?Sized + AsRef<[u8]>>(data: &T) -> Result<PublicKey> {
         let mut reader = Reader::new(&data);
         let kt_name = reader.read_string()?;
-        PublicKey::from_reader(&kt_name, &mut reader)
+        let key = PublicKey::from_reader(&kt_name, &mut reader)?;
+        if reader.get_offset() != data.as_ref().len() {
+            return Err(Error::InvalidFormat);
+        }
+
+        Ok(key)
     }
 
     /// This function is used for extracting a public key from an existing reader, e.g.
-- 
2.43.0


From 025ea8972615bf7af91bdf1a6531cdf7068e5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:05 +0000
Subject: [PATCH 12/48] fix: sign with ECDSA keys whose scalar has leading zero
 bytes

The scalar is an mpint, so about one key in 256 is stored shorter than the
curve's length and could not sign. An empty scalar made signing panic.
---
 src/ssh/privkey.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 9a31f4a..fb620e6 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -242,9 +242,9 @@ impl super::SSHCertificateSigner for PrivateKey {
             #[cfg(not(feature = "rsa-signing"))]
             PrivateKeyKind::Rsa(_) => return None,
             PrivateKeyKind::Ecdsa(key) => {
-                let alg = match key.curve.kind {
-                    CurveKind::Nistp256 => &signature::ECDSA_P256_SHA256_ASN1_SIGNING,
-                    CurveKind::Nistp384 => &signature::ECDSA_P384_SHA384_ASN1_SIGNING,
+                let (alg, len) = match key.curve.kind {
+                    CurveKind::Nistp256 => (&signature::ECDSA_P256_SHA256_ASN1_SIGNING, 32),
+                    CurveKind::Nistp384 => (&signature::ECDSA_P384_SHA384_ASN1_SIGNING, 48),
                     CurveKind::Nistp521 => return None,
                 };
 
@@ -253,18 +253,21 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key = if key.key[0] == 0x0_u8 {
-                    &key.key[1..]
-                } else {
-                    &key.key
-                };
-                let key_pair = match signature::EcdsaKeyPair::from_private_key_and_public_key(
-                    alg, key, pubkey, &rng,
-                ) {
-                    Ok(kp) => kp,
-                    Err(_) => return None,
+                let key = match key.key.first() {
+                    Some(0x0_u8) => &key.key[1..],
+                    _ => &key.key[..],
                 };
 
+                // The scalar is stored as an mpint, so it may be shorter than the curve
+                let mut scalar = vec![0; len.max(key.len())];
+                let start = scalar.len() - key.len();
+                scalar[start..].copy_from_slice(key);
+                let key_pair = signature::EcdsaKeyPair::from_private_key_and_public_key(
+                    alg, &scalar, pubkey, &rng,
+                );
+                scalar.zeroize();
+                let key_pair = key_pair.ok()?;
+
                 format_signature_for_ssh(&self.pubkey, key_pair.sign(&rng, buffer).ok()?.as_ref())
             }
             PrivateKeyKind::Ed25519(key) => {
-- 
2.43.0


From 98d364076c771031e2ced5b1e8d5ab1848eb1e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:05 +0000
Subject: [PATCH 13/48] fix: do not panic when signing with a truncated Ed25519
 key

---
 src/ssh/privkey.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index fb620e6..0e66987 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -276,11 +276,11 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key_pair =
-                    match Ed25519KeyPair::from_seed_and_public_key(&key.key[..32], public_key) {
-                        Ok(kp) => kp,
-                        Err(_) => return None,
-                    };
+                let seed = key.key.get(..32)?;
+                let key_pair = match Ed25519KeyPair::from_seed_and_public_key(seed, public_key) {
+                    Ok(kp) => kp,
+                    Err(_) => return None,
+                };
 
                 format_signature_for_ssh(&self.pubkey, key_pair.sign(buffer).as_ref())
             }
-- 
2.43.0


From f1f4174b1b3370c2644e47bf867f83c561b4375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:36 +0000
Subject: [PATCH 14/48] fix: do not panic on RSA private keys with a factor of
 zero or one

---
 src/ssh/privkey.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 0e66987..1429e9a 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -214,6 +214,18 @@ impl ToASN1 for RsaPrivateKey {
     }
 }
 
+/// Compute the CRT exponent d mod (prime - 1)
+#[cfg(feature = "rsa-signing")]
+fn crt_exponent(d: &[u8], prime: &[u8]) -> Result<Vec<u8>> {
+    let prime = BigUint::from_bytes_be(prime);
+    // Zero and one are not primes, and there is nothing to reduce by
+    if prime <= BigUint::from(1_u8) {
+        return Err(Error::InvalidFormat);
+    }
+
+    Ok((BigUint::from_bytes_be(d) % (prime - 1_u8)).to_bytes_be())
+}
+
 impl super::SSHCertificateSigner for PrivateKey {
     fn sign(&self, buffer: &[u8]) -> Option<Vec<u8>> {
         let rng = rand::SystemRandom::new();
@@ -308,26 +320,12 @@ impl PrivateKey {
                 let q = reader.read_positive_mpint()?;
 
                 #[cfg(feature = "rsa-signing")]
-                let exp = Some(
-                    BigUint::from_bytes_be(&d)
-                        .modpow(
-                            &BigUint::from_slice(&[0x1]),
-                            &(BigUint::from_bytes_be(&p) - 1_u8),
-                        )
-                        .to_bytes_be(),
-                );
+                let exp = Some(crt_exponent(&d, &p)?);
                 #[cfg(not(feature = "rsa-signing"))]
                 let exp = None;
 
                 #[cfg(feature = "rsa-signing")]
-                let exq = Some(
-                    BigUint::from_bytes_be(&d)
-                        .modpow(
-                            &BigUint::from_slice(&[0x1]),
-                            &(BigUint::from_bytes_be(&q) - 1_u8),
-                        )
-                        .to_bytes_be(),
-                );
+                let exq = Some(crt_exponent(&d, &q)?);
                 #[cfg(not(feature = "rsa-signing"))]
                 let exq = None;
 
-- 
2.43.0


From 1816f62ff587aaf8f0833fd4da4bd41268e8b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:36 +0000
Subject: [PATCH 15/48] fix: store generated Ed25519 keys the way OpenSSH does

The private key field of an Ed25519 key holds the seed and the public key.
With only the seed, ssh-keygen could not load a generated key once written.
---
 src/ssh/privkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 1429e9a..91200ea 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -453,7 +453,10 @@ impl PrivateKey {
                     .public_key()
                     .as_ref()
                     .to_vec();
-                let key = Ed25519PrivateKey { key: seed.to_vec() };
+                // OpenSSH stores the seed followed by the public key
+                let key = Ed25519PrivateKey {
+                    key: [&seed[..], &public_key_bytes[..]].concat(),
+                };
 
                 let pubkey = PublicKey {
                     key_type: key_type.clone(),
-- 
2.43.0


From 1849dfe2d45badbb84a9c6b860088974db3e6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:36 +0000
Subject: [PATCH 16/48] fix: keep the reserved field when encoding security
 keys

---
 src/ssh/privkey.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 91200ea..337da05 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -681,7 +681,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ecdsask.flags]);
                 w.write_bytes(&ecdsask.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ecdsask.reserved);
             }
             PrivateKeyKind::Ed25519(ed25519) => {
                 w.write_pub_key_data(&self.pubkey);
@@ -691,7 +691,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ed25519sk.flags]);
                 w.write_bytes(&ed25519sk.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ed25519sk.reserved);
             }
         };
 
-- 
2.43.0


From c6ec244a4e49cbee5b6e35ff419165788fada734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:36 +0000
Subject: [PATCH 17/48] fix: report the size of RSA keys in bits of the modulus

The size was rounded up to whole bytes.
---
 src/ssh/pubkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index da6167c..136c35d 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -334,7 +334,10 @@ impl PublicKey {
     pub fn bits(&self) -> usize {
         match self.kind {
             // For RSA public key the size of the key is the number of bits of the modulus
-            PublicKeyKind::Rsa(ref k) => k.n.len() * 8,
+            PublicKeyKind::Rsa(ref k) => match k.n.iter().position(|b| *b != 0) {
+                Some(i) => (k.n.len() - i) * 8 - k.n[i].leading_zeros() as usize,
+                None => 0,
+            },
             // ECDSA key size depends on the curve
             PublicKeyKind::Ecdsa(ref k) => match k.curve.kind {
                 CurveKind::Nistp256 => 256,
-- 
2.43.0


From e91ea9c35d4829978bd8b6e0b4cf3eeb7bd88746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:27 +0000
Subject: [PATCH 18/48] fix: keep the whole comment of public keys and
 certificates

A comment is the rest of the line; only its first word was kept.
---
 src/ssh/cert.rs   | 10 ++++------
 src/ssh/pubkey.rs | 24 +++++++++++++++++++-----
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 8d005fd..7bbd7f8 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -6,7 +6,8 @@ use std::path::Path;
 
 use ring::rand::{SecureRandom, SystemRandom};
 
-use super::{keytype::KeyType, pubkey::PublicKey, reader::Reader, writer::Writer};
+use super::pubkey::{split_key_line, PublicKey};
+use super::{keytype::KeyType, reader::Reader, writer::Writer};
 use super::{signature, SSHCertificateSigner};
 use crate::{error::Error, Result};
 
@@ -147,11 +148,8 @@ impl Certificate {
     /// println!("{:?}", cert);
     /// ```
     pub fn from_string(s: &str) -> Result<Certificate> {
-        let mut iter = s.split_whitespace();
-
-        let outer_kt = KeyType::from_name(iter.next().ok_or(Error::InvalidFormat)?)?;
-        let data = iter.next().ok_or(Error::InvalidFormat)?;
-        let comment = iter.next().map(String::from);
+        let (outer_kt, data, comment) = split_key_line(s)?;
+        let outer_kt = KeyType::from_name(outer_kt)?;
         let decoded = base64::decode(data)?;
 
         let mut cert = Certificate::from_bytes(&decoded)?;
diff --git a/src/ssh/pubkey.rs b/src/ssh/pubkey.rs
index 136c35d..258990c 100644
--- a/src/ssh/pubkey.rs
+++ b/src/ssh/pubkey.rs
@@ -169,6 +169,24 @@ impl Fingerprint {
     }
 }
 
+/// Split the text form of a key or certificate into its type, its data and the
+/// comment, which is the rest of the line.
+pub(crate) fn split_key_line(contents: &str) -> Result<(&str, &str, Option<String>)> {
+    fn next_word(s: &str) -> Result<(&str, &str)> {
+        let s = s.trim_start();
+        if s.is_empty() {
+            return Err(Error::InvalidFormat);
+        }
+        Ok(s.split_at(s.find(char::is_whitespace).unwrap_or(s.len())))
+    }
+
+    let (key_type, rest) = next_word(contents)?;
+    let (data, rest) = next_word(rest)?;
+    let comment = rest.lines().next().map(str::trim).filter(|c| !c.is_empty());
+
+    Ok((key_type, data, comment.map(String::from)))
+}
+
 impl PublicKey {
     /// Reads an OpenSSH public key from a given path.
     ///
@@ -198,11 +216,7 @@ impl PublicKey {
     /// assert_eq!(fp.hash, "ciQkdxjFUhk2E2vRkWJD9kB8pi+EneOkaCJJHNWzPC4");
     /// ```
     pub fn from_string(contents: &str) -> Result<PublicKey> {
-        let mut iter = contents.split_whitespace();
-
-        let kt_name = iter.next().ok_or(Error::InvalidFormat)?;
-        let data = iter.next().ok_or(Error::InvalidFormat)?;
-        let comment = iter.next().map(String::from);
+        let (kt_name, data, comment) = split_key_line(contents)?;
         let key_type = KeyType::from_name(kt_name)?;
         let decoded = base64::decode(data)?;
         let mut reader = Reader::new(&decoded);
-- 
2.43.0


From 2344de544f4f5f1e9e148083cca6f892da0d6d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 19/48] fix: ignore the comment of the expected key when
 verifying SSH signatures

A key read from a line with a comment never matched the key in a signature.
---
 src/ssh/signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 8398988..6ec834a 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -210,7 +210,8 @@ impl VerifiedSshSignature {
         // public key before verification. This is useful when you have a signature but additionally
         // need to check the signature is from it.
         if let Some(pub_key) = pub_key {
-            if ssh_signature.pubkey != pub_key {
+            // The comment is not part of the key
+            if ssh_signature.pubkey.encode() != pub_key.encode() {
                 return Err(Error::InvalidSignature);
             }
         }
-- 
2.43.0


From 41d235c5b711b4ef16d121017d2ea48bca6a73d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 20/48] fix: reject trailing data after an SSH signature file

---
 src/ssh/signature.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 6ec834a..b7ab8aa 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -118,6 +118,7 @@ impl SshSignature {
         let mut reader = Reader::new(&decoded);
         // Construct a new `SshSignature`
         let k = Self::from_reader(&mut reader)?;
+        reject_trailing_data(&reader, &decoded)?;
 
         Ok(k)
     }
-- 
2.43.0


From 197e4c57f2844781205e8ae45903cff66d99c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 21/48] fix: ignore the reserved field of SSH signatures
 whatever it contains

---
 src/ssh/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index b7ab8aa..0958fb1 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -156,7 +156,7 @@ impl SshSignature {
 
         // Reserved space for future expansion. According to the specification, this should be
         // ignored even if it is not empty.
-        let _reserved = reader.read_string()?;
+        let _reserved = reader.read_bytes()?;
 
         // The hash algorithm used to sign the data. This must be one of sha256 or sha512.
         let hash_algorithm = match reader.read_string()?.as_str() {
-- 
2.43.0


From d34d85f8423151be5fc8a2238500dda2d8b430c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 22/48] fix: refuse to create SSH signatures in an empty
 namespace

---
 src/ssh/signature.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 0958fb1..27d0f91 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -244,6 +244,11 @@ impl VerifiedSshSignature {
         private_key: PrivateKey,
         hash_algorithm: Option<HashAlgorithm>,
     ) -> Result<Self> {
+        // The specification does not allow an empty namespace, and no verifier accepts it
+        if namespace.is_empty() {
+            return Err(Error::InvalidFormat);
+        }
+
         let hash_algorithm = hash_algorithm.unwrap_or(HashAlgorithm::Sha512);
 
         let mut ssh_signature = SshSignature {
-- 
2.43.0


From f658787dcdcaf6f3a9ac6474ed1a28b89bb0f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:04 +0000
Subject: [PATCH 23/48] fix: reject RSA signatures using SHA1 in SSH signature
 files

PROTOCOL.sshsig requires rsa-sha2-256 or rsa-sha2-512.
---
 src/ssh/signature.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ssh/signature.rs b/src/ssh/signature.rs
index 27d0f91..4c8e468 100644
--- a/src/ssh/signature.rs
+++ b/src/ssh/signature.rs
@@ -221,6 +221,14 @@ impl VerifiedSshSignature {
             return Err(Error::InvalidSignature);
         }
 
+        // The specification only allows RSA signatures using SHA2
+        let sig_type = Reader::new(&ssh_signature.signature)
+            .read_string()
+            .map_err(|_| Error::InvalidSignature)?;
+        if sig_type == "ssh-rsa" {
+            return Err(Error::InvalidSignature);
+        }
+
         match verify_signature(
             &ssh_signature.signature,
             &ssh_signature.to_signed_format(message),
-- 
2.43.0


From 1ff11939bbdddc9ee457ff724e46a1d18d8888d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:58 +0000
Subject: [PATCH 24/48] fix: accept allowed signers whose comment ends with a
 quote

The check for an opening quote looked at the last token of the line instead of
the next one, so a quote at the end of a comment made a valid line be rejected.
---
 src/ssh/allowed_signer.rs | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 96d4bab..8018cf8 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -99,7 +99,7 @@ impl AllowedSigner {
     pub fn from_string(s: &str) -> Result<AllowedSigner> {
         let mut tokenizer = AllowedSignerSplitter::new(s);
 
-        let principals = tokenizer.next(true)?
+        let principals = tokenizer.next()?
             .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::MissingPrincipals))?;
         let principals = principals.trim_matches('"');
         let principals: Vec<String> = principals.split(',')
@@ -115,7 +115,7 @@ impl AllowedSigner {
         let mut valid_before = None;
 
         let kt = loop {
-            let option = tokenizer.next(false)?
+            let option = tokenizer.next()?
                 .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::MissingKey))?;
 
             let (option_key, option_value) = match option.split_once('=') {
@@ -172,7 +172,12 @@ impl AllowedSigner {
             };
         };
 
-        let key_data = tokenizer.next(false)?
+        // The key must not be quoted, neither its data nor as a whole
+        let key_data = tokenizer.next()?;
+        if key_data.as_ref().unwrap_or(&kt).contains('"') {
+            return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
+        }
+        let key_data = key_data
             .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidKey))?;
 
         let key = PublicKey::from_string(format!("{} {}", kt, key_data).as_str())
@@ -336,25 +341,14 @@ impl AllowedSignerSplitter {
         return self.buffer.is_empty();
     }
 
-    /// Get the next part that is not an option (principals, key)
-    /// If opening_quotes_allowed is set to false, we reject the next token if it starts with ".
-    fn next(&mut self, opening_quotes_allowed: bool) -> Result<Option<String>> {
+    /// Get the next part (principals, option, key)
+    fn next(&mut self) -> Result<Option<String>> {
         if self.is_empty_after_trim() {
             return Ok(None);
         }
 
-        // If the next token starts with a double quote, then the closing double quote is also
-        // the end of the token
-        if self.buffer[0] == "\"" {
-            if opening_quotes_allowed {
-                return self.split_quote().map(|v| Some(v));
-            } else {
-                return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
-            }
-        }
-
-        // If the next token doesn't start with a double quote, the token can represent an option.
-        // Only an option token can contain double quotes in the middle (e.g. a="b c").
+        // The principals may be enclosed in double quotes, and an option token can contain them
+        // in the middle (e.g. a="b c"). Either way the closing double quote is the end of the token.
         // If we don't see any double quote in the token, we greedily parse the token until the
         // next whitespace.
         let mut s = String::new();
@@ -367,12 +361,12 @@ impl AllowedSignerSplitter {
             s.push_str(&last);
         }
 
-        // This should only apply to options
+        // This should only apply to principals and options
         if let Some(last) = self.buffer.last() {
             if last == "\"" {
                 s.push_str(self.split_quote()?.as_str());
 
-                // After the double quotes in the option token, there can only be nothing, a
+                // After the double quotes in the token, there can only be nothing, a
                 // whitespace, or a pound
                 if let Some(last) = self.buffer.last() {
                     if ![" ", "#"].contains(&last.as_str()) {
-- 
2.43.0


From 33f15ce9f45eedb574067980c3b5fbe00be6e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:58 +0000
Subject: [PATCH 25/48] fix: reject quotes inside the principals of an allowed
 signer

---
 src/ssh/allowed_signer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 8018cf8..85e5c00 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -101,7 +101,14 @@ impl AllowedSigner {
 
         let principals = tokenizer.next()?
             .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::MissingPrincipals))?;
-        let principals = principals.trim_matches('"');
+        // Double quotes can only enclose the principals as a whole
+        let principals = principals
+            .strip_prefix('"')
+            .and_then(|p| p.strip_suffix('"'))
+            .unwrap_or(&principals);
+        if principals.contains('"') {
+            return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
+        }
         let principals: Vec<String> = principals.split(',')
             .map(|s| s.to_string())
             .collect();
-- 
2.43.0


From 2861cbeeed3efc234ed6e3bd1af0518650246562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:58 +0000
Subject: [PATCH 26/48] fix: accept tabs between the fields of an allowed
 signer

---
 src/ssh/allowed_signer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 85e5c00..5c87d1f 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -322,7 +322,7 @@ impl AllowedSignerSplitter {
         let mut buffer = Vec::new();
         let mut last = 0;
 
-        for (index, matched) in s.match_indices([' ', '"', '#']) {
+        for (index, matched) in s.match_indices([' ', '\t', '"', '#']) {
             // Push the new text before the delimiter
             if last != index {
                 buffer.push(s[last..index].to_owned());
@@ -360,7 +360,7 @@ impl AllowedSignerSplitter {
         // next whitespace.
         let mut s = String::new();
         while let Some(last) = self.buffer.pop() {
-            if [" ", "\"", "#"].contains(&last.as_str()) {
+            if [" ", "\t", "\"", "#"].contains(&last.as_str()) {
                 self.buffer.push(last);
                 break;
             }
@@ -376,7 +376,7 @@ impl AllowedSignerSplitter {
                 // After the double quotes in the token, there can only be nothing, a
                 // whitespace, or a pound
                 if let Some(last) = self.buffer.last() {
-                    if ![" ", "#"].contains(&last.as_str()) {
+                    if ![" ", "\t", "#"].contains(&last.as_str()) {
                         return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidQuotes));
                     }
                 }
@@ -390,7 +390,7 @@ impl AllowedSignerSplitter {
     fn trim(&mut self) {
         while let Some(last) = self.buffer.last(){
             match last.as_str() {
-                " " => {
+                " " | "\t" => {
                     self.buffer.pop();
                 },
                 // Comment detected
-- 
2.43.0


From 6f30477fabf99287f9ed593696485361a1eb3647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:58 +0000
Subject: [PATCH 27/48] fix: only accept digits and a single Z in timestamps

Signs, blanks and repeated Zs were accepted.
---
 src/ssh/allowed_signer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 5c87d1f..1c4c624 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -432,14 +432,14 @@ impl AllowedSignerSplitter {
 /// The timestamp has format YYYYMMDD[HHMM[SS]][Z]
 /// The timestamp can be enclosed by quotation marks.
 fn parse_timestamp(s: &str) -> Result<i64> {
-    let mut s = s.trim_matches('"');
-    let is_utc = s.ends_with('Z');
-    if s.len() % 2 == 1 && !is_utc {
+    let s = s.trim_matches('"');
+    let (s, is_utc) = match s.strip_suffix('Z') {
+        Some(s) => (s, true),
+        None => (s, false),
+    };
+    if !s.bytes().all(|b| b.is_ascii_digit()) {
         return Err(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp));
     }
-    if is_utc {
-        s = s.trim_end_matches('Z');
-    }
     let datetime = match s.len() {
         8 => {
             let date = NaiveDate::parse_from_str(s, "%Y%m%d")
-- 
2.43.0


From 36c5c3b402f3281399ed33738858d218ac102cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:58 +0000
Subject: [PATCH 28/48] fix: do not panic on local timestamps around daylight
 saving changes

---
 src/ssh/allowed_signer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 1c4c624..b393e73 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -461,8 +461,10 @@ fn parse_timestamp(s: &str) -> Result<i64> {
         datetime.and_utc()
             .timestamp()
     } else {
+        // A local time may not exist, or exist twice, around daylight saving changes
         datetime.and_local_timezone(Local)
-            .unwrap()
+            .earliest()
+            .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp))?
             .timestamp()
     };
 
-- 
2.43.0


From 2322c5a6aa04c14f751b3d00c317267fa5753523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:58 +0000
Subject: [PATCH 29/48] fix: print allowed signers in the format they are read
 in

Timestamps were printed as seconds since the epoch and values with blanks or
pound signs without quotes, neither of which reads back.
---
 src/ssh/allowed_signer.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index b393e73..0393d3a 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -4,7 +4,7 @@ use std::io::Read;
 use std::path::Path;
 
 use chrono::prelude::Local;
-use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime};
 
 use super::pubkey::PublicKey;
 use crate::{error::Error, Result};
@@ -221,22 +221,22 @@ impl fmt::Display for AllowedSigner {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut output = String::new();
 
-        output.push_str(&self.principals.join(","));
+        output.push_str(&quote(self.principals.join(",")));
         
         if self.cert_authority {
             output.push_str(" cert-authority");
         }
 
         if let Some(ref namespaces) = self.namespaces {
-            output.push_str(&format!(" namespaces={}", namespaces.join(",")));
+            output.push_str(&format!(" namespaces={}", quote(namespaces.join(","))));
         }
 
         if let Some(ref valid_after) = self.valid_after {
-            output.push_str(&format!(" valid-after={}", valid_after));
+            output.push_str(&format!(" valid-after={}", format_timestamp(*valid_after)));
         }
 
         if let Some(ref valid_before) = self.valid_before {
-            output.push_str(&format!(" valid-before={}", valid_before));
+            output.push_str(&format!(" valid-before={}", format_timestamp(*valid_before)));
         }
 
         output.push_str(&format!(" {}", self.key));
@@ -245,6 +245,23 @@ impl fmt::Display for AllowedSigner {
     }
 }
 
+/// Enclose a value in double quotes if it would not be read back as a single value without them.
+fn quote(value: String) -> String {
+    if value.contains([' ', '\t', '#']) {
+        format!("\"{}\"", value)
+    } else {
+        value
+    }
+}
+
+/// Format a timestamp the way `parse_timestamp` reads it.
+fn format_timestamp(timestamp: i64) -> String {
+    match DateTime::from_timestamp(timestamp, 0) {
+        Some(datetime) => datetime.format("%Y%m%d%H%M%SZ").to_string(),
+        None => timestamp.to_string(),
+    }
+}
+
 impl AllowedSigners {
     /// Reads AllowedSigners from a given path.
     ///
-- 
2.43.0


From b0322d8344e6e4d34be1662c4034b445a37ec5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:03 +0000
Subject: [PATCH 30/48] fix: read both coordinates of ECDSA keys in FIDO
 authenticator data

---
 src/fido/parsing.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index cbef08b..d280d83 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -147,6 +147,8 @@ impl AuthData {
             }
 
             let mut parsed_key = CoseKey::default();
+            let mut x_coordinate = None;
+            let mut y_coordinate = None;
             let mut idx = 0;
 
             // Multiply by two because maps have two entries per element
@@ -176,14 +178,19 @@ impl AuthData {
                         })?
                     }
                     -2 | -3 => {
-                        parsed_key.key = decoder
+                        let value = decoder
                             .bytes()
                             .map_err(|_| {
                                 Error::FidoError(super::Error::CborFormat(
                                     "Could not bytes for key -2|-3 (key)".to_owned(),
                                 ))
                             })?
-                            .to_vec()
+                            .to_vec();
+                        if key == -2 {
+                            x_coordinate = Some(value);
+                        } else {
+                            y_coordinate = Some(value);
+                        }
                     }
                     x => decoder.undefined().map_err(|e| {
                         Error::FidoError(super::Error::CborFormat(format!(
@@ -193,6 +200,18 @@ impl AuthData {
                 };
                 idx += 2;
             }
+
+            parsed_key.key = match (parsed_key.key_type, x_coordinate, y_coordinate) {
+                // OKP: the key is the x coordinate
+                (1, Some(x), None) => x,
+                // EC2: the key is an uncompressed point
+                (2, Some(x), Some(y)) => [vec![0x04], x, y].concat(),
+                _ => {
+                    return Err(Error::FidoError(super::Error::CborFormat(
+                        "Key type and coordinates do not match".to_owned(),
+                    )))
+                }
+            };
             Some(parsed_key)
         } else {
             None
-- 
2.43.0


From c3faf246ba3a8b2126d1f52d71611767a9f51e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:27 +0000
Subject: [PATCH 31/48] fix: refuse FIDO keys that do not have the size of
 their algorithm

---
 src/fido/parsing.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index d280d83..94f3b6a 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -232,9 +232,9 @@ impl AuthData {
     /// Get an SSH formatted public key for the given auth data. The plaintext application
     /// is needed to ensure the fingerprint is properly computed.
     pub fn ssh_public_key(&self, app: &str) -> Result<PublicKey, Error> {
-        let (kind, key_type) = match self.cose_key.algorithm {
+        let (kind, key_type) = match (self.cose_key.algorithm, self.cose_key.key.len()) {
             // ECDSA
-            -7 => {
+            (-7, 65) => {
                 let k = EcdsaPublicKey {
                     curve: Curve::from_identifier("nistp256").unwrap(),
                     key: self.cose_key.key.clone(),
@@ -247,7 +247,7 @@ impl AuthData {
             }
 
             // Ed25519
-            -8 => {
+            (-8, 32) => {
                 let k = Ed25519PublicKey {
                     key: self.cose_key.key.clone(),
                     sk_application: Some(app.to_owned()),
@@ -259,8 +259,8 @@ impl AuthData {
                 )
             }
 
-            // Unknown
-            _n => return Err(Error::ParsingError),
+            // Unknown algorithm, or a key that does not fit it
+            _ => return Err(Error::ParsingError),
         };
 
         Ok(PublicKey {
-- 
2.43.0


From a0558845d72f9fdc7e3b812ff8bf4a38c8a86a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:34 +0000
Subject: [PATCH 32/48] fix: report the internal USB transport of FIDO devices

---
 src/fido/verification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/verification.rs b/src/fido/verification.rs
index 5b272aa..18892d5 100644
--- a/src/fido/verification.rs
+++ b/src/fido/verification.rs
@@ -114,7 +114,7 @@ fn extract_certificate_extension_data(
                 let (_, obj) = parse_ber_bitstring(ext.value).map_err(|_| Error::ParsingError)?;
                 if let BerObjectContent::BitString(_, bs) = obj.content {
                     let mut transports = vec![];
-                    for transport in 0..4 {
+                    for transport in 0..=4 {
                         if !bs.is_set(transport) {
                             continue;
                         }
-- 
2.43.0


From e71e0a38473f199673495ab7c130268f158de759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:42 +0000
Subject: [PATCH 33/48] fix: do not panic on an unreadable PIV attestation root

---
 src/yubikey/verification.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 8722d91..cfb6ba5 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -114,8 +114,9 @@ pub fn verify_certificate_chain(
     let root_ca_pem = root_pem.unwrap_or(YUBICO_PIV_ROOT_CA);
 
     // Parse the root ca
-    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).unwrap();
-    let root_ca = Pem::parse_x509(&root_ca).unwrap();
+    let (_, root_ca) =
+        parse_x509_pem(root_ca_pem.as_bytes()).map_err(|_| Error::ParsingError)?;
+    let root_ca = Pem::parse_x509(&root_ca).map_err(|_| Error::ParsingError)?;
 
     // Parse the certificates
     let (_, parsed_intermediate) =
-- 
2.43.0


From deb095885889542863bfb27f697e3fb28ee673aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:49 +0000
Subject: [PATCH 34/48] fix: do not panic on a truncated PIV policy extension

---
 src/yubikey/verification.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index cfb6ba5..854f07c 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -81,6 +81,9 @@ fn extract_certificate_extension_data(
             }
             // Policy
             "1.3.6.1.4.1.41482.3.8" => {
+                if ext.value.len() != 2 {
+                    continue;
+                }
                 policies = Some([ext.value[0], ext.value[1]]);
             }
             _ => (),
-- 
2.43.0


From 38f1b6e9319fa29c5161c6010b3ac9b4003a0cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:07 +0000
Subject: [PATCH 35/48] fix: reject private keys whose type contradicts their
 content

---
 src/ssh/privkey.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 337da05..4ba0eec 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -310,6 +310,11 @@ impl PrivateKey {
         let key_type = reader.read_string()?;
         let kt = KeyType::from_name(&key_type)?;
 
+        // Private keys are stored under the plain name of their type
+        if kt.is_cert {
+            return Err(Error::KeyTypeMismatch);
+        }
+
         let (kind, pubkey) = match kt.kind {
             KeyTypeKind::Rsa => {
                 let n = reader.read_positive_mpint()?;
@@ -350,6 +355,10 @@ impl PrivateKey {
             KeyTypeKind::Ecdsa => {
                 let identifier = reader.read_string()?;
                 let curve = Curve::from_identifier(&identifier)?;
+                // The key type names the curve as well
+                if !kt.plain.contains(curve.identifier) {
+                    return Err(Error::KeyTypeMismatch);
+                }
                 let pubkey = reader.read_bytes()?;
 
                 let (private_key, sk_application) = match kt.is_sk {
-- 
2.43.0


From 2a5c83515037eb367207054ce44abcc36955c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:35 +0000
Subject: [PATCH 36/48] fix: check the length of the sequence in DER signatures

---
 src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index b83dc81..868d9bb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -6,6 +6,10 @@ pub fn asn_der_to_r_s(buf: &[u8]) -> Option<(&[u8], &[u8])> {
     if buf.len() < 4 || buf[0] != 0x30  || buf[2] != 0x2 {
         return None;
     }
+    // The sequence must span the whole buffer
+    if buf[1] as usize != buf.len() - 2 {
+        return None;
+    }
     let buf = &buf[3..];
     let r_length = buf[0] as usize;
     if buf.len() < r_length + 2 {
-- 
2.43.0


From b59efc3fb86abf188d2e7463be39e136df2ed44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:28:43 +0000
Subject: [PATCH 37/48] fix: refuse DER signatures with malformed integers

---
 src/utils.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 868d9bb..f9b9264 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -34,6 +34,15 @@ pub fn asn_der_to_r_s(buf: &[u8]) -> Option<(&[u8], &[u8])> {
         return None;
     }
 
+    // Both must be positive and encoded in as few bytes as possible
+    for integer in [r, s].iter() {
+        match integer {
+            [0x0, second, ..] if *second >= 0x80 => (),
+            [0x1..=0x7f, ..] => (),
+            _ => return None,
+        }
+    }
+
     Some((r, s))
 }
 
-- 
2.43.0


From e1e38f58ee94601d57bf855d5fecb016a47589ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:35 +0000
Subject: [PATCH 38/48] fix: wipe the PIN of a security key when it is replaced

---
 src/ssh/privkey.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 4ba0eec..2be8a90 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -635,9 +635,11 @@ impl PrivateKey {
     pub fn set_pin(&mut self, pin: &str) {
         match &mut self.kind {
             PrivateKeyKind::EcdsaSk(key) => {
+                key.pin.zeroize();
                 key.pin = Some(pin.to_string());
             }
             PrivateKeyKind::Ed25519Sk(key) => {
+                key.pin.zeroize();
                 key.pin = Some(pin.to_string());
             }
             _ => (),
-- 
2.43.0


From 93b95079a2b3259773b54e0193438a1cf8245938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:46 +0000
Subject: [PATCH 39/48] fix: read null terminated strings as UTF-8

---
 src/ssh/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ssh/reader.rs b/src/ssh/reader.rs
index 8350f44..d448ec6 100644
--- a/src/ssh/reader.rs
+++ b/src/ssh/reader.rs
@@ -212,17 +212,17 @@ impl Reader<'_> {
     /// reset and an error returned.
     pub fn read_cstring(&mut self) -> Result<String> {
         let original_offset = self.offset;
-        let mut s = String::new();
+        let mut bytes = Vec::new();
 
         while self.offset < self.inner.len() {
             let chr = self.inner[self.offset];
             if chr == 0x0 {
                 // Count the final null byte as read
                 self.offset += 1;
-                return Ok(s);
+                return Ok(String::from_utf8(bytes)?);
             }
 
-            s.push(chr as char);
+            bytes.push(chr);
             self.offset += 1;
         }
         self.offset = original_offset;
-- 
2.43.0


From 5ac4a064a8bdc4e4639833412906cad7035e5513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:25 +0000
Subject: [PATCH 40/48] fix: refuse FIDO keys with coordinates of different
 lengths

---
 src/fido/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index 94f3b6a..4657aae 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -205,7 +205,7 @@ impl AuthData {
                 // OKP: the key is the x coordinate
                 (1, Some(x), None) => x,
                 // EC2: the key is an uncompressed point
-                (2, Some(x), Some(y)) => [vec![0x04], x, y].concat(),
+                (2, Some(x), Some(y)) if x.len() == y.len() => [vec![0x04], x, y].concat(),
                 _ => {
                     return Err(Error::FidoError(super::Error::CborFormat(
                         "Key type and coordinates do not match".to_owned(),
-- 
2.43.0


From 281964d61fbcd850b754b4c5f90cb5a1a48215bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:35 +0000
Subject: [PATCH 41/48] fix: refuse long common names before replacing the key
 in a PIV slot

---
 src/yubikey/piv/management.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index 686cb22..92f8472 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -170,6 +170,14 @@ impl super::Yubikey {
         touch_policy: TouchPolicy,
         pin_policy: PinPolicy,
     ) -> Result<PublicKey> {
+        // A longer name cannot be put in a certificate, so it must be refused
+        // before the key in the slot is replaced.
+        if common_name.len() > 64 {
+            return Err(Error::InternalYubiKeyError(
+                "Common name is longer than 64 bytes".to_string(),
+            ));
+        }
+
         let key_info = yubikey::piv::generate(&mut self.yk, *slot, alg, pin_policy, touch_policy)?;
         let extensions: &[x509::Extension<'_, &[u64]>] = &[];
         // Generate a self-signed certificate for the new key.
-- 
2.43.0


From 6065c18e1de47e8b98c7a3dc1190f5739e5f53d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:04 +0000
Subject: [PATCH 42/48] fix: do not panic when a PIV token disappears while
 making a CSR

---
 src/yubikey/piv/management.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/yubikey/piv/management.rs b/src/yubikey/piv/management.rs
index 92f8472..9ab23df 100644
--- a/src/yubikey/piv/management.rs
+++ b/src/yubikey/piv/management.rs
@@ -142,16 +142,26 @@ impl super::Yubikey {
     /// Generate CSR for slot
     pub fn generate_csr(&mut self, slot: &SlotId, common_name: &str) -> Result<Vec<u8>> {
         let mut params = rcgen::CertificateParams::new(vec![]);
-        params.alg = match self.configured(slot)? {
-            PublicKeyInfo::EcP256(_) => &rcgen::PKCS_ECDSA_P256_SHA256,
-            PublicKeyInfo::EcP384(_) => &rcgen::PKCS_ECDSA_P384_SHA384,
+        let (public_key, algorithm) = match self.configured(slot)? {
+            PublicKeyInfo::EcP256(pubkey) => (pubkey.as_bytes().to_vec(), AlgorithmId::EccP256),
+            PublicKeyInfo::EcP384(pubkey) => (pubkey.as_bytes().to_vec(), AlgorithmId::EccP384),
             _ => return Err(Error::Unsupported),
         };
+        params.alg = match algorithm {
+            AlgorithmId::EccP256 => &rcgen::PKCS_ECDSA_P256_SHA256,
+            _ => &rcgen::PKCS_ECDSA_P384_SHA384,
+        };
         params
             .distinguished_name
             .push(rcgen::DnType::CommonName, common_name.to_string());
 
-        let csr_signer = CSRSigner::new(self.yk.serial().into(), *slot);
+        // Not CSRSigner::new: it panics when the key cannot be opened again
+        let csr_signer = CSRSigner {
+            slot: *slot,
+            serial: self.yk.serial().into(),
+            public_key,
+            algorithm,
+        };
         params.key_pair = Some(rcgen::KeyPair::from_remote(Box::new(csr_signer)).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?);
 
         let csr = rcgen::Certificate::from_params(params).map_err(|e| Error::InternalYubiKeyError(format!("{}", e)))?;
-- 
2.43.0


From 0be3914d3d806ca51568c6e3fb14c783c4a3b8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:06 +0000
Subject: [PATCH 43/48] fix: do not wait forever for a PIN when signing with a
 FIDO token

---
 src/fido/signing/mozilla.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index 15d417a..f3164d1 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -65,7 +65,9 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
         sign_tx.send(rv).unwrap();
     }));
 
-    let (status_tx, _status_rx) = channel::<StatusUpdate>();
+    // Nobody answers status updates here. Without a receiver a request for a (better) PIN
+    // fails, rather than waiting for an answer forever.
+    let (status_tx, _) = channel::<StatusUpdate>();
     if let Err(e) = manager.sign(
         15_000,
         ctap_args.clone().into(),
-- 
2.43.0


From 464b086ba96256737492750835ebb7a1bd6eff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:06 +0000
Subject: [PATCH 44/48] fix: do not wait forever when a FIDO token refuses to
 make a key

---
 src/fido/generate/mozilla.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fido/generate/mozilla.rs b/src/fido/generate/mozilla.rs
index f17642d..ed35314 100644
--- a/src/fido/generate/mozilla.rs
+++ b/src/fido/generate/mozilla.rs
@@ -118,6 +118,10 @@ pub fn generate_new_ssh_key(
     let attestation_object = match register_result {
         Ok(attestation) => attestation,
         Err(e) => {
+            // End the status channel, so that the wait below ends when no
+            // PIN error was (or will be) reported.
+            drop(manager);
+            drop(status_tx);
             if let Ok(error) = error_rx.recv() {
                 return Err(Error::FidoError(error));
             } else {
-- 
2.43.0


From 021dcd6e8faed3c167647cea56972b07f8c30d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:06 +0000
Subject: [PATCH 45/48] hook: a FIDO attestation root given at build time
 (--cfg sshcerts_verif_root)

---
 src/fido/verification.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fido/verification.rs b/src/fido/verification.rs
index 18892d5..ae2c71a 100644
--- a/src/fido/verification.rs
+++ b/src/fido/verification.rs
@@ -1,3 +1,6 @@
+// For the flag that replaces the root below with one given at build time
+#![allow(unexpected_cfgs)]
+
 use x509_parser::der_parser::ber::{parse_ber_bitstring, BerObjectContent};
 use x509_parser::der_parser::der::parse_der_octetstring;
 use x509_parser::prelude::*;
@@ -10,6 +13,9 @@ use super::AuthData;
 
 use ring::signature::{UnparsedPublicKey, ECDSA_P256_SHA256_ASN1};
 
+#[cfg(sshcerts_verif_root)]
+const YUBICO_U2F_ROOT_CA: &str = include_str!(env!("SSHCERTS_VERIF_ROOT"));
+#[cfg(not(sshcerts_verif_root))]
 const YUBICO_U2F_ROOT_CA: &str = "-----BEGIN CERTIFICATE-----
 MIIDHjCCAgagAwIBAgIEG0BT9zANBgkqhkiG9w0BAQsFADAuMSwwKgYDVQQDEyNZ
 dWJpY28gVTJGIFJvb3QgQ0EgU2VyaWFsIDQ1NzIwMDYzMTAgFw0xNDA4MDEwMDAw
-- 
2.43.0


From 52a1e2edc7ae93aae4abff7820a114245c62d5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:33 +0000
Subject: [PATCH 46/48] fix: report all flags of FIDO signatures, not only
 those the driver knows

---
 src/fido/signing/ctap2_hid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fido/signing/ctap2_hid.rs b/src/fido/signing/ctap2_hid.rs
index 68e4b62..e4b2c9c 100644
--- a/src/fido/signing/ctap2_hid.rs
+++ b/src/fido/signing/ctap2_hid.rs
@@ -59,7 +59,8 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
 
     let signature = &assert.signature;
     let mut format = format_signature_for_ssh(&private_key.pubkey, &signature)?;
-    format.push(assert.flags.as_u8());
+    // The flags as they were signed, including those the driver does not know
+    format.push(*assert.auth_data.get(32)?);
     format.extend_from_slice(&assert.sign_count.to_be_bytes());
 
     Some(format)
-- 
2.43.0


From 0f16f706a1c5a8aa60c87df8156d4f0daa9910b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:33 +0000
Subject: [PATCH 47/48] fix: short name of FIDO ECDSA certificates shows that
 they are certificates

---
 src/ssh/keytype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/keytype.rs b/src/ssh/keytype.rs
index 74962ec..226d76f 100644
--- a/src/ssh/keytype.rs
+++ b/src/ssh/keytype.rs
@@ -237,7 +237,7 @@ impl KeyType {
             "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com" => KeyType {
                 name: "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com",
                 plain: "sk-ecdsa-sha2-nistp256@openssh.com",
-                short_name: "ECDSA-SK",
+                short_name: "ECDSA-SK-CERT",
                 is_cert: true,
                 is_sk: true,
                 kind: KeyTypeKind::Ecdsa,
-- 
2.43.0


From a5b1b8602ecaf3f3295de83eec940ec68c580722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:26 +0000
Subject: [PATCH 48/48] fix: keep the reserved data when encoding a certificate
 again

---
 src/ssh/cert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ssh/cert.rs b/src/ssh/cert.rs
index 7bbd7f8..169fcd8 100644
--- a/src/ssh/cert.rs
+++ b/src/ssh/cert.rs
@@ -425,7 +425,7 @@ impl Certificate {
         writer.write_string_map(&self.extensions);
 
         // Write the unused reserved bytes
-        writer.write_u32(0x0);
+        writer.write_bytes(&self.reserved);
 
         // Write the CA public key
         writer.write_bytes(&self.signature_key.encode());
-- 
2.43.0

