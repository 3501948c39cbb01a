From c697a5e025cdf6825901e736066de5b4d6f9c8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:19 +0000
Subject: [PATCH 01/13] fix: reject RSA private keys whose prime factors are
 zero or one instead of panicking

---
 src/ssh/privkey.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 9a31f4a..dccbf6b 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -304,6 +304,15 @@ impl PrivateKey {
                 let p = reader.read_positive_mpint()?;
                 let q = reader.read_positive_mpint()?;
 
+                // p - 1 and q - 1 are used as moduli below so must not be zero
+                #[cfg(feature = "rsa-signing")]
+                if [&p, &q]
+                    .iter()
+                    .any(|prime| BigUint::from_bytes_be(prime) <= BigUint::from(1_u8))
+                {
+                    return Err(Error::InvalidFormat);
+                }
+
                 #[cfg(feature = "rsa-signing")]
                 let exp = Some(
                     BigUint::from_bytes_be(&d)
-- 
2.43.0


From d9c306691c6c601caaf15a4b350ca48cd5013a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:19 +0000
Subject: [PATCH 02/13] fix: signing with a too short ECDSA or Ed25519 private
 key fails instead of panicking

---
 src/ssh/privkey.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index dccbf6b..030cb43 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -253,10 +253,10 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key = if key.key[0] == 0x0_u8 {
-                    &key.key[1..]
-                } else {
-                    &key.key
+                let key = match key.key.first() {
+                    Some(0x0_u8) => &key.key[1..],
+                    Some(_) => &key.key[..],
+                    None => return None,
                 };
                 let key_pair = match signature::EcdsaKeyPair::from_private_key_and_public_key(
                     alg, key, pubkey, &rng,
@@ -273,11 +273,11 @@ impl super::SSHCertificateSigner for PrivateKey {
                     _ => return None,
                 };
 
-                let key_pair =
-                    match Ed25519KeyPair::from_seed_and_public_key(&key.key[..32], public_key) {
-                        Ok(kp) => kp,
-                        Err(_) => return None,
-                    };
+                let seed = key.key.get(..32)?;
+                let key_pair = match Ed25519KeyPair::from_seed_and_public_key(seed, public_key) {
+                    Ok(kp) => kp,
+                    Err(_) => return None,
+                };
 
                 format_signature_for_ssh(&self.pubkey, key_pair.sign(buffer).as_ref())
             }
-- 
2.43.0


From 85198885bd41ee711b9f3c3a8051824313a3f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:19 +0000
Subject: [PATCH 03/13] fix: keep the reserved field when encoding security key
 private keys

---
 src/ssh/privkey.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 030cb43..3425bd8 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -686,7 +686,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ecdsask.flags]);
                 w.write_bytes(&ecdsask.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ecdsask.reserved);
             }
             PrivateKeyKind::Ed25519(ed25519) => {
                 w.write_pub_key_data(&self.pubkey);
@@ -696,7 +696,7 @@ impl PrivateKey {
                 w.write_pub_key_data(&self.pubkey);
                 w.write_raw_bytes(&[ed25519sk.flags]);
                 w.write_bytes(&ed25519sk.handle);
-                w.write_bytes(&[]);
+                w.write_bytes(&ed25519sk.reserved);
             }
         };
 
-- 
2.43.0


From 59c08973f7a9204249ef68134b51386719c2e1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:19 +0000
Subject: [PATCH 04/13] fix: generated Ed25519 private keys store seed and
 public key as OpenSSH expects

---
 src/ssh/privkey.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 3425bd8..75d5a8a 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -461,7 +461,10 @@ impl PrivateKey {
                     .public_key()
                     .as_ref()
                     .to_vec();
-                let key = Ed25519PrivateKey { key: seed.to_vec() };
+                // OpenSSH stores the seed followed by the public key
+                let key = Ed25519PrivateKey {
+                    key: [&seed[..], &public_key_bytes].concat(),
+                };
 
                 let pubkey = PublicKey {
                     key_type: key_type.clone(),
-- 
2.43.0


From 1041d5057d674c12d279dc636d44072eb2f45082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:19 +0000
Subject: [PATCH 05/13] fix: reject nonexistent local timestamps in allowed
 signers instead of panicking

---
 src/ssh/allowed_signer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 96d4bab..8c916f4 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -460,8 +460,10 @@ fn parse_timestamp(s: &str) -> Result<i64> {
         datetime.and_utc()
             .timestamp()
     } else {
+        // Local times can be ambiguous or nonexistent around time zone transitions
         datetime.and_local_timezone(Local)
-            .unwrap()
+            .earliest()
+            .ok_or(Error::InvalidAllowedSigner(AllowedSignerParsingError::InvalidTimestamp))?
             .timestamp()
     };
 
-- 
2.43.0


From 496ca5a5cfe33ff4a29ec5069fcdf3c081f0f029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:19 +0000
Subject: [PATCH 06/13] fix: a short policy extension in a PIV attestation is
 an error, not a panic

---
 src/yubikey/verification.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 8722d91..2232045 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -81,6 +81,9 @@ fn extract_certificate_extension_data(
             }
             // Policy
             "1.3.6.1.4.1.41482.3.8" => {
+                if ext.value.len() < 2 {
+                    continue;
+                }
                 policies = Some([ext.value[0], ext.value[1]]);
             }
             _ => (),
-- 
2.43.0


From bfde1a60a1680aaec4f165a4577dec16d9c4a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:19 +0000
Subject: [PATCH 07/13] fix: an unparsable PIV root certificate is an error,
 not a panic

---
 src/yubikey/verification.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/yubikey/verification.rs b/src/yubikey/verification.rs
index 2232045..15a59cd 100644
--- a/src/yubikey/verification.rs
+++ b/src/yubikey/verification.rs
@@ -117,8 +117,9 @@ pub fn verify_certificate_chain(
     let root_ca_pem = root_pem.unwrap_or(YUBICO_PIV_ROOT_CA);
 
     // Parse the root ca
-    let (_, root_ca) = parse_x509_pem(root_ca_pem.as_bytes()).unwrap();
-    let root_ca = Pem::parse_x509(&root_ca).unwrap();
+    let (_, root_ca) =
+        parse_x509_pem(root_ca_pem.as_bytes()).map_err(|_| Error::ParsingError)?;
+    let root_ca = Pem::parse_x509(&root_ca).map_err(|_| Error::ParsingError)?;
 
     // Parse the certificates
     let (_, parsed_intermediate) =
-- 
2.43.0


From 32aba23ece5cce6efb289f62857a1526dc558cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:19 +0000
Subject: [PATCH 08/13] fix: report the internal USB transport from FIDO
 attestations

---
 src/fido/verification.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/verification.rs b/src/fido/verification.rs
index 5b272aa..18892d5 100644
--- a/src/fido/verification.rs
+++ b/src/fido/verification.rs
@@ -114,7 +114,7 @@ fn extract_certificate_extension_data(
                 let (_, obj) = parse_ber_bitstring(ext.value).map_err(|_| Error::ParsingError)?;
                 if let BerObjectContent::BitString(_, bs) = obj.content {
                     let mut transports = vec![];
-                    for transport in 0..4 {
+                    for transport in 0..=4 {
                         if !bs.is_set(transport) {
                             continue;
                         }
-- 
2.43.0


From 11da2942f2dc2a592adb0de94b7fca5275d7d0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:27 +0000
Subject: [PATCH 09/13] fix: ECDSA keys from FIDO authentication data keep both
 point coordinates

---
 src/fido/parsing.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fido/parsing.rs b/src/fido/parsing.rs
index cbef08b..57587c3 100644
--- a/src/fido/parsing.rs
+++ b/src/fido/parsing.rs
@@ -147,6 +147,7 @@ impl AuthData {
             }
 
             let mut parsed_key = CoseKey::default();
+            let mut y_coordinate = None;
             let mut idx = 0;
 
             // Multiply by two because maps have two entries per element
@@ -176,14 +177,19 @@ impl AuthData {
                         })?
                     }
                     -2 | -3 => {
-                        parsed_key.key = decoder
+                        let value = decoder
                             .bytes()
                             .map_err(|_| {
                                 Error::FidoError(super::Error::CborFormat(
                                     "Could not bytes for key -2|-3 (key)".to_owned(),
                                 ))
                             })?
-                            .to_vec()
+                            .to_vec();
+                        if key == -2 {
+                            parsed_key.key = value;
+                        } else {
+                            y_coordinate = Some(value);
+                        }
                     }
                     x => decoder.undefined().map_err(|e| {
                         Error::FidoError(super::Error::CborFormat(format!(
@@ -193,6 +199,11 @@ impl AuthData {
                 };
                 idx += 2;
             }
+            // Keys with a y coordinate are elliptic curve points, which SSH represents
+            // in the uncompressed form
+            if let Some(y) = y_coordinate {
+                parsed_key.key = [&[0x04], parsed_key.key.as_slice(), y.as_slice()].concat();
+            }
             Some(parsed_key)
         } else {
             None
-- 
2.43.0


From 5169e159652290acbd46f80915dab69f0d485578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:27 +0000
Subject: [PATCH 10/13] fix: a failing hardware token makes signing fail
 instead of panicking

---
 src/fido/signing/mozilla.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/fido/signing/mozilla.rs b/src/fido/signing/mozilla.rs
index 15d417a..fd78628 100644
--- a/src/fido/signing/mozilla.rs
+++ b/src/fido/signing/mozilla.rs
@@ -24,11 +24,9 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
 
     let pin: Option<Pin> = pin.map(|x| Pin::new(x));
 
-    // It should be safe to unwrap here because we've already determined
-    // the PrivateKey is of SK type
     let sk_application = match &private_key.pubkey.kind {
-        PublicKeyKind::Ed25519(key) => key.sk_application.as_ref().unwrap(),
-        PublicKeyKind::Ecdsa(key) => key.sk_application.as_ref().unwrap(),
+        PublicKeyKind::Ed25519(key) => key.sk_application.as_ref()?,
+        PublicKeyKind::Ecdsa(key) => key.sk_application.as_ref()?,
         _ => return None,
     };
 
@@ -66,17 +64,18 @@ pub fn sign_with_private_key(private_key: &PrivateKey, challenge: &[u8]) -> Opti
     }));
 
     let (status_tx, _status_rx) = channel::<StatusUpdate>();
-    if let Err(e) = manager.sign(
-        15_000,
-        ctap_args.clone().into(),
-        status_tx.clone(),
-        callback,
-    ) {
-        panic!("Couldn't sign: {:?}", e);
+    if manager
+        .sign(
+            15_000,
+            ctap_args.clone().into(),
+            status_tx.clone(),
+            callback,
+        )
+        .is_err()
+    {
+        return None;
     }
-    let sign_result = sign_rx
-        .recv()
-        .expect("Problem receiving, unable to continue");
+    let sign_result = sign_rx.recv().ok()?;
 
     let assertion = match sign_result {
         Ok(assertion_object) => assertion_object.assertion,
-- 
2.43.0


From 58148ad01b9ac160d32ab71676afef50327bf121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:27 +0000
Subject: [PATCH 11/13] fix: allowed signers display in the format they are
 parsed from

---
 src/ssh/allowed_signer.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ssh/allowed_signer.rs b/src/ssh/allowed_signer.rs
index 8c916f4..103fd9c 100644
--- a/src/ssh/allowed_signer.rs
+++ b/src/ssh/allowed_signer.rs
@@ -4,7 +4,7 @@ use std::io::Read;
 use std::path::Path;
 
 use chrono::prelude::Local;
-use chrono::{NaiveDate, NaiveDateTime, NaiveTime};
+use chrono::{DateTime, NaiveDate, NaiveDateTime, NaiveTime};
 
 use super::pubkey::PublicKey;
 use crate::{error::Error, Result};
@@ -209,22 +209,27 @@ impl fmt::Display for AllowedSigner {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut output = String::new();
 
-        output.push_str(&self.principals.join(","));
-        
+        let principals = self.principals.join(",");
+        if principals.contains([' ', '#']) {
+            output.push_str(&format!("\"{}\"", principals));
+        } else {
+            output.push_str(&principals);
+        }
+
         if self.cert_authority {
             output.push_str(" cert-authority");
         }
 
         if let Some(ref namespaces) = self.namespaces {
-            output.push_str(&format!(" namespaces={}", namespaces.join(",")));
+            output.push_str(&format!(" namespaces=\"{}\"", namespaces.join(",")));
         }
 
         if let Some(ref valid_after) = self.valid_after {
-            output.push_str(&format!(" valid-after={}", valid_after));
+            output.push_str(&format!(" valid-after={}", format_timestamp(*valid_after)));
         }
 
         if let Some(ref valid_before) = self.valid_before {
-            output.push_str(&format!(" valid-before={}", valid_before));
+            output.push_str(&format!(" valid-before={}", format_timestamp(*valid_before)));
         }
 
         output.push_str(&format!(" {}", self.key));
@@ -427,6 +432,14 @@ impl AllowedSignerSplitter {
     }
 }
 
+/// Format a timestamp the way [`parse_timestamp`] reads it.
+fn format_timestamp(timestamp: i64) -> String {
+    match DateTime::from_timestamp(timestamp, 0) {
+        Some(datetime) => datetime.format("%Y%m%d%H%M%SZ").to_string(),
+        None => timestamp.to_string(),
+    }
+}
+
 /// Parse a string into a u64 representing a timestamp.
 /// The timestamp has format YYYYMMDD[HHMM[SS]][Z]
 /// The timestamp can be enclosed by quotation marks.
-- 
2.43.0


From 4ec740e4553ae9f4a2fa90edc18030f15c745dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:39 +0000
Subject: [PATCH 12/13] fix: ECDSA private keys with leading zero bytes in the
 scalar can sign

---
 src/ssh/privkey.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ssh/privkey.rs b/src/ssh/privkey.rs
index 75d5a8a..d72556a 100644
--- a/src/ssh/privkey.rs
+++ b/src/ssh/privkey.rs
@@ -7,7 +7,7 @@ use std::path::Path;
 use ring::signature::Ed25519KeyPair;
 use ring::{rand, signature, signature::KeyPair};
 
-use zeroize::Zeroize;
+use zeroize::{Zeroize, Zeroizing};
 
 use crate::{
     error::Error,
@@ -248,6 +248,11 @@ impl super::SSHCertificateSigner for PrivateKey {
                     CurveKind::Nistp521 => return None,
                 };
 
+                let width: usize = match key.curve.kind {
+                    CurveKind::Nistp256 => 32,
+                    _ => 48,
+                };
+
                 let pubkey = match &self.pubkey.kind {
                     PublicKeyKind::Ecdsa(key) => &key.key,
                     _ => return None,
@@ -258,8 +263,13 @@ impl super::SSHCertificateSigner for PrivateKey {
                     Some(_) => &key.key[..],
                     None => return None,
                 };
+                // OpenSSH stores the scalar without leading zeros but ring requires
+                // the full width of the curve
+                let mut scalar = vec![0; width.saturating_sub(key.len())];
+                scalar.extend_from_slice(key);
+                let scalar = Zeroizing::new(scalar);
                 let key_pair = match signature::EcdsaKeyPair::from_private_key_and_public_key(
-                    alg, key, pubkey, &rng,
+                    alg, &scalar, pubkey, &rng,
                 ) {
                     Ok(kp) => kp,
                     Err(_) => return None,
-- 
2.43.0


From 6eeff9cbfb6dbade09b92f5388d8eb801b20bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:01 +0000
Subject: [PATCH 13/13] fix: FIDO errors were printed with a stray leading "s"

---
 src/fido/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fido/mod.rs b/src/fido/mod.rs
index ffb3d30..86ec891 100644
--- a/src/fido/mod.rs
+++ b/src/fido/mod.rs
@@ -35,7 +35,7 @@ impl std::fmt::Display for Error {
             Self::CborFormat(s) => s.to_string(),
             Self::Unknown(s) => s.to_string(),
         };
-        write!(f, "s{}", msg)
+        write!(f, "{}", msg)
     }
 }
 
-- 
2.43.0

