From 88edd0edb8dc7fcaaf09a8390ddf5b00cc384742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:58 +0000
Subject: [PATCH 01/15] fix: refuse user pins of nine digits

checked_ilog10 is one less than the number of digits, so nine digit pins passed the limit of eight.
---
 crates/openid4vci/src/access_token/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 794220a..ad8e0fc 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -106,7 +106,8 @@ impl Validatable for GrantType {
                 if let Some(user_pin) = user_pin {
                     let max = 8;
                     let length = user_pin.checked_ilog10().unwrap_or_default();
-                    if length > max {
+                    // `length` is the amount of digits minus one
+                    if length >= max {
                         return Err(ValidationError::Any {
                             validation_message: format!(
                                 "user pin exeeded length. Maximum is {max}, supplied is {length}"
-- 
2.43.0


From f60abcf8cbb2ba999182c71d95878225c4b108ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:58 +0000
Subject: [PATCH 02/15] fix: refuse proof jwts with alg none or a symmetric
 algorithm

The header field documents that such values MUST NOT be used, but validate accepted them.
---
 crates/openid4vci/src/jwt/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b1fa7be..b28935b 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -556,6 +556,21 @@ impl Validatable for ProofJwtHeader {
             });
         }
 
+        // `alg` MUST NOT be none or an identifier for a symmetric algorithm (MAC)
+        if matches!(
+            self.alg,
+            ProofJwtAlgorithm::None
+                | ProofJwtAlgorithm::HS256
+                | ProofJwtAlgorithm::HS384
+                | ProofJwtAlgorithm::HS512
+        ) {
+            return Err(ValidationError::Any {
+                validation_message:
+                    "jwt header `alg` MUST NOT be `none` or an identifier for a symmetric algorithm"
+                        .to_owned(),
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 358a2957d40d8654a3a9393e2b01dbdccb98cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 03/15] fix: a proof jwt is not valid anymore at its expiration
 time

exp is the time on or after which the JWT MUST NOT be accepted.
---
 crates/openid4vci/src/jwt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b28935b..6ed363f 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -142,7 +142,7 @@ impl ProofJwt {
     /// # Errors
     ///
     /// - When the [`ProofJwtBody::not_before`] is greater than [`chrono::Utc::now`]
-    /// - When the [`ProofJwtBody::expires_at`] is smaller than [`chrono::Utc::now`]
+    /// - When the [`ProofJwtBody::expires_at`] is smaller than or equal to [`chrono::Utc::now`]
     pub fn verify(&self) -> JwtResult<()> {
         let now = Utc::now();
 
@@ -156,7 +156,7 @@ impl ProofJwt {
         }
 
         if let Some(expires_at) = self.body.expires_at {
-            if now > expires_at {
+            if now >= expires_at {
                 return Err(JwtError::NotValidAnymore {
                     valid_until: expires_at,
                     now,
-- 
2.43.0


From bb2640859f944dd148365a30a1ecb1a1d220985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 04/15] fix: check nbf and exp of the proof when evaluating a
 credential request

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 3ff7744..eed6d0b 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -535,6 +535,7 @@ impl CredentialIssuer {
         if let Some(CredentialRequestProof { jwt, .. }) = &credential_request.proof {
             let jwt = ProofJwt::from_str(jwt)?;
             jwt.validate()?;
+            jwt.verify()?;
 
             let expected_c_nonce = evaluate_credential_request_options
                 .clone()
-- 
2.43.0


From 47f0a238fe14f04f8a7217ab358559c49328fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 05/15] fix: validate the proof_type when evaluating a
 credential request

---
 crates/openid4vci/src/credential_issuer/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index eed6d0b..c923fec 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -532,6 +532,8 @@ impl CredentialIssuer {
             }
         }
 
+        credential_request.validate()?;
+
         if let Some(CredentialRequestProof { jwt, .. }) = &credential_request.proof {
             let jwt = ProofJwt::from_str(jwt)?;
             jwt.validate()?;
-- 
2.43.0


From b136f4a8ffa6c314a9b717254171fc4b4b7831e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 06/15] fix: do not panic when the c_nonce expiry is not
 representable

---
 crates/openid4vci/src/credential_issuer/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index c923fec..9f946db 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -520,8 +520,11 @@ impl CredentialIssuer {
             .clone()
             .and_then(|o| o.c_nonce)
         {
-            let expiry_timestamp = c_nonce_options.c_nonce_created_at
-                + Duration::seconds(c_nonce_options.c_nonce_expires_in.into());
+            // A lifetime that ends after the last representable timestamp never expires
+            let expiry_timestamp = c_nonce_options
+                .c_nonce_created_at
+                .checked_add_signed(Duration::seconds(c_nonce_options.c_nonce_expires_in.into()))
+                .unwrap_or(DateTime::<Utc>::MAX_UTC);
             let now = Utc::now();
 
             if expiry_timestamp < now {
-- 
2.43.0


From 76636269a92440d4c9adef65f22f354c04560a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 07/15] fix: the signable message never contains or loses parts
 because of dots

The signature was only removed when the whole JWT had exactly two dots, and a value with a dot was taken for the separator.
---
 crates/openid4vci/src/jwt/mod.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 6ed363f..37b73aa 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -227,16 +227,12 @@ impl ProofJwt {
     ///
     /// - When it could not convert the JWT to a string
     pub fn to_signable_message(&self) -> JwtResult<Vec<u8>> {
-        // Convert the JWT into a string
-        let message: String = self.try_into()?;
-
-        // Remove the signature if its defined, detected by two occurences of "."
-        let message = if message.matches('.').count() == 2 {
-            let parts: Vec<_> = message.split('.').collect();
-            format!("{}.{}", parts[0], parts[1])
-        } else {
-            message
+        // Convert the JWT, without its signature, into a string
+        let unsigned_jwt = ProofJwt {
+            signature: None,
+            ..self.clone()
         };
+        let message: String = (&unsigned_jwt).try_into()?;
 
         // Return the message as bytes
         Ok(message.as_bytes().to_vec())
-- 
2.43.0


From de5232285941c0ae453665c5667ac535fb1ded9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 08/15] fix: return exactly the signature of a signed proof jwt

Dots inside of the header or body shifted the parts, so pieces of the body were returned in front of the signature.
---
 crates/openid4vci/src/jwt/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 37b73aa..1313462 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -244,6 +244,10 @@ impl ProofJwt {
     ///
     /// - When the signature is not defined
     pub fn extract_signature(&self) -> JwtResult<Vec<u8>> {
+        if let Some(signature) = &self.signature {
+            return Ok(signature.as_bytes().to_vec());
+        }
+
         // Convert the JWT into a string
         let s_jwt: String = self.try_into()?;
 
-- 
2.43.0


From a43df8fdfeb8b795ab9941512693b599ae3d789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 09/15] fix: do not report a kid that is not a did url as did

---
 crates/openid4vci/src/jwt/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 1313462..d3d6052 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -186,6 +186,13 @@ impl ProofJwt {
                         }
                     })?;
 
+                    if !did.did.starts_with("did:") {
+                        return Err(JwtError::UnableToTransformIntoDid {
+                            kid: key_id.clone(),
+                            message: "kid is not a did".to_owned(),
+                        });
+                    }
+
                     Ok(Some(did.did))
                 }
                 ProofJwtAdditionalHeader::Jwk(jwk) => {
-- 
2.43.0


From cdaa4d7e895e9500fd63bdb7f6f424a94588297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 10/15] fix: serialize error codes with their names from the
 specification

Error responses carried InvalidRequest instead of invalid_request.
---
 crates/openid4vci/src/access_token/error_response.rs  | 1 +
 crates/openid4vci/src/credential_issuer/error_code.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/access_token/error_response.rs b/crates/openid4vci/src/access_token/error_response.rs
index e96c3f5..9cb4a39 100644
--- a/crates/openid4vci/src/access_token/error_response.rs
+++ b/crates/openid4vci/src/access_token/error_response.rs
@@ -6,6 +6,7 @@ use crate::validate::ValidationError;
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 6.3 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-6.3).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum AccessTokenErrorCode {
     /// `invalid_request`
     ///
diff --git a/crates/openid4vci/src/credential_issuer/error_code.rs b/crates/openid4vci/src/credential_issuer/error_code.rs
index 36061ba..0f22fb4 100644
--- a/crates/openid4vci/src/credential_issuer/error_code.rs
+++ b/crates/openid4vci/src/credential_issuer/error_code.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 7.3.1 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-7.3.1).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum CredentialIssuerErrorCode {
     /// Credential Request was malformed. One or more of the parameters (i.e. format, proof) are
     /// missing or malformed.
-- 
2.43.0


From d221b66a05da3bc63dc0cc98275f18facad0c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 11/15] fix: serialize the issued credential as json string or
 object

It was wrapped into an object with the name of the internal enum variant.
---
 crates/openid4vci/src/types/credential.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index ae89654..39797e4 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -166,6 +166,7 @@ impl Validatable for CredentialFormatProfile {
 /// format as specified in Appendix E of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#name-credential-format-profiles).
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
+#[serde(untagged)]
 pub enum CredentialFormatProfileOrEncoded {
     /// [`CredentialFormatProfile`]
     CredentialFormatProfile(CredentialFormatProfile),
-- 
2.43.0


From cdbfd78720e18d8bfbff2d5e80a5e3fc5fe57a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 12/15] fix: read and write
 cryptographic_binding_methods_supported

The misspelled field name dropped the value from the issuer metadata.
---
 crates/openid4vci/src/types/credential_issuer_metadata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/openid4vci/src/types/credential_issuer_metadata.rs b/crates/openid4vci/src/types/credential_issuer_metadata.rs
index 1812f11..ea2b5d9 100644
--- a/crates/openid4vci/src/types/credential_issuer_metadata.rs
+++ b/crates/openid4vci/src/types/credential_issuer_metadata.rs
@@ -68,6 +68,10 @@ pub struct CredentialSupported {
     /// did:example. Support for all DID methods listed in Section 13 of
     /// [DID_Specification_Registries](https://www.w3.org/TR/did-spec-registries/) is indicated by
     /// sending a DID without any method-name.
+    #[serde(
+        rename = "cryptographic_binding_methods_supported",
+        alias = "cryptographic_binding_mehtods_supported"
+    )]
     pub cryptographic_binding_mehtods_supported: Option<Vec<String>>,
 
     /// Array of case sensitive strings that identify the cryptographic suites that are supported
-- 
2.43.0


From af7b7be56722488fb6fd693d668fdfaca7956dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 13/15] fix: refuse proof jwts with more than three parts

---
 crates/openid4vci/src/jwt/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index d3d6052..2c712b6 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -92,6 +92,12 @@ impl FromStr for ProofJwt {
 
         let signature = res.next();
 
+        if res.next().is_some() {
+            return Err(ValidationError::Any {
+                validation_message: "More than three parts found in the `JWT`".to_owned(),
+            });
+        }
+
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
-- 
2.43.0


From 75e75c8426beee7f2bdf8270be522f782c4fcf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 14/15] fix: append the credential offer to the query of the
 endpoint

A second question mark made the offer part of the value of the last parameter.
---
 crates/openid4vci/src/credential_issuer/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 9f946db..97e0571 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -452,9 +452,14 @@ impl CredentialIssuer {
 
         // Get the url prefix
         // This is a deeplink if no `credential_offer_endpoint` is provided
-        let credential_offer_url_prefix = credential_offer_endpoint
-            .clone()
-            .map_or("openid-credential-offer://".to_owned(), |u| format!("{u}?"));
+        let credential_offer_url_prefix = credential_offer_endpoint.clone().map_or(
+            "openid-credential-offer://".to_owned(),
+            |u| {
+                // An endpoint can already have a query
+                let separator = if u.contains('?') { '&' } else { '?' };
+                format!("{u}{separator}")
+            },
+        );
 
         let credential_offer_url =
             format!("{credential_offer_url_prefix}credential_offer={credential_offer_url_encoded}");
-- 
2.43.0


From e48912d85c051e3b22ba6cd8315dcea97aa646e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:19 +0000
Subject: [PATCH 15/15] fix: read and write value_type of claims with its
 specified name

---
 crates/openid4vci/src/types/credential.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index 39797e4..a04f83c 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -133,7 +133,11 @@ pub struct CredentialSubject {
     /// defined by this specification are string, number, and image media types such as image/jpeg
     /// as defined in [IANA media type registry for
     /// images](https://www.iana.org/assignments/media-types/media-types.xhtml#image).
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "value_type",
+        alias = "valueType",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub value_type: Option<String>,
 
     /// An array of objects, where each object contains display properties of a certain claim in
-- 
2.43.0

