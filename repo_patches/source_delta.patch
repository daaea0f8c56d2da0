From 7561f3563ab22a12da1f866d5461b3bb1d3fcf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:29 +0000
Subject: [PATCH 01/14] fix: send the registered lower-case error codes in
 error responses

---
 crates/openid4vci/src/access_token/error_response.rs  | 1 +
 crates/openid4vci/src/credential_issuer/error_code.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/access_token/error_response.rs b/crates/openid4vci/src/access_token/error_response.rs
index e96c3f5..9cb4a39 100644
--- a/crates/openid4vci/src/access_token/error_response.rs
+++ b/crates/openid4vci/src/access_token/error_response.rs
@@ -6,6 +6,7 @@ use crate::validate::ValidationError;
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 6.3 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-6.3).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum AccessTokenErrorCode {
     /// `invalid_request`
     ///
diff --git a/crates/openid4vci/src/credential_issuer/error_code.rs b/crates/openid4vci/src/credential_issuer/error_code.rs
index 36061ba..0f22fb4 100644
--- a/crates/openid4vci/src/credential_issuer/error_code.rs
+++ b/crates/openid4vci/src/credential_issuer/error_code.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 7.3.1 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-7.3.1).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum CredentialIssuerErrorCode {
     /// Credential Request was malformed. One or more of the parameters (i.e. format, proof) are
     /// missing or malformed.
-- 
2.43.0


From 0495d23a1f4ae62194b1bd589aa430d6848af3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:01 +0000
Subject: [PATCH 02/14] fix: put the issued credential itself into the success
 response

---
 crates/openid4vci/src/types/credential.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index ae89654..39797e4 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -166,6 +166,7 @@ impl Validatable for CredentialFormatProfile {
 /// format as specified in Appendix E of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#name-credential-format-profiles).
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
+#[serde(untagged)]
 pub enum CredentialFormatProfileOrEncoded {
     /// [`CredentialFormatProfile`]
     CredentialFormatProfile(CredentialFormatProfile),
-- 
2.43.0


From 515b3e8b2130bf1f4fdeba07e97aa2b3702a1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:03 +0000
Subject: [PATCH 03/14] fix: read and write
 cryptographic_binding_methods_supported under its protocol name

---
 crates/openid4vci/src/types/credential_issuer_metadata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/openid4vci/src/types/credential_issuer_metadata.rs b/crates/openid4vci/src/types/credential_issuer_metadata.rs
index 1812f11..ea2b5d9 100644
--- a/crates/openid4vci/src/types/credential_issuer_metadata.rs
+++ b/crates/openid4vci/src/types/credential_issuer_metadata.rs
@@ -68,6 +68,10 @@ pub struct CredentialSupported {
     /// did:example. Support for all DID methods listed in Section 13 of
     /// [DID_Specification_Registries](https://www.w3.org/TR/did-spec-registries/) is indicated by
     /// sending a DID without any method-name.
+    #[serde(
+        rename = "cryptographic_binding_methods_supported",
+        alias = "cryptographic_binding_mehtods_supported"
+    )]
     pub cryptographic_binding_mehtods_supported: Option<Vec<String>>,
 
     /// Array of case sensitive strings that identify the cryptographic suites that are supported
-- 
2.43.0


From 0e6961fef3ef706f659d43d6f1a9ca9e50280072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:09 +0000
Subject: [PATCH 04/14] fix: refuse proofs whose alg is none, symmetric or not
 a signature algorithm

---
 crates/openid4vci/src/jwt/mod.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b1fa7be..32fc72a 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -63,6 +63,27 @@ pub enum ProofJwtAlgorithm {
     None,
 }
 
+impl ProofJwtAlgorithm {
+    /// Whether the algorithm creates digital signatures with an asymmetric key
+    #[must_use]
+    pub const fn is_asymmetric_signature(&self) -> bool {
+        match self {
+            Self::HS256 | Self::HS384 | Self::HS512 | Self::ECDHES | Self::None => false,
+            Self::RS256
+            | Self::RS384
+            | Self::RS512
+            | Self::ES256
+            | Self::ES384
+            | Self::ES512
+            | Self::PS256
+            | Self::PS384
+            | Self::PS512
+            | Self::EdDSA
+            | Self::ES256K => true,
+        }
+    }
+}
+
 /// Struct mapping of `jwt` in the `proof types` as defined in section 7.2.1 of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#proof_types)
 #[derive(Debug, Serialize, Deserialize, Clone)]
@@ -556,6 +577,16 @@ impl Validatable for ProofJwtHeader {
             });
         }
 
+        // `none`, a MAC or a key agreement algorithm is no proof of possession
+        if !self.alg.is_asymmetric_signature() {
+            return Err(ValidationError::Any {
+                validation_message: format!(
+                    "jwt header `alg` MUST be an asymmetric signature algorithm, found `{:?}`",
+                    self.alg
+                ),
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 72c002ff09358ceaae8218725a03ef8e77ba77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:11 +0000
Subject: [PATCH 05/14] fix: enforce the validity window of the proof when
 evaluating a credential request

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 3ff7744..eed6d0b 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -535,6 +535,7 @@ impl CredentialIssuer {
         if let Some(CredentialRequestProof { jwt, .. }) = &credential_request.proof {
             let jwt = ProofJwt::from_str(jwt)?;
             jwt.validate()?;
+            jwt.verify()?;
 
             let expected_c_nonce = evaluate_credential_request_options
                 .clone()
-- 
2.43.0


From 0b3437087067255647166a7b574a6057b36b4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:13 +0000
Subject: [PATCH 06/14] fix: validate the proof object when evaluating a
 credential request

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index eed6d0b..11e0392 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -506,6 +506,7 @@ impl CredentialIssuer {
         evaluate_credential_request_options: Option<EvaluateCredentialRequestOptions>,
     ) -> CredentialIssuerResult<CredentialIssuerEvaluateRequestResponse> {
         issuer_metadata.validate()?;
+        credential_request.validate()?;
 
         let credential_offer =
             credential_offer.ok_or(CredentialIssuerError::CredentialOfferMustBeSupplied)?;
-- 
2.43.0


From a1305d8352fbcdd66f00cb9aa55db911084965ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:15 +0000
Subject: [PATCH 07/14] fix: hand out the transmitted signature and a message
 without it when claims contain dots

---
 crates/openid4vci/src/jwt/mod.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 32fc72a..d014e91 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -248,17 +248,17 @@ impl ProofJwt {
     ///
     /// - When it could not convert the JWT to a string
     pub fn to_signable_message(&self) -> JwtResult<Vec<u8>> {
-        // Convert the JWT into a string
-        let message: String = self.try_into()?;
-
-        // Remove the signature if its defined, detected by two occurences of "."
-        let message = if message.matches('.').count() == 2 {
-            let parts: Vec<_> = message.split('.').collect();
-            format!("{}.{}", parts[0], parts[1])
-        } else {
-            message
+        // Only the header and the body are signed. They may contain any number of "." themselves,
+        // so the signature can not be cut off the string representation.
+        let unsigned = ProofJwt {
+            header: self.header.clone(),
+            body: self.body.clone(),
+            signature: None,
         };
 
+        // Convert the JWT into a string
+        let message: String = (&unsigned).try_into()?;
+
         // Return the message as bytes
         Ok(message.as_bytes().to_vec())
     }
@@ -272,6 +272,15 @@ impl ProofJwt {
         // Convert the JWT into a string
         let s_jwt: String = self.try_into()?;
 
+        // The transmitted signature, the header and the body may contain "." themselves
+        if let Some(signature) = &self.signature {
+            if signature.is_empty() {
+                return Err(JwtError::SignatureNotInJwt { jwt: s_jwt });
+            }
+
+            return Ok(signature.as_bytes().to_vec());
+        }
+
         // Split into 3 parts (header, payload, signature)
         let jwt = s_jwt.clone();
         let parts: Vec<_> = jwt.splitn(3, '.').collect();
-- 
2.43.0


From 00200df15c0d9f05bdff7e12db9567c11f2f8cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:17 +0000
Subject: [PATCH 08/14] fix: refuse user pins of nine digits

---
 crates/openid4vci/src/access_token/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 794220a..8e6ea89 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -106,7 +106,8 @@ impl Validatable for GrantType {
                 if let Some(user_pin) = user_pin {
                     let max = 8;
                     let length = user_pin.checked_ilog10().unwrap_or_default();
-                    if length > max {
+                    // a number of n + 1 digits has n as its logarithm
+                    if length >= max {
                         return Err(ValidationError::Any {
                             validation_message: format!(
                                 "user pin exeeded length. Maximum is {max}, supplied is {length}"
-- 
2.43.0


From e1974e6aa1a6e432b001ed5bfd3459253bc7b70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:19 +0000
Subject: [PATCH 09/14] fix: keep the query parameters of the credential offer
 endpoint apart from the offer

---
 crates/openid4vci/src/credential_issuer/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 11e0392..14e23f0 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -454,7 +454,11 @@ impl CredentialIssuer {
         // This is a deeplink if no `credential_offer_endpoint` is provided
         let credential_offer_url_prefix = credential_offer_endpoint
             .clone()
-            .map_or("openid-credential-offer://".to_owned(), |u| format!("{u}?"));
+            .map_or("openid-credential-offer://".to_owned(), |u| {
+                // An endpoint may already contain query parameters
+                let separator = if u.contains('?') { '&' } else { '?' };
+                format!("{u}{separator}")
+            });
 
         let credential_offer_url =
             format!("{credential_offer_url_prefix}credential_offer={credential_offer_url_encoded}");
-- 
2.43.0


From ed61e170b1d28ef5b43e9e552cd959573b99b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:45 +0000
Subject: [PATCH 10/14] fix: name the pre-authorized code as the protocol does
 in token requests

---
 crates/openid4vci/src/access_token/mod.rs      | 1 +
 crates/openid4vci/src/credential_issuer/mod.rs | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 8e6ea89..1d0c123 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -88,6 +88,7 @@ pub enum GrantType {
         /// The code representing the authorization to obtain Credentials of a certain type. This
         /// parameter is required if the grant_type is
         /// urn:ietf:params:oauth:grant-type:pre-authorized_code.
+        #[serde(rename = "pre-authorized_code", alias = "pre_authorized_code")]
         pre_authorized_code: String,
 
         /// String value containing a user PIN. This value MUST be present if `user_pin_required`
diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 14e23f0..c66f55b 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -452,13 +452,14 @@ impl CredentialIssuer {
 
         // Get the url prefix
         // This is a deeplink if no `credential_offer_endpoint` is provided
-        let credential_offer_url_prefix = credential_offer_endpoint
-            .clone()
-            .map_or("openid-credential-offer://".to_owned(), |u| {
+        let credential_offer_url_prefix = credential_offer_endpoint.clone().map_or(
+            "openid-credential-offer://".to_owned(),
+            |u| {
                 // An endpoint may already contain query parameters
                 let separator = if u.contains('?') { '&' } else { '?' };
                 format!("{u}{separator}")
-            });
+            },
+        );
 
         let credential_offer_url =
             format!("{credential_offer_url_prefix}credential_offer={credential_offer_url_encoded}");
-- 
2.43.0


From f555889a8c88b68b8037a37c72e122c042e698ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:29 +0000
Subject: [PATCH 11/14] fix: accept numeric dates in the body of a proof

---
 crates/openid4vci/src/jwt/mod.rs | 84 ++++++++++++++++++++++++++++++--
 1 file changed, 81 insertions(+), 3 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index d014e91..28aeabe 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -521,6 +521,74 @@ pub enum ProofJwtAdditionalHeader {
     X5c(String),
 }
 
+/// Reads points in time that are either a `NumericDate`, as defined in
+/// [RFC7519](https://www.rfc-editor.org/rfc/rfc7519.txt), or a formatted date and time string
+mod numeric_date {
+    use chrono::{DateTime, NaiveDateTime, Utc};
+    use serde::{de, Deserialize, Deserializer};
+    use std::fmt;
+
+    struct NumericDate(DateTime<Utc>);
+
+    impl NumericDate {
+        fn from_timestamp<E: de::Error>(seconds: i64, nanoseconds: u32) -> Result<Self, E> {
+            NaiveDateTime::from_timestamp_opt(seconds, nanoseconds)
+                .map(|t| Self(DateTime::from_utc(t, Utc)))
+                .ok_or_else(|| E::custom("number of seconds is out of range"))
+        }
+    }
+
+    struct NumericDateVisitor;
+
+    impl<'de> de::Visitor<'de> for NumericDateVisitor {
+        type Value = NumericDate;
+
+        fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
+            formatter.write_str("a number of seconds or a formatted date and time string")
+        }
+
+        fn visit_str<E: de::Error>(self, value: &str) -> Result<Self::Value, E> {
+            value.parse().map(NumericDate).map_err(E::custom)
+        }
+
+        fn visit_i64<E: de::Error>(self, value: i64) -> Result<Self::Value, E> {
+            NumericDate::from_timestamp(value, 0)
+        }
+
+        fn visit_u64<E: de::Error>(self, value: u64) -> Result<Self::Value, E> {
+            NumericDate::from_timestamp(i64::try_from(value).map_err(E::custom)?, 0)
+        }
+
+        #[allow(clippy::cast_possible_truncation, clippy::cast_sign_loss)]
+        fn visit_f64<E: de::Error>(self, value: f64) -> Result<Self::Value, E> {
+            let mut seconds = value.floor() as i64;
+            let mut nanoseconds = ((value - value.floor()) * 1e9).round() as u32;
+            if nanoseconds == 1_000_000_000 {
+                seconds = seconds.saturating_add(1);
+                nanoseconds = 0;
+            }
+
+            NumericDate::from_timestamp(seconds, nanoseconds)
+        }
+    }
+
+    impl<'de> Deserialize<'de> for NumericDate {
+        fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+            deserializer.deserialize_any(NumericDateVisitor)
+        }
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<DateTime<Utc>, D::Error> {
+        Ok(NumericDate::deserialize(d)?.0)
+    }
+
+    pub fn deserialize_option<'de, D: Deserializer<'de>>(
+        d: D,
+    ) -> Result<Option<DateTime<Utc>>, D::Error> {
+        Ok(Option::<NumericDate>::deserialize(d)?.map(|t| t.0))
+    }
+}
+
 /// Struct mapping of `jwt body` in the `proof types` as defined in section 7.2.1 of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#proof_types)
 #[derive(Debug, Serialize, Deserialize, Clone, Default)]
@@ -541,7 +609,7 @@ pub struct ProofJwtBody {
 
     /// The value of this claim MUST be the time at which the proof was issued using the syntax
     /// defined in [RFC7519](https://www.rfc-editor.org/rfc/rfc7519.txt).
-    #[serde(rename = "iat")]
+    #[serde(rename = "iat", deserialize_with = "numeric_date::deserialize")]
     pub issued_at: DateTime<Utc>,
 
     /// The value type of this claim MUST be a string, where the value is a `c_nonce` provided by
@@ -554,7 +622,12 @@ pub struct ProofJwtBody {
     /// provide for some small leeway, usually no more than a few minutes, to account for clock
     /// skew.  Its value MUST be a number containing a NumericDate value.  Use of this claim is
     /// OPTIONAL.
-    #[serde(rename = "nbf", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "nbf",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "numeric_date::deserialize_option"
+    )]
     pub not_before: Option<DateTime<Utc>>,
 
     /// The "exp" (expiration time) claim identifies the expiration time on or after which the JWT
@@ -563,7 +636,12 @@ pub struct ProofJwtBody {
     /// Implementers MAY provide for some small leeway, usually no more than a few minutes, to
     /// account for clock skew.  Its value MUST be a number containing a NumericDate value.  Use of
     /// this claim is OPTIONAL.
-    #[serde(rename = "exp", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "exp",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "numeric_date::deserialize_option"
+    )]
     pub expires_at: Option<DateTime<Utc>>,
 }
 
-- 
2.43.0


From 487b36d2f5e792248246963683bca3ad7d1fc265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:31 +0000
Subject: [PATCH 12/14] fix: do not panic when the expiry of a nonce can not be
 represented

---
 crates/openid4vci/src/credential_issuer/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index c66f55b..0c475e2 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -526,8 +526,13 @@ impl CredentialIssuer {
             .clone()
             .and_then(|o| o.c_nonce)
         {
-            let expiry_timestamp = c_nonce_options.c_nonce_created_at
-                + Duration::seconds(c_nonce_options.c_nonce_expires_in.into());
+            let expiry_timestamp = c_nonce_options
+                .c_nonce_created_at
+                .checked_add_signed(Duration::seconds(c_nonce_options.c_nonce_expires_in.into()))
+                .ok_or_else(|| ValidationError::Any {
+                    validation_message: "`c_nonce` expires at a time that can not be represented"
+                        .to_owned(),
+                })?;
             let now = Utc::now();
 
             if expiry_timestamp < now {
-- 
2.43.0


From 604cdc6cdd04f2f78f8b4df5e2fd42a8165674d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:54 +0000
Subject: [PATCH 13/14] fix: refuse did documents which belong to another did
 than the key

---
 crates/openid4vci/src/jwt/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 28aeabe..25713fb 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -389,6 +389,17 @@ impl ProofJwtHeader {
                             .as_ref()
                             .ok_or(JwtError::NoDidDocumentProvidedForKidAsDid)?;
 
+                        // A document speaks only for the `did` that it identifies
+                        if did_document.id != did.did {
+                            return Err(JwtError::UnableToResolveDidInDidDocument {
+                                did: did.to_string(),
+                                message: format!(
+                                    "The supplied did document belongs to {}",
+                                    did_document.id
+                                ),
+                            });
+                        }
+
                         let object = did_document.select_object(&did).map_err(|e| {
                             JwtError::UnableToResolveDidInDidDocument {
                                 did: did.to_string(),
-- 
2.43.0


From a25ff8f57d89668d13c00825d00c6790de62530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:34 +0000
Subject: [PATCH 14/14] fix: keep nested claims and value_type of credential
 subjects

---
 crates/openid4vci/src/types/credential.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index 39797e4..32ee542 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -133,13 +133,21 @@ pub struct CredentialSubject {
     /// defined by this specification are string, number, and image media types such as image/jpeg
     /// as defined in [IANA media type registry for
     /// images](https://www.iana.org/assignments/media-types/media-types.xhtml#image).
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "value_type",
+        alias = "valueType",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub value_type: Option<String>,
 
     /// An array of objects, where each object contains display properties of a certain claim in
     /// the Credential for a certain language.
     #[serde(skip_serializing_if = "Option::is_none")]
     pub display: Option<Vec<CredentialSubjectDisplay>>,
+
+    /// The claims nested in this claim, or the claims of this namespace
+    #[serde(flatten)]
+    pub nested: HashMap<String, serde_json::Value>,
 }
 
 /// A Struct containing the fields for the credentialSubjects dispay field.
-- 
2.43.0

