From bf5892475fb16e24f022851dcba8af43175b31cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:11 +0000
Subject: [PATCH 01/19] fix: keep recognised capabilities that follow an
 unrecognised one

---
 ucan/src/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 285efbb..7a40482 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -219,7 +219,7 @@ impl ProofChain {
             .ucan
             .capabilities()
             .iter()
-            .map_while(|data| semantics.parse_capability(&data));
+            .filter_map(|data| semantics.parse_capability(&data));
 
         // Get the claimed attenuations of this ucan, cross-checking ancestral
         // attenuations to discover the originating authority
-- 
2.43.0


From 1ffc4de9bd71cee77b1bd4740a376a530178507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 02/19] fix: do not credit originators of a narrow capability
 with a broader one

---
 ucan/src/chain.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 7a40482..2ea0142 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -270,9 +270,18 @@ impl ProofChain {
         // that discrete originators are aggregated as we go
         'merge: while let Some(capability_info) = self_capability_infos.pop() {
             for remaining_capability_info in &mut self_capability_infos {
+                // A narrower capability is redundant only if it does not bring
+                // any originator along: its originators must never be credited
+                // with the broader capability that it is merged into
                 if remaining_capability_info
                     .capability
                     .enables(&capability_info.capability)
+                    && (capability_info
+                        .capability
+                        .enables(&remaining_capability_info.capability)
+                        || capability_info
+                            .originators
+                            .is_subset(&remaining_capability_info.originators))
                 {
                     remaining_capability_info
                         .originators
-- 
2.43.0


From 17c8789b23450cdfb038b6a874a056a0dc07dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 03/19] fix: let prf:* redelegate every proof

---
 ucan/src/capability/proof.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ucan/src/capability/proof.rs b/ucan/src/capability/proof.rs
index 986bb57..896039f 100644
--- a/ucan/src/capability/proof.rs
+++ b/ucan/src/capability/proof.rs
@@ -1,4 +1,4 @@
-use super::{Ability, CapabilitySemantics, Scope};
+use super::{Ability, CapabilitySemantics, ResourceUri, Scope};
 use anyhow::{anyhow, Result};
 use url::Url;
 
@@ -76,4 +76,10 @@ impl ToString for ProofSelection {
 
 pub struct ProofDelegationSemantics {}
 
-impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {}
+impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {
+    /// The wildcard of a proof resource (`prf:*`) is a selection in itself, not
+    /// an absent scope
+    fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<ProofSelection>> {
+        Some(ResourceUri::Scoped(self.parse_scope(resource)?))
+    }
+}
-- 
2.43.0


From 042788c82f123251b60550e92da033704bf86451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 04/19] fix: check not-before at the time validation was asked
 for

---
 ucan/src/ucan.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index beaf8d2..f9e2245 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -71,11 +71,13 @@ impl Ucan {
         now_time: Option<u64>,
         did_parser: &mut DidParser,
     ) -> Result<()> {
-        if self.is_expired(now_time) {
+        let now_time = now_time.unwrap_or_else(now);
+
+        if self.is_expired(Some(now_time)) {
             return Err(anyhow!("Expired"));
         }
 
-        if self.is_too_early() {
+        if self.is_too_early_at(now_time) {
             return Err(anyhow!("Not active yet (too early)"));
         }
 
@@ -119,8 +121,12 @@ impl Ucan {
 
     /// Returns true if the not-before ("nbf") time is still in the future
     pub fn is_too_early(&self) -> bool {
+        self.is_too_early_at(now())
+    }
+
+    fn is_too_early_at(&self, now_time: u64) -> bool {
         match self.payload.nbf {
-            Some(nbf) => nbf > now(),
+            Some(nbf) => nbf > now_time,
             None => false,
         }
     }
-- 
2.43.0


From 43ec9edc0710245f3195bc361a865e167883552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 05/19] fix: reject a did:key too short to name a key type
 instead of panicking

---
 ucan/src/crypto/did.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ucan/src/crypto/did.rs b/ucan/src/crypto/did.rs
index 3322f2c..dc0bcfe 100644
--- a/ucan/src/crypto/did.rs
+++ b/ucan/src/crypto/did.rs
@@ -50,7 +50,9 @@ impl DidParser {
         }
 
         let did_bytes = bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec()?;
-        let magic_bytes = &did_bytes[0..2];
+        let magic_bytes = did_bytes
+            .get(0..2)
+            .ok_or_else(|| anyhow!("Too few bytes in did:key: {}", did))?;
         match self.key_constructors.get(magic_bytes) {
             Some(ctor) => {
                 let key = ctor(Vec::from(&did_bytes[2..]))?;
-- 
2.43.0


From cd3cabb383d21c2d045929611db95f1b54906fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:59 +0000
Subject: [PATCH 06/19] fix: reject bytes that no principal stands for instead
 of panicking

---
 ucan/src/ipld/principle.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/ucan/src/ipld/principle.rs b/ucan/src/ipld/principle.rs
index 9980f40..09b580f 100644
--- a/ucan/src/ipld/principle.rs
+++ b/ucan/src/ipld/principle.rs
@@ -8,14 +8,37 @@ pub const DID_IPLD_PREFIX: &[u8] = &[0x9d, 0x1a];
 
 #[repr(transparent)]
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "Vec<u8>")]
 pub struct Principle(Vec<u8>);
 
+/// Only bytes that stand for a DID can be a principle
+impl TryFrom<Vec<u8>> for Principle {
+    type Error = anyhow::Error;
+
+    fn try_from(bytes: Vec<u8>) -> Result<Self, Self::Error> {
+        match bytes.get(0..2) {
+            Some(DID_IPLD_PREFIX) => {
+                std::str::from_utf8(&bytes[2..])?;
+            }
+            Some(_) => (),
+            None => return Err(anyhow!("Too few bytes in principle: {:?}", bytes)),
+        };
+
+        Ok(Principle(bytes))
+    }
+}
+
 impl FromStr for Principle {
     type Err = anyhow::Error;
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {
-            Ok(Principle(bs58::decode(stripped).into_vec()?))
+            let bytes = bs58::decode(stripped).into_vec()?;
+            if bytes.starts_with(DID_IPLD_PREFIX) {
+                // These bytes would stand for a DID that is not a did:key
+                return Err(anyhow!("Unrecognized key type: {}", input));
+            }
+            Principle::try_from(bytes)
         } else if let Some(stripped) = input.strip_prefix(DID_PREFIX) {
             Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))
         } else {
-- 
2.43.0


From b3282329a63ba55faaaf95c9b722ee435c473679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:01 +0000
Subject: [PATCH 07/19] fix: reject a truncated IPLD signature instead of
 panicking

---
 ucan/src/ipld/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ucan/src/ipld/signature.rs b/ucan/src/ipld/signature.rs
index ed520cb..44e8a6a 100644
--- a/ucan/src/ipld/signature.rs
+++ b/ucan/src/ipld/signature.rs
@@ -130,7 +130,10 @@ impl Signature {
         // TODO: Non-standard algorithm support here...
 
         let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;
-        let signature = buffer[..signature_length].to_vec();
+        let signature = buffer
+            .get(..signature_length)
+            .ok_or_else(|| anyhow!("Signature is shorter than its stated length"))?
+            .to_vec();
 
         Ok((algorithm, signature))
     }
-- 
2.43.0


From 1dfa5d0eecb4c5d80ad8505b71a95516a67b4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 08/19] fix: return the error when a payload cannot be
 generated for signing

---
 ucan/src/builder.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 44fb9cb..4adb4e7 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -87,10 +87,7 @@ where
     /// data suitable for encoding as a JWT token string
     pub async fn sign(&self) -> Result<Ucan> {
         let header = self.ucan_header();
-        let payload = self
-            .ucan_payload()
-            .await
-            .expect("Unable to generate UCAN payload");
+        let payload = self.ucan_payload().await?;
 
         let header_base64 = header.jwt_base64_encode()?;
         let payload_base64 = payload.jwt_base64_encode()?;
-- 
2.43.0


From 91d64a2adec74cef00b14fcbf1831179097ee107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 09/19] fix: saturate the expiration implied by a very long
 lifetime

---
 ucan/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 4adb4e7..fc01f6d 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -282,7 +282,7 @@ where
         if self.expiration.is_some() {
             self.expiration
         } else {
-            self.lifetime.map(|lifetime| now() + lifetime)
+            self.lifetime.map(|lifetime| now().saturating_add(lifetime))
         }
     }
 
-- 
2.43.0


From 0126441b627dfe76544cd2571678cbfb421d5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:08 +0000
Subject: [PATCH 10/19] fix: reject a token with more than three parts

---
 ucan/src/ucan.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index f9e2245..2789b0a 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -266,6 +266,10 @@ impl FromStr for Ucan {
             .ok_or_else(|| anyhow!("Missing UCAN signature in token part"))?
             .map_err(|e| e.context("Could not parse UCAN signature base64"))?;
 
+        if parts.next().is_some() {
+            return Err(anyhow!("Too many parts in UCAN token"));
+        }
+
         Ok(Ucan::new(
             header,
             payload,
-- 
2.43.0


From 121058dbc9f49399b1973e248dfd06053d8ec9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 11/19] fix: encode a token as the data that was signed

---
 ucan/src/ucan.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 2789b0a..58cac2d 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -1,9 +1,4 @@
-use crate::{
-    capability::Capabilities,
-    crypto::did::DidParser,
-    serde::{Base64Encode, DagJson},
-    time::now,
-};
+use crate::{capability::Capabilities, crypto::did::DidParser, serde::DagJson, time::now};
 use anyhow::{anyhow, Result};
 use base64::Engine;
 use cid::{
@@ -93,12 +88,14 @@ impl Ucan {
     /// Produce a base64-encoded serialization of the UCAN suitable for
     /// transferring in a header field
     pub fn encode(&self) -> Result<String> {
-        let header = self.header.jwt_base64_encode()?;
-        let payload = self.payload.jwt_base64_encode()?;
+        // NOTE: The token must carry what was signed, byte for byte. Serializing
+        // the fields anew may come out differently, e.g., for a token that was
+        // issued by another implementation
+        let signed_data = std::str::from_utf8(&self.signed_data)?;
         let signature =
             base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(self.signature.as_slice());
 
-        Ok(format!("{header}.{payload}.{signature}"))
+        Ok(format!("{signed_data}.{signature}"))
     }
 
     /// Returns true if the UCAN has past its expiration date
-- 
2.43.0


From 5e2b1273a53c9b6999644fe5addd063262a89598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 12/19] fix: keep the version of a UCAN when converting it from
 IPLD

---
 ucan/src/ipld/ucan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index c98970d..0835606 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -3,7 +3,7 @@ use crate::{
     crypto::JwtSignatureAlgorithm,
     ipld::{Principle, Signature},
     serde::Base64Encode,
-    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload, UCAN_VERSION},
+    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload},
 };
 use cid::Cid;
 use serde::{Deserialize, Serialize};
@@ -74,7 +74,7 @@ impl TryFrom<&UcanIpld> for Ucan {
         };
 
         let payload = UcanPayload {
-            ucv: UCAN_VERSION.into(),
+            ucv: value.v.clone(),
             iss: value.iss.to_string(),
             aud: value.aud.to_string(),
             exp: value.exp,
-- 
2.43.0


From e05a9a294827d99e186b74c6f75d26f0f39122e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 13/19] fix: validate capabilities that are deserialized from a
 token

---
 ucan/src/capability/data.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ucan/src/capability/data.rs b/ucan/src/capability/data.rs
index 307fe71..42a912e 100644
--- a/ucan/src/capability/data.rs
+++ b/ucan/src/capability/data.rs
@@ -64,6 +64,7 @@ type CapabilitiesIterator<'a> = FlatMap<
 >;
 
 #[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
+#[serde(try_from = "CapabilitiesImpl")]
 /// The [Capabilities] struct contains capability data as a map-of-maps, matching the
 /// [spec](https://github.com/ucan-wg/spec#326-capabilities--attenuation).
 /// See `iter()` to deconstruct this map into a sequence of [Capability] datas.
@@ -181,6 +182,10 @@ impl TryFrom<CapabilitiesImpl> for Capabilities {
                 // One or more abilities MUST be given for each resource.
                 return Err(anyhow!("No abilities given for resource: {}", resource));
             }
+
+            if let Some(caveat) = abilities.values().flatten().find(|c| !c.is_object()) {
+                return Err(anyhow!("Caveat must be an object: {}", caveat));
+            }
         }
         Ok(Capabilities(value))
     }
-- 
2.43.0


From 01394d081df6c1acafe522a46a68ac0b05bd1d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 14/19] fix: recognise the resource that follows the DID in an
 as: resource

---
 ucan/src/capability/semantics.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 65966fb..3b8ad04 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -1,7 +1,7 @@
 use super::{Capability, Caveat};
 use serde_json::{json, Value};
 use std::fmt::Debug;
-use url::Url;
+use url::{Position, Url};
 
 pub trait Scope: ToString + TryFrom<Url> + PartialEq + Clone {
     fn contains(&self, other: &Self) -> bool;
@@ -131,7 +131,10 @@ where
             _ => return None,
         };
 
-        Some((format!("did:key:{value}"), path_parts.collect()))
+        Some((
+            format!("did:key:{value}"),
+            path_parts.collect::<Vec<_>>().join(":"),
+        ))
     }
 
     fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<S>> {
@@ -164,10 +167,13 @@ where
                 kind: self.parse_resource(&uri)?,
             },
             "as" => {
-                let (did, resource) = self.extract_did(uri.path())?;
+                let (did, resource) = self.extract_did(&uri[Position::BeforePath..])?;
                 Resource::As {
                     did,
-                    kind: self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
+                    kind: match resource.as_str() {
+                        "*" => ResourceUri::Unscoped,
+                        _ => self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
+                    },
                 }
             }
             _ => Resource::Resource {
-- 
2.43.0


From 9e8d4abf7965909996c938e9ee89d7248aca22f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 15/19] fix: recognise an unscoped resource in the form it is
 rendered in

---
 ucan/src/capability/semantics.rs | 39 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 3b8ad04..3d34cb1 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -160,25 +160,32 @@ where
         ability: &str,
         caveat: Option<&Value>,
     ) -> Option<CapabilityView<S, A>> {
-        let uri = Url::parse(resource).ok()?;
+        let cap_resource = if resource == "*" {
+            // How an unscoped resource is rendered; not a URI in itself
+            Resource::Resource {
+                kind: ResourceUri::Unscoped,
+            }
+        } else {
+            let uri = Url::parse(resource).ok()?;
 
-        let cap_resource = match uri.scheme() {
-            "my" => Resource::My {
-                kind: self.parse_resource(&uri)?,
-            },
-            "as" => {
-                let (did, resource) = self.extract_did(&uri[Position::BeforePath..])?;
-                Resource::As {
-                    did,
-                    kind: match resource.as_str() {
-                        "*" => ResourceUri::Unscoped,
-                        _ => self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
-                    },
+            match uri.scheme() {
+                "my" => Resource::My {
+                    kind: self.parse_resource(&uri)?,
+                },
+                "as" => {
+                    let (did, resource) = self.extract_did(&uri[Position::BeforePath..])?;
+                    Resource::As {
+                        did,
+                        kind: match resource.as_str() {
+                            "*" => ResourceUri::Unscoped,
+                            _ => self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
+                        },
+                    }
                 }
+                _ => Resource::Resource {
+                    kind: self.parse_resource(&uri)?,
+                },
             }
-            _ => Resource::Resource {
-                kind: self.parse_resource(&uri)?,
-            },
         };
 
         let cap_ability = match self.parse_action(ability) {
-- 
2.43.0


From 2dd1da80e0635a1ab843d0b722313e29f54b2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 16/19] fix: verify that the fields of a UCAN are the ones that
 were signed

---
 ucan/src/ucan.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 58cac2d..3326a4d 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -79,8 +79,15 @@ impl Ucan {
         self.check_signature(did_parser).await
     }
 
-    /// Validate that the signed data was signed by the stated issuer
+    /// Validate that the signed data was signed by the stated issuer, and that
+    /// it is what the fields of this UCAN say
     pub async fn check_signature<'a>(&self, did_parser: &mut DidParser) -> Result<()> {
+        // The fields of a UCAN that was not parsed from a token are not
+        // necessarily those that were signed
+        if Ucan::from_str(&self.encode()?)? != *self {
+            return Err(anyhow!("Signed data does not match the UCAN"));
+        }
+
         let key = did_parser.parse(&self.payload.iss)?;
         key.verify(&self.signed_data, &self.signature).await
     }
-- 
2.43.0


From 3ecbcd4bfcd4f4e941398b1d869bfe9b8f4d3b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 17/19] fix: refuse to sign a UCAN whose token could not be
 read back

---
 ucan/src/builder.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index fc01f6d..b7158f8 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -97,7 +97,15 @@ where
             .to_vec();
         let signature = self.issuer.sign(data_to_sign.as_slice()).await?;
 
-        Ok(Ucan::new(header, payload, data_to_sign, signature))
+        let ucan = Ucan::new(header, payload, data_to_sign, signature);
+
+        // Some values (e.g., facts that use the key reserved by DAG-JSON) would
+        // not be read back as what they are, if at all
+        if Ucan::try_from(ucan.encode()?)? != ucan {
+            return Err(anyhow!("UCAN contains values that cannot be encoded"));
+        }
+
+        Ok(ucan)
     }
 }
 
-- 
2.43.0


From bca99ac57b05d4d1790ba634625cb2ce5bd8cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 18/19] fix: refuse bytes after the signature in a UCAN-IPLD
 signature

---
 ucan/src/ipld/signature.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ucan/src/ipld/signature.rs b/ucan/src/ipld/signature.rs
index 44e8a6a..3fe55d9 100644
--- a/ucan/src/ipld/signature.rs
+++ b/ucan/src/ipld/signature.rs
@@ -130,12 +130,11 @@ impl Signature {
         // TODO: Non-standard algorithm support here...
 
         let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;
-        let signature = buffer
-            .get(..signature_length)
-            .ok_or_else(|| anyhow!("Signature is shorter than its stated length"))?
-            .to_vec();
+        if buffer.len() != signature_length {
+            return Err(anyhow!("Signature differs from its stated length"));
+        }
 
-        Ok((algorithm, signature))
+        Ok((algorithm, buffer.to_vec()))
     }
 }
 
-- 
2.43.0


From 4c12806495c5533e9002f7621d9db87e2051c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:45 +0000
Subject: [PATCH 19/19] fix: refuse IPLD principals that spell out a did:key

---
 ucan/src/ipld/principle.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ucan/src/ipld/principle.rs b/ucan/src/ipld/principle.rs
index 09b580f..4bf37bc 100644
--- a/ucan/src/ipld/principle.rs
+++ b/ucan/src/ipld/principle.rs
@@ -18,7 +18,11 @@ impl TryFrom<Vec<u8>> for Principle {
     fn try_from(bytes: Vec<u8>) -> Result<Self, Self::Error> {
         match bytes.get(0..2) {
             Some(DID_IPLD_PREFIX) => {
-                std::str::from_utf8(&bytes[2..])?;
+                let did = [DID_PREFIX, std::str::from_utf8(&bytes[2..])?].concat();
+                if did.starts_with(DID_KEY_PREFIX) {
+                    // The bytes of the key itself stand for such a DID
+                    return Err(anyhow!("Not the principal of a did:key: {}", did));
+                }
             }
             Some(_) => (),
             None => return Err(anyhow!("Too few bytes in principle: {:?}", bytes)),
-- 
2.43.0

