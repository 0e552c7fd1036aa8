From 032b8cf104b73b8e36418c00817812f930cba207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 01/19] fix: do not panic on short or empty attributes in SCRAM
 messages

---
 src/mechanisms/scram/parser.rs | 82 ++++++++++++++--------------------
 1 file changed, 34 insertions(+), 48 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 229ce63..b6bf18b 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -224,6 +224,18 @@ impl<'scram> GS2CBindFlag<'scram> {
     }
 }
 
+/// Return the value of the attribute `part` if its name is `name` (e.g. `b"r="`)
+fn attribute<'scram>(part: &'scram [u8], name: &[u8; 2]) -> Result<&'scram [u8], ParseError> {
+    part.strip_prefix(&name[..])
+        .ok_or_else(|| bad_attribute(part))
+}
+
+fn bad_attribute(part: &[u8]) -> ParseError {
+    part.first().map_or(ParseError::MissingAttributes, |b| {
+        ParseError::InvalidAttribute(*b)
+    })
+}
+
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Debug)]
 pub struct ClientFirstMessage<'scram> {
     pub cbflag: GS2CBindFlag<'scram>,
@@ -257,26 +269,20 @@ impl<'scram> ClientFirstMessage<'scram> {
         let authzid = if authzid.is_empty() {
             None
         } else {
-            Some(core::str::from_utf8(&authzid[2..]).map_err(ParseError::BadUtf8)?)
+            let authzid = authzid.get(2..).ok_or(ParseError::BadGS2Header)?;
+            Some(core::str::from_utf8(authzid).map_err(ParseError::BadUtf8)?)
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let username = if &next[0..2] == b"n=" {
-            core::str::from_utf8(&next[2..]).map_err(ParseError::BadUtf8)?
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let username =
+            core::str::from_utf8(attribute(next, b"n=")?).map_err(ParseError::BadUtf8)?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
         if !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
             return Err(ParseError::BadNonce);
         }
@@ -373,32 +379,20 @@ impl<'scram> ServerFirst<'scram> {
         if next.len() < 2 {
             return Err(ParseError::MissingAttributes);
         }
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let salt = if &next[0..2] == b"s=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let salt = attribute(next, b"s=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let iteration_count = if &next[0..2] == b"i=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let iteration_count = attribute(next, b"i=")?;
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(bad_attribute(next));
         }
 
         Ok(Self {
@@ -445,32 +439,24 @@ impl<'scram> ClientFinal<'scram> {
         let mut partiter = input.split(|b| matches!(b, b','));
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let channel_binding = if &next[0..2] == b"c=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let channel_binding = attribute(next, b"c=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
 
         let proof = loop {
             // Skip all extensions in between nonce and proof since we can't handle them.
             // If they are mandatory-to-implement extensions we error.
             let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-            if &next[0..2] == b"p=" {
-                break &next[2..];
-            } else if &next[0..2] == b"m=" {
+            if let Some(proof) = next.strip_prefix(b"p=") {
+                break proof;
+            } else if next.starts_with(b"m=") {
                 return Err(ParseError::UnknownMandatoryExtensions);
             };
         };
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(bad_attribute(next));
         }
 
         Ok(Self {
@@ -552,15 +538,15 @@ pub enum ServerFinal<'scram> {
 
 impl<'scram> ServerFinal<'scram> {
     pub fn parse(input: &'scram [u8]) -> Result<Self, ParseError> {
-        if &input[0..2] == b"v=" {
-            Ok(Self::Verifier(&input[2..]))
-        } else if &input[0..2] == b"e=" {
+        if let Some(verifier) = input.strip_prefix(b"v=") {
+            Ok(Self::Verifier(verifier))
+        } else if let Some(error) = input.strip_prefix(b"e=") {
             use ServerErrorValue::{
                 ChannelBindingNotSupported, ChannelBindingsDontMatch, ExtensionsNotSupported,
                 InvalidEncoding, InvalidProof, InvalidUsernameEncoding, NoResources, OtherError,
                 ServerDoesSupportChannelBinding, UnknownUser, UnsupportedChannelBindingType,
             };
-            let e = match &input[2..] {
+            let e = match error {
                 b"invalid-encoding" => InvalidEncoding,
                 b"extensions-not-supported" => ExtensionsNotSupported,
                 b"invalid-proof" => InvalidProof,
@@ -575,7 +561,7 @@ impl<'scram> ServerFinal<'scram> {
             };
             Ok(Self::Error(e))
         } else {
-            Err(ParseError::InvalidAttribute(input[0]))
+            Err(bad_attribute(input))
         }
     }
 
-- 
2.43.0


From b67e8dc481ac2678393568596d9ba3e62edee696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 02/19] fix: do not select a plain SCRAM mechanism if only its
 -PLUS variant was offered

---
 src/mechanisms/scram/mechinfo.rs | 42 +++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/mechanisms/scram/mechinfo.rs b/src/mechanisms/scram/mechinfo.rs
index 0e0ca1d..883e0e5 100644
--- a/src/mechanisms/scram/mechinfo.rs
+++ b/src/mechanisms/scram/mechinfo.rs
@@ -54,7 +54,9 @@ mod scram_sha1 {
         No,
         /// Only SCRAM-SHA1 but not -PLUS found
         Bare,
-        /// SCRAM-SHA1-PLUS found.
+        /// Only SCRAM-SHA1-PLUS found, so this mechanism was not offered.
+        PlusOnly,
+        /// Both SCRAM-SHA1 and SCRAM-SHA1-PLUS found.
         Plus,
     }
     impl Selector for ScramSelector1 {
@@ -62,17 +64,21 @@ mod scram_sha1 {
             if *mechname == *SCRAM_SHA1.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA1_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No | Self::PlusOnly => Self::PlusOnly,
+                    Self::Bare | Self::Plus => Self::Plus,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
+                Self::No | Self::PlusOnly => None,
                 _ => Some(&SCRAM_SHA1),
             }
         }
@@ -81,7 +87,7 @@ mod scram_sha1 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha1Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha1Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
@@ -159,7 +165,9 @@ mod scram_sha256 {
         No,
         /// Only SCRAM-SHA256 but not -PLUS found
         Bare,
-        /// SCRAM-SHA256-PLUS found.
+        /// Only SCRAM-SHA256-PLUS found, so this mechanism was not offered.
+        PlusOnly,
+        /// Both SCRAM-SHA256 and SCRAM-SHA256-PLUS found.
         Plus,
     }
     impl Selector for ScramSelector256 {
@@ -167,17 +175,21 @@ mod scram_sha256 {
             if *mechname == *SCRAM_SHA256.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA256_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No | Self::PlusOnly => Self::PlusOnly,
+                    Self::Bare | Self::Plus => Self::Plus,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
+                Self::No | Self::PlusOnly => None,
                 _ => Some(&SCRAM_SHA256),
             }
         }
@@ -186,7 +198,7 @@ mod scram_sha256 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha256Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha256Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
@@ -264,7 +276,9 @@ mod scram_sha512 {
         No,
         /// Only SCRAM-SHA512 but not -PLUS found
         Bare,
-        /// SCRAM-SHA512-PLUS found.
+        /// Only SCRAM-SHA512-PLUS found, so this mechanism was not offered.
+        PlusOnly,
+        /// Both SCRAM-SHA512 and SCRAM-SHA512-PLUS found.
         Plus,
     }
     impl Selector for ScramSelector512 {
@@ -272,17 +286,21 @@ mod scram_sha512 {
             if *mechname == *SCRAM_SHA512.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::PlusOnly => Self::Plus,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA512_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No | Self::PlusOnly => Self::PlusOnly,
+                    Self::Bare | Self::Plus => Self::Plus,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
+                Self::No | Self::PlusOnly => None,
                 _ => Some(&SCRAM_SHA512),
             }
         }
@@ -291,7 +309,7 @@ mod scram_sha512 {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha512Client::<NONCE_LEN>::new(false),
                 Self::Plus => client::ScramSha512Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::No | Self::PlusOnly => unreachable!(),
             }))
         }
     }
-- 
2.43.0


From 686270f9487a2b88691f3cb9d720cfcf1fedb037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 03/19] fix: refuse to complete a SCRAM -PLUS exchange without
 channel binding

---
 src/mechanisms/scram/server.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 1d0c5b0..4b0c99f 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -65,6 +65,8 @@ enum CBSupport {
     No,
     /// Server *does* support CB
     Yes,
+    /// Server *does* support CB and the mechanism in use is a -PLUS one, so CB must be used
+    Required,
 }
 
 pub struct ScramServer<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
@@ -83,7 +85,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> ScramServer<D, N>
     }
 
     pub const fn new_plus() -> Self {
-        let plus = CBSupport::Yes;
+        let plus = CBSupport::Required;
         Self {
             state: Some(ScramServerState::WaitingClientFirst(ScramState::new(plus))),
         }
@@ -147,13 +149,19 @@ impl<const N: usize> WaitingClientFirst<N> {
         match cbflag {
             // TODO: check if this is a protocol downgrade
             GS2CBindFlag::SupportedNotUsed => {
-                if self.plus == CBSupport::Yes {
+                if self.plus != CBSupport::No {
+                    return Err(SessionError::MechanismError(Box::new(
+                        ScramServerError::ChannelBindingsNotUsed,
+                    )));
+                }
+            }
+            GS2CBindFlag::NotSupported => {
+                if self.plus == CBSupport::Required {
                     return Err(SessionError::MechanismError(Box::new(
                         ScramServerError::ChannelBindingsNotUsed,
                     )));
                 }
             }
-            GS2CBindFlag::NotSupported => {}
             GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {
                 gs2_header.extend_from_slice(cbdata);
                 Ok(())
-- 
2.43.0


From b01258e6959a364f63c1b61ee96dc3373f1edc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 04/19] fix: hand unescaped names to the application in the
 SCRAM server

---
 src/mechanisms/scram/parser.rs | 16 +++++++---------
 src/mechanisms/scram/server.rs | 27 +++++++++++++++++++++------
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index b6bf18b..3180409 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -116,7 +116,6 @@ impl<'a> SaslName<'a> {
         }
     }
 
-    #[allow(unused)]
     /// Convert a SCRAM-side string into the representation expected by Rust
     ///
     /// This will clone the given string if characters need unescaping
@@ -129,24 +128,23 @@ impl<'a> SaslName<'a> {
             return Err(SaslNameError::InvalidChar(*c));
         }
 
-        if let Some(bad) = input.iter().position(|b| matches!(b, b'=')) {
+        if input.contains(&b'=') {
             let mut out = String::with_capacity(input.len());
-            let good = core::str::from_utf8(&input[..bad]).map_err(SaslNameError::InvalidUtf8)?;
-            out.push_str(good);
-            let mut input = &input[bad..];
+            let mut input = input;
 
             while let Some(bad) = input.iter().position(|b| matches!(b, b'=')) {
                 let good =
                     core::str::from_utf8(&input[..bad]).map_err(SaslNameError::InvalidUtf8)?;
                 out.push_str(good);
-                let c = match &input[bad + 1..bad + 3] {
-                    b"2C" => ',',
-                    b"3D" => '=',
+                let c = match input.get(bad + 1..bad + 3) {
+                    Some(b"2C") => ',',
+                    Some(b"3D") => '=',
                     _ => return Err(SaslNameError::InvalidEscape),
                 };
                 out.push(c);
-                input = &input[bad..];
+                input = &input[bad + 3..];
             }
+            out.push_str(core::str::from_utf8(input)?);
 
             Ok(out.into())
         } else {
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 4b0c99f..16ca8ec 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -5,7 +5,8 @@ use crate::error::{MechanismError, MechanismErrorKind, SessionError};
 use crate::mechanism::Authentication;
 use crate::mechanisms::scram::client::{ProtocolError, SCRAMError};
 use crate::mechanisms::scram::parser::{
-    ClientFinal, ClientFirstMessage, GS2CBindFlag, ServerErrorValue, ServerFinal, ServerFirst,
+    ClientFinal, ClientFirstMessage, GS2CBindFlag, SaslName, ServerErrorValue, ServerFinal,
+    ServerFirst,
 };
 use crate::mechanisms::scram::properties::ScramStoredPassword;
 use crate::mechanisms::scram::tools::{compute_signatures, generate_nonce, DOutput};
@@ -132,7 +133,7 @@ impl<const N: usize> WaitingClientFirst<N> {
         let client_first @ ClientFirstMessage {
             cbflag,
             authzid, // FIXME: Save authzid
-            username: authid,
+            username,
             nonce: client_nonce,
         } = ClientFirstMessage::parse(client_first).map_err(SCRAMError::ParseError)?;
 
@@ -142,9 +143,17 @@ impl<const N: usize> WaitingClientFirst<N> {
         // TODO: Only store this if we're a -PLUS
         let mut gs2_header = client_first.build_gs2_header_vec();
 
-        // FIXME: Escape Username from SCRAM format to whatever
+        // The names in the message are escaped; the application is to see the actual names.
+        let authid = SaslName::unescape(username.as_bytes())?;
+        let authzid = authzid
+            .map(|authzid| SaslName::unescape(authzid.as_bytes()))
+            .transpose()?;
+
         // TODO: This must at this stage provide so much more info <.<
-        let provider = Prov { authid, authzid };
+        let provider = Prov {
+            authid: &authid,
+            authzid: authzid.as_deref(),
+        };
 
         match cbflag {
             // TODO: check if this is a protocol downgrade
@@ -211,8 +220,9 @@ impl<const N: usize> WaitingClientFirst<N> {
                 client_nonce.into(),
                 server_nonce,
                 gs2_header,
+                username.to_string(),
                 authid.to_string(),
-                authzid.map(ToString::to_string),
+                authzid.as_deref().map(ToString::to_string),
                 salt,
                 iterations,
                 stored_key,
@@ -244,7 +254,9 @@ struct FinalInner<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
     client_nonce: Vec<u8>,
     server_nonce: [u8; N],
     gs2_header: Vec<u8>,
+    // The username as it was sent, i.e. escaped
     username: String,
+    authid: String,
     authzid: Option<String>,
     salt: String,
     iterations: String,
@@ -260,6 +272,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         server_nonce: [u8; N],
         gs2_header: Vec<u8>,
         username: String,
+        authid: String,
         authzid: Option<String>,
         salt: String,
         iterations: String,
@@ -272,6 +285,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                 server_nonce,
                 gs2_header,
                 username,
+                authid,
                 authzid,
                 salt,
                 iterations,
@@ -303,6 +317,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
             server_nonce,
             gs2_header,
             username,
+            authid,
             authzid,
             salt,
             iterations,
@@ -361,7 +376,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                         *written = vecw.write_all_vectored(writer)?;
 
                         let prov = Prov {
-                            authid: username.as_str(),
+                            authid: authid.as_str(),
                             authzid: authzid.as_deref(),
                         };
                         session_data.validate(&prov)?;
-- 
2.43.0


From 770619e6e9cd0dcbc3ece465b93206dad2a594de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 05/19] fix: authenticate extensions and the authzid attribute
 name of SCRAM client messages

---
 src/mechanisms/scram/parser.rs | 29 ++++++++++++++++++++++---
 src/mechanisms/scram/server.rs | 15 +++++++++++--
 src/mechanisms/scram/tools.rs  | 39 ++++++++++++++++++++++++++++++++++
 3 files changed, 78 insertions(+), 5 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 3180409..f6b0db2 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -240,6 +240,8 @@ pub struct ClientFirstMessage<'scram> {
     pub authzid: Option<&'scram str>,
     pub username: &'scram str,
     pub nonce: &'scram [u8],
+    /// Everything that follows the nonce, including the separating comma
+    pub extensions: &'scram [u8],
 }
 impl<'scram> ClientFirstMessage<'scram> {
     #[allow(unused)]
@@ -254,6 +256,7 @@ impl<'scram> ClientFirstMessage<'scram> {
             authzid,
             username,
             nonce,
+            extensions: &[],
         }
     }
 
@@ -267,7 +270,9 @@ impl<'scram> ClientFirstMessage<'scram> {
         let authzid = if authzid.is_empty() {
             None
         } else {
-            let authzid = authzid.get(2..).ok_or(ParseError::BadGS2Header)?;
+            let authzid = authzid
+                .strip_prefix(b"a=")
+                .ok_or(ParseError::BadGS2Header)?;
             Some(core::str::from_utf8(authzid).map_err(ParseError::BadUtf8)?)
         };
 
@@ -285,11 +290,16 @@ impl<'scram> ClientFirstMessage<'scram> {
             return Err(ParseError::BadNonce);
         }
 
+        // Extensions aren't understood, but they are part of the message being authenticated.
+        let extensions_len = partiter.map(|extension| extension.len() + 1).sum::<usize>();
+        let extensions = &input[input.len() - extensions_len..];
+
         Ok(Self {
             cbflag,
             authzid,
             username,
             nonce,
+            extensions,
         })
     }
 
@@ -306,7 +316,7 @@ impl<'scram> ClientFirstMessage<'scram> {
 
     #[allow(clippy::similar_names)]
     #[allow(unused)]
-    pub fn as_ioslices(&self) -> [&'scram [u8]; 8] {
+    pub fn as_ioslices(&self) -> [&'scram [u8]; 9] {
         let [cba, cbb, prefix, authzid] = self.gs2_header_parts();
 
         [
@@ -318,6 +328,7 @@ impl<'scram> ClientFirstMessage<'scram> {
             self.username.as_bytes(),
             b",r=",
             self.nonce,
+            self.extensions,
         ]
     }
 
@@ -417,6 +428,8 @@ impl<'scram> ServerFirst<'scram> {
 pub struct ClientFinal<'scram> {
     pub channel_binding: &'scram [u8],
     pub nonce: &'scram [u8],
+    /// Everything between the nonce and the proof, including the separating comma
+    pub extensions: &'scram [u8],
     pub proof: &'scram [u8],
 }
 
@@ -429,6 +442,7 @@ impl<'scram> ClientFinal<'scram> {
         Self {
             channel_binding,
             nonce,
+            extensions: &[],
             proof,
         }
     }
@@ -442,6 +456,7 @@ impl<'scram> ClientFinal<'scram> {
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
         let nonce = attribute(next, b"r=")?;
 
+        let mut extensions_len = 0;
         let proof = loop {
             // Skip all extensions in between nonce and proof since we can't handle them.
             // If they are mandatory-to-implement extensions we error.
@@ -451,25 +466,33 @@ impl<'scram> ClientFinal<'scram> {
             } else if next.starts_with(b"m=") {
                 return Err(ParseError::UnknownMandatoryExtensions);
             };
+            extensions_len += next.len() + 1;
         };
 
         if let Some(next) = partiter.next() {
             return Err(bad_attribute(next));
         }
 
+        // The extensions are part of the message being authenticated. They are followed by the
+        // separating comma, the attribute name and the value of the proof.
+        let extensions_end = input.len() - proof.len() - b",p=".len();
+        let extensions = &input[extensions_end - extensions_len..extensions_end];
+
         Ok(Self {
             channel_binding,
             nonce,
+            extensions,
             proof,
         })
     }
 
-    pub const fn to_ioslices(&self) -> [&'scram [u8]; 6] {
+    pub const fn to_ioslices(&self) -> [&'scram [u8]; 7] {
         [
             b"c=",
             self.channel_binding,
             b",r=",
             self.nonce,
+            self.extensions,
             b",p=",
             self.proof,
         ]
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 16ca8ec..c996cd2 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -9,7 +9,9 @@ use crate::mechanisms::scram::parser::{
     ServerFirst,
 };
 use crate::mechanisms::scram::properties::ScramStoredPassword;
-use crate::mechanisms::scram::tools::{compute_signatures, generate_nonce, DOutput};
+use crate::mechanisms::scram::tools::{
+    compute_signatures_with_extensions, generate_nonce, DOutput,
+};
 use crate::property::{AuthId, AuthzId};
 use crate::session::{MechanismData, MessageSent, State};
 use crate::vectored_io::VectoredWriter;
@@ -135,6 +137,7 @@ impl<const N: usize> WaitingClientFirst<N> {
             authzid, // FIXME: Save authzid
             username,
             nonce: client_nonce,
+            extensions,
         } = ClientFirstMessage::parse(client_first).map_err(SCRAMError::ParseError)?;
 
         // AuthMessage we need to validate the user:
@@ -218,6 +221,7 @@ impl<const N: usize> WaitingClientFirst<N> {
 
             Ok(WaitingClientFinal::new(
                 client_nonce.into(),
+                extensions.into(),
                 server_nonce,
                 gs2_header,
                 username.to_string(),
@@ -252,6 +256,7 @@ pub struct WaitingClientFinal<D: Digest + BlockSizeUser + FixedOutput, const N:
 }
 struct FinalInner<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
     client_nonce: Vec<u8>,
+    first_extensions: Vec<u8>,
     server_nonce: [u8; N],
     gs2_header: Vec<u8>,
     // The username as it was sent, i.e. escaped
@@ -269,6 +274,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
     #[allow(clippy::too_many_arguments)]
     fn new(
         client_nonce: Vec<u8>,
+        first_extensions: Vec<u8>,
         server_nonce: [u8; N],
         gs2_header: Vec<u8>,
         username: String,
@@ -282,6 +288,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         Self {
             data: Some(FinalInner {
                 client_nonce,
+                first_extensions,
                 server_nonce,
                 gs2_header,
                 username,
@@ -309,11 +316,13 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         let ClientFinal {
             channel_binding,
             nonce,
+            extensions: final_extensions,
             proof,
         } = ClientFinal::parse(client_final).map_err(SCRAMError::ParseError)?;
 
         let msg = if let Some(FinalInner {
             client_nonce,
+            first_extensions,
             server_nonce,
             gs2_header,
             username,
@@ -343,15 +352,17 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                     let mut client_signature = DOutput::<D>::default();
                     let mut server_signature = DOutput::<D>::default();
 
-                    compute_signatures::<D>(
+                    compute_signatures_with_extensions::<D>(
                         &stored_key,
                         &server_key,
                         &username,
                         &client_nonce,
+                        &first_extensions,
                         &server_nonce,
                         salt.as_bytes(),
                         iterations.as_bytes(),
                         channel_binding,
+                        final_extensions,
                         &mut client_signature,
                         &mut server_signature,
                     );
diff --git a/src/mechanisms/scram/tools.rs b/src/mechanisms/scram/tools.rs
index 79c31ba..fb98f55 100644
--- a/src/mechanisms/scram/tools.rs
+++ b/src/mechanisms/scram/tools.rs
@@ -36,6 +36,41 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
     channel_binding: &[u8],
     client_signature: &mut DOutput<D>,
     server_signature: &mut DOutput<D>,
+) {
+    compute_signatures_with_extensions::<D>(
+        stored_key,
+        server_key,
+        username,
+        client_nonce,
+        &[],
+        server_nonce,
+        salt,
+        iterations,
+        channel_binding,
+        &[],
+        client_signature,
+        server_signature,
+    );
+}
+
+/// Compute the signatures of an exchange in which the client sent extensions
+///
+/// `first_extensions` and `final_extensions` are the extensions in the first and the final message
+/// of the client, both including the comma separating them from the attribute they follow.
+#[allow(clippy::too_many_arguments)]
+pub(super) fn compute_signatures_with_extensions<D: Digest + BlockSizeUser + FixedOutput>(
+    stored_key: &GenericArray<u8, D::OutputSize>,
+    server_key: &DOutput<D>,
+    username: &str,
+    client_nonce: &[u8],
+    first_extensions: &[u8],
+    server_nonce: &[u8],
+    salt: &[u8],
+    iterations: &[u8],
+    channel_binding: &[u8],
+    final_extensions: &[u8],
+    client_signature: &mut DOutput<D>,
+    server_signature: &mut DOutput<D>,
 ) {
     <SimpleHmac<D>>::new_from_slice(stored_key.as_slice())
         .expect("HMAC can work with any key size")
@@ -43,6 +78,7 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(username.as_bytes())
         .chain(b",r=")
         .chain(client_nonce)
+        .chain(first_extensions)
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
@@ -55,6 +91,7 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
+        .chain(final_extensions)
         .finalize_into(client_signature);
 
     <SimpleHmac<D>>::new_from_slice(server_key.as_slice())
@@ -63,6 +100,7 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(username.as_bytes())
         .chain(b",r=")
         .chain(client_nonce)
+        .chain(first_extensions)
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
@@ -75,6 +113,7 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .chain(b",r=")
         .chain(client_nonce)
         .chain(server_nonce)
+        .chain(final_extensions)
         .finalize_into(server_signature);
 }
 
-- 
2.43.0


From 1c1c386e27b19c4748b4de78f3fd8100697bf7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 06/19] fix: keep the exchange intact if a SCRAM or GSSAPI step
 is missing its input

---
 src/mechanisms/gssapi/client.rs | 12 ++++++++++--
 src/mechanisms/gssapi/server.rs | 10 ++++++++++
 src/mechanisms/scram/client.rs  |  7 +++++++
 src/mechanisms/scram/server.rs  | 11 +++++++++++
 4 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index 8483fd5..fdce44e 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -18,6 +18,7 @@ pub struct Gssapi {
 
 enum GssapiState {
     Initial,
+    Ready(ClientCtx),
     Pending(ClientCtx),
     Last(ClientCtx, SecurityLayer),
     Completed(Option<(ClientCtx, bool)>),
@@ -34,6 +35,7 @@ impl fmt::Debug for GssapiState {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Self::Initial => f.write_str("Initial"),
+            Self::Ready(..) => f.write_str("Ready"),
             Self::Pending(..) => f.write_str("Pending"),
             Self::Last(..) => f.write_str("Last"),
             Self::Completed(..) => f.write_str("Completed"),
@@ -49,6 +51,12 @@ impl Authentication for Gssapi {
         input: Option<&[u8]>,
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
+        // Check this before touching the state, so the step can be repeated once there is input.
+        if input.is_none() && matches!(self.state, GssapiState::Pending(_) | GssapiState::Last(..))
+        {
+            return Err(SessionError::InputDataRequired);
+        }
+
         match core::mem::replace(&mut self.state, GssapiState::Errored) {
             GssapiState::Initial => {
                 let mut targ_name = session
@@ -69,7 +77,7 @@ impl Authentication for Gssapi {
                 let cred = Cred::acquire(None, None, CredUsage::Initiate, Some(&krb5))
                     .map_err(Error::Gss)?;
 
-                self.state = GssapiState::Pending(ClientCtx::new(
+                self.state = GssapiState::Ready(ClientCtx::new(
                     Some(cred),
                     target,
                     // Allow all flags. Setting them does not mean the final context will provide
@@ -80,7 +88,7 @@ impl Authentication for Gssapi {
 
                 self.step(session, input, writer)
             }
-            GssapiState::Pending(mut ctx) => {
+            GssapiState::Ready(mut ctx) | GssapiState::Pending(mut ctx) => {
                 if let Some(token) = ctx.step(input, None).map_err(Error::Gss)? {
                     if !token.is_empty() {
                         writer.write_all(&token)?;
diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index c663a0b..9344e0d 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -53,6 +53,16 @@ impl Authentication for Gssapi {
         input: Option<&[u8]>,
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
+        // Check this before touching the state, so the step can be repeated once there is input.
+        if input.is_none()
+            && matches!(
+                self.state,
+                GssapiState::Initial | GssapiState::Pending(_) | GssapiState::Final(..)
+            )
+        {
+            return Err(SessionError::InputDataRequired);
+        }
+
         match mem::replace(&mut self.state, GssapiState::Errored) {
             GssapiState::Initial => {
                 let mut krb5 = OidSet::new().map_err(Error::Gss)?;
diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 6521a64..c954781 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -462,6 +462,13 @@ where
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
         use ScramClientState::{ClientFirst, Initial, ServerFirst};
+
+        // Only the first message is sent without having received something from the server. Check
+        // this before touching the state, so the step can be repeated once there is input.
+        if input.is_none() && matches!(self.state, Some(ClientFirst(_) | ServerFirst(_))) {
+            return Err(SessionError::InputDataRequired);
+        }
+
         match self.state.take() {
             Some(Initial(state)) => {
                 let mut rng = rand::thread_rng();
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index c996cd2..2ae8913 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -464,6 +464,17 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
         use ScramServerState::{Finished, WaitingClientFinal, WaitingClientFirst};
+
+        // Check this before touching the state, so the step can be repeated once there is input.
+        if input.is_none()
+            && matches!(
+                self.state,
+                Some(WaitingClientFirst(_) | WaitingClientFinal(_))
+            )
+        {
+            return Err(SessionError::InputDataRequired);
+        }
+
         match self.state.take() {
             Some(WaitingClientFirst(state)) => {
                 let client_first = input.ok_or(SessionError::InputDataRequired)?;
-- 
2.43.0


From 348158f35b893e2e7a13f1837f877e5bccc02a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 07/19] fix: refuse SCRAM client proofs that are too short

---
 src/mechanisms/scram/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 2ae8913..2af7172 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -345,9 +345,13 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                     && proof.len() <= (<SimpleHmac<D> as OutputSizeUser>::output_size() * 4 / 3) + 3
                 {
                     let mut proof_decoded = DOutput::<D>::default();
-                    base64::engine::general_purpose::STANDARD
+                    let proof_len = base64::engine::general_purpose::STANDARD
                         .decode_slice(proof, &mut proof_decoded)
                         .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;
+                    // A short proof must not be padded to the full length
+                    if proof_len != proof_decoded.len() {
+                        return Err(SCRAMError::Protocol(ProtocolError::Base64Decode).into());
+                    }
 
                     let mut client_signature = DOutput::<D>::default();
                     let mut server_signature = DOutput::<D>::default();
-- 
2.43.0


From baabf880316a530fb11256091f5bdbd5cd2524e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 08/19] fix: do not panic if a finished or failed SCRAM session
 is stepped

---
 src/mechanisms/scram/client.rs | 3 ++-
 src/mechanisms/scram/server.rs | 5 ++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index c954781..9384779 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -492,7 +492,8 @@ where
                 state.step(session, server_final)?;
                 Ok(State::Finished(MessageSent::No))
             }
-            None => panic!("State machine in invalid state"),
+            // The exchange has finished or failed before
+            None => Err(SessionError::MechanismDone),
         }
     }
 }
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 2af7172..03f2f9d 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -497,9 +497,8 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
                 self.state = Some(Finished(new_state));
                 Ok(State::Finished(MessageSent::Yes))
             }
-            Some(Finished(_state)) => Err(SessionError::MechanismDone),
-
-            None => panic!("SCRAM server state machine in invalid state"),
+            // `None` if the exchange has failed before
+            Some(Finished(_)) | None => Err(SessionError::MechanismDone),
         }
     }
 }
-- 
2.43.0


From 4974207df74011f49a5e3c3c41859ae29f4ba7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 09/19] fix: ignore further answers to a request that is
 already satisfied, as documented

---
 src/callback.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/callback.rs b/src/callback.rs
index 87297a0..e33d899 100644
--- a/src/callback.rs
+++ b/src/callback.rs
@@ -215,6 +215,8 @@ impl CallbackError {
 }
 
 pub(crate) trait CallbackRequest<Answer: ?Sized> {
+    /// Returns true if no answer was given yet
+    fn is_open(&self) -> bool;
     fn satisfy(&mut self, answer: &Answer) -> Result<(), SessionError>;
 }
 
@@ -254,6 +256,10 @@ where
     P: for<'p> Property<'p>,
     F: FnOnce(&<P as Property<'_>>::Value) -> Result<G, SessionError>,
 {
+    fn is_open(&self) -> bool {
+        matches!(self.closure, Some(ClosureCRState::Open(_)))
+    }
+
     fn satisfy(&mut self, answer: &<P as Property<'_>>::Value) -> Result<(), SessionError> {
         if let Some(ClosureCRState::Open(closure)) = self.closure.take() {
             let reply = closure(answer)?;
@@ -417,11 +423,12 @@ impl<'a> Request<'a> {
         answer: &<P as Property<'_>>::Value,
     ) -> Result<&mut Self, SessionError> {
         if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            mech.satisfy(answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+            if mech.is_open() {
+                mech.satisfy(answer)?;
+                return Err(CallbackError::early_return().into());
+            }
         }
+        Ok(self)
     }
 
     /// Satisfy a 'Satisfiable' request using the provided closure.
@@ -494,12 +501,13 @@ impl<'a> Request<'a> {
         F: FnOnce() -> Result<P::Value, SessionError>,
     {
         if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            let answer = closure()?;
-            mech.satisfy(&answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+            if mech.is_open() {
+                let answer = closure()?;
+                mech.satisfy(&answer)?;
+                return Err(CallbackError::early_return().into());
+            }
         }
+        Ok(self)
     }
 }
 
-- 
2.43.0


From b035596abd7482daa480d292b002127995372e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 10/19] fix: report an error if a writer does not take a whole
 message

---
 src/vectored_io.rs | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/vectored_io.rs b/src/vectored_io.rs
index 0793039..9f85fdf 100644
--- a/src/vectored_io.rs
+++ b/src/vectored_io.rs
@@ -47,24 +47,23 @@ impl<'io, const N: usize> VectoredWriter<'io, N> {
     }
 
     pub fn write_all_vectored(&mut self, mut writer: impl Write) -> io::Result<usize> {
-        if self.skip >= N {
-            return Ok(0);
-        }
-
         let mut bufs: [IoSlice; N] = self.data.map(IoSlice::new);
 
         let mut written = 0;
-        while {
-            let len = self.write_vectored_inner(&mut bufs, &mut writer)?;
-            // Check the corner case that Ok(0) was returned because the underlying writer is
-            // exhausted.
-            if len == 0 {
-                return Ok(written);
+        while self.data[self.skip..].iter().any(|buf| !buf.is_empty()) {
+            match self.write_vectored_inner(&mut bufs, &mut writer) {
+                // The underlying writer is exhausted, but there's still data to be written.
+                Ok(0) => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::WriteZero,
+                        "failed to write whole buffer",
+                    ))
+                }
+                Ok(len) => written += len,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+                Err(e) => return Err(e),
             }
-
-            written += len;
-            self.skip < N
-        } {}
+        }
 
         Ok(written)
     }
-- 
2.43.0


From 84b00cbc367ec932c6e955ff575b73463cc2ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 11/19] fix: report errors of the underlying writer in step64

---
 src/session.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e730042..e4dce04 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -23,6 +23,8 @@ mod provider {
         SessionError, Side, State, Validate,
     };
     use crate::alloc::boxed::Box;
+    #[cfg(feature = "provider_base64")]
+    use crate::alloc::vec::Vec;
     use crate::channel_bindings::NoChannelBindings;
     use crate::mechanism::Authentication;
     use crate::mechname::Mechname;
@@ -230,17 +232,18 @@ mod provider {
             input: Option<&[u8]>,
             writer: &mut impl Write,
         ) -> Result<State, SessionError> {
-            use base64::write::EncoderWriter;
-            let mut writer64 =
-                EncoderWriter::new(writer, &base64::engine::general_purpose::STANDARD);
+            use base64::engine::{general_purpose::STANDARD, Engine};
 
+            // Encode the complete message at once. An encoding writer can't report all errors of
+            // the underlying writer.
+            let mut message = Vec::new();
             let state = if let Some(input) = input {
-                let input =
-                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;
-                self.step(Some(&input[..]), &mut writer64)
+                let input = STANDARD.decode(input)?;
+                self.step(Some(&input[..]), &mut message)
             } else {
-                self.step(None, &mut writer64)
+                self.step(None, &mut message)
             }?;
+            writer.write_all(STANDARD.encode(message).as_bytes())?;
             Ok(state)
         }
     }
-- 
2.43.0


From 629e8879a247098c315edf035c60cd5ef5b95c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:58 +0000
Subject: [PATCH 12/19] fix: do not hand the token type to the application as
 part of an OAUTHBEARER token

---
 src/mechanisms/oauthbearer/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 86adcde..c117cef 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -55,6 +55,8 @@ impl<'a> OAuthBearerMsg<'a> {
 
             for kv in it {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
+                    // The token type is not part of the token
+                    let t = t.strip_prefix(b"Bearer ").unwrap_or(t);
                     token = Some(core::str::from_utf8(t)?);
                 } else {
                     let mut kviter = kv.split(|b| matches!(b, b'='));
-- 
2.43.0


From 63d7c064d353bacadc8ca3d899b476c7ac382537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:03 +0000
Subject: [PATCH 13/19] fix: accept OAUTHBEARER field values that contain an
 equals sign

---
 src/mechanisms/oauthbearer/parser.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index c117cef..c3422a9 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -59,12 +59,10 @@ impl<'a> OAuthBearerMsg<'a> {
                     let t = t.strip_prefix(b"Bearer ").unwrap_or(t);
                     token = Some(core::str::from_utf8(t)?);
                 } else {
-                    let mut kviter = kv.split(|b| matches!(b, b'='));
+                    // The value may contain further '='
+                    let mut kviter = kv.splitn(2, |b| matches!(b, b'='));
                     let key = kviter.next().ok_or(ParseError::InvalidKVPair)?;
                     let val = kviter.next().ok_or(ParseError::InvalidKVPair)?;
-                    if kviter.next().is_some() {
-                        return Err(ParseError::InvalidKVPair);
-                    }
                     let key = core::str::from_utf8(key)?;
                     let val = core::str::from_utf8(val)?;
                     fields.push((key, val));
-- 
2.43.0


From 44ff90490b70f1131fe1b9356fc77b5cb61ba41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 14/19] fix: escape the authorization identity in OAUTHBEARER
 messages

---
 src/mechanisms/oauthbearer/client.rs |  3 ++-
 src/mechanisms/oauthbearer/parser.rs | 38 ++++++++++++++++++++++++++--
 src/mechanisms/oauthbearer/server.rs |  2 +-
 3 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a43662f..a2251a2 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -1,6 +1,7 @@
 use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
+use crate::mechanisms::oauthbearer::parser::escape_authzid;
 use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
@@ -37,7 +38,7 @@ impl Authentication for OAuthBearer {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
                     writer.write_all(b"a=")?;
-                    writer.write_all(authzid.as_bytes())?;
+                    writer.write_all(escape_authzid(authzid).as_bytes())?;
                     Ok(())
                 })?;
                 writer.write_all(b",")?;
diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index c3422a9..87a31f6 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -1,3 +1,4 @@
+use alloc::borrow::Cow;
 use alloc::str::Utf8Error;
 use thiserror::Error;
 
@@ -23,8 +24,36 @@ pub enum ParseError {
     ),
 }
 
+/// Escape an authzid for use in a GS2 header
+pub fn escape_authzid(authzid: &str) -> Cow<'_, str> {
+    if authzid.contains([',', '=']) {
+        authzid.replace('=', "=3D").replace(',', "=2C").into()
+    } else {
+        authzid.into()
+    }
+}
+
+/// The inverse of [`escape_authzid`]
+fn unescape_authzid(authzid: &str) -> Result<Cow<'_, str>, ParseError> {
+    let mut parts = authzid.split('=');
+    let mut out = Cow::from(parts.next().unwrap_or_default());
+    for part in parts {
+        let (c, rest) = if let Some(rest) = part.strip_prefix("2C") {
+            (',', rest)
+        } else if let Some(rest) = part.strip_prefix("3D") {
+            ('=', rest)
+        } else {
+            return Err(ParseError::InvalidGs2);
+        };
+        let out = out.to_mut();
+        out.push(c);
+        out.push_str(rest);
+    }
+    Ok(out)
+}
+
 pub struct OAuthBearerMsg<'a> {
-    pub authzid: Option<&'a str>,
+    pub authzid: Option<Cow<'a, str>>,
     pub token: &'a str,
     pub fields: Vec<(&'a str, &'a str)>,
 }
@@ -45,11 +74,16 @@ impl<'a> OAuthBearerMsg<'a> {
             let authzid = if gs2_authzid.is_empty() {
                 None
             } else if let Some(rem) = gs2_authzid.strip_prefix(b"a=") {
-                Some(core::str::from_utf8(rem)?)
+                Some(unescape_authzid(core::str::from_utf8(rem)?)?)
             } else {
                 return Err(ParseError::InvalidGs2);
             };
 
+            // The header ends with a comma following the authzid
+            if gs2iter.next() != Some(b"") || gs2iter.next().is_some() {
+                return Err(ParseError::InvalidGs2);
+            }
+
             let mut token = None;
             let mut fields = Vec::new();
 
diff --git a/src/mechanisms/oauthbearer/server.rs b/src/mechanisms/oauthbearer/server.rs
index 077e5b1..5d228d1 100644
--- a/src/mechanisms/oauthbearer/server.rs
+++ b/src/mechanisms/oauthbearer/server.rs
@@ -57,7 +57,7 @@ impl Authentication for OAuthBearer {
                 } = OAuthBearerMsg::parse(input).map_err(Error::Parse)?;
 
                 let prov = Prov {
-                    authzid,
+                    authzid: authzid.as_deref(),
                     token,
                     kvpairs: fields.as_slice(),
                 };
-- 
2.43.0


From eeec0ac75322f8abe701c08936117434ca59b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 15/19] fix: accept escape sequences in OAUTHBEARER error
 messages

---
 src/mechanisms/oauthbearer/client.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a2251a2..e7c87d7 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -2,11 +2,12 @@ use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
 use crate::mechanisms::oauthbearer::parser::escape_authzid;
-use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
+use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerError, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
 use crate::vectored_io::VectoredWriter;
 use alloc::io::Write;
+use serde::Deserialize;
 
 #[derive(Debug, Default, Clone)]
 pub struct OAuthBearer {
@@ -26,6 +27,19 @@ impl Default for OAuthBearerState {
     }
 }
 
+/// An error as received from the server
+///
+/// The strings are owned since they can't be borrowed from the message if they contain escape
+/// sequences.
+#[derive(Deserialize)]
+struct ReceivedError {
+    status: String,
+    #[serde(default)]
+    scope: Option<String>,
+    #[serde(default, rename = "openid-configuration")]
+    openid_config: Option<String>,
+}
+
 impl Authentication for OAuthBearer {
     fn step(
         &mut self,
@@ -77,7 +91,13 @@ impl Authentication for OAuthBearer {
                     return Ok(State::Finished(MessageSent::No));
                 }
 
-                let error = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let ReceivedError {
+                    status,
+                    scope,
+                    openid_config,
+                } = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error =
+                    OAuthBearerError::new(&status, scope.as_deref(), openid_config.as_deref());
 
                 // If the user callback *doesn't*, we must error, so '?' is correct.
                 session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
-- 
2.43.0


From 3ee5c6e9d94cefcd2aeba94f241501664135c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 16/19] fix: let applications supply cached SCRAM keys, and
 refuse keys of the wrong length

---
 src/mechanisms/scram/client.rs     | 9 +++++----
 src/mechanisms/scram/properties.rs | 9 +++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 9384779..3545db8 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -310,10 +310,9 @@ where
                  client_key,
                  server_key,
              }| {
-                Ok((
-                    DOutput::<D>::clone_from_slice(client_key),
-                    DOutput::<D>::clone_from_slice(server_key),
-                ))
+                DOutput::<D>::from_exact_iter(client_key.iter().copied())
+                    .zip(DOutput::<D>::from_exact_iter(server_key.iter().copied()))
+                    .ok_or_else(|| SCRAMError::Protocol(ProtocolError::CachedKeyLength).into())
             },
         )?;
 
@@ -508,6 +507,8 @@ pub enum ProtocolError {
     IterationCountZero,
     #[error("base64 decoding of data failed")]
     Base64Decode,
+    #[error("cached keys have the wrong length for the hash used")]
+    CachedKeyLength,
 }
 
 #[derive(Debug, Eq, PartialEq, Copy, Clone, Error)]
diff --git a/src/mechanisms/scram/properties.rs b/src/mechanisms/scram/properties.rs
index 64320d8..740c554 100644
--- a/src/mechanisms/scram/properties.rs
+++ b/src/mechanisms/scram/properties.rs
@@ -64,6 +64,15 @@ pub struct ScramCachedPassword<'a> {
     pub client_key: &'a [u8],
     pub server_key: &'a [u8],
 }
+impl<'a> ScramCachedPassword<'a> {
+    #[must_use]
+    pub const fn new(client_key: &'a [u8], server_key: &'a [u8]) -> Self {
+        Self {
+            client_key,
+            server_key,
+        }
+    }
+}
 impl<'a> Property<'a> for ScramCachedPassword<'static> {
     type Value = ScramCachedPassword<'a>;
 }
-- 
2.43.0


From d9e0ab41e2af7c8f4f1e528ad9d4f256e99898e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 17/19] fix: agree only on a single GSSAPI layer that both
 sides accept and can provide

---
 src/mechanisms/gssapi/client.rs | 12 ++++++++++--
 src/mechanisms/gssapi/server.rs |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index fdce44e..e21a5cf 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -100,9 +100,9 @@ impl Authentication for Gssapi {
                 }
 
                 // Request acceptable security layers from the client.
-                let acceptable = session
+                let flags = ctx.flags().map_err(Error::Gss)?;
+                let mut acceptable = session
                     .maybe_need_with::<GssSecurityLayer, _, _>(&EmptyProvider, |acceptable| {
-                        let flags = ctx.flags().map_err(Error::Gss)?;
                         // If acceptable contains `NO_SECURITY_LAYER` or is empty, which we treat as
                         // the same, our context is always secure enough.
                         if acceptable.is_empty()
@@ -131,6 +131,14 @@ impl Authentication for Gssapi {
                     })?
                     .unwrap_or_default();
 
+                // Never select a layer that the established context can not provide
+                if !flags.contains(CtxFlags::GSS_C_MUTUAL_FLAG | CtxFlags::GSS_C_CONF_FLAG) {
+                    acceptable.set(SecurityLayer::CONFIDENTIALITY, false);
+                }
+                if !flags.contains(CtxFlags::GSS_C_INTEG_FLAG) {
+                    acceptable.set(SecurityLayer::INTEGRITY, false);
+                }
+
                 self.state = GssapiState::Last(ctx, acceptable);
                 Ok(State::Running)
             }
diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 9344e0d..f941357 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -135,8 +135,8 @@ impl Authentication for Gssapi {
                 let selected =
                     SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;
 
-                // If the client selected a layer we don't support or accept, error.
-                if !selected.intersects(supported) {
+                // If the client did not select exactly one layer that we support and accept, error.
+                if selected.bits().count_ones() != 1 || !supported.contains(selected) {
                     Err(Error::BadFinalToken)?;
                 }
 
-- 
2.43.0


From d932a88665ba9721b41aac1ec274f53abbf8ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 18/19] fix: run validation in the GSSAPI server

---
 src/mechanisms/gssapi/properties.rs |  2 ++
 src/mechanisms/gssapi/server.rs     | 10 +++++++++-
 src/mechanisms/mod.rs               |  2 ++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/gssapi/properties.rs b/src/mechanisms/gssapi/properties.rs
index 3bdd1a9..d6d918e 100644
--- a/src/mechanisms/gssapi/properties.rs
+++ b/src/mechanisms/gssapi/properties.rs
@@ -16,6 +16,8 @@ pub enum Error {
     BadFinalToken,
     #[error("produced context is not secure enough")]
     BadContext,
+    #[error("name of the client is not valid UTF-8")]
+    BadName,
 }
 
 impl MechanismError for Error {
diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index f941357..43e79bb 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -1,8 +1,9 @@
-use crate::context::EmptyProvider;
+use crate::context::{EmptyProvider, ThisProvider};
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
 use crate::mechanisms::gssapi::properties::{Error, GssSecurityLayer, SecurityLayer};
 use crate::prelude::State::Finished;
+use crate::property::AuthId;
 use crate::session::MessageSent;
 use alloc::mem;
 use core::fmt;
@@ -140,6 +141,13 @@ impl Authentication for Gssapi {
                     Err(Error::BadFinalToken)?;
                 }
 
+                let name = ctx
+                    .source_name()
+                    .and_then(|name| name.display_name())
+                    .map_err(Error::Gss)?;
+                let authid = core::str::from_utf8(&name).map_err(|_| Error::BadName)?;
+                session.validate(&ThisProvider::<AuthId>::with(authid))?;
+
                 let wrap_state = if selected.contains(SecurityLayer::CONFIDENTIALITY) {
                     Some((ctx, true))
                 } else if selected.contains(SecurityLayer::INTEGRITY) {
diff --git a/src/mechanisms/mod.rs b/src/mechanisms/mod.rs
index a0e1850..8e7c9c9 100644
--- a/src/mechanisms/mod.rs
+++ b/src/mechanisms/mod.rs
@@ -208,6 +208,8 @@ pub mod gssapi {
     //! # Server
     //!
     //! Requests the property [`GssSecurityLayer`](properties::GssSecurityLayer) using a 'satisfiable' callback.
+    //!
+    //! The provider passed to `validate` will allow access to the name of the client as [`AuthId`].
     #[cfg(doc)]
     use crate::property::*;
 
-- 
2.43.0


From ae0f7a2aaba85fe94ca80ccc179d3135a2357f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:31 +0000
Subject: [PATCH 19/19] fix: continue GSSAPI context establishment on the
 server beyond one round trip

---
 src/mechanisms/gssapi/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index 43e79bb..ae1175c 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -102,6 +102,8 @@ impl Authentication for Gssapi {
                     }
 
                     self.state = GssapiState::Installed(ctx, acceptable);
+                } else {
+                    self.state = GssapiState::Pending(ctx);
                 }
                 // If an auth exchange token was produced we need to do another loop, otherwise we
                 // immediately produce the supported security layer token.
-- 
2.43.0

