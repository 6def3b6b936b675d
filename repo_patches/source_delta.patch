From ef00d3e4adf5e564e3fc6630684265c2640f5237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 01/34] fix: reject records shorter than their length field

---
 anothertls/src/net/record.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index a4c9736..63b3ed7 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -85,7 +85,7 @@ impl<'a> Record<'a> {
         let content_type = RecordType::new(buf[0])?;
         let version = ((buf[1] as u16) << 8) | buf[2] as u16;
         let len = (((buf[3] as u16) << 8) | buf[4] as u16) as usize;
-        if buf.len() < (2 + len) {
+        if buf.len() < (5 + len) {
             return Err(TlsError::DecodeError);
         }
         let consumed = 5 + len;
-- 
2.43.0


From 53cf29656d4688f9e05d67df487c2459543516e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:19 +0000
Subject: [PATCH 02/34] fix: reject handshake messages shorter than their
 length field

---
 anothertls/src/net/handshake/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anothertls/src/net/handshake/mod.rs b/anothertls/src/net/handshake/mod.rs
index a36218d..cc40cdc 100644
--- a/anothertls/src/net/handshake/mod.rs
+++ b/anothertls/src/net/handshake/mod.rs
@@ -63,6 +63,9 @@ impl<'a> Handshake<'a> {
         };
 
         let len = (((buf[1] as u32) << 16) | ((buf[2] as u32) << 8) | buf[3] as u32) as usize;
+        if buf.len() < len + 4 {
+            return Err(TlsError::DecodeError);
+        }
         Ok(Handshake {
             handshake_type,
             fraqment: &buf[4..(len + 4)],
-- 
2.43.0


From 8b4a93a8b8fc143a55334779833f4b14706fc0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 03/34] fix: bound all ClientHello vectors by the message

---
 anothertls/src/net/client/client_hello.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index ddb9232..59904f8 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -83,18 +83,24 @@ impl<'a> ClientHello<'a> {
         }
 
         let random = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
+        let session_id_length = buf[34] as usize;
         let mut consumed = 35;
         let mut legacy_session_id_echo = None;
 
+        if session_id_length > 32 || buf.len() < (consumed + session_id_length + 2) {
+            return Err(TlsError::DecodeError);
+        }
+
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            consumed += session_id_length;
+            legacy_session_id_echo = Some(&buf[35..consumed]);
         }
 
         // Cipher Suites
         let cipher_suites_len = ((buf[consumed] as u16) << 8) | (buf[consumed + 1] as u16);
-        if cipher_suites_len % 2 != 0 || buf.len() < (consumed + cipher_suites_len as usize) {
+        // 2 = cipher suites length, 4 = compression method and extensions length
+        if cipher_suites_len % 2 != 0 || buf.len() < (consumed + 2 + cipher_suites_len as usize + 4)
+        {
             return Err(TlsError::IllegalParameter);
         }
         consumed += 2;
@@ -112,11 +118,18 @@ impl<'a> ClientHello<'a> {
 
         // Compression Methode
         // TLS 1.3 no longer allows compression
+        if buf[consumed] != 1 || buf[consumed + 1] != 0 {
+            return Err(TlsError::IllegalParameter);
+        }
         consumed += 2;
 
         let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
         consumed += 2;
 
+        if buf.len() < (consumed + extensions_len) {
+            return Err(TlsError::DecodeError);
+        }
+
         let extensions =
             ClientExtension::from_client_hello(&buf[consumed..(consumed + extensions_len)])?;
 
-- 
2.43.0


From 35a4681d96770dc31e0515008bda791b31e3de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 04/34] fix: bound all ServerHello vectors by the message

---
 anothertls/src/net/server/server_hello.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 581e7c4..1495fbc 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -37,13 +37,18 @@ impl<'a> ServerHello<'a> {
         }
 
         let random: [u8; 32] = buf[2..34].try_into().unwrap();
-        let session_id_length = buf[34];
+        let session_id_length = buf[34] as usize;
         let mut consumed = 35;
         let mut legacy_session_id_echo = None;
 
+        // 5 = cipher suite, compression method and extensions length
+        if session_id_length > 32 || buf.len() < (consumed + session_id_length + 5) {
+            return Err(TlsError::DecodeError);
+        }
+
         if session_id_length != 0 {
-            consumed += 32;
-            legacy_session_id_echo = Some(&buf[35..(35 + 32)]);
+            consumed += session_id_length;
+            legacy_session_id_echo = Some(&buf[35..consumed]);
         }
 
         let cipher_suite =
@@ -54,6 +59,10 @@ impl<'a> ServerHello<'a> {
         let extensions_len = ((buf[consumed] as usize) << 8) | (buf[consumed + 1] as usize);
         consumed += 2;
 
+        if buf.len() < (consumed + extensions_len) {
+            return Err(TlsError::DecodeError);
+        }
+
         let extensions =
             ServerExtensions::from_server_hello(&buf[consumed..(consumed + extensions_len)])?;
 
-- 
2.43.0


From 09ff8115abccacdc9e26d5b3bb5f47bb5ef8ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:44 +0000
Subject: [PATCH 05/34] fix: bound extensions by the extension list and always
 skip unknown ones

---
 .../src/net/extensions/certificate_request.rs | 12 ++++++---
 anothertls/src/net/extensions/client.rs       | 26 ++++++++++++-------
 anothertls/src/net/extensions/server.rs       | 20 +++++++++-----
 3 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/anothertls/src/net/extensions/certificate_request.rs b/anothertls/src/net/extensions/certificate_request.rs
index 4d67eaa..716cbe0 100644
--- a/anothertls/src/net/extensions/certificate_request.rs
+++ b/anothertls/src/net/extensions/certificate_request.rs
@@ -29,12 +29,19 @@ impl CertificateRequestExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
+            if buf.len() < consumed + 4 {
+                return Err(TlsError::DecodeError);
+            }
             let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
             let extension_type = ExtensionType::new(extension_type);
             let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
             consumed += 4;
+            if buf.len() < consumed + size {
+                return Err(TlsError::DecodeError);
+            }
+            let extension_data = &buf[consumed..consumed + size];
+            consumed += size;
             if extension_type.is_none() {
-                consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
@@ -42,12 +49,11 @@ impl CertificateRequestExtensions {
             let extension = match extension_type {
                 ExtensionType::SignatureAlgorithms => {
                     CertificateRequestExtension::SignatureAlgorithms(
-                        SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                        SignatureAlgorithms::client_parse(extension_data)?,
                     )
                 }
                 _ => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/client.rs b/anothertls/src/net/extensions/client.rs
index f1362a5..2565a5e 100644
--- a/anothertls/src/net/extensions/client.rs
+++ b/anothertls/src/net/extensions/client.rs
@@ -38,32 +38,38 @@ impl ClientExtension {
         let mut extensions = ClientExtensions::new();
 
         while consumed < buf.len() {
+            if buf.len() < consumed + 4 {
+                return Err(TlsError::DecodeError);
+            }
             let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
             let extension_type = ExtensionType::new(extension_type);
             let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
             consumed += 4;
+            if buf.len() < consumed + size {
+                return Err(TlsError::DecodeError);
+            }
+            let extension_data = &buf[consumed..consumed + size];
+            consumed += size;
             if extension_type.is_none() {
-                consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
 
             let extension = match extension_type {
-                ExtensionType::ServerName => ClientExtension::ServerName(ServerName::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
-                ExtensionType::KeyShare => ClientExtension::KeyShare(KeyShare::server_parse(
-                    &buf[consumed..consumed + size],
-                )?),
+                ExtensionType::ServerName => {
+                    ClientExtension::ServerName(ServerName::server_parse(extension_data)?)
+                }
+                ExtensionType::KeyShare => {
+                    ClientExtension::KeyShare(KeyShare::server_parse(extension_data)?)
+                }
                 ExtensionType::SupportedVersions => ClientExtension::SupportedVersion(
-                    SupportedVersions::server_parse(&buf[consumed..])?,
+                    SupportedVersions::server_parse(extension_data)?,
                 ),
                 ExtensionType::SignatureAlgorithms => ClientExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::server_parse(&buf[consumed..])?,
+                    SignatureAlgorithms::server_parse(extension_data)?,
                 ),
                 ExtensionType::SupportedGroups => continue,
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
diff --git a/anothertls/src/net/extensions/server.rs b/anothertls/src/net/extensions/server.rs
index dab9dca..948252a 100644
--- a/anothertls/src/net/extensions/server.rs
+++ b/anothertls/src/net/extensions/server.rs
@@ -36,29 +36,35 @@ impl ServerExtensions {
         extensions.set_is_client();
 
         while consumed < buf.len() {
+            if buf.len() < consumed + 4 {
+                return Err(TlsError::DecodeError);
+            }
             let extension_type = bytes::to_u16(&buf[consumed..consumed + 2]);
             let extension_type = ExtensionType::new(extension_type);
             let size = bytes::to_u16(&buf[consumed + 2..consumed + 4]) as usize;
             consumed += 4;
+            if buf.len() < consumed + size {
+                return Err(TlsError::DecodeError);
+            }
+            let extension_data = &buf[consumed..consumed + size];
+            consumed += size;
             if extension_type.is_none() {
-                consumed += size;
                 continue;
             }
             let extension_type = extension_type.unwrap();
 
             let extension = match extension_type {
-                ExtensionType::KeyShare => ServerExtension::KeyShare(KeyShare::client_parse(
-                    &buf[consumed..consumed + size],
-                )?),
+                ExtensionType::KeyShare => {
+                    ServerExtension::KeyShare(KeyShare::client_parse(extension_data)?)
+                }
                 ExtensionType::SupportedVersions => ServerExtension::SupportedVersions(
-                    SupportedVersions::client_parse(&buf[consumed..])?,
+                    SupportedVersions::client_parse(extension_data)?,
                 ),
                 ExtensionType::SignatureAlgorithms => ServerExtension::SignatureAlgorithms(
-                    SignatureAlgorithms::client_parse(&buf[consumed..])?,
+                    SignatureAlgorithms::client_parse(extension_data)?,
                 ), // ExtensionType::SupportedGroups => continue, // TODO
                 _ => continue, // ExtensionType::PSKKeyExchangeMode => continue, // TODO
             };
-            consumed += size;
             extensions.push(extension);
         }
         Ok(extensions)
-- 
2.43.0


From 67c88ced6352c10f63fa1cc78f8287a722758fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:45 +0000
Subject: [PATCH 06/34] fix: check the vector lengths inside the hello
 extensions

---
 anothertls/src/net/extensions/server_name.rs         | 11 ++++++++++-
 anothertls/src/net/extensions/signature_algorithm.rs | 10 ++++++++--
 anothertls/src/net/extensions/supported_versions.rs  |  6 ++++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/net/extensions/server_name.rs b/anothertls/src/net/extensions/server_name.rs
index 6b524aa..b8e17e8 100644
--- a/anothertls/src/net/extensions/server_name.rs
+++ b/anothertls/src/net/extensions/server_name.rs
@@ -41,10 +41,16 @@ impl Extension for ServerName {
     where
         Self: Sized,
     {
-        let server_name_list_len = bytes::to_u16(buf);
+        let server_name_list_len = bytes::to_u16(buf) as usize;
+        if !buf.is_empty() && buf.len() < 2 + server_name_list_len {
+            return Err(TlsError::DecodeError);
+        }
         let mut consumed = 2;
         let mut server_name = String::new();
         if server_name_list_len > 0 {
+            if server_name_list_len < 3 {
+                return Err(TlsError::DecodeError);
+            }
             let name_type = buf[consumed];
             consumed += 1;
             if name_type != 0 {
@@ -52,6 +58,9 @@ impl Extension for ServerName {
             }
             let server_name_len = bytes::to_u16(&buf[consumed..]) as usize;
             consumed += 2;
+            if server_name_list_len < 3 + server_name_len {
+                return Err(TlsError::DecodeError);
+            }
             server_name =
                 match String::from_utf8(buf[consumed..server_name_len + consumed].to_vec()) {
                     Ok(a) => a,
diff --git a/anothertls/src/net/extensions/signature_algorithm.rs b/anothertls/src/net/extensions/signature_algorithm.rs
index eb8a90d..7ad393f 100644
--- a/anothertls/src/net/extensions/signature_algorithm.rs
+++ b/anothertls/src/net/extensions/signature_algorithm.rs
@@ -97,11 +97,17 @@ impl Extension for SignatureAlgorithms {
         Self: Sized,
     {
         let len = bytes::to_u16(buf) as usize;
+        if buf.len() < 2 || buf.len() < 2 + len {
+            return Err(TlsError::DecodeError);
+        }
         let mut out = vec![];
         if len % 2 == 0 {
-            for i in (2..len).step_by(2) {
+            for i in (2..2 + len).step_by(2) {
                 let tes = bytes::to_u16(&buf[i..(i + 2)]);
-                out.push(SignatureScheme::new(tes)?);
+                // unknown schemes must be ignored
+                if let Ok(scheme) = SignatureScheme::new(tes) {
+                    out.push(scheme);
+                }
             }
         }
         Ok(SignatureAlgorithms(out))
diff --git a/anothertls/src/net/extensions/supported_versions.rs b/anothertls/src/net/extensions/supported_versions.rs
index 8ce7fd1..e2c4604 100644
--- a/anothertls/src/net/extensions/supported_versions.rs
+++ b/anothertls/src/net/extensions/supported_versions.rs
@@ -34,6 +34,9 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
+        if buf.is_empty() || buf.len() < 1 + buf[0] as usize {
+            return Err(TlsError::DecodeError);
+        }
         let len = buf[0] as usize;
         if len % 2 == 0 {
             for i in (1..len + 1).step_by(2) {
@@ -48,6 +51,9 @@ impl Extension for SupportedVersions {
     where
         Self: Sized,
     {
+        if buf.len() != 2 {
+            return Err(TlsError::DecodeError);
+        }
         if bytes::to_u16(&buf[0..2]) == 0x0304 {
             return Ok(SupportedVersions::new(true));
         }
-- 
2.43.0


From 67e44dadfb5949bac7fe73aaf3e0a09006fffda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:26 +0000
Subject: [PATCH 07/34] fix: ignore key shares of unknown groups and check
 their lengths

---
 anothertls/src/net/extensions/key_share.rs | 54 ++++++++++++----------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/anothertls/src/net/extensions/key_share.rs b/anothertls/src/net/extensions/key_share.rs
index b7ec5ab..760ea1e 100644
--- a/anothertls/src/net/extensions/key_share.rs
+++ b/anothertls/src/net/extensions/key_share.rs
@@ -19,19 +19,22 @@ impl KeyShareEntry {
     pub fn new(group: NamedGroup, opaque: Vec<u8>) -> KeyShareEntry {
         KeyShareEntry { group, opaque }
     }
-    fn parse(buf: &[u8]) -> Result<(usize, KeyShareEntry), TlsError> {
-        let group = bytes::to_u16(buf);
-        let group = match NamedGroup::new(group) {
-            Some(x) => x,
-            None => return Err(TlsError::IllegalParameter),
-        };
-        let public_key_len = bytes::to_u16(&buf[2..]);
+    /// Returns None as entry, if the group is unknown.
+    fn parse(buf: &[u8]) -> Result<(usize, Option<KeyShareEntry>), TlsError> {
+        if buf.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
+        let group = NamedGroup::new(bytes::to_u16(buf));
+        let used = 4 + bytes::to_u16(&buf[2..]) as usize;
+        if buf.len() < used {
+            return Err(TlsError::DecodeError);
+        }
         Ok((
-            4 + public_key_len as usize,
-            KeyShareEntry {
+            used,
+            group.map(|group| KeyShareEntry {
                 group,
-                opaque: (buf[4..(public_key_len + 4) as usize]).to_vec(),
-            },
+                opaque: buf[4..used].to_vec(),
+            }),
         ))
     }
     fn as_bytes(&self) -> Vec<u8> {
@@ -56,24 +59,27 @@ impl KeyShare {
         KeyShare(vec![kse])
     }
     fn parse(buf: &[u8], is_client: bool) -> Result<Self, TlsError> {
+        if is_client {
+            // The ServerHello contains exactly one entry
+            return match KeyShareEntry::parse(buf)? {
+                (_, Some(entry)) => Ok(KeyShare(vec![entry])),
+                _ => Err(TlsError::IllegalParameter),
+            };
+        }
         let mut entries = vec![];
-        let mut len = 0;
-        let mut consumed = 0;
-        if !is_client {
-            len = bytes::to_u16(buf) as usize;
-            consumed += 2;
+        let mut consumed = 2;
+        let len = bytes::to_u16(buf) as usize;
+        if buf.len() < consumed + len {
+            return Err(TlsError::DecodeError);
         }
-        loop {
+        let buf = &buf[..consumed + len];
+        while consumed < buf.len() {
             let (used, entry) = KeyShareEntry::parse(&buf[consumed..])?;
-            if used <= 7 {
-                break;
+            // unknown groups must be ignored
+            if let Some(entry) = entry {
+                entries.push(entry);
             }
-            entries.push(entry);
             consumed += used;
-            // len is for server 0, so it should always break here
-            if consumed >= len {
-                break;
-            }
         }
         Ok(KeyShare(entries))
     }
-- 
2.43.0


From 279263200684b7121cd7b8ea56c5975d82b15643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 08/34] fix: use the client's X25519 share wherever it stands
 instead of crashing on P-256

---
 anothertls/src/net/client/client_hello.rs | 9 ++++++---
 anothertls/src/net/server/server_hello.rs | 5 +----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/net/client/client_hello.rs b/anothertls/src/net/client/client_hello.rs
index 59904f8..a4f1daa 100644
--- a/anothertls/src/net/client/client_hello.rs
+++ b/anothertls/src/net/client/client_hello.rs
@@ -8,7 +8,7 @@ use crate::{
     crypto::CipherSuite,
     net::{
         alert::TlsError,
-        extensions::{ClientExtension, ClientExtensions, KeyShareEntry},
+        extensions::{ClientExtension, ClientExtensions, KeyShareEntry, NamedGroup},
     },
     utils::log,
 };
@@ -144,8 +144,11 @@ impl<'a> ClientHello<'a> {
     pub fn get_public_key_share(&self) -> Option<&KeyShareEntry> {
         for ext in self.extensions.as_vec().iter() {
             if let ClientExtension::KeyShare(key_share) = ext {
-                if !key_share.0.is_empty() {
-                    return Some(&key_share.0[0]);
+                // X25519 is the only group the server can use
+                for entry in key_share.0.iter() {
+                    if entry.group == NamedGroup::X25519 {
+                        return Some(entry);
+                    }
                 }
             }
         }
diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index 1495fbc..f6b2a7d 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -131,10 +131,7 @@ impl<'a> ServerHello<'a> {
                                 named_group = Some(NamedGroup::X25519);
                                 break;
                             }
-                            NamedGroup::Secp256r1 => {
-                                todo!("Add support for secp256 key exchange");
-                                // named_group = Some(NamedGroup::Secp256r1);
-                            }
+                            // TODO: Add support for secp256 key exchange
                             _ => {}
                         }
                     }
-- 
2.43.0


From 4c27f95407d29ed8b58d779f7ce6883ed43ec011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 09/34] fix: refuse clients that do not offer TLS 1.3

---
 anothertls/src/net/server/server_hello.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/server/server_hello.rs b/anothertls/src/net/server/server_hello.rs
index f6b2a7d..8f3f2fa 100644
--- a/anothertls/src/net/server/server_hello.rs
+++ b/anothertls/src/net/server/server_hello.rs
@@ -95,6 +95,7 @@ impl<'a> ServerHello<'a> {
         let mut extensions = ServerExtensions::new();
         let mut private_key = None;
         let mut named_group = None;
+        let mut tls13_is_supported = false;
 
         let random: [u8; 32] = rng.bytes(32).try_into().unwrap();
 
@@ -110,8 +111,9 @@ impl<'a> ServerHello<'a> {
             match ext {
                 ClientExtension::SupportedVersion(version) => {
                     if !version.is_tls13_supported() {
-                        return Err(TlsError::InsufficientSecurity);
+                        return Err(TlsError::ProtocolVersion);
                     }
+                    tls13_is_supported = true;
                 }
                 ClientExtension::KeyShare(key_share) => {
                     for key in key_share.0.iter() {
@@ -159,6 +161,10 @@ impl<'a> ServerHello<'a> {
             }
         }
 
+        if !tls13_is_supported {
+            return Err(TlsError::ProtocolVersion);
+        }
+
         if named_group.is_none() {
             log::error!("No supported group -> Hello Retry Request");
             return Err(TlsError::InsufficientSecurity);
-- 
2.43.0


From c6926d6f98a7aa414f517979a3a282f07b605a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:29 +0000
Subject: [PATCH 10/34] fix: honour the signature algorithms the client offers

---
 anothertls/src/net/extensions/shared.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/net/extensions/shared.rs b/anothertls/src/net/extensions/shared.rs
index dc1e7fd..5b38efb 100644
--- a/anothertls/src/net/extensions/shared.rs
+++ b/anothertls/src/net/extensions/shared.rs
@@ -96,7 +96,7 @@ impl ExtensionType {
             // 0x23 => ExtensionType::SessionTicket,
             // 0x16 => ExtensionType::EncryptThenMac,
             // 0x17 => ExtensionType::ExtendedMasterSecret,
-            // 0x0d => ExtensionType::SignatureAlgorithms,
+            0x0d => ExtensionType::SignatureAlgorithms,
             0x2b => ExtensionType::SupportedVersions,
             // 0x2d => ExtensionType::PSKKeyExchangeMode,
             0x33 => ExtensionType::KeyShare,
-- 
2.43.0


From 51a04592eefdbd4f1ac48a83ed3d42c03d212ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 11/34] fix: keep leading zero bytes of X25519 public values
 and secrets

---
 anothertls/src/crypto/ellipticcurve/math.rs | 2 +-
 anothertls/src/net/key_schedule.rs          | 2 +-
 anothertls/src/utils/bytes.rs               | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/math.rs b/anothertls/src/crypto/ellipticcurve/math.rs
index 0a94613..a189190 100644
--- a/anothertls/src/crypto/ellipticcurve/math.rs
+++ b/anothertls/src/crypto/ellipticcurve/math.rs
@@ -99,7 +99,7 @@ pub fn multiply(p: &Point, n: IBig, curve: &Curve) -> Point {
     match curve.equation {
         Equation::Montgomery => {
             let a = bytes::ibig_to_32bytes(n, bytes::ByteOrder::Big);
-            let x = bytes::ibig_to_32bytes(p.x.clone(), bytes::ByteOrder::Big);
+            let x = bytes::ibig_to_32bytes(p.x.clone(), bytes::ByteOrder::Little);
             let res = curve25519::scalarmult(x, &a);
             Point {
                 x: bytes::to_ibig_be(&res),
diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 8c5d5c7..66e262e 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -135,7 +135,7 @@ impl KeySchedule {
             return Err(TlsError::HandshakeFailure);
         }
 
-        let client_public_key = bytes::to_ibig_be(&key_share_entry.opaque);
+        let client_public_key = bytes::to_ibig_le(&key_share_entry.opaque);
         let client_public_key = Point::new(client_public_key, ibig!(0));
 
         let server_private_key = private_key.secret.clone();
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index 3a56cb9..7af24a9 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -33,7 +33,7 @@ pub fn ibig_to_vec(num: IBig, order: ByteOrder) -> Vec<u8> {
     }
 }
 pub fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> [u8; 32] {
-    let b = ibig_to_vec(num, order);
+    let b = ibig_to_vec(num, ByteOrder::Little);
     let mut c = [0; 32];
     for (i, d) in b.iter().enumerate() {
         if i >= 32 {
@@ -41,6 +41,9 @@ pub fn ibig_to_32bytes(num: IBig, order: ByteOrder) -> [u8; 32] {
         }
         c[i] = *d;
     }
+    if order == ByteOrder::Big {
+        c.reverse();
+    }
     c
 }
 pub fn u128_to_bytes_be(num: u128) -> [u8; 16] {
-- 
2.43.0


From 0b8a90d59655ff95510d073acb4a4504b43c4ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 12/34] fix: check DER tags and lengths against the remaining
 data

---
 anothertls/src/utils/der.rs | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index a1083f3..497207c 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -74,28 +74,31 @@ impl DerType {
 }
 
 pub fn der_parse(consumed: &mut usize, data: &[u8]) -> Result<(usize, EncodedForm), ParseError> {
-    let der_type = match DerType::from_u8(data[*consumed]) {
-        Some(a) => a,
-        None => return Err(ParseError::DerParseType),
+    let der_type = match data.get(*consumed).map(|tag| DerType::from_u8(*tag)) {
+        Some(Some(a)) => a,
+        _ => return Err(ParseError::DerParseType),
     };
     *consumed += 1;
-    let size = get_len(data, consumed);
-    if size > data.len() {
-        return Err(ParseError::DerParseLen);
+    match get_len(data, consumed) {
+        // The element must not be longer than the remaining data
+        Some(size) if size <= data.len() - *consumed => Ok((size, der_type)),
+        _ => Err(ParseError::DerParseLen),
     }
-    Ok((size, der_type))
 }
 
-fn get_len(len: &[u8], consumed: &mut usize) -> usize {
+fn get_len(len: &[u8], consumed: &mut usize) -> Option<usize> {
     let size;
-    if len[*consumed] >> 7 & 1 == 1 {
-        let consume_len = len[*consumed] & 0x7F;
-        *consumed += 1;
-        size = bytes::to_u128_be_fill(&len[*consumed..*consumed + consume_len as usize]) as usize;
-        *consumed += consume_len as usize;
+    let first = *len.get(*consumed)?;
+    *consumed += 1;
+    if first >> 7 & 1 == 1 {
+        let consume_len = (first & 0x7F) as usize;
+        if consume_len > 4 {
+            return None;
+        }
+        size = bytes::to_u128_be_fill(len.get(*consumed..*consumed + consume_len)?) as usize;
+        *consumed += consume_len;
     } else {
-        size = len[*consumed] as usize;
-        *consumed += 1;
+        size = first as usize;
     }
-    size
+    Some(size)
 }
-- 
2.43.0


From e83067a40b17fd3b15136aff77d458e8d9290395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:56 +0000
Subject: [PATCH 13/34] fix: read and write signatures as well-formed DER

---
 .../src/crypto/ellipticcurve/signature.rs     | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/signature.rs b/anothertls/src/crypto/ellipticcurve/signature.rs
index e903fc5..831b9b0 100644
--- a/anothertls/src/crypto/ellipticcurve/signature.rs
+++ b/anothertls/src/crypto/ellipticcurve/signature.rs
@@ -26,6 +26,7 @@ impl Signature {
         let mut r = None;
         let mut s = None;
         let mut consumed = 0;
+        let mut end = 0;
 
         for i in 0..3 {
             let (size, der_type) = match der::der_parse(&mut consumed, buf) {
@@ -40,7 +41,15 @@ impl Signature {
                 if der_type != EncodedForm::Constructed(DerType::Sequence) {
                     return Err(TlsError::BadCertificate);
                 }
+                end = consumed + size;
             } else {
+                // r and s are non-negative integers inside the sequence
+                if der_type != EncodedForm::Primitive(DerType::Integer)
+                    || size == 0
+                    || buf[consumed] & 0x80 != 0
+                {
+                    return Err(TlsError::BadCertificate);
+                }
                 let int = bytes::to_ibig_be(&buf[consumed..consumed + size]);
                 consumed += size;
                 if r.is_none() {
@@ -51,7 +60,7 @@ impl Signature {
             }
         }
 
-        if s.is_none() {
+        if s.is_none() || consumed != end {
             return Err(TlsError::BadCertificate);
         }
 
@@ -60,8 +69,8 @@ impl Signature {
 
     pub fn to_der(&self) -> Vec<u8> {
         // https://www.rfc-editor.org/rfc/rfc3279#page-7
-        let s = bytes::ibig_to_32bytes(self.s.clone(), bytes::ByteOrder::Big);
-        let r = bytes::ibig_to_32bytes(self.r.clone(), bytes::ByteOrder::Big);
+        let s = bytes::ibig_to_vec(self.s.clone(), bytes::ByteOrder::Big);
+        let r = bytes::ibig_to_vec(self.r.clone(), bytes::ByteOrder::Big);
 
         let integer_type = 0x02;
         let sequence_type = 0x30;
@@ -70,7 +79,7 @@ impl Signature {
 
         der.push(integer_type);
         der.push(r.len() as u8);
-        if r[0] >> 7 == 1 {
+        if r.is_empty() || r[0] >> 7 == 1 {
             *der.last_mut().unwrap() += 1;
             der.push(00);
         }
@@ -78,7 +87,7 @@ impl Signature {
 
         der.push(integer_type);
         der.push(s.len() as u8);
-        if s[0] >> 7 == 1 {
+        if s.is_empty() || s[0] >> 7 == 1 {
             *der.last_mut().unwrap() += 1;
             der.push(00);
         }
-- 
2.43.0


From 5014425dc6ba5d895eb86872c19e324f5e9c95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 14/34] fix: parse certificates within their bounds and signed
 values from the signed part only

---
 anothertls/src/net/handshake/certificate.rs |  19 ++--
 anothertls/src/utils/der.rs                 |   2 +-
 anothertls/src/utils/x509.rs                | 117 +++++++++++++-------
 3 files changed, 93 insertions(+), 45 deletions(-)

diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 0b2c8e3..259ed83 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -175,12 +175,10 @@ impl Certificate {
             return Err(TlsError::InternalError);
         }
 
-        let ca_public_key = self
-            .x509
-            .as_ref()
-            .unwrap()
-            .get_public_key()
-            .expect("CA for client certificate has no public key");
+        let ca_public_key = match self.x509.as_ref().unwrap().get_public_key() {
+            Some(e) => e,
+            None => return Err(TlsError::UnsupportedCertificate),
+        };
 
         let other_x509 = other.x509.as_ref().unwrap();
         let signature = match &other_x509.signature {
@@ -188,7 +186,14 @@ impl Certificate {
             None => return Err(TlsError::DecryptError),
         };
 
-        let context = &other.raw[4..4 + other_x509.tbs_certificate_size];
+        let start = other_x509.tbs_certificate_start;
+        let context = match other
+            .raw
+            .get(start..start + other_x509.tbs_certificate_size)
+        {
+            Some(e) => e,
+            None => return Err(TlsError::DecodeError),
+        };
 
         let hash = sha256(context);
 
diff --git a/anothertls/src/utils/der.rs b/anothertls/src/utils/der.rs
index 497207c..f317975 100644
--- a/anothertls/src/utils/der.rs
+++ b/anothertls/src/utils/der.rs
@@ -92,7 +92,7 @@ fn get_len(len: &[u8], consumed: &mut usize) -> Option<usize> {
     *consumed += 1;
     if first >> 7 & 1 == 1 {
         let consume_len = (first & 0x7F) as usize;
-        if consume_len > 4 {
+        if consume_len == 0 || consume_len > 4 {
             return None;
         }
         size = bytes::to_u128_be_fill(len.get(*consumed..*consumed + consume_len)?) as usize;
diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index fca8476..c7e044c 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -194,7 +194,7 @@ impl SubjectPublicKeyInfoBuilder {
         }
     }
     fn build(self) -> Result<SubjectPublicKeyInfo, ParseError> {
-        if self.algorithm.is_none() {
+        if self.algorithm.is_none() || self.subject_public_key.is_none() {
             return Err(ParseError::SubjectPublicKeyInfo);
         }
         Ok(SubjectPublicKeyInfo {
@@ -348,6 +348,7 @@ impl Default for TBSCertificateBuilder {
 
 pub struct X509 {
     pub tbs_certificate: TBSCertificate,
+    pub tbs_certificate_start: usize,
     pub tbs_certificate_size: usize,
     pub signature_algorithm: Algorithms,
     pub signature: Option<Signature>,
@@ -389,8 +390,9 @@ impl X509 {
             .subject_public_key
             .as_slice();
 
-        if pubkey[0] != 0x4 {
-            todo!("Handle compressed points");
+        if pubkey.len() != 65 || pubkey[0] != 0x4 {
+            log::error!("Compressed points are not implemented");
+            return None;
         }
 
         let x = bytes::to_ibig_be(&pubkey[1..33]);
@@ -401,7 +403,9 @@ impl X509 {
 }
 pub struct X509Builder {
     tbs_certificate: TBSCertificateBuilder,
+    tbs_certificate_start: usize,
     tbs_certificate_size: usize,
+    depth: usize,
     signature_algorithm: Option<Algorithms>,
     signature: (Option<IBig>, Option<IBig>),
 }
@@ -409,7 +413,9 @@ impl X509Builder {
     fn new() -> X509Builder {
         X509Builder {
             tbs_certificate: TBSCertificateBuilder::new(),
+            tbs_certificate_start: 0,
             tbs_certificate_size: 0,
+            depth: 0,
             signature_algorithm: None,
             signature: (None, None),
         }
@@ -426,8 +432,9 @@ impl X509Builder {
 
         Ok(X509 {
             tbs_certificate: self.tbs_certificate.build()?,
+            tbs_certificate_start: self.tbs_certificate_start,
             tbs_certificate_size: self.tbs_certificate_size,
-            signature_algorithm: self.signature_algorithm.unwrap(),
+            signature_algorithm: self.signature_algorithm.ok_or(ParseError::Algorithms)?,
             signature,
         })
     }
@@ -465,8 +472,27 @@ fn parse(
     data: &[u8],
     consumed: &mut usize,
 ) -> Result<(), ParseError> {
+    let start = *consumed;
     let (size, der) = der_parse(consumed, data)?;
-    let body = &data[*consumed..*consumed + size];
+    let end = *consumed + size;
+    let body = &data[*consumed..end];
+
+    // A certificate is a sequence that starts with the signed part, only the algorithm and the
+    // signature itself follow it
+    if res.tbs_certificate_size <= 1 && der != EncodedForm::Constructed(DerType::Sequence) {
+        return Err(ParseError::TBSBuilder);
+    }
+    let after_tbs = res.tbs_certificate_size > 1
+        && start >= res.tbs_certificate_start + res.tbs_certificate_size;
+    if after_tbs {
+        match der {
+            EncodedForm::Constructed(DerType::Sequence)
+            | EncodedForm::Primitive(DerType::Integer)
+            | EncodedForm::Primitive(DerType::ObjectIdentifier)
+            | EncodedForm::Primitive(DerType::BitString) => (),
+            _ => return Err(ParseError::NotYetImplemented),
+        }
+    }
 
     match der {
         EncodedForm::Constructed(cons) => match cons {
@@ -474,16 +500,17 @@ fn parse(
                 if res.tbs_certificate_size == 0 {
                     res.tbs_certificate_size = 1; // Size of tbs_certificate + signature_algorithm + signature
                 } else if res.tbs_certificate_size == 1 {
-                    res.tbs_certificate_size = size + 4;
-                }
-                let size_should = size + *consumed;
-                while size_should > *consumed {
-                    parse(res, state.clone(), data, consumed)?;
+                    res.tbs_certificate_start = start;
+                    res.tbs_certificate_size = end - start;
                 }
+                parse_children(res, state, &data[..end], consumed)?;
             }
             DerType::ContextSpecific(tag) => {
                 match tag {
                     0x00 => {
+                        if !body.starts_with(&[0x02, 0x01]) {
+                            return Err(ParseError::Version);
+                        }
                         res.tbs_certificate.version = Some(Version::parse(&body[2..])?);
                     }
                     0x03 => log::fixme!("TODO: certificate extenstions"),
@@ -492,23 +519,27 @@ fn parse(
                 *consumed += size;
             }
             DerType::Set => {
-                parse(res, ParsingState::InSet, data, consumed)?;
-                // *consumed += size;
+                parse_children(res, ParsingState::InSet, &data[..end], consumed)?;
             }
             _ => {
-                todo!("cons={cons:?}");
+                log::error!("not yet implemented: cons={cons:?}");
+                return Err(ParseError::NotYetImplemented);
             }
         },
         EncodedForm::Primitive(prim) => match prim {
             DerType::Integer => {
                 let int = bytes::to_ibig_be(body);
                 *consumed += size;
-                if res.tbs_certificate.serial_number.is_none() {
+                if !after_tbs && res.tbs_certificate.serial_number.is_none() {
                     res.tbs_certificate.serial_number = Some(int);
+                } else if state != ParsingState::InBitString {
+                    return Err(ParseError::NotYetImplemented);
                 } else if res.signature.0.is_none() {
                     res.signature.0 = Some(int);
-                } else {
+                } else if res.signature.1.is_none() {
                     res.signature.1 = Some(int);
+                } else {
+                    return Err(ParseError::NotYetImplemented);
                 }
             }
             DerType::ObjectIdentifier => match state {
@@ -522,7 +553,11 @@ fn parse(
                 }
                 ParsingState::Init => {
                     let oji = parse_object_identifier(body)?;
-                    if res.tbs_certificate.signature.is_none() {
+                    if after_tbs {
+                        if res.signature_algorithm.is_none() {
+                            res.signature_algorithm = Some(Algorithms::new(&oji)?);
+                        }
+                    } else if res.tbs_certificate.signature.is_none() {
                         res.tbs_certificate.signature =
                             Some(AlgorithmIdentifier::new(Algorithms::new(&oji)?));
                     } else if res
@@ -548,12 +583,10 @@ fn parse(
                             .as_mut()
                             .unwrap()
                             .parameters = Some(oji);
-                    } else if res.signature_algorithm.is_none() {
-                        res.signature_algorithm = Some(Algorithms::new(&oji)?);
                     }
                     *consumed += size;
                 }
-                _ => todo!("ObjectIdentifier {state:?}"),
+                _ => return Err(ParseError::NotYetImplemented),
             },
             DerType::PrintableString | DerType::UTF8String => {
                 let string = match String::from_utf8(body.to_vec()) {
@@ -567,10 +600,6 @@ fn parse(
                 }
                 *consumed += size;
             }
-            DerType::OctetString => {
-                *consumed += size;
-                todo!("GOT OctetString");
-            }
             DerType::UTCTime => {
                 let timestamp = match String::from_utf8(body.to_vec()) {
                     Ok(e) => e,
@@ -582,24 +611,22 @@ fn parse(
                 }
                 if res.tbs_certificate.validity.not_before.is_none() {
                     res.tbs_certificate.validity.not_before = timestamp;
-                } else {
+                } else if res.tbs_certificate.validity.not_after.is_none() {
                     res.tbs_certificate.validity.not_after = timestamp;
+                } else {
+                    return Err(ParseError::TimeStamp);
                 }
                 *consumed += size;
             }
             DerType::BitString => {
-                if data[*consumed + 1] == 0x30 {
+                // The number of unused bits
+                if body.first() != Some(&0) {
+                    return Err(ParseError::NotYetImplemented);
+                }
+                if after_tbs {
                     *consumed += 1;
-                    let size_should = size + *consumed - 1;
-                    while size_should > *consumed {
-                        parse(res, ParsingState::InBitString, data, consumed)?;
-                    }
+                    parse_children(res, ParsingState::InBitString, &data[..end], consumed)?;
                 } else {
-                    let number_of_unused_bits = data[*consumed];
-                    if number_of_unused_bits != 0 {
-                        todo!("Number of unused bits is not 0");
-                    }
-
                     if res
                         .tbs_certificate
                         .subject_public_key_info
@@ -613,9 +640,6 @@ fn parse(
                     *consumed += size;
                 }
             }
-            DerType::Null => {
-                todo!("Null");
-            }
             _ => {
                 log::error!("not yet implemented: prim={prim:?}");
                 return Err(ParseError::NotYetImplemented);
@@ -625,6 +649,25 @@ fn parse(
     Ok(())
 }
 
+/// Parse the elements up to the end of `data`.
+fn parse_children(
+    res: &mut X509Builder,
+    state: ParsingState,
+    data: &[u8],
+    consumed: &mut usize,
+) -> Result<(), ParseError> {
+    // Limit the recursion for nested elements
+    if res.depth >= 16 {
+        return Err(ParseError::NotYetImplemented);
+    }
+    res.depth += 1;
+    while data.len() > *consumed {
+        parse(res, state.clone(), data, consumed)?;
+    }
+    res.depth -= 1;
+    Ok(())
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From f210ac5b8d4effae4346d0236f64ca86741f6535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 15/34] fix: reject malformed UTCTimes and count the leap day

---
 anothertls/src/utils/x509.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/x509.rs b/anothertls/src/utils/x509.rs
index c7e044c..a7a2f78 100644
--- a/anothertls/src/utils/x509.rs
+++ b/anothertls/src/utils/x509.rs
@@ -44,9 +44,14 @@ pub struct UtcTime {
     pub second: u16,
 }
 
+fn is_leap_year(year: u64) -> bool {
+    (year % 4 == 0 && year % 100 != 0) || year % 400 == 0
+}
+
 impl UtcTime {
     fn from_utc_timestamp(t: &str) -> Option<UtcTime> {
-        if t.len() < 12 {
+        // YYMMDDhhmmssZ
+        if t.len() != 13 || !t.ends_with('Z') || !t[..12].bytes().all(|b| b.is_ascii_digit()) {
             return None;
         }
         let (mut year, month, day, hour, minute, second) = (
@@ -62,6 +67,16 @@ impl UtcTime {
         } else {
             year += 1900;
         }
+        let days_in_month = match month {
+            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
+            4 | 6 | 9 | 11 => 30,
+            2 if is_leap_year(year as u64) => 29,
+            2 => 28,
+            _ => return None,
+        };
+        if day < 1 || day > days_in_month || hour > 23 || minute > 59 || second > 59 {
+            return None;
+        }
         Some(UtcTime {
             year,
             month,
@@ -74,11 +89,17 @@ impl UtcTime {
     pub fn get_unix_timestamp(&self) -> u64 {
         let days_since_year_start = [0_u64, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
         let year = self.year as u64;
+        if year < 1970 {
+            return 0;
+        }
 
         let leap_years =
             ((year - 1) - 1968) / 4 - ((year - 1) - 1900) / 100 + ((year - 1) - 1600) / 400;
         let mut days = (year - 1970) * 365 + leap_years;
         days += days_since_year_start[(self.month - 1) as usize];
+        if self.month > 2 && is_leap_year(year) {
+            days += 1;
+        }
         days += (self.day - 1) as u64;
 
         let mut res = 0;
-- 
2.43.0


From 4635d0e81f60e6a6ba53ce8a9a33276262535741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 16/34] fix: report malformed PEM files instead of panicking

---
 anothertls/src/crypto/ellipticcurve/privatekey.rs | 2 +-
 anothertls/src/net/handshake/certificate.rs       | 5 +----
 anothertls/src/utils/pem.rs                       | 8 ++++++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/crypto/ellipticcurve/privatekey.rs b/anothertls/src/crypto/ellipticcurve/privatekey.rs
index d2fe4ff..ed2681b 100644
--- a/anothertls/src/crypto/ellipticcurve/privatekey.rs
+++ b/anothertls/src/crypto/ellipticcurve/privatekey.rs
@@ -19,7 +19,7 @@ impl PrivateKey {
     pub fn from_pem(filepath: String) -> Option<PrivateKey> {
         let raw = get_pem_content_from_file(filepath)?;
         let secret = raw.get("EC PRIVATE KEY")?;
-        let secret = bytes::to_ibig_be(&secret[7..39]);
+        let secret = bytes::to_ibig_be(secret.get(7..39)?);
         // FIXME: PARSE ASN1 OID
         Some(PrivateKey {
             curve: Curve::secp256r1(),
diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index 259ed83..ad9a30a 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -34,10 +34,7 @@ impl Certificate {
     pub fn from_pem_x509(filepath: String) -> Option<Self> {
         let raw = get_pem_content_from_file(filepath)?;
         // TODO: check if cert using the available algos
-        Some(
-            Certificate::from_raw_x509(raw.get("CERTIFICATE")?.to_vec())
-                .expect("Provided client certificate is not a valid x509 certificate."),
-        )
+        Certificate::from_raw_x509(raw.get("CERTIFICATE")?.to_vec()).ok()
     }
 
     pub fn from_pem(filepath: String) -> Option<Self> {
diff --git a/anothertls/src/utils/pem.rs b/anothertls/src/utils/pem.rs
index dc00b21..4e2fb52 100644
--- a/anothertls/src/utils/pem.rs
+++ b/anothertls/src/utils/pem.rs
@@ -32,12 +32,16 @@ pub fn get_pem_content_from_file(filepath: String) -> Option<HashMap<String, Vec
                     state = PemState::End;
                     current_content.clear();
                 } else {
-                    current_content += line;
+                    current_content += line.trim_end();
                 }
             }
             PemState::End | PemState::Start => {
                 if line.starts_with("-----BEGIN") {
-                    current_title = line[11..(line.len() - 5)].to_string();
+                    current_title = line
+                        .trim_end()
+                        .strip_prefix("-----BEGIN ")?
+                        .strip_suffix("-----")?
+                        .to_string();
                     state = PemState::InContent;
                 }
             }
-- 
2.43.0


From 169b341837f50cded562020af184fca054aa5c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:03 +0000
Subject: [PATCH 17/34] fix: refuse Base64 text with foreign or misplaced
 characters

---
 anothertls/src/utils/base64.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/utils/base64.rs b/anothertls/src/utils/base64.rs
index f20426a..8da9f18 100644
--- a/anothertls/src/utils/base64.rs
+++ b/anothertls/src/utils/base64.rs
@@ -71,9 +71,11 @@ pub fn decode(input: &str) -> Option<Vec<u8>> {
             let ch = input_iter
                 .next()
                 .unwrap_or(if idx <= 2 { '=' } else { '\0' });
-            if ch == '=' {
+            if ch == '=' && idx > 2 {
                 *t = 0;
                 padding_len += 1;
+            } else if padding_len > 0 || !CHARS.contains(ch) {
+                return None;
             } else {
                 *t = reverse_characters[ch as usize];
             }
-- 
2.43.0


From a345624e3583d0a354418330617a776a2b2cf59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 18/34] fix: use the alert codes of RFC 8446

---
 anothertls/src/net/alert.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index a190ec7..bb7e9cb 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -30,8 +30,8 @@ pub enum TlsError {
     IllegalParameter = 47,
     UnknownCa = 48,
     AccessDenied = 49,
-    DecryptError = 50,
-    DecodeError = 51,
+    DecodeError = 50,
+    DecryptError = 51,
     ProtocolVersion = 70,
     InsufficientSecurity = 71,
     InternalError = 80,
@@ -49,6 +49,7 @@ impl TlsError {
         match code {
             0 => TlsError::CloseNotify,
             10 => TlsError::UnexpectedMessage,
+            20 => TlsError::BadRecordMac,
             40 => TlsError::HandshakeFailure,
             42 => TlsError::BadCertificate,
             43 => TlsError::UnsupportedCertificate,
@@ -58,8 +59,8 @@ impl TlsError {
             47 => TlsError::IllegalParameter,
             48 => TlsError::UnknownCa,
             49 => TlsError::AccessDenied,
-            50 => TlsError::DecryptError,
-            51 => TlsError::DecodeError,
+            50 => TlsError::DecodeError,
+            51 => TlsError::DecryptError,
             70 => TlsError::ProtocolVersion,
             71 => TlsError::InsufficientSecurity,
             80 => TlsError::InternalError,
@@ -78,6 +79,7 @@ impl TlsError {
         match self {
             TlsError::CloseNotify => 0,
             TlsError::UnexpectedMessage => 10,
+            TlsError::BadRecordMac => 20,
             TlsError::HandshakeFailure => 40,
             TlsError::BadCertificate => 42,
             TlsError::UnsupportedCertificate => 43,
@@ -87,8 +89,8 @@ impl TlsError {
             TlsError::IllegalParameter => 47,
             TlsError::UnknownCa => 48,
             TlsError::AccessDenied => 49,
-            TlsError::DecryptError => 50,
-            TlsError::DecodeError => 51,
+            TlsError::DecodeError => 50,
+            TlsError::DecryptError => 51,
             TlsError::ProtocolVersion => 70,
             TlsError::InsufficientSecurity => 71,
             TlsError::InternalError => 80,
-- 
2.43.0


From ca5d61df2e5d897004579ec6acf2f04d8b53dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 19/34] fix: refuse X25519 shares of the wrong size or small
 order

---
 anothertls/src/net/key_schedule.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 66e262e..13983d0 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -135,6 +135,10 @@ impl KeySchedule {
             return Err(TlsError::HandshakeFailure);
         }
 
+        if key_share_entry.opaque.len() != 32 {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let client_public_key = bytes::to_ibig_le(&key_share_entry.opaque);
         let client_public_key = Point::new(client_public_key, ibig!(0));
 
@@ -144,6 +148,11 @@ impl KeySchedule {
         let shared_secret = math::multiply(&client_public_key, server_private_key, curve);
         let shared_secret = bytes::ibig_to_32bytes(shared_secret.x, bytes::ByteOrder::Big);
 
+        // 7.4.2: abort, if the shared secret is the all-zero value
+        if shared_secret == [0; 32] {
+            return Err(TlsError::IllegalParameter);
+        }
+
         match Self::do_key_schedule(tshash.get_type(), &tshash.finalize(), &shared_secret) {
             Some(keys) => Ok(keys),
             None => Err(TlsError::HandshakeFailure),
-- 
2.43.0


From 41b7207a93dacd2fd002be1fa0a2bbd649de34c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 20/34] fix: end the connection instead of wrapping the
 sequence number

---
 anothertls/src/net/key_schedule.rs | 11 +++++++----
 anothertls/src/net/record.rs       |  8 ++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/net/key_schedule.rs b/anothertls/src/net/key_schedule.rs
index 13983d0..15b759a 100644
--- a/anothertls/src/net/key_schedule.rs
+++ b/anothertls/src/net/key_schedule.rs
@@ -48,7 +48,7 @@ impl Key {
             sequence_number: 0,
         })
     }
-    pub fn get_per_record_nonce(&mut self) -> Vec<u8> {
+    pub fn get_per_record_nonce(&mut self) -> Result<Vec<u8>, TlsError> {
         // 5.3.  Per-Record Nonce
         let mut out = self.iv.to_vec();
 
@@ -56,11 +56,14 @@ impl Key {
             out[(12 - 1) - i] ^= (self.sequence_number >> (i * 8)) as u8;
         }
 
-        // FIXME: Because the size of sequence numbers is 64-bit, they should not wrap. If a TLS
+        // Because the size of sequence numbers is 64-bit, they should not wrap. If a TLS
         // implementation would need to wrap a sequence number, it MUST either rekey (Section
         // 4.6.3) or terminate the connection.
-        self.sequence_number += 1;
-        out
+        self.sequence_number = match self.sequence_number.checked_add(1) {
+            Some(e) => e,
+            None => return Err(TlsError::InternalError),
+        };
+        Ok(out)
     }
 }
 
diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 63b3ed7..48f2b66 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -183,9 +183,9 @@ impl RecordPayloadProtection {
         ];
 
         let (nonce, key) = if self.is_client {
-            (keys.client.get_per_record_nonce(), &keys.client.key)
+            (keys.client.get_per_record_nonce()?, &keys.client.key)
         } else {
-            (keys.server.get_per_record_nonce(), &keys.server.key)
+            (keys.server.get_per_record_nonce()?, &keys.server.key)
         };
 
         let (encrypted_record, ahead) =
@@ -209,9 +209,9 @@ impl RecordPayloadProtection {
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
         let (nonce, key) = if self.is_client {
-            (keys.server.get_per_record_nonce(), &keys.server.key)
+            (keys.server.get_per_record_nonce()?, &keys.server.key)
         } else {
-            (keys.client.get_per_record_nonce(), &keys.client.key)
+            (keys.client.get_per_record_nonce()?, &keys.client.key)
         };
 
         let plaintext = match self
-- 
2.43.0


From 6df31c66e3f55b06c43434191e700ce381cd27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 21/34] fix: refuse protected records of the wrong type or
 without a tag

---
 anothertls/src/net/record.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anothertls/src/net/record.rs b/anothertls/src/net/record.rs
index 48f2b66..28d88f4 100644
--- a/anothertls/src/net/record.rs
+++ b/anothertls/src/net/record.rs
@@ -205,6 +205,13 @@ impl RecordPayloadProtection {
             &mut self.handshake_keys
         };
 
+        if record.content_type != RecordType::ApplicationData {
+            return Err(TlsError::UnexpectedMessage);
+        }
+        if record.fraqment.len() < 16 {
+            return Err(TlsError::DecodeError);
+        }
+
         let ciphertext = &record.fraqment.as_ref()[..record.fraqment.len() - 16]; // 1 = Inner ContentType
         let ahead = &record.fraqment.as_ref()[ciphertext.len()..];
 
-- 
2.43.0


From 9806671673f1b7e980d2769bc02b6f185eedd6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 22/34] fix: process records independently of how TCP splits or
 joins them

---
 anothertls/src/net/client/connection.rs | 41 ++--------------
 anothertls/src/net/server/connection.rs | 12 ++---
 anothertls/src/net/stream.rs            | 65 ++++++++++++++++---------
 3 files changed, 47 insertions(+), 71 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 6109c45..a600001 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -102,45 +102,10 @@ impl<'a> ClientHandshake<'a> {
         self.send_client_hello()?;
         log::debug!("<-- ClientHello");
 
-        let mut defragmented = Vec::with_capacity(2048);
-        let mut rxbuf = [0; 2048];
-
         while self.state != ClientHsState::Ready {
-            let n = self.stream.tcp_read(&mut rxbuf)?;
-
-            if n == 0 {
-                log::error!("Got empty tcp");
-                return Err(TlsError::BrokenPipe);
-            }
-
-            let mut offset = 0;
-
-            if !defragmented.is_empty() {
-                defragmented.extend_from_slice(&rxbuf[..n]);
-            }
-
-            while offset < n || !defragmented.is_empty() {
-                let record_buf = if defragmented.is_empty() {
-                    &rxbuf[offset..n]
-                } else {
-                    &defragmented[offset..]
-                };
-
-                if let Ok((consumed, record)) = Record::from_raw(record_buf) {
-                    self.handle_handshake_record(record)?;
-                    offset += consumed;
-                    if offset == defragmented.len() {
-                        defragmented.clear();
-                        break;
-                    }
-                } else {
-                    if defragmented.is_empty() {
-                        defragmented.extend_from_slice(&rxbuf[offset..n]);
-                    }
-                    break;
-                }
-            }
-
+            let rx_buf = self.stream.read_record()?;
+            let (_consumed, record) = Record::from_raw(&rx_buf)?;
+            self.handle_handshake_record(record)?;
             // send server handshake records to the client
             self.stream.flush()?;
         }
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 119853c..144f6c4 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -106,16 +106,10 @@ impl<'a> ServerHandshake<'a> {
     }
 
     fn do_handshake(&mut self) -> Result<(), TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
         while self.state != ServerHsState::Ready {
-            let n = self.stream.tcp_read(&mut rx_buf)?;
-            let mut consumed_total = 0;
-            while consumed_total < n {
-                let (consumed, record) = Record::from_raw(&rx_buf[consumed_total..n])?;
-                consumed_total += consumed;
-                self.handle_handshake_record(record)?;
-            }
+            let rx_buf = self.stream.read_record()?;
+            let (_consumed, record) = Record::from_raw(&rx_buf)?;
+            self.handle_handshake_record(record)?;
             // send server handshake records to the client
             self.stream.flush()?;
         }
diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index 1e126f7..d237782 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -5,7 +5,7 @@
 
 use crate::net::alert::{AlertLevel, TlsError};
 use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
-use crate::utils::log;
+use crate::utils::{bytes, log};
 
 use core::result::Result;
 use std::io::{Read, Write};
@@ -15,6 +15,10 @@ pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
     buffer: Vec<u8>,
+    /// Bytes from the TCP socket which are not yet processed
+    received: Vec<u8>,
+    /// Application data which is not yet read by the user
+    plaintext: Vec<u8>,
 }
 
 impl TlsStream {
@@ -23,6 +27,8 @@ impl TlsStream {
             stream,
             protection: None,
             buffer: Vec::with_capacity(2048),
+            received: vec![],
+            plaintext: vec![],
         }
     }
 
@@ -74,6 +80,23 @@ impl TlsStream {
         }
     }
 
+    /// Read the next complete record. A record can be split over several TCP packages and a TCP
+    /// package can contain several records.
+    pub fn read_record(&mut self) -> Result<Vec<u8>, TlsError> {
+        let mut rx_buf: [u8; 4096] = [0; 4096];
+        loop {
+            if self.received.len() >= 5 {
+                RecordType::new(self.received[0])?;
+                let len = 5 + bytes::to_u16(&self.received[3..5]) as usize;
+                if self.received.len() >= len {
+                    return Ok(self.received.drain(..len).collect());
+                }
+            }
+            let n = self.tcp_read(&mut rx_buf)?;
+            self.received.extend_from_slice(&rx_buf[..n]);
+        }
+    }
+
     /// Write an TLS Alert message
     pub fn write_alert(&mut self, err: TlsError) -> Result<(), TlsError> {
         let data = vec![AlertLevel::get_from_error(err) as u8, err.as_u8()];
@@ -95,39 +118,33 @@ impl TlsStream {
 
     /// Read from the TLS stream.
     pub fn tls_read<'b>(&'b mut self, buf: &'b mut [u8]) -> Result<usize, TlsError> {
-        let mut rx_buf: [u8; 4096] = [0; 4096];
-
-        let n = self.tcp_read(&mut rx_buf)?;
+        while self.plaintext.is_empty() {
+            let rx_buf = self.read_record()?;
 
-        let (_consumed, mut record) = Record::from_raw(&rx_buf[..n])?;
+            let (_consumed, mut record) = Record::from_raw(&rx_buf)?;
 
-        log::debug!("--> EncryptedData");
+            log::debug!("--> EncryptedData");
 
-        if record.len != record.fraqment.len() {
-            // create internal buffer to store the decrypted TLS packages
-            todo!("Problem, when multiple TLS packages in one TCP package");
-        }
-
-        if let Some(protection) = self.protection.as_mut() {
-            let (typ, data) = protection.decrypt(record)?;
-            record = Record::new(typ, Value::Owned(data));
-            if record.content_type != RecordType::ApplicationData {
-                log::error!("Not yet implemented: Handle handshake messages");
+            if let Some(protection) = self.protection.as_mut() {
+                let (typ, data) = protection.decrypt(record)?;
+                record = Record::new(typ, Value::Owned(data));
+                if record.content_type != RecordType::ApplicationData {
+                    log::error!("Not yet implemented: Handle handshake messages");
+                    return Err(TlsError::UnexpectedMessage);
+                }
+            } else if record.content_type != RecordType::Handshake {
                 return Err(TlsError::UnexpectedMessage);
             }
-        } else if record.content_type != RecordType::Handshake {
-            return Err(TlsError::UnexpectedMessage);
-        }
 
-        if record.len > buf.len() {
-            todo!("Handle records bigger than the buf.len()");
+            self.plaintext.extend_from_slice(record.fraqment.as_ref());
         }
 
-        for (i, b) in record.fraqment.as_ref().iter().enumerate() {
-            buf[i] = *b;
+        let n = core::cmp::min(buf.len(), self.plaintext.len());
+        for (i, b) in self.plaintext.drain(..n).enumerate() {
+            buf[i] = b;
         }
 
-        Ok(record.fraqment.len())
+        Ok(n)
     }
 
     /// Write to the TLS stream.
-- 
2.43.0


From 33377da5db4e3d8a8ef14dd85ac16d4d412875df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 23/34] fix: split data larger than a record into several
 records

---
 anothertls/src/net/stream.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/anothertls/src/net/stream.rs b/anothertls/src/net/stream.rs
index d237782..eac85ce 100644
--- a/anothertls/src/net/stream.rs
+++ b/anothertls/src/net/stream.rs
@@ -11,6 +11,9 @@ use core::result::Result;
 use std::io::{Read, Write};
 use std::net::TcpStream;
 
+/// The length of a record fragment must not exceed 2^14 bytes.
+const MAX_FRAGMENT_LEN: usize = 1 << 14;
+
 pub struct TlsStream {
     stream: TcpStream,
     pub protection: Option<RecordPayloadProtection>,
@@ -36,12 +39,14 @@ impl TlsStream {
     /// This is useful in the handshake process, where multiple
     /// TLS records are send to the client.
     pub fn write_record(&mut self, typ: RecordType, data: &[u8]) -> Result<(), TlsError> {
-        let record = Record::new(typ, Value::Ref(data));
+        for fraqment in data.chunks(MAX_FRAGMENT_LEN) {
+            let record = Record::new(typ, Value::Ref(fraqment));
 
-        if let Some(protect) = self.protection.as_mut() {
-            self.buffer.append(&mut protect.encrypt(record)?);
-        } else {
-            self.buffer.append(&mut record.as_bytes());
+            if let Some(protect) = self.protection.as_mut() {
+                self.buffer.append(&mut protect.encrypt(record)?);
+            } else {
+                self.buffer.append(&mut record.as_bytes());
+            }
         }
 
         // TODO: Find a smart value
@@ -155,13 +160,15 @@ impl TlsStream {
             return Err(TlsError::InternalError);
         }
 
-        let record = Record::new(RecordType::ApplicationData, Value::Ref(src));
-        let record = self.protection.as_mut().unwrap().encrypt(record)?;
+        for fraqment in src.chunks(MAX_FRAGMENT_LEN) {
+            let record = Record::new(RecordType::ApplicationData, Value::Ref(fraqment));
+            let record = self.protection.as_mut().unwrap().encrypt(record)?;
 
-        log::debug!("<-- EncryptedData");
-        if self.stream.write_all(&record).is_err() {
-            return Err(TlsError::BrokenPipe);
-        };
+            log::debug!("<-- EncryptedData");
+            if self.stream.write_all(&record).is_err() {
+                return Err(TlsError::BrokenPipe);
+            };
+        }
 
         Ok(())
     }
-- 
2.43.0


From cdcfcbbfb1b1b9c634e44cebabeded5c061448f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:04 +0000
Subject: [PATCH 24/34] fix: do not panic on alerts without a description

---
 anothertls/src/net/alert.rs             | 8 ++++++++
 anothertls/src/net/client/connection.rs | 7 +++----
 anothertls/src/net/server/connection.rs | 7 +++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/anothertls/src/net/alert.rs b/anothertls/src/net/alert.rs
index bb7e9cb..4144538 100644
--- a/anothertls/src/net/alert.rs
+++ b/anothertls/src/net/alert.rs
@@ -74,6 +74,14 @@ impl TlsError {
         }
     }
 
+    /// Get the error from a received alert message
+    pub fn from_alert(fraqment: &[u8]) -> TlsError {
+        match fraqment.get(1) {
+            Some(code) => TlsError::GotAlert(*code),
+            None => TlsError::DecodeError,
+        }
+    }
+
     pub fn as_u8(&self) -> u8 {
         // TODO: Ho to solve this better? ChatGPT is currently the best solution?
         match self {
diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index a600001..1632c10 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -180,13 +180,12 @@ impl<'a> ClientHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
-                let alert_code = record.fraqment.as_ref()[1];
-                let alert = TlsError::new(alert_code);
+                let alert = TlsError::from_alert(record.fraqment.as_ref());
                 log::debug!("--> Alert {alert:?}");
                 if self.state != ClientHsState::Ready {
                     log::error!("Handshake aborted by client");
                 }
-                return Err(TlsError::GotAlert(alert_code));
+                return Err(alert);
             }
             _ => match self.state {
                 ClientHsState::ServerHello => {
@@ -265,7 +264,7 @@ impl<'a> ClientHandshake<'a> {
 
         if record.content_type != RecordType::Handshake {
             if record.content_type == RecordType::Alert {
-                return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
+                return Err(TlsError::from_alert(record.fraqment.as_ref()));
             }
             return Err(TlsError::UnexpectedMessage);
         }
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index 144f6c4..ed68180 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -126,13 +126,12 @@ impl<'a> ServerHandshake<'a> {
                 return Ok(());
             }
             RecordType::Alert => {
-                let alert_code = record.fraqment.as_ref()[1];
-                let alert = TlsError::new(alert_code);
+                let alert = TlsError::from_alert(record.fraqment.as_ref());
                 log::debug!("--> Alert {alert:?}");
                 if self.state != ServerHsState::Ready {
                     log::error!("Handshake aborted by client");
                 }
-                return Err(TlsError::GotAlert(alert_code));
+                return Err(alert);
             }
             _ => match self.state {
                 ServerHsState::ClientHello => {
@@ -299,7 +298,7 @@ impl<'a> ServerHandshake<'a> {
             || (self.config.client_cert_ca.is_some() && self.certificate_request_context.is_none())
         {
             if record.content_type == RecordType::Alert {
-                return Err(TlsError::GotAlert(record.fraqment.as_ref()[1]));
+                return Err(TlsError::from_alert(record.fraqment.as_ref()));
             }
             return Err(TlsError::UnexpectedMessage);
         }
-- 
2.43.0


From 5ce689c106b1e0203164c5f181e42fb8927ec638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 25/34] fix: check the lengths in Certificate and
 CertificateVerify messages

---
 anothertls/src/net/client/connection.rs     |  9 ++++++++-
 anothertls/src/net/handshake/certificate.rs | 22 +++++++++++++++------
 anothertls/src/net/server/connection.rs     | 18 +++++++++++++----
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 1632c10..e1f4397 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -365,6 +365,10 @@ impl<'a> ClientHandshake<'a> {
 
         log::debug!("--> ServerCertificateVerify");
 
+        if handshake.fraqment.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
+
         let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
 
         let mut consumed = 4; // algo and len
@@ -389,7 +393,10 @@ impl<'a> ClientHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for server cert not implemented yet"),
+            e => {
+                log::error!("SignatureScheme {e:?} for server cert not implemented yet");
+                return Err(TlsError::IllegalParameter);
+            }
         }
 
         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
diff --git a/anothertls/src/net/handshake/certificate.rs b/anothertls/src/net/handshake/certificate.rs
index ad9a30a..b98bf55 100644
--- a/anothertls/src/net/handshake/certificate.rs
+++ b/anothertls/src/net/handshake/certificate.rs
@@ -47,14 +47,23 @@ impl Certificate {
     }
 
     pub fn from_hello(buf: &[u8]) -> Result<Vec<Certificate>, TlsError> {
+        fn get(buf: &[u8], start: usize, len: usize) -> Result<&[u8], TlsError> {
+            buf.get(start..start + len).ok_or(TlsError::DecodeError)
+        }
+
         let mut consumed = 1;
-        let cert_request_context_len = buf[0] as usize;
+        let cert_request_context_len = get(buf, 0, 1)?[0] as usize;
 
         consumed += cert_request_context_len;
 
-        let certs_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
+        let certs_len = bytes::to_u128_be_fill(get(buf, consumed, 3)?) as usize;
         consumed += 3;
 
+        // The certificates are the rest of the message
+        if buf.len() != consumed + certs_len {
+            return Err(TlsError::DecodeError);
+        }
+
         if certs_len == 0 {
             log::debug!("Client send no certificate!");
             return Err(TlsError::CertificateRequired);
@@ -66,15 +75,16 @@ impl Certificate {
 
         #[allow(clippy::never_loop)]
         while certs_len > (consumed - prev_len) {
-            let cert_len = bytes::to_u128_be_fill(&buf[consumed..consumed + 3]) as usize;
+            let cert_len = bytes::to_u128_be_fill(get(buf, consumed, 3)?) as usize;
             consumed += 3;
-            let cert = Certificate::from_raw_x509(buf[consumed..consumed + cert_len].to_vec())?;
+            let cert = Certificate::from_raw_x509(get(buf, consumed, cert_len)?.to_vec())?;
             consumed += cert_len;
-            let cert_ext_len = bytes::to_u16(&buf[consumed..consumed + 2]);
+            let cert_ext_len = bytes::to_u16(get(buf, consumed, 2)?) as usize;
             consumed += 2;
             if cert_ext_len > 0 {
                 log::error!("Certificate has Extensions");
-                consumed += cert_ext_len as usize;
+                get(buf, consumed, cert_ext_len)?;
+                consumed += cert_ext_len;
             }
 
             if !cert
diff --git a/anothertls/src/net/server/connection.rs b/anothertls/src/net/server/connection.rs
index ed68180..3b6ac76 100644
--- a/anothertls/src/net/server/connection.rs
+++ b/anothertls/src/net/server/connection.rs
@@ -334,10 +334,13 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificate");
 
-        let cert_request_context_len = handshake.fraqment[0] as usize;
-        let cert_request_context = &handshake.fraqment[1..cert_request_context_len + 1];
+        let cert_request_context_len = match handshake.fraqment.first() {
+            Some(e) => *e as usize,
+            None => return Err(TlsError::DecodeError),
+        };
+        let cert_request_context = handshake.fraqment.get(1..cert_request_context_len + 1);
 
-        if cert_request_context != self.certificate_request_context.as_ref().unwrap() {
+        if cert_request_context != self.certificate_request_context.as_deref() {
             return Err(TlsError::HandshakeFailure);
         }
 
@@ -387,6 +390,10 @@ impl<'a> ServerHandshake<'a> {
 
         log::debug!("--> ClientCertificateVerify");
 
+        if handshake.fraqment.len() < 4 {
+            return Err(TlsError::DecodeError);
+        }
+
         let algo = SignatureScheme::new(bytes::to_u16(&handshake.fraqment[0..2]))?;
 
         let mut consumed = 4; // algo and len
@@ -412,7 +419,10 @@ impl<'a> ServerHandshake<'a> {
                     return Ok(());
                 }
             }
-            e => todo!("SignatureScheme {e:?} for client cert not implemented yet"),
+            e => {
+                log::error!("SignatureScheme {e:?} for client cert not implemented yet");
+                return Err(TlsError::IllegalParameter);
+            }
         }
 
         let sign_len = bytes::to_u16(&handshake.fraqment[2..4]) as usize;
-- 
2.43.0


From 4eb29d46629ab62d55509ec008cd8024f07950e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:31 +0000
Subject: [PATCH 26/34] fix: send the whole ClientHello if TCP takes only a
 part of it

---
 anothertls/src/net/client/connection.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index e1f4397..644be70 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -14,7 +14,7 @@ use crate::net::extensions::{
 use crate::net::handshake::{
     get_finished_handshake, get_verify_data_for_finished, Certificate, Handshake, HandshakeType,
 };
-use crate::net::record::{Record, RecordPayloadProtection, RecordType, Value};
+use crate::net::record::{Record, RecordPayloadProtection, RecordType};
 use crate::net::server::ServerHello;
 use crate::net::{KeySchedule, TlsStream};
 use crate::rand::{RngCore, URandomRng};
@@ -161,13 +161,11 @@ impl<'a> ClientHandshake<'a> {
         self.client_hello_random = Some(random);
         self.client_hello_bytes = Some(handshake_raw);
 
-        let record = Record::new(
+        self.stream.write_record(
             RecordType::Handshake,
-            Value::Ref(self.client_hello_bytes.as_ref().unwrap()),
-        );
-
-        self.stream.tcp_write(&record.as_bytes())?;
-        Ok(())
+            self.client_hello_bytes.as_ref().unwrap(),
+        )?;
+        self.stream.flush()
     }
 
     fn handle_handshake_record(&mut self, record: Record) -> Result<(), TlsError> {
-- 
2.43.0


From 8fa62d9332f1694bc5a41cf15c2398960f83101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 27/34] fix: check that the ServerHello echoes the session id

---
 anothertls/src/net/client/connection.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 644be70..8f8a8f0 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -62,6 +62,7 @@ pub struct ClientHandshake<'a> {
     server_cert: Option<Certificate>,
     client_hello_bytes: Option<Vec<u8>>,
     client_hello_random: Option<Vec<u8>>,
+    client_hello_session_id: Option<Vec<u8>>,
 }
 
 impl<'a> ClientHandshake<'a> {
@@ -82,6 +83,7 @@ impl<'a> ClientHandshake<'a> {
             private_key,
             client_hello_bytes: None,
             client_hello_random: None,
+            client_hello_session_id: None,
         }
     }
 
@@ -159,6 +161,7 @@ impl<'a> ClientHandshake<'a> {
             Handshake::to_bytes(HandshakeType::ClientHello, client_hello.as_bytes()?);
 
         self.client_hello_random = Some(random);
+        self.client_hello_session_id = Some(session_id);
         self.client_hello_bytes = Some(handshake_raw);
 
         self.stream.write_record(
@@ -214,6 +217,11 @@ impl<'a> ClientHandshake<'a> {
 
         let server_hello = ServerHello::from_raw(handshake.fraqment)?;
 
+        // The server must echo the session id
+        if server_hello.legacy_session_id_echo != self.client_hello_session_id.as_deref() {
+            return Err(TlsError::IllegalParameter);
+        }
+
         let mut tshash = server_hello.cipher_suite.get_tshash()?;
 
         tshash.update(self.client_hello_bytes.as_ref().unwrap());
-- 
2.43.0


From 16d7841c28421d3d20ee63953b6f7baeaf59f945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 28/34] fix: accept only one CertificateRequest

---
 anothertls/src/net/client/connection.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 8f8a8f0..32d113e 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -284,7 +284,9 @@ impl<'a> ClientHandshake<'a> {
             match self.state {
                 ClientHsState::EncryptedExtensions => self.handle_encrypted_extension(handshake)?,
                 ClientHsState::ServerCertificate | ClientHsState::ClientCertificateRequest => {
-                    if handshake.handshake_type == HandshakeType::CertificateRequest {
+                    if handshake.handshake_type == HandshakeType::CertificateRequest
+                        && self.state == ClientHsState::ClientCertificateRequest
+                    {
                         log::debug!("--> CertificateRequest");
                         self.certificate_request = Some(handshake.fraqment.to_vec());
                         self.tshash.as_mut().unwrap().update(handshake.as_bytes());
-- 
2.43.0


From 961aa1ff2e9b061c13c4f3cd3142badff85a07f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 29/34] fix: check the lengths in CertificateRequest messages

---
 anothertls/src/net/client/connection.rs | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 32d113e..7649fcf 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -479,19 +479,21 @@ impl<'a> ClientHandshake<'a> {
     pub fn handle_certificate_request(&mut self) -> Result<(), TlsError> {
         let request = self.certificate_request.as_ref().unwrap();
 
-        let mut response: Vec<u8> = vec![request[0]];
-        let context_len = request[0] as usize;
-
-        let mut consumed = 1;
-        if context_len > 0 {
-            response.extend_from_slice(&request[1..context_len + 1]);
-            consumed += context_len;
-        }
-
-        let ext_len = bytes::to_u16(&request[consumed..]) as usize;
+        // The request context, prefixed by its length
+        let context_len = 1 + *request.first().ok_or(TlsError::DecodeError)? as usize;
+        let context = request.get(..context_len).ok_or(TlsError::DecodeError)?;
+        let mut response: Vec<u8> = context.to_vec();
+
+        let mut consumed = context_len;
+        let ext_len = request
+            .get(consumed..consumed + 2)
+            .ok_or(TlsError::DecodeError)?;
+        let ext_len = bytes::to_u16(ext_len) as usize;
         consumed += 2;
-        let _extensions =
-            CertificateRequestExtensions::from_request(&request[consumed..consumed + ext_len]);
+        if request.len() != consumed + ext_len {
+            return Err(TlsError::DecodeError);
+        }
+        let _extensions = CertificateRequestExtensions::from_request(&request[consumed..])?;
 
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
-- 
2.43.0


From 98402479b33892c4847208c4c75444d94eda3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:41 +0000
Subject: [PATCH 30/34] fix: answer a CertificateRequest with an empty
 certificate list

---
 anothertls/src/net/client/connection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anothertls/src/net/client/connection.rs b/anothertls/src/net/client/connection.rs
index 7649fcf..62cb4ca 100644
--- a/anothertls/src/net/client/connection.rs
+++ b/anothertls/src/net/client/connection.rs
@@ -498,8 +498,8 @@ impl<'a> ClientHandshake<'a> {
         if let Some(client_cert) = self.config.client_cert.as_ref() {
             response.extend_from_slice(&client_cert.get_certificate_for_handshake(vec![]));
         } else {
-            log::fixme!("Check if this works");
-            response.extend_from_slice(&[0x00, 0x00, 0x00, 0x02, 0x00, 0x00]);
+            // An empty list of certificates
+            response.extend_from_slice(&[0x00, 0x00, 0x00]);
         }
 
         let handshake_raw = Handshake::to_bytes(HandshakeType::Certificate, response);
-- 
2.43.0


From a6b5496b6e6681125670233a7cc560d3e3054457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 31/34] fix: encrypt the last block if it is a full one

---
 anothertls/src/crypto/chacha20/cipher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/crypto/chacha20/cipher.rs b/anothertls/src/crypto/chacha20/cipher.rs
index 007c158..c3cec3e 100644
--- a/anothertls/src/crypto/chacha20/cipher.rs
+++ b/anothertls/src/crypto/chacha20/cipher.rs
@@ -97,7 +97,7 @@ impl ChaCha20 {
             current_block.set_counter((counter + j) as u32);
             let key_stream = current_block.get_block();
             let mut count = key_stream.len();
-            if (j * 64) + 64 >= input.len() {
+            if (j * 64) + 64 > input.len() {
                 count = input.len() % 64;
             }
             for i in 0..count {
-- 
2.43.0


From 47c7ead36cc46ba9424cce4a3daf410d7d4586ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 32/34] fix: hash only HMAC keys longer than the block size

---
 anothertls/src/hash/hmac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anothertls/src/hash/hmac.rs b/anothertls/src/hash/hmac.rs
index a88ea8d..1304f07 100644
--- a/anothertls/src/hash/hmac.rs
+++ b/anothertls/src/hash/hmac.rs
@@ -38,7 +38,7 @@ impl<'a> Hmac<'a> {
 
         let hashed_key;
 
-        let key = if self.key.len() > 64 {
+        let key = if self.key.len() > size {
             hashed_key = match self.hash {
                 HashType::SHA256 => sha256(self.key),
                 HashType::SHA384 => sha384(self.key),
-- 
2.43.0


From 73714a75b6256f0094ebddce92fcefa761c8c74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:01 +0000
Subject: [PATCH 33/34] fix: return the requested number of random bytes

---
 anothertls/src/rand/simplerng.rs | 5 +++--
 anothertls/src/rand/urandom.rs   | 8 ++++++--
 anothertls/src/utils/bytes.rs    | 2 +-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/anothertls/src/rand/simplerng.rs b/anothertls/src/rand/simplerng.rs
index aaf7624..833393b 100644
--- a/anothertls/src/rand/simplerng.rs
+++ b/anothertls/src/rand/simplerng.rs
@@ -32,7 +32,7 @@ impl RngCore<u32> for SimpleRng<u32> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.push(self.next() as u8)
         }
         res
@@ -61,12 +61,13 @@ impl RngCore<IBig> for SimpleRng<IBig> {
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
         let mut res = vec![];
-        while res.len() >= size {
+        while res.len() < size {
             res.extend_from_slice(&bytes::ibig_to_32bytes(
                 self.next(),
                 bytes::ByteOrder::Little,
             ));
         }
+        res.truncate(size);
         res
     }
 }
diff --git a/anothertls/src/rand/urandom.rs b/anothertls/src/rand/urandom.rs
index a2c14b3..c5297ae 100644
--- a/anothertls/src/rand/urandom.rs
+++ b/anothertls/src/rand/urandom.rs
@@ -48,7 +48,11 @@ impl RngCore<IBig> for URandomRng {
         self.next() % (max - min.clone()) + min
     }
     fn bytes(&mut self, size: usize) -> Vec<u8> {
-        let rand_bytes = self.read_from_urandom();
-        rand_bytes[..size].to_owned()
+        let mut res = vec![];
+        while res.len() < size {
+            res.extend_from_slice(&self.read_from_urandom());
+        }
+        res.truncate(size);
+        res
     }
 }
diff --git a/anothertls/src/utils/bytes.rs b/anothertls/src/utils/bytes.rs
index 7af24a9..1291864 100644
--- a/anothertls/src/utils/bytes.rs
+++ b/anothertls/src/utils/bytes.rs
@@ -137,7 +137,7 @@ pub fn to_u128_le(bytes: &[u8]) -> u128 {
 pub fn to_u64_le(bytes: &[u8]) -> u64 {
     let mut res: u64 = 0;
     for (i, byte) in bytes[..8].iter().enumerate() {
-        res += (*byte as u64) << ((7 * 8) - i * 8);
+        res += (*byte as u64) << (i * 8);
     }
     res
 }
-- 
2.43.0


From 94204f0604e9b306b84234ad09fc3a9eaa49418b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 34/34] verification hooks: signature functions and field
 arithmetic, guarded by cfg(anothertls_verif)

---
 anothertls/src/crypto/ellipticcurve/ecdsa.rs  | 19 +++++++++++++++++++
 anothertls/src/crypto/ellipticcurve/math.rs   |  3 +++
 .../crypto/ellipticcurve/math/curve25519.rs   | 15 +++++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/anothertls/src/crypto/ellipticcurve/ecdsa.rs b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
index 3b2a95e..5a49ec4 100644
--- a/anothertls/src/crypto/ellipticcurve/ecdsa.rs
+++ b/anothertls/src/crypto/ellipticcurve/ecdsa.rs
@@ -10,6 +10,15 @@ use crate::rand::{RngCore, SeedableRng, SimpleRng, URandomRng};
 
 use super::{math, Point, PrivateKey, PublicKey, Signature};
 
+/// Replacements for signing and verifying, used by the verification of their callers.
+#[allow(unexpected_cfgs)]
+#[cfg(anothertls_verif)]
+pub mod hook {
+    use super::{PrivateKey, PublicKey, Signature};
+    pub static mut SIGN: Option<fn(&PrivateKey, &[u8]) -> Signature> = None;
+    pub static mut VERIFY: Option<fn(&PublicKey, &Signature, &[u8]) -> bool> = None;
+}
+
 pub struct Ecdsa {
     rng: Box<dyn RngCore<IBig>>,
 }
@@ -33,6 +42,11 @@ impl Ecdsa {
         privkey: &PrivateKey,
         hashed_message: &[u8],
     ) -> Result<Signature, String> {
+        #[allow(unexpected_cfgs)]
+        #[cfg(anothertls_verif)]
+        if let Some(f) = unsafe { hook::SIGN } {
+            return Ok(f(privkey, hashed_message));
+        }
         let msg = bytes::to_ibig_be(hashed_message);
         let curve = privkey.curve.clone();
         let d = privkey.secret.clone();
@@ -67,6 +81,11 @@ impl Ecdsa {
     }
 
     pub fn verify(pub_key: PublicKey, sign: &Signature, hashed_message: &[u8]) -> bool {
+        #[allow(unexpected_cfgs)]
+        #[cfg(anothertls_verif)]
+        if let Some(f) = unsafe { hook::VERIFY } {
+            return f(&pub_key, sign, hashed_message);
+        }
         // Check Public Key
         // 1.
         if pub_key.point.x == ibig!(0) && pub_key.point.y == ibig!(0) {
diff --git a/anothertls/src/crypto/ellipticcurve/math.rs b/anothertls/src/crypto/ellipticcurve/math.rs
index a189190..c7f3c08 100644
--- a/anothertls/src/crypto/ellipticcurve/math.rs
+++ b/anothertls/src/crypto/ellipticcurve/math.rs
@@ -5,6 +5,9 @@
 
 mod curve25519;
 mod jacobian;
+#[allow(unexpected_cfgs)]
+#[cfg(anothertls_verif)]
+pub use curve25519::hook as curve25519_hook;
 
 use ibig::{ibig, IBig};
 use jacobian::{jacobian_add, jacobian_multiply};
diff --git a/anothertls/src/crypto/ellipticcurve/math/curve25519.rs b/anothertls/src/crypto/ellipticcurve/math/curve25519.rs
index db507ef..d58249a 100644
--- a/anothertls/src/crypto/ellipticcurve/math/curve25519.rs
+++ b/anothertls/src/crypto/ellipticcurve/math/curve25519.rs
@@ -159,3 +159,18 @@ pub fn scalarmult(point_x: [u8; 32], scalar: &[u8; 32]) -> [u8; 32] {
     a = fmul(&a, &c);
     pack25519(&a)
 }
+
+/// Access to the field arithmetic for its verification.
+#[allow(unexpected_cfgs)]
+#[cfg(anothertls_verif)]
+pub mod hook {
+    pub fn mul(a: &[i64; 16], b: &[i64; 16]) -> [i64; 16] {
+        super::fmul(a, b)
+    }
+    pub fn pack(a: &[i64; 16]) -> [u8; 32] {
+        super::pack25519(a)
+    }
+    pub fn unpack(a: [u8; 32]) -> [i64; 16] {
+        super::unpack25519(a)
+    }
+}
-- 
2.43.0

