From 1e3e5e01c8be2f932d4eb3d72f48153b97dfebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 01/19] fix: P-256 scalar multiplication uses all 256 scalar
 bits

Only the low 8 bits of the first 7 limbs were used, so the result was not the
requested multiple and ephemeral ECDHE keys had 56 bits of entropy.
---
 src/crypto/p256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index f28b03a..2d31e06 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -207,8 +207,8 @@ impl Point256 {
 
     pub fn mult_scalar(&self, n: &Int256) -> Point256 {
         let mut ret = INFTY;
-        for i in (0..7).rev() {
-            for j in (0..8).rev() {
+        for i in (0..8).rev() {
+            for j in (0..32).rev() {
                 let bit = (n.v[i] >> j) & W(1);
 
                 let ret2 = ret.double();
-- 
2.43.0


From b203b8831d86e5559426a3313a0301bdd1dd09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 02/19] fix: reject P-256 point coordinates that are not below
 the prime

Arithmetic on unreduced values violates its precondition: a debug build panics
on such a server public key.
---
 src/crypto/p256.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 2d31e06..08204bf 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -253,6 +253,13 @@ impl NPoint256 {
             _ => return None,
         };
 
+        // coordinates must be less than P256
+        let x_reduced = x.reduce_once_zero().compare(&x);
+        let y_reduced = y.reduce_once_zero().compare(&y);
+        if x_reduced.0 != 0 || y_reduced.0 != 0 {
+            return None;
+        }
+
         let p = NPoint256 { x: x, y: y };
 
         // wait, but is p on the curve?
-- 
2.43.0


From 478f5a09b8f469d1fefd4995ed83768c9db12bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 03/19] fix: reject server key exchange on a curve that was not
 offered

---
 src/cipher/ecdhe.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 7a92f4f..b8d7bde 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -122,6 +122,11 @@ impl KeyExchange for EllipticDiffieHellman {
         let mut reader = Cursor::new(data);
         let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
 
+        match ecdh_params.params.curve_params {
+            EcParameters::named_curve(NamedCurve::secp256r1) => {}
+            _ => return tls_err!(IllegalParameter, "server chose a curve we did not offer"),
+        }
+
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
         let gy = match gy {
-- 
2.43.0


From ab39917b8d2bda2e3d53e88063b534827de4417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 04/19] fix: report truncated or overlong ServerKeyExchange as
 a decode error

Trailing bytes were ignored, and a truncated message was reported as an i/o
error, for which no alert is sent.
---
 src/cipher/ecdhe.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index b8d7bde..2c887d9 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -8,7 +8,7 @@ use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
-use crate::tls_result::TlsErrorKind::IllegalParameter;
+use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter, IoFailure};
 use crate::tls_result::TlsResult;
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
@@ -120,7 +120,16 @@ pub struct EllipticDiffieHellman;
 impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
-        let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        let ecdh_params = match EcdheServerKeyExchange::tls_read(&mut reader) {
+            // all data is in memory, so this is not an i/o error
+            Err(ref err) if err.kind == IoFailure => {
+                return tls_err!(DecodeError, "truncated server key exchange: {}", err.desc)
+            }
+            result => result?,
+        };
+        if reader.position() != data.len() as u64 {
+            return tls_err!(DecodeError, "trailing data in server key exchange");
+        }
 
         match ecdh_params.params.curve_params {
             EcParameters::named_curve(NamedCurve::secp256r1) => {}
-- 
2.43.0


From dc234ba1f69ccd05cfd4a2d97dceb1eaa2f0e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 05/19] fix: reject trailing bytes after the extension block of
 a hello message

They were dropped, so the message was accepted but re-encoded differently.
---
 src/tls_item.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tls_item.rs b/src/tls_item.rs
index d8e9122..2c6aff6 100644
--- a/src/tls_item.rs
+++ b/src/tls_item.rs
@@ -347,6 +347,12 @@ macro_rules! tls_option {
 
                 let mut rest_reader = std::io::Cursor::new(rest);
                 let extensions: $t = TlsItem::tls_read(&mut rest_reader)?;
+                if rest_reader.position() != len as u64 {
+                    return tls_err!(
+                        crate::tls_result::TlsErrorKind::DecodeError,
+                        "trailing data after optional item"
+                    );
+                }
                 Ok(Some(extensions))
             }
 
-- 
2.43.0


From 7bfe44aaf9ff452df33ce4932d349e45cdbe2ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 06/19] fix: report handshake messages whose body ends early as
 a decode error

They were reported as an i/o error, for which no alert is sent.
---
 src/handshake.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index c066a42..ec58094 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,7 +1,7 @@
 use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
-use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, UnexpectedMessage};
+use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, IoFailure, UnexpectedMessage};
 use crate::tls_result::TlsResult;
 use crate::util::{ReadExt, WriteExt};
 
@@ -367,7 +367,13 @@ impl HandshakeBuffer {
         self.buf = remaining;
 
         let reader = &mut &message[..];
-        let message: Handshake = TlsItem::tls_read(reader)?;
+        let message = match Handshake::tls_read(reader) {
+            // the whole message is in memory, so this is not an i/o error
+            Err(ref err) if err.kind == IoFailure => {
+                return tls_err!(DecodeError, "truncated Handshake message: {}", err.desc)
+            }
+            result => result?,
+        };
         Ok(Some(message))
     }
 }
-- 
2.43.0


From 5567c86340ab6cf7d7a2b5e6fc019b89ac1407f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 07/19] fix: return RecordOverflow for an overlong decrypted
 record instead of panicking

The server can send such a record; it authenticates correctly.
---
 src/tls.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index d1a3b19..412b636 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -309,8 +309,7 @@ impl<R: ReadExt> TlsReader<R> {
                 // TODO: "seq_num as nonce" is chacha20poly1305-specific
                 let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;
                 if data.len() > RECORD_MAX_LEN {
-                    // decryption routine went wrong.
-                    panic!("decrypted record too long: {}", data.len());
+                    return tls_err!(RecordOverflow, "decrypted record too long: {}", data.len());
                 }
 
                 Record::new(content_type, major, minor, data)
-- 
2.43.0


From 60ca03e4fbfe255ee83ac2e9764a2b96b7ceddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 08/19] fix: do not panic on alert, ChangeCipherSpec or
 handshake records after the handshake

---
 src/tls.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 412b636..cf6904a 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -403,9 +403,16 @@ impl<R: ReadExt> TlsReader<R> {
                     level: _,
                     description: AlertDescription::close_notify,
                 }) => return Ok(vec![]),
-                AlertMessage(..) => unimplemented!(),
-                ChangeCipherSpecMessage => unimplemented!(), // this should not come here
-                HandshakeMessage(..) => unimplemented!(),    // TODO: re-handshake
+                AlertMessage(alert) => {
+                    return tls_err!(AlertReceived, "alert: {:?}", alert.description)
+                }
+                ChangeCipherSpecMessage => {
+                    return tls_err!(UnexpectedMessage, "unexpected ChangeCipherSpec")
+                }
+                // TODO: re-handshake
+                HandshakeMessage(..) => {
+                    return tls_err!(UnexpectedMessage, "unexpected Handshake message")
+                }
             }
         }
     }
-- 
2.43.0


From 137fe3b8fb49d6196d55e5278beaad64e8fb6a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 09/19] fix: end the read stream for good after close_notify or
 a fatal error

close_notify was treated like an empty record, so read() kept reading and could
block or deliver data sent after it; after a record with a bad MAC, later
records were still delivered.
---
 src/client.rs | 9 ++++++++-
 src/tls.rs    | 9 +--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index d8a79d9..225cf48 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -21,6 +21,8 @@ pub struct TlsClient<R: Read, W: Write> {
     pub writer: TlsWriter<W>,
     pub rng: OsRng,
     buf: Vec<u8>,
+    // no more data after close_notify or fatal error
+    read_closed: bool,
 }
 
 impl<R: Read, W: Write> TlsClient<R, W> {
@@ -30,6 +32,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
             writer: TlsWriter::new(writer),
             rng,
             buf: Vec::new(),
+            read_closed: false,
         };
 
         // handshake failed. send alert if necessary
@@ -328,9 +331,13 @@ impl<R: Read, W: Write> Read for TlsClient<R, W> {
         while pos < len {
             let remaining = len - pos;
             if self.buf.is_empty() {
+                if self.read_closed {
+                    break;
+                }
                 let data = match self.reader.read_application_data() {
                     Ok(data) => data,
-                    Err(_err) => {
+                    Err(err) => {
+                        self.read_closed = err.kind != TlsErrorKind::IoFailure;
                         break; // FIXME: stop if EOF. otherwise raise error?
                     }
                 };
diff --git a/src/tls.rs b/src/tls.rs
index cf6904a..79a41f1 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -9,10 +9,7 @@ use crate::tls_result::TlsErrorKind::{
 };
 use crate::tls_result::TlsResult;
 use crate::util::{ReadExt, WriteExt};
-use crate::{
-    alert::{Alert, AlertDescription},
-    util::u64_be_array,
-};
+use crate::{alert::Alert, util::u64_be_array};
 
 use self::ContentType::{AlertTy, ApplicationDataTy, ChangeCipherSpecTy, HandshakeTy};
 use self::Message::{
@@ -399,10 +396,6 @@ impl<R: ReadExt> TlsReader<R> {
             match msg {
                 ApplicationDataMessage(msg) => return Ok(msg),
                 // TODO: handle other cases
-                AlertMessage(Alert {
-                    level: _,
-                    description: AlertDescription::close_notify,
-                }) => return Ok(vec![]),
                 AlertMessage(alert) => {
                     return tls_err!(AlertReceived, "alert: {:?}", alert.description)
                 }
-- 
2.43.0


From 7d7378d547dae7b4b5875f6b36ef159c8880060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 10/19] fix: never reuse a record nonce after a failed
 transport write

---
 src/tls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 79a41f1..7b69835 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -141,14 +141,15 @@ impl<W: Write> TlsWriter<W> {
             panic!("record too long: {} > 2^14 + 2048", fragment_len);
         }
 
+        // count the record even if writing fails: its nonce must not be used again
+        self.write_count += 1;
+
         self.writer.write_u8(record.content_type as u8)?;
         self.writer.write_u8(record.ver_major)?;
         self.writer.write_u8(record.ver_minor)?;
         self.writer.write_be_u16(fragment_len as u16)?;
         self.writer.write_all(&encrypted_fragment)?;
 
-        self.write_count += 1;
-
         Ok(())
     }
 
-- 
2.43.0


From 2ff81e606fb8df1a775debbcf7292f3e398b2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 11/19] fix: reject ChangeCipherSpec in the middle of a
 handshake message

Otherwise unprotected bytes received before it become part of Finished.
---
 src/handshake.rs | 4 ++++
 src/tls.rs       | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index ec58094..8cdfe20 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -339,6 +339,10 @@ impl HandshakeBuffer {
         self.buf.extend(fragment);
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.buf.is_empty()
+    }
+
     // if message is arrived but has unknown type, the message is discarded and returns error.
     pub fn get_message(&mut self) -> TlsResult<Option<Handshake>> {
         let len = self.buf.len();
diff --git a/src/tls.rs b/src/tls.rs
index 7b69835..ab14dd1 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -346,6 +346,12 @@ impl<R: ReadExt> TlsReader<R> {
                     if record.fragment.len() != 1 || record.fragment[0] != 1 {
                         return tls_err!(UnexpectedMessage, "invalid ChangeCipherSpec arrived");
                     }
+                    if !self.handshake_buffer.is_empty() {
+                        return tls_err!(
+                            UnexpectedMessage,
+                            "ChangeCipherSpec in the middle of Handshake message"
+                        );
+                    }
                     return Ok(ChangeCipherSpecMessage);
                 }
                 AlertTy => {
-- 
2.43.0


From 19ab65da30ad396fa88ceee5206bfa5771eb300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 12/19] fix: HMAC hashes keys longer than the block instead of
 panicking

---
 src/cipher/prf.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cipher/prf.rs b/src/cipher/prf.rs
index da0e802..69a9b59 100644
--- a/src/cipher/prf.rs
+++ b/src/cipher/prf.rs
@@ -8,10 +8,13 @@ use std::mem;
 pub fn hmac_sha256(key: &[u8], msg: &[u8]) -> [u8; 32] {
     const B: usize = 64;
 
-    if key.len() > B {
-        // FIXME
-        unimplemented!();
-    }
+    let hashed_key;
+    let key = if key.len() > B {
+        hashed_key = sha256(key);
+        &hashed_key[..]
+    } else {
+        key
+    };
 
     let mut i_msg = [0x36u8; B].to_vec();
     let mut o_msg = [0x5cu8; B].to_vec();
-- 
2.43.0


From 04b8947d61dc1bfcf8c4a71a977ae7ed3eb7d6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:32 +0000
Subject: [PATCH 13/19] fix: retry interrupted transport reads

Giving up loses the bytes already read and desynchronizes the record stream.
---
 src/util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index bc10366..f0deabc 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -89,7 +89,10 @@ pub trait ReadExt: Read {
         let len = buf.len();
         let mut pos = 0;
         while pos < len {
-            let num_bytes = self.read(&mut buf[pos..])?;
+            let num_bytes = match self.read(&mut buf[pos..]) {
+                Err(ref err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                result => result?,
+            };
             if num_bytes == 0 {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
-- 
2.43.0


From 68b19e4fa7246904282cc38bc3722f29e1d4687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 14/19] Add record counter hooks guarded by cfg(husk_verif)

---
 src/lib.rs |  1 +
 src/tls.rs | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9146dac..4b94f50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,6 @@
 #![crate_type = "lib"]
 #![crate_name = "husk"]
+#![allow(unexpected_cfgs)] // cfg(husk_verif): verification hooks
 
 extern crate num;
 extern crate rand;
diff --git a/src/tls.rs b/src/tls.rs
index ab14dd1..48b74d0 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -436,6 +436,21 @@ impl<R: ReadExt> TlsReader<R> {
     }
 }
 
+// verification hooks: start record numbers near the limits of their width
+#[cfg(husk_verif)]
+impl<W: Write> TlsWriter<W> {
+    pub fn verif_set_write_count(&mut self, count: u64) {
+        self.write_count = count;
+    }
+}
+
+#[cfg(husk_verif)]
+impl<R: ReadExt> TlsReader<R> {
+    pub fn verif_set_read_count(&mut self, count: u64) {
+        self.read_count = count;
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From ac7fdb49cf44b00260b3127f044bb3dafa2b14ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 15/19] fix: reject a Handshake message whose length field is
 wrong

---
 src/handshake.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 8cdfe20..84918a7 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -223,8 +223,7 @@ macro_rules! tls_handshake(
             fn tls_read<R: ReadExt>(reader: &mut R) -> TlsResult<Handshake> {
                 let ty = reader.read_u8()?;
 
-                // HandshakeBuffer already checked validity of length
-                let _len = {
+                let len = {
                     let n1 = reader.read_u8()? as u32;
                     let n2 = reader.read_u8()? as u32;
                     let n3 = reader.read_u8()? as u32;
@@ -249,6 +248,10 @@ macro_rules! tls_handshake(
                     Ok(_) => return tls_err!(InternalError, "expected EOF but found not"),
                 }
 
+                if ret.tls_size() != 4 + len as u64 {
+                    return tls_err!(DecodeError, "Handshake message has wrong size");
+                }
+
                 Ok(ret)
             }
 
-- 
2.43.0


From ad1d734f7027ada5d3bcf6a9193b39acc5af2651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 16/19] fix: fail instead of writing a truncated length field

---
 src/handshake.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 84918a7..16badfe 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -89,6 +89,11 @@ macro_rules! tls_hello_extension {
 
         impl TlsItem for $enum_name {
             fn tls_write<W: WriteExt>(&self, writer: &mut W) -> TlsResult<()> {
+                // extension_type and extension_data_size take 4 bytes
+                if self.tls_size() - 4 > 0xffff {
+                    return tls_err!(InternalError, "Hello Extension is too large");
+                }
+
                 match *self {
                     $(
                         $enum_name::$ext_name(ref body) => {
@@ -205,9 +210,12 @@ macro_rules! tls_handshake(
                 match *self {
                     $(
                         Handshake::$name(ref body) => {
-                            writer.write_u8(tt_to_expr!($num))?;
-
                             let len = body.tls_size();
+                            if len >= 1 << 24 {
+                                return tls_err!(InternalError, "Handshake message is too large");
+                            }
+
+                            writer.write_u8(tt_to_expr!($num))?;
                             writer.write_u8(((len >> 16) & 0xff) as u8)?;
                             writer.write_u8(((len >> 8) & 0xff) as u8)?;
                             writer.write_u8((len & 0xff) as u8)?;
-- 
2.43.0


From 920753e59815758b3f436a7e285fff69ed9f8da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:07 +0000
Subject: [PATCH 17/19] fix: draw another ephemeral scalar when it is zero or
 the group order

---
 src/cipher/ecdhe.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 2c887d9..76352df 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -160,8 +160,15 @@ impl KeyExchange for EllipticDiffieHellman {
             }
         }
 
-        let x = get_random_x(rng);
-        let gx = p256::G.mult_scalar(&x).normalize().to_uncompressed_bytes();
+        // a multiple of the group order (the identity, normalized to zeros) is
+        // no public key
+        let (x, gx) = loop {
+            let x = get_random_x(rng);
+            let gx = p256::G.mult_scalar(&x).normalize();
+            if gx.x.compare(&p256::int256::ZERO) | gx.y.compare(&p256::int256::ZERO) != W(0) {
+                break (x, gx.to_uncompressed_bytes());
+            }
+        };
         let gxy = gy.mult_scalar(&x).normalize();
         let pre_master_secret = gxy.x.to_bytes();
 
-- 
2.43.0


From 8741640d454f4711e1d59d72f439c4d1f9ce4519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:36 +0000
Subject: [PATCH 18/19] fix: read returns what has come instead of waiting to
 fill the buffer

A read for more octets than the server had sent waited for a further record
although it had data to return: an answer to a request could not be read
with a larger buffer until the server closed the connection.
---
 src/client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 225cf48..29c949a 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -331,7 +331,8 @@ impl<R: Read, W: Write> Read for TlsClient<R, W> {
         while pos < len {
             let remaining = len - pos;
             if self.buf.is_empty() {
-                if self.read_closed {
+                // do not wait for more when there is something to return
+                if self.read_closed || pos > 0 {
                     break;
                 }
                 let data = match self.reader.read_application_data() {
-- 
2.43.0


From f1ca54a588e4078da935eedf41f7194bf7d65db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:37 +0000
Subject: [PATCH 19/19] fix: flush the transport before waiting for the server
 and on flush

Nothing ever flushed the writer: over a buffered one the ClientHello stayed
in the buffer and the handshake waited for ever, and flush did nothing.
---
 src/client.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 29c949a..61b85a5 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -92,6 +92,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
 
         let client_hello = Handshake::new_client_hello(random, cipher_suite, extensions)?;
         self.writer.write_handshake(&client_hello)?;
+        self.writer.get_mut().flush()?;
 
         let server_hello_data = expect!(server_hello);
         {
@@ -210,6 +211,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
         };
         let finished = Handshake::new_finished(client_verify_data)?;
         self.writer.write_handshake(&finished)?;
+        self.writer.get_mut().flush()?;
 
         // Although client->server is encrypted, server->client isn't yet.
         // server may send either ChangeCipherSpec or Alert.
@@ -254,6 +256,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
             description: alert::AlertDescription::close_notify,
         };
         self.writer.write_alert(&alert_data)?;
+        self.writer.get_mut().flush()?;
         Ok(())
     }
 
@@ -266,7 +269,10 @@ impl<R: Read, W: Write> TlsClient<R, W> {
                 let alert = alert::Alert::from_tls_err(&err);
                 let result = self.writer.write_alert(&alert);
                 match result {
-                    Ok(()) => err,
+                    Ok(()) => match self.writer.get_mut().flush() {
+                        Ok(()) => err,
+                        Err(err) => TlsError::from(err),
+                    },
                     Err(err) => err,
                 }
             }
@@ -296,7 +302,7 @@ impl<R: Read, W: Write> Write for TlsClient<R, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        Ok(())
+        self.writer.get_mut().flush()
     }
 
     fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
-- 
2.43.0

