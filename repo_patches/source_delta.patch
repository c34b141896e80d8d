From 8de4f90fedc3444db8a5246b8cbf24bdc6cb9acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 01/32] fix: read WebSocket frames directly from the stream

A `BufReader` created for every frame swallowed the frames that arrived in
the same segment, and a short read of the header or of the masking key was
reported as missing data.
---
 puck/src/ws/frame.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index b2a0993..1371ed1 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -1,6 +1,6 @@
 //! WebSocket frame parsing.
 
-use std::io::{BufReader, Read, Write};
+use std::io::{Read, Write};
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
 
@@ -19,14 +19,15 @@ pub struct Frame {
 
 impl Frame {
     /// Parse a frame from the given stream.
-    pub fn parse(stream: impl Read) -> Result<Self, ParseFrameError> {
-        let mut bufread = BufReader::new(stream);
-
+    ///
+    /// This reads exactly the bytes of one frame, so that the frames following it remain on the
+    /// stream.
+    pub fn parse(mut stream: impl Read) -> Result<Self, ParseFrameError> {
         let (first, second) = {
             let mut buffer = [0_u8; 2];
-            if bufread.read(&mut buffer)? != 2 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            stream
+                .read_exact(&mut buffer)
+                .map_err(|_| ParseFrameError::InsufficientData)?;
             (buffer[0], buffer[1])
         };
 
@@ -51,8 +52,8 @@ impl Frame {
         let masked = second & 0x80 != 0;
 
         let payload_length = match second & 0x7F {
-            126 => bufread.read_uint::<NetworkEndian>(2)?,
-            127 => bufread.read_uint::<NetworkEndian>(8)?,
+            126 => stream.read_uint::<NetworkEndian>(2)?,
+            127 => stream.read_uint::<NetworkEndian>(8)?,
             i => i as u64,
         };
 
@@ -62,13 +63,13 @@ impl Frame {
 
         let decoded = if payload_length > 0 {
             let mut masking_key = [0_u8; 4];
-            if bufread.read(&mut masking_key)? != 4 {
-                return Err(ParseFrameError::InsufficientData);
-            }
+            stream
+                .read_exact(&mut masking_key)
+                .map_err(|_| ParseFrameError::InsufficientData)?;
 
             let mut encoded = Vec::with_capacity(payload_length as usize);
 
-            let n = bufread.take(payload_length).read_to_end(&mut encoded)?;
+            let n = stream.take(payload_length).read_to_end(&mut encoded)?;
             if n != payload_length as usize {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
-- 
2.43.0


From fcdb7a2afe18eda25f1d6cc1d2b64077ceba0d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 02/32] fix: consume the masking key of empty WebSocket frames

---
 puck/src/ws/frame.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index 1371ed1..e3d1d65 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -61,12 +61,15 @@ impl Frame {
             return Err(ParseFrameError::MaskNotSet);
         }
 
-        let decoded = if payload_length > 0 {
-            let mut masking_key = [0_u8; 4];
+        // the masking key is present whenever the mask bit is set, even if there is no payload
+        let mut masking_key = [0_u8; 4];
+        if masked {
             stream
                 .read_exact(&mut masking_key)
                 .map_err(|_| ParseFrameError::InsufficientData)?;
+        }
 
+        let decoded = if payload_length > 0 {
             let mut encoded = Vec::with_capacity(payload_length as usize);
 
             let n = stream.take(payload_length).read_to_end(&mut encoded)?;
-- 
2.43.0


From e83d60ec7372f9f765d83ef499b816e20a075b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 03/32] fix: don't allocate the claimed length of a WebSocket
 frame up front

A ten byte header could make the process allocate gigabytes, and on 32 bit
targets the 64 bit length was truncated.
---
 puck/src/ws/frame.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index e3d1d65..ef55188 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -70,17 +70,18 @@ impl Frame {
         }
 
         let decoded = if payload_length > 0 {
-            let mut encoded = Vec::with_capacity(payload_length as usize);
+            // don't trust the length the client claims: only allocate for data which has arrived
+            let mut encoded = Vec::new();
 
             let n = stream.take(payload_length).read_to_end(&mut encoded)?;
-            if n != payload_length as usize {
+            if n as u64 != payload_length {
                 if !fin && payload_length > n as u64 {
                     return Err(ParseFrameError::WaitForNextFrame(payload_length - n as u64));
                 }
                 return Err(ParseFrameError::IoError);
             }
 
-            let mut decoded = vec![0_u8; payload_length as usize];
+            let mut decoded = vec![0_u8; encoded.len()];
             for i in 0..encoded.len() {
                 decoded[i] = encoded[i] ^ masking_key[i % 4];
             }
-- 
2.43.0


From 6ac37074c6a0492b798d797b683576345448df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 04/32] fix: encode a payload of 65535 bytes with the minimal
 length field

---
 puck/src/ws/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/puck/src/ws/frame.rs b/puck/src/ws/frame.rs
index ef55188..f2fa6bc 100644
--- a/puck/src/ws/frame.rs
+++ b/puck/src/ws/frame.rs
@@ -136,7 +136,7 @@ impl Frame {
 
         let len = self.decoded.len();
 
-        if len >= 126_usize && len < u16::MAX as usize {
+        if len >= 126_usize && len <= u16::MAX as usize {
             to.write_u16::<NetworkEndian>(len as u16)?;
         } else if len >= 126 {
             to.write_u64::<NetworkEndian>(len as u64)?;
@@ -148,7 +148,7 @@ impl Frame {
     pub(crate) fn format_length(len: u64) -> u8 {
         if len < 126 {
             len as u8
-        } else if len < u16::MAX as u64 {
+        } else if len <= u16::MAX as u64 {
             126
         } else {
             127
-- 
2.43.0


From c18fbaf49cb1e82c8f93c3cbfd0027444e831f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 05/32] fix: reject reserved bits and malformed control frames

---
 puck/src/ws/message.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index 835b195..d273917 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -25,6 +25,7 @@ impl Message {
     pub fn next(stream: impl Read + Clone) -> Result<Self, DecodeMessageError> {
         log::trace!("trying to parse next message");
         let first = Frame::parse(stream.clone())?;
+        check_frame(&first)?;
 
         if first.op_code() == &OpCode::Terminate {
             trace!("Client asked to close connection");
@@ -64,6 +65,7 @@ impl Message {
 
         loop {
             let msg = Frame::parse(stream.clone())?;
+            check_frame(&msg)?;
 
             if msg.op_code() == &OpCode::Terminate {
                 trace!("Client asked to close connection");
@@ -103,6 +105,25 @@ impl Message {
     }
 }
 
+/// Check the rules which every frame has to follow: no extension has been negotiated, so that the
+/// reserved bits must be zero, and control frames are neither fragmented nor longer than 125 bytes.
+fn check_frame(frame: &Frame) -> Result<(), DecodeMessageError> {
+    let control = matches!(
+        frame.op_code,
+        OpCode::Terminate | OpCode::Ping | OpCode::Pong
+    );
+
+    if frame.rsv1
+        || frame.rsv2
+        || frame.rsv3
+        || (control && (!frame.fin || frame.decoded.len() > 125))
+    {
+        return Err(DecodeMessageError::ClientProtocolViolationError);
+    }
+
+    Ok(())
+}
+
 #[derive(thiserror::Error, Debug)]
 /// An error encountered when trying to decode a WebSocket message.
 #[allow(missing_docs)]
-- 
2.43.0


From 67d26a074e8c3381d4150e78cab95d46b09a5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 06/32] fix: reject a fragmented message which starts with
 something other than data

---
 puck/src/ws/message.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/puck/src/ws/message.rs b/puck/src/ws/message.rs
index d273917..29ff7dc 100644
--- a/puck/src/ws/message.rs
+++ b/puck/src/ws/message.rs
@@ -61,6 +61,11 @@ impl Message {
 
         let op_code = *first.op_code();
 
+        // only data messages can be fragmented, and there is no message to continue yet
+        if op_code != OpCode::Binary && op_code != OpCode::Text {
+            return Err(DecodeMessageError::ClientProtocolViolationError);
+        }
+
         let mut payload = first.take_decoded();
 
         loop {
-- 
2.43.0


From ea668dec73083eceea0194ad1422f04f66fe73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 07/32] fix: do not panic when the WebSocket peer is gone while
 a control frame is sent

---
 puck/src/ws/websocket.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/puck/src/ws/websocket.rs b/puck/src/ws/websocket.rs
index 9df687d..21ec760 100644
--- a/puck/src/ws/websocket.rs
+++ b/puck/src/ws/websocket.rs
@@ -59,7 +59,7 @@ impl WebSocket {
     pub fn close(self) -> Result<UsedStream, SendFrameError> {
         match self.state {
             WebSocketState::Open => {
-                send_close_frame(self.stream.clone());
+                send_close_frame(self.stream.clone())?;
             }
             WebSocketState::Closed => {}
         };
@@ -87,7 +87,7 @@ impl Iterator for WebSocket {
             WebSocketState::Open => match Message::next(self.stream.clone()) {
                 Ok(msg) => {
                     if let Message::Ping(ref payload) = msg {
-                        send_frame(
+                        let sent = send_frame(
                             self.stream.clone(),
                             Frame {
                                 fin: true,
@@ -97,8 +97,12 @@ impl Iterator for WebSocket {
                                 op_code: super::frame::OpCode::Pong,
                                 decoded: payload.clone().unwrap_or_default(),
                             },
-                        )
-                        .expect("failed to send pong");
+                        );
+                        if sent.is_err() {
+                            // the other party is gone
+                            self.state = WebSocketState::Closed;
+                            return Some(Err(NextMessageError::ConnectionClosed));
+                        }
                     }
                     Ok(msg)
                 }
@@ -108,7 +112,8 @@ impl Iterator for WebSocket {
                     }
                     super::message::DecodeMessageError::ClientSentCloseFrame => {
                         self.state = WebSocketState::Closed;
-                        send_close_frame(self.stream.clone());
+                        // the other party may already have hung up
+                        let _ = send_close_frame(self.stream.clone());
                         Err(NextMessageError::ConnectionClosed)
                     }
                 },
@@ -129,7 +134,7 @@ pub enum NextMessageError {
     ConnectionClosed,
 }
 
-fn send_close_frame(stream: impl Write) {
+fn send_close_frame(stream: impl Write) -> Result<(), SendFrameError> {
     trace!("Sending close frame");
     send_frame(
         stream,
@@ -142,5 +147,4 @@ fn send_close_frame(stream: impl Write) {
             decoded: vec![],
         },
     )
-    .expect("failed to send close frame");
 }
-- 
2.43.0


From 29d9756f411af62efe99812889a2231ca6c3255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 08/32] fix: do not panic when the client hangs up during a
 WebSocket upgrade

---
 puck/src/core/mod.rs   |  4 +++-
 puck/src/ws/upgrade.rs | 14 +++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 571f59f..3370ebb 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -137,7 +137,9 @@ impl Stream {
         self.keep_alive = false;
 
         if !ws::should_upgrade(req) {
-            return Err(self.respond(crate::err_400()).unwrap());
+            return Err(self
+                .respond(crate::err_400())
+                .unwrap_or_else(|_| UsedStream::empty()));
         }
 
         if !ws::perform_upgrade(req, self.stream.clone()) {
diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 96b1745..235e420 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -4,7 +4,7 @@ use base64::encode;
 use log::trace;
 use sha1::{Digest, Sha1};
 
-use crate::{err_400, write_response, Response};
+use crate::{err_400, response::encoder::Encoder, Response};
 
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
@@ -32,24 +32,24 @@ pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-            write_response(err_400(), stream);
+            // there is nothing left to do if the client has already hung up
+            let _ = Encoder::new(err_400()).write_tcp_stream(stream);
             return false;
         }
     };
 
     let result = compute_accept_header(key.clone());
 
-    write_response(
+    Encoder::new(
         Response::build()
             .header("Sec-WebSocket-Accept", result)
             .header("Upgrade", "websocket")
             .header("Connection", "Upgrade")
             .status(101, "Web Socket Protocol Handshake")
             .build(),
-        stream,
-    );
-
-    true
+    )
+    .write_tcp_stream(stream)
+    .is_ok()
 }
 
 fn compute_accept_header(key: String) -> String {
-- 
2.43.0


From 24e235c96bffc0f3e73604ccce33418438f9e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 09/32] fix: look up the headers of a WebSocket upgrade
 case-insensitively

---
 puck/src/ws/upgrade.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/puck/src/ws/upgrade.rs b/puck/src/ws/upgrade.rs
index 235e420..7117e2d 100644
--- a/puck/src/ws/upgrade.rs
+++ b/puck/src/ws/upgrade.rs
@@ -6,16 +6,21 @@ use sha1::{Digest, Sha1};
 
 use crate::{err_400, response::encoder::Encoder, Response};
 
+/// Look up a header; the names of headers are case-insensitive.
+fn header<'a>(req: &'a crate::Request, name: &str) -> Option<&'a String> {
+    req.headers
+        .iter()
+        .find(|(key, _)| key.eq_ignore_ascii_case(name))
+        .map(|(_, value)| value)
+}
+
 /// Compute whether or not this request can be upgraded.
 pub fn should_upgrade(req: &crate::Request) -> bool {
-    req.headers
-        .get("Upgrade")
+    header(req, "Upgrade")
         .map(|val| val.to_ascii_lowercase() == "websocket")
         .unwrap_or_default()
         // todo: read the spec to check if the check for the upgrade header is correct!
-        && req
-            .headers
-            .get("Connection")
+        && header(req, "Connection")
             .map(|val| val.to_ascii_lowercase().contains("upgrade"))
             .unwrap_or_default()
 }
@@ -28,7 +33,7 @@ const GUID: &str = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11";
 /// Returns true if this is successful, and false if it is not. Automatically sends a 400 Bad
 /// Request response if the request fails.
 pub fn perform_upgrade(req: &crate::Request, stream: impl Write) -> bool {
-    let key = match req.headers.get("Sec-WebSocket-Key") {
+    let key = match header(req, "Sec-WebSocket-Key") {
         Some(t) => t,
         None => {
             trace!("Rejecting WebSocket upgrade because of missing `Sec-WebSocket-Key` header.");
-- 
2.43.0


From f62b1bbebdcb9f11726cc654f045f033559fae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 10/32] fix: keep the query when a request is written

---
 puck/src/request/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 7985430..52a6b7f 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -118,8 +118,11 @@ impl Request {
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
         self.method.write(write)?;
-        write!(write, " {} ", self.url.path())?;
-        write!(write, "HTTP/1.1\r\n")?;
+        write!(write, " {}", self.url.path())?;
+        if let Some(query) = self.url.query() {
+            write!(write, "?{}", query)?;
+        }
+        write!(write, " HTTP/1.1\r\n")?;
         for (key, value) in &self.headers {
             write!(write, "{}: {}\r\n", key, value)?;
         }
-- 
2.43.0


From a70600e94d3fb4c5a6217250c7f4742fdcf2a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 11/32] fix: write and recognise the HEAD method

---
 puck/src/request/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 52a6b7f..fa94f79 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -226,6 +226,7 @@ impl Method {
         match str.to_ascii_lowercase().as_str() {
             "get" => Self::Get,
             "post" => Self::Post,
+            "head" => Self::Head,
             _ => Self::OtherMethod(str.to_string()),
         }
     }
@@ -235,7 +236,7 @@ impl Method {
         let to_write = match self {
             Method::Get => "GET",
             Method::Post => "POST",
-            Method::Head => "HEAD /",
+            Method::Head => "HEAD",
             Method::OtherMethod(name) => name,
         };
         write!(write, "{}", to_write)
-- 
2.43.0


From 4bf43b16153fc0cc9da0bd20c1ed99569b64355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 12/32] fix: reject requests with an invalid or ambiguous
 Content-Length

---
 puck/src/request/mod.rs | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index fa94f79..41dbffb 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -81,6 +81,24 @@ impl Request {
             map
         };
 
+        let content_length = {
+            let mut content_length = None;
+            for header in req
+                .headers
+                .iter()
+                .filter(|header| header.name.eq_ignore_ascii_case("content-length"))
+            {
+                let length = parse_content_length(header.value)
+                    .ok_or(RequestParseError::InvalidContentLength)?;
+                // which of several lengths is the right one is anyone's guess
+                if content_length.map_or(false, |other| other != length) {
+                    return Err(RequestParseError::InvalidContentLength);
+                }
+                content_length = Some(length);
+            }
+            content_length
+        };
+
         let url =
             if let Some((_, host)) = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("host")) {
                 let url = req.path.ok_or(RequestParseError::InvalidUrl)?;
@@ -98,13 +116,7 @@ impl Request {
                 return Err(RequestParseError::MissingHeader("Host".to_string()));
             };
 
-        let body = Body::from_reader(
-            reader,
-            headers
-                .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
-                .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
-        );
+        let body = Body::from_reader(reader, content_length);
 
         Ok(Some(Self {
             headers,
@@ -169,6 +181,14 @@ impl Request {
     }
 }
 
+/// The value of a `Content-Length` header: nothing but digits.
+fn parse_content_length(value: &[u8]) -> Option<usize> {
+    if !value.iter().all(u8::is_ascii_digit) {
+        return None;
+    }
+    std::str::from_utf8(value).ok()?.parse().ok()
+}
+
 #[derive(thiserror::Error, Debug)]
 /// An error encountered when trying to parse a request.
 pub enum RequestParseError {
@@ -190,6 +210,9 @@ pub enum RequestParseError {
     /// The request method is missing.
     #[error("missing method")]
     MissingMethod,
+    /// The `Content-Length` is not a number, or there are several which differ.
+    #[error("the content length is invalid")]
+    InvalidContentLength,
 }
 
 impl From<std::io::Error> for RequestParseError {
-- 
2.43.0


From be2bd150ecc63a16f8b0f43496dd3eeb442be8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 13/32] fix: reject Host headers which would change the path of
 the request

---
 puck/src/request/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 41dbffb..555c017 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -101,6 +101,10 @@ impl Request {
 
         let url =
             if let Some((_, host)) = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("host")) {
+                // these would end the host early, and make the rest of it a part of the path
+                if host.is_empty() || host.contains(&['/', '\\', '?', '#', '@'][..]) {
+                    return Err(RequestParseError::InvalidUrl);
+                }
                 let url = req.path.ok_or(RequestParseError::InvalidUrl)?;
                 if url.starts_with("http://") || url.starts_with("https://") {
                     Url::parse(url)
-- 
2.43.0


From 62044b3b8ca405dba231fc3a4e0241f6e89b3162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 14/32] fix: reject a request whose head ends before the blank
 line that was waited for

---
 puck/src/request/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 555c017..3946467 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -68,7 +68,11 @@ impl Request {
             }
         }
 
-        let _ = req.parse(&buf)?;
+        match req.parse(&buf)? {
+            httparse::Status::Complete(length) if length == buf.len() => {}
+            // an empty line which does not end in "\r\n": what follows it is not a part of the head
+            _ => return Err(httparse::Error::NewLine.into()),
+        }
         let method = Method::new_from_str(req.method.ok_or(RequestParseError::MissingMethod)?);
         let headers = {
             let mut map = HashMap::new();
-- 
2.43.0


From 1e5c8d674b3205bb42fd4e40eeba3e636ddf7362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 15/32] fix: take the length of a response's body from
 Content-Length

---
 puck/src/response/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index b6fce84..35c391a 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -108,7 +108,7 @@ impl Response {
             reader,
             headers
                 .iter()
-                .find(|(key, _)| key.eq_ignore_ascii_case("content-type"))
+                .find(|(key, _)| key.eq_ignore_ascii_case("content-length"))
                 .and_then(|(_, len)| len.as_str().parse::<usize>().ok()),
         );
 
-- 
2.43.0


From 616f01a3ec6d6297933ed9e34649892ce9e82a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 16/32] fix: report responses which cannot be parsed

---
 puck/src/response/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 35c391a..149a6e7 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -75,7 +75,11 @@ impl Response {
             }
         }
 
-        let _ = res.parse(&buf);
+        match res.parse(&buf)? {
+            httparse::Status::Complete(length) if length == buf.len() => {}
+            // an empty line which does not end in "\r\n": what follows it is not a part of the head
+            _ => return Err(httparse::Error::NewLine.into()),
+        }
 
         let headers = {
             let mut map = HashMap::new();
@@ -142,6 +146,8 @@ impl Response {
 pub enum ParseResponseError {
     #[error("io error")]
     IoError(io::Error),
+    #[error("could not parse")]
+    CouldNotParse(httparse::Error),
     #[error("the status code was not supplied")]
     MissingStatusCode,
     #[error("a reason was not supplied")]
@@ -155,3 +161,9 @@ impl From<io::Error> for ParseResponseError {
         Self::IoError(error)
     }
 }
+
+impl From<httparse::Error> for ParseResponseError {
+    fn from(error: httparse::Error) -> Self {
+        Self::CouldNotParse(error)
+    }
+}
-- 
2.43.0


From 6db411a7065a48ecf1b907f9b5313661aa64df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:14 +0000
Subject: [PATCH 17/32] fix: don't allocate the claimed length of a body up
 front

---
 puck/src/body/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/puck/src/body/mod.rs b/puck/src/body/mod.rs
index 059f130..8be08a1 100644
--- a/puck/src/body/mod.rs
+++ b/puck/src/body/mod.rs
@@ -77,7 +77,8 @@ impl Body {
     /// Reads to completion from the underlying IO source, and returns the result as a
     /// `String`.
     pub fn into_string(mut self) -> std::io::Result<String> {
-        let mut result = String::with_capacity(self.length.unwrap_or(0));
+        // the length is what the other side claims, so don't allocate all of it up front
+        let mut result = String::with_capacity(self.length.unwrap_or(0).min(1024));
         self.read_to_string(&mut result)?;
         Ok(result)
     }
-- 
2.43.0


From c0ac93adaf0393d5c27f541fa1515336b0a7d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 18/32] fix: answer malformed requests with a 400 instead of
 panicking

---
 puck/src/core/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/puck/src/core/mod.rs b/puck/src/core/mod.rs
index 3370ebb..b77f46c 100644
--- a/puck/src/core/mod.rs
+++ b/puck/src/core/mod.rs
@@ -48,7 +48,7 @@ where
                     |(stream, ints, state), _: Mailbox<()>| {
                         let router = Router::<STATE>::from_ints(ints);
 
-                        let req = if let Some(req) = Request::parse(stream.clone()).unwrap() {
+                        let req = if let Ok(Some(req)) = Request::parse(stream.clone()) {
                             req
                         } else {
                             let stream = Stream::new(stream, false);
@@ -98,7 +98,9 @@ where
                                 let _recovered_stream = (reconstructed_func)(req, stream, state);
                             }
                             _ => {
-                                todo!()
+                                // can't do much if this fails
+                                // todo: log it somehow
+                                let _ = Stream::new(stream, false).respond(crate::err_400());
                             }
                         }
                     },
-- 
2.43.0


From 2540d2ba647c2c1602bc90119f2044f2dc219fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 19/32] fix: answer malformed requests with a 400 in
 Router::run

---
 puck/src/core/router/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/puck/src/core/router/mod.rs b/puck/src/core/router/mod.rs
index e1e4d39..023373d 100644
--- a/puck/src/core/router/mod.rs
+++ b/puck/src/core/router/mod.rs
@@ -108,6 +108,9 @@ impl<STATE: Serialize + DeserializeOwned + Clone> Router<STATE> {
                     if let Ok(Some(req)) = Request::parse(stream.clone()) {
                         let router = Router::<STATE>::from_ints(ints);
                         router.respond(req, Stream::new(stream, false), state);
+                    } else {
+                        // can't do much if this fails
+                        let _ = Stream::new(stream, false).respond(crate::err_400());
                     }
                 },
             );
-- 
2.43.0


From cf4cc8e7008607ce56f30fa0e81e1fe097b5227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 20/32] fix: refuse to write a response whose head would be
 split by a line break

---
 puck/src/response/encoder.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/puck/src/response/encoder.rs b/puck/src/response/encoder.rs
index 3598763..f054951 100644
--- a/puck/src/response/encoder.rs
+++ b/puck/src/response/encoder.rs
@@ -18,6 +18,19 @@ impl Encoder {
 
     /// Write the current response to the given stream.
     pub fn write_tcp_stream(&mut self, mut stream: impl Write) -> std::io::Result<()> {
+        let line_break = |s: &str| s.contains(&['\r', '\n'][..]);
+        if line_break(&self.response.reason)
+            || self
+                .response
+                .headers
+                .iter()
+                .any(|(header, value)| line_break(header) || line_break(value))
+        {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidInput,
+                "a line break in the head of a response",
+            ));
+        }
         write!(
             stream,
             "HTTP/1.1 {} {}\r\n",
-- 
2.43.0


From 923c5263b411aa46288744197332b71acf0e79eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:38 +0000
Subject: [PATCH 21/32] fix: refuse to write a request whose head would be
 split by a line break

---
 puck/src/request/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 3946467..ef2d48e 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -137,6 +137,17 @@ impl Request {
     /// Write this `Request` into the provided writer. Note that this will modify the `Request`
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
+        let line_break = |s: &str| s.contains(&['\r', '\n'][..]);
+        if self
+            .headers
+            .iter()
+            .any(|(header, value)| line_break(header) || line_break(value))
+        {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidInput,
+                "a line break in a header of a request",
+            ));
+        }
         self.method.write(write)?;
         write!(write, " {}", self.url.path())?;
         if let Some(query) = self.url.query() {
-- 
2.43.0


From f69c48849a1793402b9b5d50a512d5cad09ef7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 22/32] fix: replacing a body left its old content-type header
 in another letter case

---
 puck/src/request/mod.rs  | 3 +++
 puck/src/response/mod.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index ef2d48e..31c3c02 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -190,6 +190,9 @@ impl Request {
     }
 
     fn copy_content_type_from_body(&mut self) {
+        // the name of a header may be written in any letter case
+        self.headers
+            .retain(|name, _| !name.eq_ignore_ascii_case("content-type"));
         self.headers
             .insert("Content-Type".into(), self.body.mime.to_string());
     }
diff --git a/puck/src/response/mod.rs b/puck/src/response/mod.rs
index 149a6e7..11eb092 100644
--- a/puck/src/response/mod.rs
+++ b/puck/src/response/mod.rs
@@ -27,6 +27,9 @@ pub struct Response {
 
 impl Response {
     fn copy_content_type_from_body(&mut self) {
+        // the name of a header may be written in any letter case
+        self.headers
+            .retain(|name, _| !name.eq_ignore_ascii_case("content-type"));
         self.headers
             .insert("Content-Type".into(), self.body.mime.to_string());
     }
-- 
2.43.0


From 39e3d2bca44485b7809c6626518fcd4b6382eca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 23/32] fix: a liveview session ends with its connection

The process reading the WebSocket sent errors to the component without end
once the connection was closed or had failed.
---
 puck_liveview/src/component/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 9de4e09..6de781e 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -68,11 +68,13 @@ where
 
             Process::spawn(
                 (stream, process.clone()),
-                |(mut websocket, process), _: Mailbox<()>| loop {
-                    loop {
-                        let msg = websocket.next();
-                        if let Some(msg) = msg {
-                            process.send(WsOrInput::Ws(msg))
+                |(websocket, process), _: Mailbox<()>| {
+                    for msg in websocket {
+                        // nothing can be read from the connection after an error
+                        let is_last = msg.is_err();
+                        process.send(WsOrInput::Ws(msg));
+                        if is_last {
+                            break;
                         }
                     }
                 },
@@ -164,9 +166,8 @@ fn main_loop<COMPONENT, DATA, INPUT>(
                     };
                 } else if let Err(e) = msg {
                     match e {
-                        // todo: what should we do here?
-                        NextMessageError::ClientError => {}
-                        NextMessageError::ConnectionClosed => {
+                        // no more messages will be received, in both cases
+                        NextMessageError::ClientError | NextMessageError::ConnectionClosed => {
                             drop(component);
                             return;
                         }
-- 
2.43.0


From 328efa5d031169430c6202121147820db3e78889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:08 +0000
Subject: [PATCH 24/32] fix: liveview changes the name and listeners of an
 element under its current id

The instructions named the id that the element is only given afterwards; and
the listeners of an element whose tag name changes were lost.
---
 puck_liveview/src/dom/element/diff/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index 9c4660f..fc9eaa8 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -57,7 +57,7 @@ impl Element {
             })
         }
 
-        cs.extend(self.generate_listeners());
+        cs.extend(self.generate_listeners(self.id()));
 
         if let Some(ref value) = self.text {
             cs.ops.push(Op {
@@ -116,7 +116,7 @@ impl Element {
     fn diff_name<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         if self.name != other.name {
             Changeset::from_op(Op {
-                id: other.id(),
+                id: self.id(),
                 instruction: Instruction::SetTagName {
                     name: Cow::Borrowed(&other.name),
                 },
@@ -178,25 +178,27 @@ impl Element {
     fn diff_listeners<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
         let mut c = Changeset::empty();
 
-        if self.listeners == other.listeners {
+        // an element that is given another tag name loses its listeners
+        if self.listeners == other.listeners && self.name == other.name {
         } else {
             c.ops.push(Op {
                 id: self.id(),
                 instruction: Instruction::RemoveListeners,
             });
-            c.ops.extend(other.generate_listeners())
+            c.ops.extend(other.generate_listeners(self.id()))
         }
 
         c
     }
 
-    /// Generates all the listeners which should be attached to a given `Element`.
-    fn generate_listeners(&'_ self) -> Changeset<'_> {
+    /// Generates all the listeners which should be attached to a given `Element`, which currently
+    /// has the given ID.
+    fn generate_listeners(&'_ self, id: String) -> Changeset<'_> {
         let mut c = Changeset::empty();
 
         for listener in self.listeners.iter() {
             c.ops.push(Op {
-                id: self.id(),
+                id: id.clone(),
                 instruction: Instruction::AttachListener {
                     name: listener.listener_name().to_string(),
                     on: listener.js_event().to_string(),
-- 
2.43.0


From 229fd836a9edf294cb874a582dc97ea3862a2654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:34 +0000
Subject: [PATCH 25/32] fix: liveview keeps the ids of elements apart while
 updating a document

Elements were given their new ids one after the other, while other elements
still had these; later instructions then applied to the wrong element.
---
 puck_liveview/src/dom/element/diff/mod.rs | 140 +++++++++++++++++-----
 1 file changed, 110 insertions(+), 30 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index fc9eaa8..e019864 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -4,12 +4,78 @@ pub(crate) mod changeset;
 #[allow(unused_parens)]
 mod test_diffing;
 
-use std::borrow::Cow;
+use std::{borrow::Cow, collections::HashSet};
 
 use self::changeset::{Changeset, Instruction, Op};
 
 use super::Element;
 
+/// Keeps track of the IDs of the elements of a document while it is being updated. The elements which
+/// are in the document keep their old IDs until everything else has been done.
+#[derive(Default)]
+struct Ids {
+    old: HashSet<usize>,
+    new: HashSet<usize>,
+    /// Changes to be made to the elements which were already there.
+    changed: Vec<(usize, usize)>,
+    /// Elements which have a temporary ID, because theirs is still in use.
+    temporary: Vec<(usize, usize)>,
+    next_temporary: usize,
+}
+
+impl Ids {
+    fn new(old: &Element, new: &Element) -> Self {
+        fn collect(el: &Element, ids: &mut HashSet<usize>) {
+            ids.insert(el.id);
+            for child in el.children.iter() {
+                collect(child, ids);
+            }
+        }
+
+        let mut ids = Self::default();
+        collect(old, &mut ids.old);
+        collect(new, &mut ids.new);
+        ids
+    }
+
+    /// The ID to be given to an element for the time being, which will finally have the given ID.
+    fn available(&mut self, id: usize) -> usize {
+        if !self.old.contains(&id) {
+            return id;
+        }
+        while self.old.contains(&self.next_temporary) || self.new.contains(&self.next_temporary) {
+            self.next_temporary += 1;
+        }
+        let temporary = self.next_temporary;
+        self.next_temporary += 1;
+        self.temporary.push((temporary, id));
+        temporary
+    }
+
+    /// Emits the instructions to give all the elements their new IDs.
+    fn finish<'a>(mut self) -> Changeset<'a> {
+        fn set_id<'a>(from: usize, to: usize) -> Op<'a> {
+            Op {
+                id: from.to_string(),
+                instruction: Instruction::SetId {
+                    value: to.to_string(),
+                },
+            }
+        }
+
+        let mut cs = Changeset::empty();
+
+        for (from, to) in std::mem::take(&mut self.changed) {
+            cs.ops.push(set_id(from, self.available(to)));
+        }
+        for (from, to) in self.temporary {
+            cs.ops.push(set_id(from, to));
+        }
+
+        cs
+    }
+}
+
 impl Element {
     /// Compare two root nodes and produce a set of instructions which can be followed to produce
     /// one from the other.
@@ -17,39 +83,56 @@ impl Element {
         let mut c = Changeset::empty();
 
         if let Some(other) = other {
+            let mut ids = Ids::new(self, other);
             // we need to apply all these updates...
-            c.ops.extend(self.diff_name(other));
-            c.ops.extend(self.diff_attributes(other));
-            c.ops.extend(self.diff_text(other));
-            c.ops.extend(self.diff_listeners(other));
-            // ... before we change the id
-            c.ops.extend(self.diff_children(other));
-            c.ops.extend(self.diff_id(other));
+            c.extend(self.diff_with(other, &mut ids));
+            // ... before we change the ids
+            c.extend(ids.finish());
         } else {
-            c.ops.extend(self.create_from_scratch(None))
+            c.extend(self.create_from_scratch(None, &mut Ids::default()))
         }
 
         c
     }
 
+    /// Compare two nodes and produce the instructions to obtain one from the other, except for the
+    /// IDs.
+    fn diff_with<'a>(&'a self, other: &'a Element, ids: &mut Ids) -> Changeset<'a> {
+        let mut c = Changeset::empty();
+
+        c.ops.extend(self.diff_name(other));
+        c.ops.extend(self.diff_attributes(other));
+        c.ops.extend(self.diff_text(other));
+        c.ops.extend(self.diff_listeners(other));
+        c.ops.extend(self.diff_children(other, ids));
+        self.diff_id(other, ids);
+
+        c
+    }
+
     /// Create a new element from scratch – generally used for the first application paint.
     ///
     /// In the future we should just send this as a serialized HTML string, rather than a series of
     /// Javascript instructions.
-    fn create_from_scratch(&self, parent: Option<&Element>) -> Changeset {
+    fn create_from_scratch<'a>(
+        &'a self,
+        parent_id: Option<String>,
+        ids: &mut Ids,
+    ) -> Changeset<'a> {
         let mut cs = Changeset::empty();
+        let id = ids.available(self.id).to_string();
 
         cs.ops.push(Op {
-            id: self.id(),
+            id: id.clone(),
             instruction: Instruction::CreateTag {
                 name: Cow::Borrowed(&self.name),
-                parent_id: parent.map(|parent| parent.id()),
+                parent_id,
             },
         });
 
         for (key, value) in self.attributes.iter() {
             cs.ops.push(Op {
-                id: self.id(),
+                id: id.clone(),
                 instruction: Instruction::SetAttribute {
                     key: Cow::Borrowed(key),
                     value: Cow::Borrowed(value),
@@ -57,11 +140,11 @@ impl Element {
             })
         }
 
-        cs.extend(self.generate_listeners(self.id()));
+        cs.extend(self.generate_listeners(id.clone()));
 
         if let Some(ref value) = self.text {
             cs.ops.push(Op {
-                id: self.id(),
+                id: id.clone(),
                 instruction: Instruction::SetText {
                     value: Cow::Borrowed(value),
                 },
@@ -69,7 +152,7 @@ impl Element {
         }
 
         for child in self.children.iter() {
-            cs.extend(child.create_from_scratch(Some(self)));
+            cs.extend(child.create_from_scratch(Some(id.clone()), ids));
         }
 
         cs
@@ -98,16 +181,11 @@ impl Element {
         cs
     }
 
-    /// Compares the ID's of two elements and emits instructions to update the underlying DOM node
+    /// Compares the ID's of two elements and notes that the underlying DOM node has to be updated
     /// so that it has the new ID.
-    fn diff_id<'a>(&'a self, other: &'a Element) -> Changeset {
+    fn diff_id(&self, other: &Element, ids: &mut Ids) {
         if self.id != other.id {
-            Changeset::from_op(Op {
-                id: self.id(),
-                instruction: Instruction::SetId { value: other.id() },
-            })
-        } else {
-            Changeset::empty()
+            ids.changed.push((self.id, other.id));
         }
     }
 
@@ -218,7 +296,7 @@ impl Element {
 
     /// Compares the children of two nodes and emits instructions to update the old children to
     /// assume the form of the new children.
-    fn diff_children<'a>(&'a self, other: &'a Element) -> Changeset<'a> {
+    fn diff_children<'a>(&'a self, other: &'a Element, ids: &mut Ids) -> Changeset<'a> {
         let mut changeset = Changeset::empty();
 
         if self.children_are_all_keyed() && other.children_are_all_keyed() {
@@ -227,7 +305,7 @@ impl Element {
             for (i, their_child) in other.children.iter().enumerate() {
                 if let Some(my_child) = self.locate_child_by_key(their_child.key.as_ref().unwrap())
                 {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    changeset.ops.extend(my_child.diff_with(their_child, ids));
                 } else {
                     unpaired.push(i);
                 }
@@ -273,7 +351,7 @@ impl Element {
             #[allow(clippy::comparison_chain)]
             if self_len == other_len {
                 for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    changeset.ops.extend(my_child.diff_with(their_child, ids));
                 }
                 // we are done
             } else if self_len > other_len {
@@ -284,15 +362,17 @@ impl Element {
                     })
                 }
                 for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    changeset.ops.extend(my_child.diff_with(their_child, ids));
                 }
             } else {
                 for (my_child, their_child) in self.children.iter().zip(&other.children) {
-                    changeset.ops.extend(my_child.diff(Some(their_child)));
+                    changeset.ops.extend(my_child.diff_with(their_child, ids));
                 }
                 // add all the elements that they have, but we don't
                 for el in other.children[self_len..].iter() {
-                    changeset.ops.extend(el.create_from_scratch(Some(self)));
+                    changeset
+                        .ops
+                        .extend(el.create_from_scratch(Some(self.id()), ids));
                 }
             }
         }
-- 
2.43.0


From 2e3339893f4e6b5180d7eb632e35e4f944757343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 26/32] fix: liveview adds and moves keyed children

New keyed children were announced by instructions that carry no content, that
the client does not know, and that panicked for a single child; children whose
order changed stayed where they were.
---
 .../src/dom/element/diff/changeset/mod.rs     |  2 +
 puck_liveview/src/dom/element/diff/mod.rs     | 63 +++++--------------
 2 files changed, 19 insertions(+), 46 deletions(-)

diff --git a/puck_liveview/src/dom/element/diff/changeset/mod.rs b/puck_liveview/src/dom/element/diff/changeset/mod.rs
index e3d3c12..cd2b642 100644
--- a/puck_liveview/src/dom/element/diff/changeset/mod.rs
+++ b/puck_liveview/src/dom/element/diff/changeset/mod.rs
@@ -51,9 +51,11 @@ pub(crate) enum Instruction<'a> {
     InsertChild {
         new_child_id: String,
     },
+    #[allow(unused)]
     InsertAfter {
         after_id: String,
     },
+    #[allow(unused)]
     InsertBefore {
         before_id: String,
     },
diff --git a/puck_liveview/src/dom/element/diff/mod.rs b/puck_liveview/src/dom/element/diff/mod.rs
index e019864..7fd5122 100644
--- a/puck_liveview/src/dom/element/diff/mod.rs
+++ b/puck_liveview/src/dom/element/diff/mod.rs
@@ -287,63 +287,34 @@ impl Element {
         c
     }
 
-    /// Tries to find a child with the provided key. Returns `None` if a child cannot be found.
-    fn locate_child_by_key(&self, key: &str) -> Option<&Element> {
-        self.children
-            .iter()
-            .find(|el| el.key.as_ref().unwrap().eq(key))
-    }
-
     /// Compares the children of two nodes and emits instructions to update the old children to
     /// assume the form of the new children.
     fn diff_children<'a>(&'a self, other: &'a Element, ids: &mut Ids) -> Changeset<'a> {
         let mut changeset = Changeset::empty();
 
         if self.children_are_all_keyed() && other.children_are_all_keyed() {
-            // nodes which are shared between us and the other node
-            let mut unpaired = vec![];
-            for (i, their_child) in other.children.iter().enumerate() {
-                if let Some(my_child) = self.locate_child_by_key(their_child.key.as_ref().unwrap())
-                {
-                    changeset.ops.extend(my_child.diff_with(their_child, ids));
-                } else {
-                    unpaired.push(i);
-                }
-            }
-
-            // generate all the new nodes (the ones that exist for them, but not for us)
-            let len = unpaired.len();
-            for each in unpaired {
-                changeset.ops.push(Op {
-                    id: other.children[each].id(),
-                    instruction: if each == 0 {
-                        Instruction::InsertBefore {
-                            before_id: other.children[1].id(),
-                        }
-                    } else if each == len {
-                        Instruction::InsertAfter {
-                            after_id: other.children[each].id(),
-                        }
-                    } else {
-                        Instruction::InsertBefore {
-                            before_id: other.children[each - 1].id(),
-                        }
-                    },
-                })
-            }
-
-            // delete all the nodes that we have that they don't
+            // nodes which are shared between us and the other node are kept, as far as they are still
+            // in the same order; new nodes can only be added behind all of them
+            let mut kept = 0;
             for our_child in self.children.iter() {
-                if other
-                    .locate_child_by_key(our_child.key.as_ref().unwrap())
-                    .is_none()
-                {
-                    changeset.ops.push(Op {
+                match other.children.get(kept) {
+                    Some(their_child) if our_child.key == their_child.key => {
+                        changeset.ops.extend(our_child.diff_with(their_child, ids));
+                        kept += 1;
+                    }
+                    _ => changeset.ops.push(Op {
                         id: our_child.id(),
                         instruction: Instruction::DeleteEl,
-                    })
+                    }),
                 }
             }
+
+            // generate the other nodes (those that exist for them, but not for us)
+            for el in other.children[kept..].iter() {
+                changeset
+                    .ops
+                    .extend(el.create_from_scratch(Some(self.id()), ids));
+            }
         } else {
             let self_len = self.children.len();
             let other_len = other.children.len();
-- 
2.43.0


From a5baa63c814b53f532d8797e1be44ae9ef8f5b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 27/32] fix: the liveview client accepts plus signs in values
 and listener names

The value of an attribute was cut off at its first plus sign.
---
 puck_liveview/client/index.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index c356ddd..a87752d 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -16,10 +16,10 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setAttr") {
             console.log("set attribute");
             console.log(document.getElementById(data.el));
-            let split = data["payload"].split("+");
-            console.log(split[1]);
+            // the value may contain further plus signs
+            let at = data["payload"].indexOf("+");
             let el = document.getElementById(data.el);
-            el.setAttribute(split[0], split[1]);
+            el.setAttribute(data["payload"].slice(0, at), data["payload"].slice(at + 1));
         } else if (data.ty == "removeAttr") {
             document.getElementById(data.el).removeAttribute(data.payload);
         } else if (data.ty === "setTagName") {
@@ -37,7 +37,9 @@ ws.onmessage = (msg) => {
             console.log(data);
             document.getElementById(data["el"]).textContent = data["payload"];
         } else if (data.ty === "attachListener") {
-            let split = data.payload.split("+");
+            // the name of the listener may contain further plus signs
+            let at = data.payload.lastIndexOf("+");
+            let split = [data.payload.slice(0, at), data.payload.slice(at + 1)];
             document.getElementById(data.el).addEventListener(split[1], function (e) {
                 console.log("sending listener data");
                 console.log(split);
-- 
2.43.0


From 6a40d143eb15a5c9f18e1a1437453d0cfde5aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 28/32] fix: the liveview client changes and removes text
 without removing children

Setting the text of an element removed its children, and the instruction to
remove a text was ignored.
---
 puck_liveview/client/index.js | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index a87752d..61b1e02 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -35,7 +35,18 @@ ws.onmessage = (msg) => {
             old_tag.parentNode.replaceChild(new_tag, old_tag);
         } else if (data.ty === "setText") {
             console.log(data);
-            document.getElementById(data["el"]).textContent = data["payload"];
+            // the text precedes the children, which are to stay
+            let el = document.getElementById(data["el"]);
+            if (el.firstChild && el.firstChild.nodeType === 3) {
+                el.firstChild.data = data["payload"];
+            } else {
+                el.insertBefore(document.createTextNode(data["payload"]), el.firstChild);
+            }
+        } else if (data.ty === "removeText") {
+            let el = document.getElementById(data.el);
+            if (el.firstChild && el.firstChild.nodeType === 3) {
+                el.removeChild(el.firstChild);
+            }
         } else if (data.ty === "attachListener") {
             // the name of the listener may contain further plus signs
             let at = data.payload.lastIndexOf("+");
-- 
2.43.0


From 0df7a9bde43a08b2d6c8e8328a696f4f64f1c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:27 +0000
Subject: [PATCH 29/32] fix: the liveview client keeps the listeners of the
 children of an element

They were lost when the tag name or the listeners of the element changed.
---
 puck_liveview/client/index.js | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/puck_liveview/client/index.js b/puck_liveview/client/index.js
index 61b1e02..30a4073 100644
--- a/puck_liveview/client/index.js
+++ b/puck_liveview/client/index.js
@@ -25,7 +25,10 @@ ws.onmessage = (msg) => {
         } else if (data.ty === "setTagName") {
             let old_tag = document.getElementById(data.el);
             let new_tag = document.createElement(data.payload);
-            new_tag.innerHTML = old_tag.innerHTML;
+            // moved, not copied: copies would not have the listeners
+            while (old_tag.firstChild) {
+                new_tag.appendChild(old_tag.firstChild);
+            }
             for (var i = 0, l = old_tag.attributes.length; i < l; ++i) {
                 let name = old_tag.attributes.item(i).nodeName;
                 var value = old_tag.attributes.item(i).nodeValue;
@@ -76,7 +79,11 @@ ws.onmessage = (msg) => {
             })
         } else if (data.ty === "removeListeners") {
             let old = document.getElementById(data.el);
-            let new_el = old.cloneNode(true);
+            let new_el = old.cloneNode(false);
+            // moved, not cloned: clones would not have the listeners
+            while (old.firstChild) {
+                new_el.appendChild(old.firstChild);
+            }
             old.parentNode.replaceChild(new_el, old);
         } else if (data.ty === "deleteEl") {
             let el = document.getElementById(data.el);
-- 
2.43.0


From 3c75ee6f9c357d6c9bc1fa4b1dbb0e8e6e68b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 30/32] fix: a client that leaves before the first rendering
 panicked its liveview session

---
 puck_liveview/src/component/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/puck_liveview/src/component/mod.rs b/puck_liveview/src/component/mod.rs
index 6de781e..e941156 100644
--- a/puck_liveview/src/component/mod.rs
+++ b/puck_liveview/src/component/mod.rs
@@ -112,7 +112,10 @@ fn main_loop<COMPONENT, DATA, INPUT>(
 
     let payload = serde_json::to_string(&InstructionSerializer(instructions)).unwrap();
 
-    stream.send(Message::Text(payload)).unwrap();
+    // the client may be gone by now
+    if stream.send(Message::Text(payload)).is_err() {
+        return;
+    }
 
     loop {
         let msg = mailbox.receive();
-- 
2.43.0


From e3ca805433a77b76285f077fdc5fc356c6e6bb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:48 +0000
Subject: [PATCH 31/32] fix: a select tag was turned into a div element

---
 puck_liveview/src/html/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/puck_liveview/src/html/mod.rs b/puck_liveview/src/html/mod.rs
index b064502..3f81ea4 100644
--- a/puck_liveview/src/html/mod.rs
+++ b/puck_liveview/src/html/mod.rs
@@ -145,7 +145,7 @@ impl WrappedBodyNode {
                 let select = select.into_pub_fields();
                 Element {
                     id: id_gen.new_id(),
-                    name: std::borrow::Cow::Borrowed("div"),
+                    name: std::borrow::Cow::Borrowed("select"),
                     attributes: select.attrs,
                     listeners: self.listeners,
                     children: self
-- 
2.43.0


From 016d67ba60a0f3f49388daeb0a7f6e22503a9899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:58 +0000
Subject: [PATCH 32/32] fix: a request whose method contains a line break was
 written as two requests

---
 puck/src/request/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/puck/src/request/mod.rs b/puck/src/request/mod.rs
index 31c3c02..c41e677 100644
--- a/puck/src/request/mod.rs
+++ b/puck/src/request/mod.rs
@@ -138,14 +138,15 @@ impl Request {
     /// in-place; specifically, it will empty the contents of this `Request`'s body.
     pub fn write(&mut self, write: &mut impl Write) -> io::Result<()> {
         let line_break = |s: &str| s.contains(&['\r', '\n'][..]);
-        if self
-            .headers
-            .iter()
-            .any(|(header, value)| line_break(header) || line_break(value))
+        if matches!(&self.method, Method::OtherMethod(name) if line_break(name))
+            || self
+                .headers
+                .iter()
+                .any(|(header, value)| line_break(header) || line_break(value))
         {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
-                "a line break in a header of a request",
+                "a line break in the head of a request",
             ));
         }
         self.method.write(write)?;
-- 
2.43.0

