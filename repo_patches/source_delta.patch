From 82501787df336a857bbb35afefffddad3ef6b358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 01/17] fix: Event::end creates an event of type End

---
 src/events/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 2ad6a44..19e0459 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -65,7 +65,7 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(data))]
     #[inline]
     pub fn end(namespace: Option<String>, name: String, data: Bytes, ref_id: u64) -> Self {
-        Self::new(namespace, name, data, Some(ref_id), EventType::Response)
+        Self::new(namespace, name, data, Some(ref_id), EventType::End)
     }
 
     /// Creates a new event
-- 
2.43.0


From f8a7e141f44c40070c2ec7dc36882101ea31cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:28 +0000
Subject: [PATCH 02/17] fix: reject event fields that exceed their length field
 instead of truncating the length

---
 src/events/error_event.rs |  5 ++++-
 src/events/event.rs       | 20 ++++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/events/error_event.rs b/src/events/error_event.rs
index 90c78e3..0c8fce8 100644
--- a/src/events/error_event.rs
+++ b/src/events/error_event.rs
@@ -4,6 +4,7 @@ use crate::payload::{FromPayload, IntoPayload};
 use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
+use std::convert::TryFrom;
 use std::error::Error;
 use std::fmt::{Display, Formatter};
 use std::io::Read;
@@ -33,7 +34,9 @@ impl IntoPayload for ErrorEventData {
     fn into_payload(self, _: &Context) -> IPCResult<Bytes> {
         let mut buf = BytesMut::new();
         buf.put_u16(self.code);
-        buf.put_u32(self.message.len() as u32);
+        let message_len = u32::try_from(self.message.len())
+            .map_err(|_| IPCError::from("the error message is too long"))?;
+        buf.put_u32(message_len);
         buf.put(Bytes::from(self.message));
 
         Ok(buf.freeze())
diff --git a/src/events/event.rs b/src/events/event.rs
index 19e0459..9dfd32a 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -159,8 +159,8 @@ impl Event {
     /// Encodes the event into bytes
     #[tracing::instrument(level = "trace", skip(self))]
     pub fn into_bytes(self) -> Result<Bytes> {
-        let header_bytes = self.header.into_bytes();
-        let header_length = header_bytes.len() as u16;
+        let header_bytes = self.header.into_bytes()?;
+        let header_length = checked_length(header_bytes.len())?;
         let data_length = self.data.len();
         let total_length = header_length as u64 + data_length as u64;
         tracing::trace!(total_length, header_length, data_length);
@@ -175,9 +175,17 @@ impl Event {
     }
 }
 
+/// Converts a length to the type it is stored as in the header
+/// so that fields that are too long are rejected instead of corrupting the event
+#[inline]
+fn checked_length(length: usize) -> Result<u16> {
+    u16::try_from(length)
+        .map_err(|_| Error::Message(format!("length {} exceeds the event header limit", length)))
+}
+
 impl EventHeader {
     /// Serializes the event header into bytes
-    pub fn into_bytes(self) -> Bytes {
+    pub fn into_bytes(self) -> Result<Bytes> {
         let mut buf = BytesMut::with_capacity(256);
         buf.put_slice(&FORMAT_VERSION);
         buf.put_u64(self.id);
@@ -190,15 +198,15 @@ impl EventHeader {
             buf.put_u8(0x00);
         }
         if let Some(namespace) = self.namespace {
-            buf.put_u16(namespace.len() as u16);
+            buf.put_u16(checked_length(namespace.len())?);
             buf.put(Bytes::from(namespace));
         } else {
             buf.put_u16(0);
         }
-        buf.put_u16(self.name.len() as u16);
+        buf.put_u16(checked_length(self.name.len())?);
         buf.put(Bytes::from(self.name));
 
-        buf.freeze()
+        Ok(buf.freeze())
     }
 
     /// Parses an event header from an async reader
-- 
2.43.0


From 5f946e421c4604d528b821efeb90fab76b163fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 03/17] fix: malformed lengths in received data are errors
 instead of panics and unbounded allocations

---
 src/events/error_event.rs     |  4 ++--
 src/events/event.rs           |  8 ++++---
 src/events/payload.rs         |  7 +++----
 src/protocol/encrypted/mod.rs |  4 ++--
 src/utils.rs                  | 39 +++++++++++++++++++++++++++++++++++
 5 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/events/error_event.rs b/src/events/error_event.rs
index 0c8fce8..ae78ff3 100644
--- a/src/events/error_event.rs
+++ b/src/events/error_event.rs
@@ -2,6 +2,7 @@ use crate::context::Context;
 use crate::error::Result;
 use crate::payload::{FromPayload, IntoPayload};
 use crate::prelude::{IPCError, IPCResult};
+use crate::utils::read_bytes;
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
 use std::convert::TryFrom;
@@ -47,8 +48,7 @@ impl FromPayload for ErrorEventData {
     fn from_payload<R: Read>(mut reader: R) -> Result<Self> {
         let code = reader.read_u16::<BigEndian>()?;
         let message_len = reader.read_u32::<BigEndian>()?;
-        let mut message_buf = vec![0u8; message_len as usize];
-        reader.read_exact(&mut message_buf)?;
+        let message_buf = read_bytes(&mut reader, message_len as u64)?;
         let message = String::from_utf8(message_buf).map_err(|_| IPCError::CorruptedEvent)?;
 
         Ok(ErrorEventData { code, message })
diff --git a/src/events/event.rs b/src/events/event.rs
index 9dfd32a..90cfd29 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -1,6 +1,7 @@
 use crate::error::{Error, Result};
 use crate::events::generate_event_id;
 use crate::events::payload::FromPayload;
+use crate::utils::read_bytes_async;
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
 use num_enum::{IntoPrimitive, TryFromPrimitive};
@@ -138,7 +139,9 @@ impl Event {
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> Result<Self> {
         let total_length = reader.read_u64().await?;
         let header_length = reader.read_u16().await?;
-        let data_length = total_length - header_length as u64;
+        let data_length = total_length
+            .checked_sub(header_length as u64)
+            .ok_or(Error::CorruptedEvent)?;
         tracing::trace!(total_length, header_length, data_length);
 
         let mut header_bytes = vec![0u8; header_length as usize];
@@ -146,8 +149,7 @@ impl Event {
         // additional header fields can be added a the end because when reading they will just be ignored
         let header: EventHeader = EventHeader::from_read(&mut Cursor::new(header_bytes))?;
 
-        let mut buf = vec![0u8; data_length as usize];
-        reader.read_exact(&mut buf).await?;
+        let buf = read_bytes_async(reader, data_length).await?;
         let event = Event {
             header,
             data: Bytes::from(buf),
diff --git a/src/events/payload.rs b/src/events/payload.rs
index 0d70d7f..f4f5899 100644
--- a/src/events/payload.rs
+++ b/src/events/payload.rs
@@ -1,4 +1,5 @@
 use crate::prelude::IPCResult;
+use crate::utils::read_bytes;
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
 use std::io::Read;
@@ -115,12 +116,10 @@ impl<P1: IntoPayload, P2: IntoPayload> IntoPayload for TandemPayload<P1, P2> {
 impl<P1: FromPayload, P2: FromPayload> FromPayload for TandemPayload<P1, P2> {
     fn from_payload<R: Read>(mut reader: R) -> IPCResult<Self> {
         let p1_length = reader.read_u64::<BigEndian>()?;
-        let mut load1_bytes = vec![0u8; p1_length as usize];
-        reader.read_exact(&mut load1_bytes)?;
+        let load1_bytes = read_bytes(&mut reader, p1_length)?;
 
         let p2_length = reader.read_u64::<BigEndian>()?;
-        let mut load2_bytes = vec![0u8; p2_length as usize];
-        reader.read_exact(&mut load2_bytes)?;
+        let load2_bytes = read_bytes(&mut reader, p2_length)?;
 
         Ok(Self {
             load1: P1::from_payload(load1_bytes.as_slice())?,
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 62133f0..1e2bb4e 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -14,6 +14,7 @@ use x25519_dalek::{PublicKey, SharedSecret, StaticSecret};
 
 use crate::prelude::encrypted::crypt_handling::CipherBox;
 use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener};
+use crate::utils::read_bytes_async;
 
 pub type OptionalFuture<T> = Option<Pin<Box<dyn Future<Output = T> + Send + Sync>>>;
 
@@ -149,8 +150,7 @@ impl EncryptedPackage {
 
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
         let length = reader.read_u32().await?;
-        let mut bytes_buf = vec![0u8; length as usize];
-        reader.read_exact(&mut bytes_buf).await?;
+        let bytes_buf = read_bytes_async(reader, length as u64).await?;
 
         Ok(Self {
             bytes: Bytes::from(bytes_buf),
diff --git a/src/utils.rs b/src/utils.rs
index a5b247c..96a0c54 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,42 @@
+use std::io::{self, ErrorKind, Read};
+use tokio::io::{AsyncRead, AsyncReadExt};
+
+/// The largest number of bytes that is allocated before they have been received
+const MAX_READ_CHUNK: u64 = 64 * 1024;
+
+/// Reads exactly the given number of bytes.
+/// The length is not trusted: memory is only allocated for bytes that are actually received.
+pub(crate) async fn read_bytes_async<R: AsyncRead + Unpin>(
+    reader: &mut R,
+    length: u64,
+) -> io::Result<Vec<u8>> {
+    let mut bytes = Vec::new();
+    let mut remaining = length;
+
+    while remaining > 0 {
+        let chunk_length = remaining.min(MAX_READ_CHUNK);
+        let mut chunk = vec![0u8; chunk_length as usize];
+        reader.read_exact(&mut chunk).await?;
+        bytes.append(&mut chunk);
+        remaining -= chunk_length;
+    }
+
+    Ok(bytes)
+}
+
+/// Reads exactly the given number of bytes.
+/// The length is not trusted: memory is only allocated for bytes that are actually received.
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, length: u64) -> io::Result<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(length).read_to_end(&mut bytes)?;
+
+    if (bytes.len() as u64) < length {
+        return Err(io::Error::from(ErrorKind::UnexpectedEof));
+    }
+
+    Ok(bytes)
+}
+
 #[cfg(feature = "encryption_layer")]
 /// Generates a secret that can be passed to the options of the encryption layer and for creating
 /// a public key
-- 
2.43.0


From 567b0400bd67e8c2e08894cdf4efebfa49614e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 04/17] fix: remove the reply listener when waiting for a reply
 fails, times out or is cancelled

---
 src/ipc/context.rs                            | 24 +++++++++++++++++--
 .../emit_metadata_with_response.rs            |  2 +-
 .../emit_metadata_with_response_stream.rs     |  9 ++++---
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/ipc/context.rs b/src/ipc/context.rs
index 12f1c56..393fcc1 100644
--- a/src/ipc/context.rs
+++ b/src/ipc/context.rs
@@ -20,6 +20,19 @@ use crate::prelude::Response;
 
 pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::Sender<Event>>>;
 
+/// Removes the reply listener of an event when the one waiting for the reply
+/// is done or gone
+pub(crate) struct ReplyListenerGuard {
+    reply_listeners: ReplyListeners,
+    event_id: u64,
+}
+
+impl Drop for ReplyListenerGuard {
+    fn drop(&mut self) {
+        self.reply_listeners.remove(&self.event_id);
+    }
+}
+
 /// An object provided to each callback function.
 /// Currently it only holds the event emitter to emit response events in event callbacks.
 /// ```rust
@@ -124,11 +137,18 @@ impl Context {
     /// Registers a reply listener for a given event
     #[inline]
     #[tracing::instrument(level = "debug", skip(self))]
-    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<Receiver<Event>> {
+    pub(crate) async fn register_reply_listener(
+        &self,
+        event_id: u64,
+    ) -> Result<(Receiver<Event>, ReplyListenerGuard)> {
         let (rx, tx) = mpsc::channel(8);
         self.reply_listeners.insert(event_id, rx);
+        let guard = ReplyListenerGuard {
+            reply_listeners: Arc::clone(&self.reply_listeners),
+            event_id,
+        };
 
-        Ok(tx)
+        Ok((tx, guard))
     }
 
     /// Stops the listener and closes the connection
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response.rs b/src/ipc/stream_emitter/emit_metadata_with_response.rs
index acd3b04..6058948 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response.rs
@@ -53,7 +53,7 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
             };
 
             self.fut = Some(Box::pin(async move {
-                let mut tx = ctx.register_reply_listener(event_id).await?;
+                let (mut tx, _guard) = ctx.register_reply_listener(event_id).await?;
                 emit_metadata.await?;
 
                 let reply = tokio::select! {
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index d90d40b..3076c09 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -1,4 +1,4 @@
-use crate::context::Context;
+use crate::context::{Context, ReplyListenerGuard};
 use crate::error::{Error, Result};
 use crate::event::{Event, EventType};
 use crate::ipc::stream_emitter::emit_metadata::EmitMetadata;
@@ -30,6 +30,7 @@ pub struct ResponseStream {
     receiver: Option<Receiver<Event>>,
     timeout: Duration,
     fut: Option<BoxFuture<'static, StreamFutureResult>>,
+    _guard: ReplyListenerGuard,
 }
 
 impl ResponseStream {
@@ -38,6 +39,7 @@ impl ResponseStream {
         timeout: Duration,
         ctx: Context,
         receiver: Receiver<Event>,
+        guard: ReplyListenerGuard,
     ) -> Self {
         Self {
             event_id,
@@ -45,6 +47,7 @@ impl ResponseStream {
             receiver: Some(receiver),
             timeout,
             fut: None,
+            _guard: guard,
         }
     }
 }
@@ -84,10 +87,10 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
             };
 
             self.fut = Some(Box::pin(async move {
-                let tx = ctx.register_reply_listener(event_id).await?;
+                let (tx, guard) = ctx.register_reply_listener(event_id).await?;
                 emit_metadata.await?;
 
-                Ok(ResponseStream::new(event_id, timeout, ctx, tx))
+                Ok(ResponseStream::new(event_id, timeout, ctx, tx, guard))
             }))
         }
         self.fut.as_mut().unwrap().as_mut().poll(cx)
-- 
2.43.0


From 4c83814e5b8fa99e99522bea7d779c4ad22e1cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 05/17] fix: handling an event does not remove the reply
 listener of another event

---
 src/ipc/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index b663a64..39b4ca5 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -62,7 +62,6 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
 /// Handles a single event in a different tokio context
 fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
     ctx.set_ref_id(Some(event.id()));
-    let event_id = event.id();
 
     tokio::spawn(async move {
         match handler.handle_event(&ctx, event).await {
@@ -75,7 +74,6 @@ fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
                 {
                     tracing::error!("Error occurred when sending error response: {:?}", e);
                 }
-                ctx.reply_listeners.remove(&event_id);
             }
             Err(e) => {
                 // emit an error event
-- 
2.43.0


From d6f85ababe33e4617373004fde0c983f8452a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 06/17] fix: a response stream ends after an error instead of
 polling a completed future

---
 .../stream_emitter/emit_metadata_with_response_stream.rs    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 3076c09..14567a0 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -149,7 +149,11 @@ impl Stream for ResponseStream {
                         Poll::Ready(None)
                     }
                 }
-                Err(e) => Poll::Ready(Some(Err(e))),
+                Err(e) => {
+                    self.fut = None;
+
+                    Poll::Ready(Some(Err(e)))
+                }
             },
             Poll::Pending => Poll::Pending,
         }
-- 
2.43.0


From 3ea43c503de00598a0a3aa13f6ae500aa075ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 07/17] fix: a response stream ends after an error event, as
 nothing follows it

---
 .../stream_emitter/emit_metadata_with_response_stream.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 14567a0..4d1a4f4 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -21,6 +21,11 @@ pub struct EmitMetadataWithResponseStream<P: IntoPayload> {
     pub(crate) emit_metadata: Option<EmitMetadata<P>>,
 }
 
+/// Returns if no more responses follow the given event
+fn is_final_event(event: &Event) -> bool {
+    matches!(event.event_type(), EventType::End | EventType::Error)
+}
+
 type StreamFutureResult = Result<(Option<Event>, Context, Receiver<Event>)>;
 
 /// An asynchronous stream one can read all responses to a specific event from.
@@ -125,7 +130,7 @@ impl Stream for ResponseStream {
                     }
                 }?;
 
-                if event.is_none() || event.as_ref().unwrap().event_type() == EventType::End {
+                if event.as_ref().map_or(true, is_final_event) {
                     remove_reply_listener(&ctx, event_id).await;
                 }
 
@@ -139,7 +144,7 @@ impl Stream for ResponseStream {
                     self.fut = None;
 
                     if let Some(event) = event {
-                        if event.event_type() != EventType::End {
+                        if !is_final_event(&event) {
                             self.ctx = Some(ctx);
                             self.receiver = Some(tx);
                         }
-- 
2.43.0


From ce7822c53f160393fc823bd9bbd801f1ae11e5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 08/17] fix: a reply whose listener is gone is processed like
 any other event without a listener

---
 src/ipc/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 39b4ca5..488965b 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -21,7 +21,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
     mut read_half: S::OwnedSplitReadHalf,
     ctx: Context,
 ) {
-    while let Ok(event) = Event::from_async_read(&mut read_half).await {
+    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {
         tracing::trace!(
             "event.name = {:?}, event.namespace = {:?}, event.reference_id = {:?}",
             event.name(),
@@ -34,10 +34,10 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             // get the listener for replies
             if let Some(sender) = ctx.get_reply_sender(ref_id).await {
                 // try sending the event to the listener for replies
-                if let Err(event) = sender.send(event).await {
-                    handle_event(Context::clone(&ctx), Arc::clone(&handler), event.0);
+                match sender.send(event).await {
+                    Ok(()) => continue,
+                    Err(e) => event = e.0,
                 }
-                continue;
             }
             tracing::trace!("No response listener found for event. Passing to regular listener.");
         }
-- 
2.43.0


From 70bbd4ad0b1117285f0cefcbeb6d1ef046e07ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 09/17] fix: events for an unknown namespace are ignored
 instead of passed to the global handler

---
 src/ipc/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 488965b..f17e258 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -47,9 +47,14 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             continue;
         }
 
-        if let Some(namespace) = event.namespace().clone().and_then(|n| namespaces.get(&n)) {
-            tracing::trace!("Passing event to namespace listener");
-            let handler = Arc::clone(&namespace.handler);
+        if let Some(namespace_name) = event.namespace() {
+            let handler = if let Some(namespace) = namespaces.get(namespace_name) {
+                tracing::trace!("Passing event to namespace listener");
+                Arc::clone(&namespace.handler)
+            } else {
+                tracing::trace!("Ignoring event for unknown namespace");
+                Arc::new(EventHandler::new())
+            };
             handle_event(Context::clone(&ctx), handler, event);
         } else {
             tracing::trace!("Passing event to global listener");
-- 
2.43.0


From 21ea46f1629ba685fc4767c8cc713f9dd7aeb8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 10/17] fix: reading from an encrypted stream returns the bytes
 it has instead of stalling, and can be retried after an error

---
 src/protocol/encrypted/io_impl.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 9182e21..caf4539 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -57,6 +57,8 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
                 let bytes = self.remaining.copy_to_bytes(max_copy);
                 buf.put_slice(&bytes);
                 tracing::trace!("{} bytes read from buffer", bytes.len());
+
+                return Poll::Ready(Ok(()));
             }
 
             if buf.remaining() > 0 {
@@ -73,20 +75,16 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
             Poll::Ready((result, reader, cipher)) => {
                 self.inner = Some(reader);
                 self.cipher = Some(cipher);
+                self.fut = None;
                 match result {
                     Ok(bytes) => {
-                        self.fut = None;
                         self.remaining.put(bytes);
                         let max_copy = min(self.remaining.len(), buf.remaining());
                         let bytes = self.remaining.copy_to_bytes(max_copy);
                         buf.put_slice(&bytes);
                         tracing::trace!("{} bytes read from buffer", bytes.len());
 
-                        if buf.remaining() == 0 {
-                            Poll::Ready(Ok(()))
-                        } else {
-                            Poll::Pending
-                        }
+                        Poll::Ready(Ok(()))
                     }
                     Err(e) => Poll::Ready(Err(e)),
                 }
-- 
2.43.0


From 3a652933f6b82fbd9ceebf9d9067e68c54abf87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 11/17] fix: an encrypted stream finishes an abandoned write or
 flush before the next one, and shutting it down completes

---
 src/protocol/encrypted/io_impl.rs | 79 +++++++++++++++----------------
 src/protocol/encrypted/mod.rs     |  2 -
 2 files changed, 37 insertions(+), 44 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index caf4539..724408b 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -8,7 +8,7 @@ use std::cmp::min;
 use std::io;
 use std::io::Error;
 use std::pin::Pin;
-use std::task::{Context, Poll};
+use std::task::{ready, Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 
 const WRITE_BUF_SIZE: usize = 1024;
@@ -104,36 +104,33 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
     ) -> Poll<Result<usize, Error>> {
         let written_length = buf.len();
 
-        if self.fut_write.is_none() {
-            self.buffer.put(Bytes::from(buf.to_vec()));
-
-            if self.buffer.len() >= WRITE_BUF_SIZE {
-                tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
-                let buffer_len = self.buffer.len();
-                let max_copy = min(u32::MAX as usize, buffer_len);
-                let plaintext = self.buffer.copy_to_bytes(max_copy);
-                let writer = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
-
-                self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)))
-            } else {
-                return Poll::Ready(Ok(written_length));
-            }
+        // previously accepted data could still be on its way if the one writing it gave up
+        ready!(self.poll_fut_write(cx))?;
+        if self.fut_flush.is_some() {
+            ready!(self.as_mut().poll_flush(cx))?;
         }
+        self.buffer.put(Bytes::from(buf.to_vec()));
 
-        match self.fut_write.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_write = None;
+        if self.buffer.len() >= WRITE_BUF_SIZE {
+            tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
+            let buffer_len = self.buffer.len();
+            let max_copy = min(u32::MAX as usize, buffer_len);
+            let plaintext = self.buffer.copy_to_bytes(max_copy);
+            let writer = self.inner.take().unwrap();
+            let cipher = self.cipher.take().unwrap();
 
-                Poll::Ready(result.map(|_| written_length))
+            self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)));
+            // the data has been accepted, so the next call waits for it if it is still pending
+            if let Poll::Ready(Err(e)) = self.poll_fut_write(cx) {
+                return Poll::Ready(Err(e));
             }
-            Poll::Pending => Poll::Pending,
         }
+
+        Poll::Ready(Ok(written_length))
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        ready!(self.poll_fut_write(cx))?;
         let buffer_len = self.buffer.len();
 
         if self.fut_flush.is_none() {
@@ -172,26 +169,24 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
     }
 
     fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        if self.fut_shutdown.is_none() {
-            match self.as_mut().poll_flush(cx) {
-                Poll::Ready(result) => match result {
-                    Ok(_) => {
-                        let mut writer = self.inner.take().unwrap();
-                        self.fut_shutdown = Some(Box::pin(async move { writer.shutdown().await }));
-                        Poll::Pending
-                    }
-                    Err(e) => Poll::Ready(Err(e)),
-                },
-                Poll::Pending => Poll::Pending,
-            }
+        ready!(self.as_mut().poll_flush(cx))?;
+
+        Pin::new(self.inner.as_mut().unwrap()).poll_shutdown(cx)
+    }
+}
+
+impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
+    /// Waits until the package that is currently being written is sent, if there is one
+    fn poll_fut_write(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        if let Some(fut) = self.fut_write.as_mut() {
+            let (result, writer, cipher) = ready!(fut.as_mut().poll(cx));
+            self.inner = Some(writer);
+            self.cipher = Some(cipher);
+            self.fut_write = None;
+
+            Poll::Ready(result)
         } else {
-            match self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx) {
-                Poll::Ready(result) => {
-                    self.fut_shutdown = None;
-                    Poll::Ready(result)
-                }
-                Poll::Pending => Poll::Pending,
-            }
+            Poll::Ready(Ok(()))
         }
     }
 }
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 1e2bb4e..b6689e8 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -115,7 +115,6 @@ pub struct EncryptedWriteStream<T: 'static + AsyncWrite + Unpin + Send + Sync> {
     buffer: BytesMut,
     fut_write: OptionalFuture<(io::Result<()>, T, CipherBox)>,
     fut_flush: OptionalFuture<(io::Result<()>, T, CipherBox)>,
-    fut_shutdown: OptionalFuture<io::Result<()>>,
 }
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
@@ -126,7 +125,6 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
             buffer: BytesMut::with_capacity(1024),
             fut_write: None,
             fut_flush: None,
-            fut_shutdown: None,
         }
     }
 }
-- 
2.43.0


From 12234ee2cbe947987597cb9b9dd60ea62645ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 12/17] fix: an encrypted package that exceeds its length field
 is an error

---
 src/protocol/encrypted/io_impl.rs | 7 ++++++-
 src/protocol/encrypted/mod.rs     | 9 ++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 724408b..bafb333 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -204,7 +204,12 @@ async fn write_bytes<T: AsyncWrite + Unpin>(
             return (Err(e), writer, cipher);
         }
     };
-    let package_bytes = EncryptedPackage::new(encrypted_bytes).into_bytes();
+    let package_bytes = match EncryptedPackage::new(encrypted_bytes).into_bytes() {
+        Ok(b) => b,
+        Err(e) => {
+            return (Err(e), writer, cipher);
+        }
+    };
     tracing::trace!("encrypted size: {}", package_bytes.len());
     if let Err(e) = writer.write_all(&package_bytes[..]).await {
         return (Err(e), writer, cipher);
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index b6689e8..e8c2868 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -6,6 +6,7 @@ use bytes::{BufMut, Bytes, BytesMut};
 pub use io_impl::*;
 pub use protocol_impl::*;
 use rand::RngCore;
+use std::convert::TryFrom;
 use std::future::Future;
 use std::io;
 use std::pin::Pin;
@@ -138,12 +139,14 @@ impl EncryptedPackage {
         Self { bytes }
     }
 
-    pub fn into_bytes(self) -> Bytes {
+    pub fn into_bytes(self) -> io::Result<Bytes> {
+        let length = u32::try_from(self.bytes.len())
+            .map_err(|_| io::Error::from(io::ErrorKind::InvalidInput))?;
         let mut buf = BytesMut::with_capacity(4 + self.bytes.len());
-        buf.put_u32(self.bytes.len() as u32);
+        buf.put_u32(length);
         buf.put(self.bytes);
 
-        buf.freeze()
+        Ok(buf.freeze())
     }
 
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
-- 
2.43.0


From 2f796c28503302131abd7fc765cb0b646341b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 13/17] fix: a peer failing the key exchange does not stop the
 server from accepting connections

---
 src/protocol/encrypted/protocol_impl.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/protocol/encrypted/protocol_impl.rs b/src/protocol/encrypted/protocol_impl.rs
index 4c90c98..ee03cc3 100644
--- a/src/protocol/encrypted/protocol_impl.rs
+++ b/src/protocol/encrypted/protocol_impl.rs
@@ -22,10 +22,15 @@ impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedLi
     }
 
     async fn protocol_accept(&self) -> IPCResult<(Self::Stream, Self::RemoteAddressType)> {
-        let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
-        let stream = Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await?;
-
-        Ok((stream, remote_addr))
+        loop {
+            let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
+
+            // a peer failing the key exchange must not keep others from connecting
+            match Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await {
+                Ok(stream) => return Ok((stream, remote_addr)),
+                Err(e) => tracing::warn!("Key exchange with {:?} failed: {:?}", remote_addr, e),
+            }
+        }
     }
 }
 
-- 
2.43.0


From c735b2a675d223258f4d98b3c08db22ac2f6d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 14/17] fix: an io error when accepting a connection does not
 stop the server

---
 src/ipc/server.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ipc/server.rs b/src/ipc/server.rs
index ec88fa9..7c0eede 100644
--- a/src/ipc/server.rs
+++ b/src/ipc/server.rs
@@ -1,5 +1,5 @@
 use super::handle_connection;
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::events::event_handler::EventHandler;
 use crate::ipc::context::{Context, ReplyListeners};
 use crate::ipc::stream_emitter::StreamEmitter;
@@ -15,6 +15,9 @@ use std::time::Duration;
 use tokio::sync::RwLock;
 use trait_bound_typemap::SendSyncTypeMap;
 
+/// The time to wait before accepting connections again after accepting one failed
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
+
 /// The IPC Server listening for connections.
 /// Use the [IPCBuilder](crate::builder::IPCBuilder) to create a server.
 /// Usually one does not need to use the IPCServer object directly.
@@ -43,7 +46,17 @@ impl IPCServer {
         let data = Arc::new(RwLock::new(self.data));
         tracing::info!("address = {:?}", address);
 
-        while let Ok((stream, remote_address)) = listener.protocol_accept().await {
+        loop {
+            let (stream, remote_address) = match listener.protocol_accept().await {
+                Ok(connection) => connection,
+                Err(Error::IoError(e)) => {
+                    // a connection that fails or a lack of resources must not stop the server
+                    tracing::warn!("Failed to accept connection: {:?}", e);
+                    tokio::time::sleep(ACCEPT_RETRY_DELAY).await;
+                    continue;
+                }
+                Err(_) => break,
+            };
             tracing::debug!("remote_address = {:?}", remote_address);
             let handler = Arc::clone(&handler);
             let namespaces = Arc::clone(&namespaces);
-- 
2.43.0


From db2eb1f5beb8e4d0e778c0ffcd3f64159c74029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 15/17] fix: creating an event doesn't panic if the clock is
 set to before 1970

---
 src/events/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events/mod.rs b/src/events/mod.rs
index 2e039d5..b54b8d2 100644
--- a/src/events/mod.rs
+++ b/src/events/mod.rs
@@ -15,7 +15,8 @@ pub(crate) fn generate_event_id() -> u64 {
     lazy_static::lazy_static! {
         static ref COUNTER: Arc<AtomicU64> = Arc::new(AtomicU64::new(0));
     }
-    let epoch_elapsed = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
+    // the id stays unique without the time if the clock is set to before the epoch
+    let epoch_elapsed = SystemTime::now().duration_since(UNIX_EPOCH).unwrap_or_default();
 
     (epoch_elapsed.as_secs() % u16::MAX as u64) << 48
         | (epoch_elapsed.subsec_millis() as u64) << 32
-- 
2.43.0


From 8dd65205d0a06d87d86c822a6ab4d6bb9da0ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 16/17] fix: lengths in bincode payloads are checked before
 memory is allocated for them

---
 src/events/payload_serializer/serialize_bincode.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/events/payload_serializer/serialize_bincode.rs b/src/events/payload_serializer/serialize_bincode.rs
index afbc75b..8f38060 100644
--- a/src/events/payload_serializer/serialize_bincode.rs
+++ b/src/events/payload_serializer/serialize_bincode.rs
@@ -12,7 +12,11 @@ pub fn serialize<T: Serialize>(data: T) -> SerializationResult<Bytes> {
 }
 
 #[inline]
-pub fn deserialize<R: Read, T: DeserializeOwned>(reader: R) -> SerializationResult<T> {
-    let type_data = bincode::deserialize_from(reader)?;
+pub fn deserialize<R: Read, T: DeserializeOwned>(mut reader: R) -> SerializationResult<T> {
+    let mut buf = Vec::new();
+    // reading from a slice checks lengths in the data before allocating memory for them
+    reader.read_to_end(&mut buf)?;
+    let type_data = bincode::deserialize(&buf)?;
+
     Ok(type_data)
 }
-- 
2.43.0


From ae7e213435172f537ab8fde4caa68c31202e9179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:36 +0000
Subject: [PATCH 17/17] fix: an aborted emit no longer leaves a part of its
 frame on the connection

---
 src/ipc/stream_emitter/emit_metadata.rs | 12 ++++++++----
 src/ipc/stream_emitter/mod.rs           | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata.rs b/src/ipc/stream_emitter/emit_metadata.rs
index b5a3e85..13f169c 100644
--- a/src/ipc/stream_emitter/emit_metadata.rs
+++ b/src/ipc/stream_emitter/emit_metadata.rs
@@ -4,7 +4,7 @@ use crate::event::EventType;
 use crate::ipc::stream_emitter::emit_metadata_with_response::EmitMetadataWithResponse;
 use crate::ipc::stream_emitter::emit_metadata_with_response_stream::EmitMetadataWithResponseStream;
 use crate::ipc::stream_emitter::event_metadata::EventMetadata;
-use crate::ipc::stream_emitter::SendStream;
+use crate::ipc::stream_emitter::{SendConnection, SendStream};
 use crate::payload::IntoPayload;
 use crate::{error, poll_unwrap};
 use std::future::Future;
@@ -89,9 +89,13 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadata<P> {
             self.fut = Some(Box::pin(async move {
                 let event_id = event.id();
                 let event_bytes = event.into_bytes()?;
-                let mut stream = stream.lock().await;
-                stream.deref_mut().write_all(&event_bytes[..]).await?;
-                stream.deref_mut().flush().await?;
+                let mut connection = stream.lock().await;
+                let SendConnection { unsent, stream } = connection.deref_mut();
+                // the rest of an event whose sending was aborted
+                stream.write_all_buf(unsent).await?;
+                unsent.extend_from_slice(&event_bytes[..]);
+                stream.write_all_buf(unsent).await?;
+                stream.flush().await?;
                 tracing::trace!(bytes_len = event_bytes.len());
 
                 Ok(event_id)
diff --git a/src/ipc/stream_emitter/mod.rs b/src/ipc/stream_emitter/mod.rs
index bc0f129..c79ed31 100644
--- a/src/ipc/stream_emitter/mod.rs
+++ b/src/ipc/stream_emitter/mod.rs
@@ -5,6 +5,7 @@ mod event_metadata;
 
 use std::sync::Arc;
 
+use bytes::BytesMut;
 use tokio::io::AsyncWrite;
 use tokio::sync::Mutex;
 use tracing;
@@ -29,7 +30,15 @@ macro_rules! poll_unwrap {
     };
 }
 
-type SendStream = Arc<Mutex<dyn AsyncWrite + Send + Sync + Unpin + 'static>>;
+/// The sending half of a connection
+pub(crate) struct SendConnection {
+    /// What has to be sent next. If emitting an event is aborted while it is written,
+    /// this is the rest of its frame.
+    pub(crate) unsent: BytesMut,
+    pub(crate) stream: Box<dyn AsyncWrite + Send + Sync + Unpin + 'static>,
+}
+
+type SendStream = Arc<Mutex<SendConnection>>;
 
 /// An abstraction over any type that implements the AsyncProtocolStream trait
 /// to emit events and share a connection across multiple
@@ -42,7 +51,10 @@ pub struct StreamEmitter {
 impl StreamEmitter {
     pub fn new<P: AsyncProtocolStream + 'static>(stream: P::OwnedSplitWriteHalf) -> Self {
         Self {
-            stream: Arc::new(Mutex::new(stream)),
+            stream: Arc::new(Mutex::new(SendConnection {
+                unsent: BytesMut::new(),
+                stream: Box::new(stream),
+            })),
         }
     }
 
-- 
2.43.0

