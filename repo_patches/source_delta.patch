From 14b1853b5f76f470d129d4c402d7b187231d6029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 01/23] fix: skip multi-byte varint keys of maps and sets

KeyTagImpl::skip used the size of the zero-sized tag type instead of the size of
the key type, so only a single byte was skipped for every integer key wider than
8 bits. Skipping (and thus carrying) an opaque or unknown map or set with such
keys then failed or went out of sync with decoding.
---
 core/src/tags/key_impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/tags/key_impl.rs b/core/src/tags/key_impl.rs
index 8bafc8d..db605be 100644
--- a/core/src/tags/key_impl.rs
+++ b/core/src/tags/key_impl.rs
@@ -132,7 +132,7 @@ impl KeyTagImpl for U16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u16>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -162,7 +162,7 @@ impl KeyTagImpl for I16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i16>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -192,7 +192,7 @@ impl KeyTagImpl for U32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u32>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -222,7 +222,7 @@ impl KeyTagImpl for I32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i32>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -252,7 +252,7 @@ impl KeyTagImpl for U64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<u64>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -282,7 +282,7 @@ impl KeyTagImpl for I64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<{ mem::size_of::<i64>() }>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
-- 
2.43.0


From 9a544e304bb6715a567cc5628ab97ad9e3d258d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:45 +0000
Subject: [PATCH 02/23] fix: never return an empty slice from
 Packetizer::spare_capacity_mut

---
 core/src/message/packetizer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/src/message/packetizer.rs b/core/src/message/packetizer.rs
index 7a1fce3..4e4e3d9 100644
--- a/core/src/message/packetizer.rs
+++ b/core/src/message/packetizer.rs
@@ -30,14 +30,17 @@ impl Packetizer {
     ///
     /// The slice returned by this function is guaranteed to be non-empty.
     pub fn spare_capacity_mut(&mut self) -> &mut [MaybeUninit<u8>] {
-        if let Some(len) = self.len {
-            if self.buf.capacity() < len {
+        match self.len {
+            Some(len) if self.buf.capacity() < len => {
                 let reserve =
                     (len - self.buf.len()).clamp(MIN_RESERVE_CAPACITY, MAX_RESERVE_CAPACITY);
                 self.buf.reserve(reserve);
             }
-        } else if self.buf.capacity() == self.buf.len() {
-            self.buf.reserve(MIN_RESERVE_CAPACITY);
+
+            // The next message may already be complete, just not taken out yet.
+            _ if self.buf.capacity() == self.buf.len() => self.buf.reserve(MIN_RESERVE_CAPACITY),
+
+            _ => {}
         }
 
         let slice = self.buf.spare_capacity_mut();
-- 
2.43.0


From 8be7b0580bed7f607ee1b31a2ce68a9f23d13703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 03/23] broker: state snapshot hook (cfg verif_hooks)

---
 broker/src/broker.rs      |  3 +++
 broker/src/lib.rs         |  4 ++++
 broker/src/verif_hooks.rs | 27 +++++++++++++++++++++++++++
 3 files changed, 34 insertions(+)
 create mode 100644 broker/src/verif_hooks.rs

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index aeaaf01..0086df0 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -206,6 +206,9 @@ impl Broker {
 
             self.handle_event(&mut state, ev);
             self.process_loop_result(&mut state);
+
+            #[cfg(verif_hooks)]
+            crate::verif_hooks::event_handled(&self);
         }
 
         debug_assert!(!state.has_work_left());
diff --git a/broker/src/lib.rs b/broker/src/lib.rs
index b4d9db1..fe4e67d 100644
--- a/broker/src/lib.rs
+++ b/broker/src/lib.rs
@@ -51,6 +51,7 @@
 
 #![deny(missing_debug_implementations)]
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)]
 
 mod acceptor;
 mod broker;
@@ -60,6 +61,9 @@ mod conn_id;
 #[cfg(feature = "introspection")]
 mod introspection_database;
 mod serial_map;
+#[cfg(verif_hooks)]
+#[doc(hidden)]
+pub mod verif_hooks;
 mod versioned_message;
 
 pub use acceptor::{AcceptError, Acceptor};
diff --git a/broker/src/verif_hooks.rs b/broker/src/verif_hooks.rs
new file mode 100644
index 0000000..f4eccbf
--- /dev/null
+++ b/broker/src/verif_hooks.rs
@@ -0,0 +1,27 @@
+//! State snapshots for external verification. Only compiled with `--cfg verif_hooks`.
+
+#![allow(missing_docs)]
+
+use crate::broker::Broker;
+use std::cell::{Cell, RefCell};
+
+thread_local! {
+    static REQUESTED: Cell<bool> = const { Cell::new(false) };
+    static SNAPSHOT: RefCell<Option<String>> = const { RefCell::new(None) };
+}
+
+/// Requests a snapshot after the next event handled by a broker on the current thread.
+pub fn request_snapshot() {
+    REQUESTED.with(|r| r.set(true));
+}
+
+/// Takes the most recent snapshot taken on the current thread.
+pub fn take_snapshot() -> Option<String> {
+    SNAPSHOT.with(|s| s.borrow_mut().take())
+}
+
+pub(crate) fn event_handled(broker: &Broker) {
+    if REQUESTED.with(|r| r.replace(false)) {
+        SNAPSHOT.with(|s| *s.borrow_mut() = Some(format!("{broker:?}")));
+    }
+}
-- 
2.43.0


From ce6003875e7e16d796766cfc3b1a3e41416b12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:45 +0000
Subject: [PATCH 04/23] fix: end subscriptions to all events when a service is
 destroyed

---
 broker/src/broker.rs         | 6 ++++++
 broker/src/broker/service.rs | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index 0086df0..e8ed566 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -2237,6 +2237,12 @@ impl Broker {
             }
         }
 
+        for conn_id in svc.all_events_conn_ids() {
+            if let Some(conn) = self.conns.get_mut(conn_id) {
+                conn.unsubscribe_all_events(svc_cookie);
+            }
+        }
+
         #[cfg(feature = "statistics")]
         {
             self.statistics.num_services = self.statistics.num_services.saturating_sub(1);
diff --git a/broker/src/broker/service.rs b/broker/src/broker/service.rs
index 456932e..00e12d1 100644
--- a/broker/src/broker/service.rs
+++ b/broker/src/broker/service.rs
@@ -116,4 +116,8 @@ impl Service {
 
         res.into_iter()
     }
+
+    pub(crate) fn all_events_conn_ids(&self) -> impl Iterator<Item = &ConnectionId> {
+        self.all_events.iter()
+    }
 }
-- 
2.43.0


From 53a04420ea9242e545bbdd33c66428538d74b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 05/23] fix: count a channel even if the reply to its creator
 cannot be sent

---
 broker/src/broker.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index e8ed566..f3b1ff0 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -1048,6 +1048,11 @@ impl Broker {
 
         self.channels.insert(cookie, channel);
 
+        #[cfg(feature = "statistics")]
+        {
+            self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
+        }
+
         send!(
             self,
             conn,
@@ -1055,14 +1060,7 @@ impl Broker {
                 serial: req.serial,
                 cookie,
             },
-        )?;
-
-        #[cfg(feature = "statistics")]
-        {
-            self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
-        }
-
-        Ok(())
+        )
     }
 
     fn close_channel_end(
-- 
2.43.0


From 49479dae80d01128fe1c6da68427b55a8998a837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:38 +0000
Subject: [PATCH 06/23] fix: a failed claim of a channel end must not close the
 end

Claiming a channel end marks it as claimed before the broker has confirmed
the claim. When the broker rejected the claim, dropping the end then sent a
close request for a claimed end. If the same client had claimed the end
through some other instance, that instance was closed behind its back, and
otherwise the client ran into a debug assertion, because it doesn't know of
any such claimed end.
---
 aldrin/src/client.rs                      |  8 ++++----
 aldrin/src/low_level/channel/raw.rs       |  9 +++++++++
 aldrin/src/low_level/channel/unclaimed.rs | 23 ++++++++++++++++-------
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index c3e44f9..5eca9d5 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -587,15 +587,15 @@ where
         };
 
         if req.claimed {
+            // The channel end might not exist here if it was dropped while it was being claimed,
+            // and the broker then rejected the claim.
             match req.end {
                 ChannelEnd::Sender => {
-                    let contained = self.senders.remove(&req.cookie);
-                    debug_assert!(contained.is_some());
+                    self.senders.remove(&req.cookie);
                 }
 
                 ChannelEnd::Receiver => {
-                    let contained = self.receivers.remove(&req.cookie);
-                    debug_assert!(contained.is_some());
+                    self.receivers.remove(&req.cookie);
                 }
             }
         }
diff --git a/aldrin/src/low_level/channel/raw.rs b/aldrin/src/low_level/channel/raw.rs
index cc832ab..de8c0f0 100644
--- a/aldrin/src/low_level/channel/raw.rs
+++ b/aldrin/src/low_level/channel/raw.rs
@@ -76,6 +76,15 @@ impl<const SENDER: bool> RawChannel<SENDER> {
         self.claimed = true;
     }
 
+    /// Marks the end as closed, because it turned out that it couldn't be claimed.
+    ///
+    /// There is nothing to close at the broker then. In particular, the end might be claimed
+    /// through some other instance that belongs to the same client.
+    pub(crate) fn claim_failed(&mut self) {
+        debug_assert!(self.claimed);
+        self.state = State::Closed;
+    }
+
     fn begin_close(&mut self) -> Result<CloseChannelEndFuture, Error> {
         self.client
             .close_channel_end(self.cookie, Self::channel_end(), self.claimed)
diff --git a/aldrin/src/low_level/channel/unclaimed.rs b/aldrin/src/low_level/channel/unclaimed.rs
index a4755f5..354ffd1 100644
--- a/aldrin/src/low_level/channel/unclaimed.rs
+++ b/aldrin/src/low_level/channel/unclaimed.rs
@@ -116,8 +116,15 @@ impl UnclaimedSender {
     /// ```
     pub async fn claim(mut self) -> Result<Sender, Error> {
         self.inner.set_claimed();
-        let (capacity_added, capacity) = self.client().claim_sender(self.cookie()).await?;
-        Ok(Sender::new(self.inner, capacity_added, capacity))
+
+        match self.client().claim_sender(self.cookie()).await {
+            Ok((capacity_added, capacity)) => Ok(Sender::new(self.inner, capacity_added, capacity)),
+
+            Err(e) => {
+                self.inner.claim_failed();
+                Err(e)
+            }
+        }
     }
 }
 
@@ -235,11 +242,13 @@ impl UnclaimedReceiver {
     pub async fn claim(mut self, capacity: u32) -> Result<Receiver, Error> {
         self.inner.set_claimed();
 
-        let (items, max_capacity) = self
-            .client()
-            .claim_receiver(self.cookie(), capacity)
-            .await?;
+        match self.client().claim_receiver(self.cookie(), capacity).await {
+            Ok((items, max_capacity)) => Ok(Receiver::new(self.inner, items, max_capacity)),
 
-        Ok(Receiver::new(self.inner, items, max_capacity))
+            Err(e) => {
+                self.inner.claim_failed();
+                Err(e)
+            }
+        }
     }
 }
-- 
2.43.0


From a66633425d75406bf472d87bde55cf3719714c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:56 +0000
Subject: [PATCH 07/23] fix: a gone broker must not make a connection end with
 an error

Whether the broker has shut down cleanly or not is only known after looking at the messages it has
left behind. Sending a message to a broker that is gone must hence not end the connection.
---
 broker/src/conn.rs | 40 ++++++++++++++++------------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/broker/src/conn.rs b/broker/src/conn.rs
index 00fab58..ebc3935 100644
--- a/broker/src/conn.rs
+++ b/broker/src/conn.rs
@@ -101,7 +101,7 @@ where
 
                 Selected::Broker(Some(msg)) => {
                     if let Err(e) = self.send_message(msg).await {
-                        self.client_error(id).await?;
+                        self.client_error(id).await;
                         break Err(e);
                     }
                 }
@@ -112,12 +112,12 @@ where
                     break self.client_shutdown(id).await;
                 }
 
-                Selected::Transport(Ok(msg)) => self.send_broker_msg(id.clone(), msg).await?,
+                Selected::Transport(Ok(msg)) => self.send_broker_msg(id.clone(), msg).await,
 
                 Selected::TransportFlushed(Ok(())) => self.flush_transport = false,
 
                 Selected::Transport(Err(e)) | Selected::TransportFlushed(Err(e)) => {
-                    self.client_error(id).await?;
+                    self.client_error(id).await;
                     break Err(ConnectionError::Transport(e));
                 }
             }
@@ -150,42 +150,34 @@ where
     }
 
     async fn client_shutdown(&mut self, id: ConnectionId) -> Result<(), ConnectionError<T::Error>> {
-        self.send_broker_shutdown(id).await?;
+        self.send_broker_shutdown(id).await;
         self.send_message(Shutdown).await?;
         self.drain_broker_recv().await;
 
         Ok(())
     }
 
-    async fn client_error(&mut self, id: ConnectionId) -> Result<(), ConnectionError<T::Error>> {
+    async fn client_error(&mut self, id: ConnectionId) {
         self.transport = None;
         self.flush_transport = false;
 
-        self.send_broker_shutdown(id).await?;
+        self.send_broker_shutdown(id).await;
         self.drain_broker_recv().await;
-
-        Ok(())
     }
 
-    async fn send_broker_msg(
-        &mut self,
-        id: ConnectionId,
-        msg: Message,
-    ) -> Result<(), ConnectionError<T::Error>> {
-        self.send
-            .send(ConnectionEvent::Message(id, msg))
-            .await
-            .map_err(|_| ConnectionError::UnexpectedShutdown)
+    async fn send_broker_msg(&mut self, id: ConnectionId, msg: Message) {
+        // When the broker is gone, then it might have shut down regularly and `recv` still contains
+        // its `Shutdown` message. Otherwise, `recv` will yield `None` eventually. In any case, it's
+        // up to `recv` to decide how this connection ends.
+        let _ = self.send.send(ConnectionEvent::Message(id, msg)).await;
     }
 
-    async fn send_broker_shutdown(
-        &mut self,
-        id: ConnectionId,
-    ) -> Result<(), ConnectionError<T::Error>> {
-        self.send
+    async fn send_broker_shutdown(&mut self, id: ConnectionId) {
+        // There's nobody left to be notified if the broker is gone already.
+        let _ = self
+            .send
             .send(ConnectionEvent::ConnectionShutdown(id))
-            .await
-            .map_err(|_| ConnectionError::UnexpectedShutdown)
+            .await;
     }
 
     async fn drain_broker_recv(&mut self) {
-- 
2.43.0


From 3dcfd40877d68b7c7902401961012e1e64f63e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:16 +0000
Subject: [PATCH 08/23] fix: calls of a service must end when its object is
 destroyed

The client kept the services of a destroyed object, and a pending next_call() was never resolved.
---
 aldrin/src/client.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index 5eca9d5..cf36cad 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -51,7 +51,7 @@ use aldrin_core::transport::{AsyncTransport, AsyncTransportExt, Buffered};
 #[cfg(feature = "introspection")]
 use aldrin_core::TypeId;
 use aldrin_core::{
-    BusListenerCookie, ChannelCookie, ChannelEnd, ChannelEndWithCapacity, ObjectId,
+    BusListenerCookie, ChannelCookie, ChannelEnd, ChannelEndWithCapacity, ObjectCookie, ObjectId,
     ProtocolVersion, SerializedValue, ServiceCookie, ServiceId, ServiceInfo,
 };
 use broker_subscriptions::BrokerSubscriptions;
@@ -91,11 +91,11 @@ where
     handle: Handle,
     num_handles: usize,
     create_object: SerialMap<CreateObjectRequest>,
-    destroy_object: SerialMap<oneshot::Sender<DestroyObjectResult>>,
+    destroy_object: SerialMap<DestroyObjectRequest>,
     create_service: SerialMap<CreateServiceRequest>,
     destroy_service: SerialMap<DestroyServiceRequest>,
     function_calls: FunctionCallMap,
-    services: HashMap<ServiceCookie, mpsc::UnboundedSender<RawCall>>,
+    services: HashMap<ServiceCookie, (ObjectCookie, mpsc::UnboundedSender<RawCall>)>,
     broker_subscriptions: BrokerSubscriptions,
     create_channel: SerialMap<CreateChannelData>,
     close_channel_end: SerialMap<CloseChannelEndRequest>,
@@ -430,9 +430,24 @@ where
     }
 
     fn msg_destroy_object_reply(&mut self, msg: DestroyObjectReply) {
-        if let Some(send) = self.destroy_object.remove(msg.serial) {
-            let _ = send.send(msg.result);
+        let Some(req) = self.destroy_object.remove(msg.serial) else {
+            return;
+        };
+
+        if msg.result == DestroyObjectResult::Ok {
+            // All services of the object have been destroyed as well.
+            let broker_subscriptions = &mut self.broker_subscriptions;
+            self.services.retain(|&cookie, &mut (object, _)| {
+                if object == req.cookie {
+                    broker_subscriptions.remove_service(cookie);
+                    false
+                } else {
+                    true
+                }
+            });
         }
+
+        let _ = req.reply.send(msg.result);
     }
 
     fn msg_create_service_reply(
@@ -446,7 +461,7 @@ where
         let reply = match msg.result {
             CreateServiceResult::Ok(cookie) => {
                 let (send, function_calls) = mpsc::unbounded();
-                let dup = self.services.insert(cookie, send);
+                let dup = self.services.insert(cookie, (req.object_id.cookie, send));
                 debug_assert!(dup.is_none());
 
                 Ok(Service::new_impl(
@@ -499,7 +514,7 @@ where
     }
 
     async fn msg_call_function2(&mut self, msg: CallFunction2) -> Result<(), RunError<T::Error>> {
-        let send = self
+        let (_, send) = self
             .services
             .get_mut(&msg.service_cookie)
             .expect("inconsistent state");
@@ -1259,9 +1274,10 @@ where
         &mut self,
         req: DestroyObjectRequest,
     ) -> Result<(), RunError<T::Error>> {
+        let cookie = req.cookie;
         let msg = DestroyObject {
-            serial: self.destroy_object.insert(req.reply),
-            cookie: req.cookie,
+            serial: self.destroy_object.insert(req),
+            cookie,
         };
 
         send!(self, msg)
-- 
2.43.0


From f9367d48b988e807500eaf94bbdf78c95e1d4812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 09/23] fix: accept struct fields named `required` followed by
 white space

The keyword matched greedily, such that `required@1 = u8;` was a valid field
but its formatted form `required @ 1 = u8;` was a syntax error.
---
 parser/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/grammar.pest b/parser/grammar.pest
index 9b7a73d..2bf3560 100644
--- a/parser/grammar.pest
+++ b/parser/grammar.pest
@@ -148,7 +148,7 @@ def = { struct_def | enum_def | service_def | const_def | newtype_def }
 
 struct_def = { (comment | doc_string | attribute)* ~ kw_struct ~ ident ~ tok_cur_open ~ struct_field* ~ struct_fallback? ~ tok_cur_close }
 struct_inline = { kw_struct ~ tok_cur_open ~ (doc_string_inline | attribute_inline)* ~ struct_field* ~ struct_fallback? ~ tok_cur_close }
-struct_field = { (comment | doc_string)* ~ kw_required? ~ ident ~ tok_at ~ lit_int ~ tok_eq ~ type_name ~ tok_term }
+struct_field = { (comment | doc_string)* ~ (kw_required ~ &ident)? ~ ident ~ tok_at ~ lit_int ~ tok_eq ~ type_name ~ tok_term }
 struct_fallback = { (comment | doc_string)* ~ ident ~ tok_eq ~ kw_fallback ~ tok_term }
 
 enum_def = { (comment | doc_string | attribute)* ~ kw_enum ~ ident ~ tok_cur_open ~ enum_variant* ~ enum_fallback? ~ tok_cur_close }
-- 
2.43.0


From 09521d6840ff793798d90934443af8ac4b08de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 10/23] fix: check types for recursion in linear time

Every path to a type was followed, such that validating a chain of types that
each refer to the next one twice took exponential time.
---
 parser/src/error/recursive_type.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser/src/error/recursive_type.rs b/parser/src/error/recursive_type.rs
index 93871a5..c34a0b4 100644
--- a/parser/src/error/recursive_type.rs
+++ b/parser/src/error/recursive_type.rs
@@ -6,6 +6,7 @@ use crate::ast::{
 use crate::diag::{Diagnostic, DiagnosticKind, Renderer};
 use crate::validate::Validate;
 use crate::{Parser, Schema};
+use std::collections::HashSet;
 use std::ops::ControlFlow;
 
 #[derive(Debug)]
@@ -157,6 +158,7 @@ impl From<RecursiveNewtype> for Error {
 
 struct Visitor<'a> {
     stack: Vec<(&'a str, Type<'a>)>,
+    done: HashSet<(&'a str, &'a str)>,
     validate: &'a Validate<'a>,
 }
 
@@ -185,6 +187,7 @@ impl<'a> Visitor<'a> {
     fn new(validate: &'a Validate<'a>) -> Self {
         Self {
             stack: Vec::new(),
+            done: HashSet::new(),
             validate,
         }
     }
@@ -221,7 +224,10 @@ impl<'a> Visitor<'a> {
     }
 
     fn pop(&mut self) -> ControlFlow<bool> {
-        self.stack.pop();
+        if let Some((schema_name, ty)) = self.stack.pop() {
+            self.done.insert((schema_name, ty.name()));
+        }
+
         ControlFlow::Continue(())
     }
 
@@ -318,6 +324,11 @@ impl<'a> Visitor<'a> {
             }
         };
 
+        // Visit every type only once. There can be exponentially many paths to it.
+        if self.done.contains(&(schema.name(), name)) {
+            return ControlFlow::Continue(());
+        }
+
         let mut defs = schema
             .definitions()
             .iter()
-- 
2.43.0


From e146e6c3872ae053a5c5eba199f7cbeeb06a1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:32 +0000
Subject: [PATCH 11/23] fix: don't overflow when suggesting a free id

The parser panicked (or suggested an id in use) for a duplicate id if 4294967295
was in use as well.
---
 parser/src/error/duplicate_enum_variant_id.rs | 10 +++-------
 parser/src/error/duplicate_event_id.rs        | 10 +++-------
 parser/src/error/duplicate_function_id.rs     | 13 ++++++-------
 parser/src/error/duplicate_struct_field_id.rs | 13 ++++++-------
 parser/src/util.rs                            | 11 +++++++++++
 5 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/parser/src/error/duplicate_enum_variant_id.rs b/parser/src/error/duplicate_enum_variant_id.rs
index 57b2c74..485a730 100644
--- a/parser/src/error/duplicate_enum_variant_id.rs
+++ b/parser/src/error/duplicate_enum_variant_id.rs
@@ -15,19 +15,15 @@ pub(crate) struct DuplicateEnumVariantId {
 
 impl DuplicateEnumVariantId {
     pub(crate) fn validate(vars: &[EnumVariant], ident: Option<&Ident>, validate: &mut Validate) {
-        let mut max_id = vars
-            .iter()
-            .filter_map(|var| var.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids =
+            util::free_ids(vars.iter().filter_map(|var| var.id().value().parse().ok()));
 
         util::find_duplicates(
             vars.iter()
                 .filter(|var| var.id().value().parse::<u32>().is_ok()),
             |var| var.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = free_ids.next().unwrap_or_default();
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/error/duplicate_event_id.rs b/parser/src/error/duplicate_event_id.rs
index 28630df..db8b392 100644
--- a/parser/src/error/duplicate_event_id.rs
+++ b/parser/src/error/duplicate_event_id.rs
@@ -20,18 +20,14 @@ impl DuplicateEventId {
             _ => None,
         });
 
-        let mut max_id = events
-            .clone()
-            .filter_map(|ev| ev.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids =
+            util::free_ids(events.clone().filter_map(|ev| ev.id().value().parse().ok()));
 
         util::find_duplicates(
             events.filter(|ev| ev.id().value().parse::<u32>().is_ok()),
             |ev| ev.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = free_ids.next().unwrap_or_default();
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/error/duplicate_function_id.rs b/parser/src/error/duplicate_function_id.rs
index d5ff66b..c0870e5 100644
--- a/parser/src/error/duplicate_function_id.rs
+++ b/parser/src/error/duplicate_function_id.rs
@@ -20,18 +20,17 @@ impl DuplicateFunctionId {
             _ => None,
         });
 
-        let mut max_id = funcs
-            .clone()
-            .filter_map(|func| func.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids = util::free_ids(
+            funcs
+                .clone()
+                .filter_map(|func| func.id().value().parse().ok()),
+        );
 
         util::find_duplicates(
             funcs.filter(|func| func.id().value().parse::<u32>().is_ok()),
             |func| func.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = free_ids.next().unwrap_or_default();
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/error/duplicate_struct_field_id.rs b/parser/src/error/duplicate_struct_field_id.rs
index bd72993..f6911b9 100644
--- a/parser/src/error/duplicate_struct_field_id.rs
+++ b/parser/src/error/duplicate_struct_field_id.rs
@@ -15,11 +15,11 @@ pub(crate) struct DuplicateStructFieldId {
 
 impl DuplicateStructFieldId {
     pub(crate) fn validate(fields: &[StructField], ident: Option<&Ident>, validate: &mut Validate) {
-        let mut max_id = fields
-            .iter()
-            .filter_map(|field| field.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids = util::free_ids(
+            fields
+                .iter()
+                .filter_map(|field| field.id().value().parse().ok()),
+        );
 
         util::find_duplicates(
             fields
@@ -27,8 +27,7 @@ impl DuplicateStructFieldId {
                 .filter(|field| field.id().value().parse::<u32>().is_ok()),
             |field| field.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
+                let free_id = free_ids.next().unwrap_or_default();
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
diff --git a/parser/src/util.rs b/parser/src/util.rs
index 732dfc2..582310e 100644
--- a/parser/src/util.rs
+++ b/parser/src/util.rs
@@ -207,6 +207,17 @@ where
     }
 }
 
+/// Returns ids that aren't in `used`, preferring those past the largest one.
+pub(crate) fn free_ids(used: impl Iterator<Item = u32>) -> impl Iterator<Item = u32> {
+    let used = used.collect::<HashSet<_>>();
+    let max = used.iter().copied().max().unwrap_or(0);
+
+    (max..=u32::MAX)
+        .skip(1)
+        .chain(0..=max)
+        .filter(move |id| !used.contains(id))
+}
+
 pub(crate) fn resolves_to_key_type<'a>(
     mut kind: &'a TypeNameKind,
     mut schema: &'a Schema,
-- 
2.43.0


From bde051eb219810a05adb3f62964c5093c90a2819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 12/23] fix: detect duplicate ids that are spelled differently

Ids such as `1` and `01` were not considered equal, such that the generated
code didn't compile.
---
 parser/src/error/duplicate_enum_variant_id.rs | 2 +-
 parser/src/error/duplicate_event_id.rs        | 2 +-
 parser/src/error/duplicate_function_id.rs     | 2 +-
 parser/src/error/duplicate_struct_field_id.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/src/error/duplicate_enum_variant_id.rs b/parser/src/error/duplicate_enum_variant_id.rs
index 485a730..cca782b 100644
--- a/parser/src/error/duplicate_enum_variant_id.rs
+++ b/parser/src/error/duplicate_enum_variant_id.rs
@@ -21,7 +21,7 @@ impl DuplicateEnumVariantId {
         util::find_duplicates(
             vars.iter()
                 .filter(|var| var.id().value().parse::<u32>().is_ok()),
-            |var| var.id().value(),
+            |var| var.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 let free_id = free_ids.next().unwrap_or_default();
                 validate.add_error(Self {
diff --git a/parser/src/error/duplicate_event_id.rs b/parser/src/error/duplicate_event_id.rs
index db8b392..1aa8fc4 100644
--- a/parser/src/error/duplicate_event_id.rs
+++ b/parser/src/error/duplicate_event_id.rs
@@ -25,7 +25,7 @@ impl DuplicateEventId {
 
         util::find_duplicates(
             events.filter(|ev| ev.id().value().parse::<u32>().is_ok()),
-            |ev| ev.id().value(),
+            |ev| ev.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 let free_id = free_ids.next().unwrap_or_default();
                 validate.add_error(Self {
diff --git a/parser/src/error/duplicate_function_id.rs b/parser/src/error/duplicate_function_id.rs
index c0870e5..eff669d 100644
--- a/parser/src/error/duplicate_function_id.rs
+++ b/parser/src/error/duplicate_function_id.rs
@@ -28,7 +28,7 @@ impl DuplicateFunctionId {
 
         util::find_duplicates(
             funcs.filter(|func| func.id().value().parse::<u32>().is_ok()),
-            |func| func.id().value(),
+            |func| func.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 let free_id = free_ids.next().unwrap_or_default();
                 validate.add_error(Self {
diff --git a/parser/src/error/duplicate_struct_field_id.rs b/parser/src/error/duplicate_struct_field_id.rs
index f6911b9..d8f92c7 100644
--- a/parser/src/error/duplicate_struct_field_id.rs
+++ b/parser/src/error/duplicate_struct_field_id.rs
@@ -25,7 +25,7 @@ impl DuplicateStructFieldId {
             fields
                 .iter()
                 .filter(|field| field.id().value().parse::<u32>().is_ok()),
-            |field| field.id().value(),
+            |field| field.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 let free_id = free_ids.next().unwrap_or_default();
                 validate.add_error(Self {
-- 
2.43.0


From e7e5b1ba5fb6d27522e9cfca131c78e4b406a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:03 +0000
Subject: [PATCH 13/23] fix: report issues in a deterministic order

The order of the issues and the locations named by some of them depended on the
iteration order of hash maps.
---
 parser/src/error/duplicate_service_uuid.rs |  4 ++--
 parser/src/link_resolver.rs                |  6 +++---
 parser/src/parser.rs                       |  8 ++++----
 parser/src/util.rs                         | 13 ++++++++++---
 parser/src/validate.rs                     |  6 +++---
 5 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/parser/src/error/duplicate_service_uuid.rs b/parser/src/error/duplicate_service_uuid.rs
index 4255122..6006b37 100644
--- a/parser/src/error/duplicate_service_uuid.rs
+++ b/parser/src/error/duplicate_service_uuid.rs
@@ -3,7 +3,7 @@ use crate::ast::{Ident, LitUuid};
 use crate::diag::{Diagnostic, DiagnosticKind, Renderer};
 use crate::issues::Issues;
 use crate::{Parser, Schema};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Debug)]
 pub(crate) struct DuplicateServiceUuid {
@@ -17,7 +17,7 @@ impl DuplicateServiceUuid {
     where
         I: IntoIterator<Item = &'a Schema>,
     {
-        let mut uuids: HashMap<_, Vec<_>> = HashMap::new();
+        let mut uuids: BTreeMap<_, Vec<_>> = BTreeMap::new();
 
         for schema in schemas {
             for def in schema.definitions() {
diff --git a/parser/src/link_resolver.rs b/parser/src/link_resolver.rs
index 797dfe6..189c35b 100644
--- a/parser/src/link_resolver.rs
+++ b/parser/src/link_resolver.rs
@@ -7,7 +7,7 @@ use crate::ast::{
     StructDef, StructFallback, StructField, TypeNameOrInline,
 };
 use crate::{Parser, Schema, Span};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::mem;
 use thiserror::Error;
 
@@ -16,7 +16,7 @@ type ResolveResult<'a> = Result<'a, ResolvedLink<'a>>;
 
 #[derive(Debug, Copy, Clone)]
 pub struct LinkResolver<'a> {
-    schemas: &'a HashMap<String, Schema>,
+    schemas: &'a BTreeMap<String, Schema>,
     schema: &'a Schema,
 }
 
@@ -25,7 +25,7 @@ impl<'a> LinkResolver<'a> {
         Self::from_parts(parser.schemas(), schema)
     }
 
-    pub(crate) fn from_parts(schemas: &'a HashMap<String, Schema>, schema: &'a Schema) -> Self {
+    pub(crate) fn from_parts(schemas: &'a BTreeMap<String, Schema>, schema: &'a Schema) -> Self {
         Self { schemas, schema }
     }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index ea4709a..e7f0124 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -2,13 +2,13 @@ use crate::error::DuplicateServiceUuid;
 use crate::issues::Issues;
 use crate::validate::Validate;
 use crate::{Error, Resolver, Schema, Warning};
-use std::collections::hash_map::{Entry, HashMap};
+use std::collections::btree_map::{BTreeMap, Entry};
 use std::iter;
 
 #[derive(Debug)]
 pub struct Parser {
     main_schema: String,
-    schemas: HashMap<String, Schema>,
+    schemas: BTreeMap<String, Schema>,
     issues: Issues,
 }
 
@@ -19,7 +19,7 @@ impl Parser {
 
         let mut this = Self {
             main_schema: main_schema.name().to_owned(),
-            schemas: HashMap::from_iter(iter::once((main_schema.name().to_owned(), main_schema))),
+            schemas: BTreeMap::from_iter(iter::once((main_schema.name().to_owned(), main_schema))),
             issues,
         };
 
@@ -88,7 +88,7 @@ impl Parser {
         self.issues.other_warnings()
     }
 
-    pub(crate) fn schemas(&self) -> &HashMap<String, Schema> {
+    pub(crate) fn schemas(&self) -> &BTreeMap<String, Schema> {
         &self.schemas
     }
 }
diff --git a/parser/src/util.rs b/parser/src/util.rs
index 582310e..b290903 100644
--- a/parser/src/util.rs
+++ b/parser/src/util.rs
@@ -188,13 +188,20 @@ where
     K: Hash + Eq,
     DFN: FnMut(I::Item, &I::Item),
 {
-    let mut candidates: HashMap<_, Vec<_>> = HashMap::new();
+    let mut indices = HashMap::new();
+    let mut candidates: Vec<Vec<_>> = Vec::new();
 
     for elem in iter {
-        candidates.entry(key_fn(&elem)).or_default().push(elem);
+        let idx = *indices.entry(key_fn(&elem)).or_insert(candidates.len());
+
+        if idx == candidates.len() {
+            candidates.push(Vec::new());
+        }
+
+        candidates[idx].push(elem);
     }
 
-    for (_, candidates) in candidates {
+    for candidates in candidates {
         if candidates.len() <= 1 {
             continue;
         }
diff --git a/parser/src/validate.rs b/parser/src/validate.rs
index db6e903..b423a62 100644
--- a/parser/src/validate.rs
+++ b/parser/src/validate.rs
@@ -1,11 +1,11 @@
 use crate::issues::Issues;
 use crate::{Error, LinkResolver, Schema, Warning};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub(crate) struct Validate<'a> {
     schema_name: &'a str,
     issues: &'a mut Issues,
-    schemas: &'a HashMap<String, Schema>,
+    schemas: &'a BTreeMap<String, Schema>,
     is_main_schema: bool,
 }
 
@@ -13,7 +13,7 @@ impl<'a> Validate<'a> {
     pub(crate) fn new(
         schema_name: &'a str,
         issues: &'a mut Issues,
-        schemas: &'a HashMap<String, Schema>,
+        schemas: &'a BTreeMap<String, Schema>,
         is_main_schema: bool,
     ) -> Self {
         Validate {
-- 
2.43.0


From 7eca88a2d68532aa9a5573b81d2f577c4a30fbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 14/23] fix: clamp the terminal width of the diagnostics
 renderer

Rendering with a very small or a very large width panicked.
---
 parser/src/diag.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/diag.rs b/parser/src/diag.rs
index a7123b6..b56fcd0 100644
--- a/parser/src/diag.rs
+++ b/parser/src/diag.rs
@@ -41,6 +41,10 @@ pub struct Renderer {
 
 impl Renderer {
     pub fn new(color: bool, unicode: bool, term_width: usize) -> Self {
+        // annotate-snippets panics on very small and on very large widths.
+        const MIN_TERM_WIDTH: usize = 20;
+        const MAX_TERM_WIDTH: usize = u16::MAX as usize;
+
         let mut inner = if color {
             annotate_snippets::Renderer::styled()
         } else {
@@ -51,7 +55,7 @@ impl Renderer {
             inner = inner.decor_style(DecorStyle::Unicode);
         };
 
-        inner = inner.term_width(term_width);
+        inner = inner.term_width(term_width.clamp(MIN_TERM_WIDTH, MAX_TERM_WIDTH));
 
         Self { inner }
     }
-- 
2.43.0


From 995129bd43bf92f46b1fa6bfea2bb81cced4dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 15/23] fix: don't panic on names that consist of underscores
 only

The code generator panicked while converting such a name's case.
---
 codegen/src/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codegen/src/util.rs b/codegen/src/util.rs
index 16c29aa..6c5215c 100644
--- a/codegen/src/util.rs
+++ b/codegen/src/util.rs
@@ -6,8 +6,9 @@ where
     F: FnOnce(&'a str) -> R,
     R: fmt::Display,
 {
-    let start = s.len() - s.trim_start_matches('_').len();
-    let end = s.trim_end_matches('_').len();
+    let trimmed = s.trim_start_matches('_');
+    let start = s.len() - trimmed.len();
+    let end = start + trimmed.trim_end_matches('_').len();
 
     format!("{}{}{}", &s[..start], convert(&s[start..end]), &s[end..],)
 }
-- 
2.43.0


From 90756bfa668b3752114b321c6890b5c6e95623a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 16/23] fix: allow the id u32::MAX in derived structs and enums

The derive macros computed the default id of the next item with an addition
that overflowed.
---
 macros/src/derive/enum_data.rs      | 2 +-
 macros/src/derive/introspectable.rs | 4 ++--
 macros/src/derive/struct_data.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/macros/src/derive/enum_data.rs b/macros/src/derive/enum_data.rs
index b4698b9..1e1c27a 100644
--- a/macros/src/derive/enum_data.rs
+++ b/macros/src/derive/enum_data.rs
@@ -40,7 +40,7 @@ impl<'a> EnumData<'a> {
                 VariantData::new(variant, name, input.generics.lifetimes(), default_id)?;
 
             fallback = variant_data.is_fallback();
-            default_id = variant_data.id() + 1;
+            default_id = variant_data.id().wrapping_add(1);
             variant_datas.push(variant_data);
         }
 
diff --git a/macros/src/derive/introspectable.rs b/macros/src/derive/introspectable.rs
index bbbd8ea..7ff2ca5 100644
--- a/macros/src/derive/introspectable.rs
+++ b/macros/src/derive/introspectable.rs
@@ -137,7 +137,7 @@ fn gen_regular_struct(
                 ));
             }
 
-            next_id = item_options.id() + 1;
+            next_id = item_options.id().wrapping_add(1);
 
             let (field_layout, field_references) = gen_field(field, index, options, &item_options);
 
@@ -289,7 +289,7 @@ fn gen_enum(
             ));
         }
 
-        next_id = item_options.id() + 1;
+        next_id = item_options.id().wrapping_add(1);
 
         let (var_layout, var_references) = gen_variant(variant, options, &item_options)?;
 
diff --git a/macros/src/derive/struct_data.rs b/macros/src/derive/struct_data.rs
index 90e7caa..62f4f85 100644
--- a/macros/src/derive/struct_data.rs
+++ b/macros/src/derive/struct_data.rs
@@ -73,7 +73,7 @@ impl<'a> StructData<'a> {
                 fallback = true;
             }
 
-            default_id = field_data.id() + 1;
+            default_id = field_data.id().wrapping_add(1);
             field_datas.push(field_data);
         }
 
-- 
2.43.0


From db2747005dd3fbb2e5c5be749733f71e2f8adbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 17/23] fix: don't panic on fields that consist of underscores
 only

Same as in the code generator, the derive macros panicked while converting such
a name's case.
---
 macros/src/util.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/macros/src/util.rs b/macros/src/util.rs
index a312db9..2ceb1ea 100644
--- a/macros/src/util.rs
+++ b/macros/src/util.rs
@@ -6,8 +6,9 @@ where
     F: FnOnce(&'a str) -> R,
     R: fmt::Display,
 {
-    let start = s.len() - s.trim_start_matches('_').len();
-    let end = s.trim_end_matches('_').len();
+    let trimmed = s.trim_start_matches('_');
+    let start = s.len() - trimmed.len();
+    let end = start + trimmed.trim_end_matches('_').len();
 
     format!("{}{}{}", &s[..start], convert(&s[start..end]), &s[end..],)
 }
-- 
2.43.0


From d4f5d1e823096e7841e679deabca733fc6d242bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 18/23] fix: generate raw identifiers for constants

A constant in a schema can be named like a Rust keyword. All other names were
already emitted as raw identifiers.
---
 codegen/src/rust.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 31f7b5f..6a0164a 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -693,52 +693,52 @@ impl RustGenerator<'_> {
         match const_def.value() {
             ast::ConstValue::U8(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U8} = {val};");
+                codeln!(self, "pub const r#{name}: {U8} = {val};");
             }
 
             ast::ConstValue::I8(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I8} = {val};");
+                codeln!(self, "pub const r#{name}: {I8} = {val};");
             }
 
             ast::ConstValue::U16(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U16} = {val};");
+                codeln!(self, "pub const r#{name}: {U16} = {val};");
             }
 
             ast::ConstValue::I16(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I16} = {val};");
+                codeln!(self, "pub const r#{name}: {I16} = {val};");
             }
 
             ast::ConstValue::U32(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U32} = {val};");
+                codeln!(self, "pub const r#{name}: {U32} = {val};");
             }
 
             ast::ConstValue::I32(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I32} = {val};");
+                codeln!(self, "pub const r#{name}: {I32} = {val};");
             }
 
             ast::ConstValue::U64(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U64} = {val};");
+                codeln!(self, "pub const r#{name}: {U64} = {val};");
             }
 
             ast::ConstValue::I64(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I64} = {val};");
+                codeln!(self, "pub const r#{name}: {I64} = {val};");
             }
 
             ast::ConstValue::String(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: &{STR} = {val};");
+                codeln!(self, "pub const r#{name}: &{STR} = {val};");
             }
 
             ast::ConstValue::Uuid(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {krate}::private::uuid::Uuid = {krate}::private::uuid::uuid!(\"{val}\");");
+                codeln!(self, "pub const r#{name}: {krate}::private::uuid::Uuid = {krate}::private::uuid::uuid!(\"{val}\");");
             }
         };
 
-- 
2.43.0


From 199b64108e8744c07bff54122e61980541e7d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 19/23] fix: escape doc strings in generated attributes

Doc strings with quotes or backslashes resulted in invalid code.
---
 codegen/src/rust.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 6a0164a..6289aa6 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -239,7 +239,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in doc {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -268,7 +268,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in field.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -291,7 +291,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -352,7 +352,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in doc {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -376,7 +376,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in var.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -400,7 +400,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -457,7 +457,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in svc.doc() {
                 let doc = doc.value_inner();
-                codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "    #[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -480,7 +480,7 @@ impl RustGenerator<'_> {
                     if doc_alt && self.options.introspection {
                         for doc in func.doc() {
                             let doc = doc.value_inner();
-                            codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                            codeln!(self, "        #[aldrin(doc = {doc:?})]");
                         }
                     }
 
@@ -524,7 +524,7 @@ impl RustGenerator<'_> {
                     if doc_alt && self.options.introspection {
                         for doc in ev.doc() {
                             let doc = doc.value_inner();
-                            codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                            codeln!(self, "        #[aldrin(doc = {doc:?})]");
                         }
                     }
 
@@ -552,7 +552,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "        #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -571,7 +571,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "        #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -796,7 +796,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in newtype_def.doc() {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
-- 
2.43.0


From 70f1e048a14f8439a1b19b5d849254deb890c1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:49 +0000
Subject: [PATCH 20/23] fix: don't derive traits twice for newtypes of key
 types

---
 codegen/src/rust.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 6289aa6..3b5f67b 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -751,11 +751,21 @@ impl RustGenerator<'_> {
         let ident = format!("r#{name}");
         let ty = self.type_name(newtype_def.target_type());
         let schema_name = self.schema.name();
-        let additional_derives =
-            RustAttributes::parse(newtype_def.attributes()).additional_derives();
+        let mut attributes = RustAttributes::parse(newtype_def.attributes());
         let (is_key_type, derive_default) =
             self.newtype_properties(self.schema, newtype_def.target_type());
 
+        // These are always derived for key types.
+        if is_key_type {
+            attributes.impl_partial_eq = false;
+            attributes.impl_eq = false;
+            attributes.impl_partial_ord = false;
+            attributes.impl_ord = false;
+            attributes.impl_hash = false;
+        }
+
+        let additional_derives = attributes.additional_derives();
+
         let (doc_comment, doc_alt) = self.doc_string(newtype_def.doc(), 0);
         code!(self, "{doc_comment}");
 
-- 
2.43.0


From d1c8b5ffaf407ebeab99eeebb2850fb2d48abbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 21/23] fix: make generated code independent of names in the
 schema

Fields named e.g. _deserializer or Ok and types named Ok or None clashed with
other names used in the generated code.
---
 macros/src/derive/deserialize.rs | 2 +-
 macros/src/derive/struct_data.rs | 8 ++------
 macros/src/service/body.rs       | 6 +++---
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/macros/src/derive/deserialize.rs b/macros/src/derive/deserialize.rs
index 09030ab..a6833a7 100644
--- a/macros/src/derive/deserialize.rs
+++ b/macros/src/derive/deserialize.rs
@@ -86,7 +86,7 @@ impl StructData<'_> {
                     }
 
                     _deserializer.finish_with(|_fallback| {
-                        Ok(Self {
+                        ::std::result::Result::Ok(Self {
                             #(#field_finish),*
                         })
                     })
diff --git a/macros/src/derive/struct_data.rs b/macros/src/derive/struct_data.rs
index 62f4f85..653511a 100644
--- a/macros/src/derive/struct_data.rs
+++ b/macros/src/derive/struct_data.rs
@@ -3,7 +3,6 @@ use crate::doc_string::DocString;
 use crate::util;
 use proc_macro2::TokenStream;
 use quote::{format_ident, ToTokens};
-use std::borrow::Cow;
 use syn::ext::IdentExt;
 use syn::punctuated::Punctuated;
 use syn::{
@@ -148,7 +147,7 @@ pub(crate) struct FieldData<'a> {
     ty: &'a Type,
     ty_generic: Ident,
     ty_tag: Type,
-    var: Cow<'a, Ident>,
+    var: Ident,
 }
 
 impl<'a> FieldData<'a> {
@@ -177,10 +176,7 @@ impl<'a> FieldData<'a> {
             parse_quote!(#struct_name<#(#lifetimes),*>),
         );
 
-        let var = match name {
-            FieldName::Ident(name) => Cow::Borrowed(name),
-            FieldName::Index(ref index) => Cow::Owned(format_ident!("r#_field{}", index.index)),
-        };
+        let var = format_ident!("r#_field{index}");
 
         Ok(Self {
             name,
diff --git a/macros/src/service/body.rs b/macros/src/service/body.rs
index 10d6846..c78097c 100644
--- a/macros/src/service/body.rs
+++ b/macros/src/service/body.rs
@@ -111,7 +111,7 @@ impl Body {
                 }
 
                 let inner = #krate::low_level::Proxy::new(client, id).await?;
-                Ok(Self { inner })
+                ::std::result::Result::Ok(Self { inner })
             }
 
             pub fn inner(&self) -> &#krate::low_level::Proxy {
@@ -147,7 +147,7 @@ impl Body {
 
             pub async fn subscribe_all(&self) -> ::std::result::Result<(), #krate::Error> {
                 #subscribe_all_body
-                Ok(())
+                ::std::result::Result::Ok(())
             }
 
             pub async fn unsubscribe_all(&self) -> ::std::result::Result<(), #krate::Error> {
@@ -168,7 +168,7 @@ impl Body {
                         ::std::task::Poll::Ready(::std::option::Option::Some(ev)) => ev,
 
                         ::std::task::Poll::Ready(::std::option::Option::None) => {
-                            break ::std::task::Poll::Ready(None);
+                            break ::std::task::Poll::Ready(::std::option::Option::None);
                         }
 
                         ::std::task::Poll::Pending => break ::std::task::Poll::Pending,
-- 
2.43.0


From a7e563615c0438359871ea98dc2a8b5e6fd0786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 22/23] fix: keep BusListener's pending counter in step with
 its queue

When start() or stop() was dropped before completing, or when a bus listener
was destroyed with control events still queued, the BusListener received events
that it had not accounted for. The counters underflowed (panic in debug builds,
next_event() never completing otherwise) or claimed that a started bus listener
had finished.
---
 aldrin/src/bus_listener.rs | 57 ++++++++++++++++++++------------------
 aldrin/src/client.rs       |  9 ++++--
 2 files changed, 37 insertions(+), 29 deletions(-)

diff --git a/aldrin/src/bus_listener.rs b/aldrin/src/bus_listener.rs
index 3d803aa..3b3629c 100644
--- a/aldrin/src/bus_listener.rs
+++ b/aldrin/src/bus_listener.rs
@@ -9,6 +9,8 @@ use futures_core::stream::{FusedStream, Stream};
 use std::collections::HashSet;
 use std::future;
 use std::pin::Pin;
+use std::sync::atomic::{AtomicUsize, Ordering};
+use std::sync::Arc;
 use std::task::{Context, Poll};
 
 /// Monitors the bus for the creation and destruction of objects and services.
@@ -89,9 +91,7 @@ pub struct BusListener {
     client: Handle,
     filters: HashSet<BusListenerFilter>,
     scope: Option<BusListenerScope>,
-    pending_started: usize,
-    pending_stopped: usize,
-    pending_current_finished: usize,
+    pending: Arc<AtomicUsize>,
     events: UnboundedReceiver<BusListenerEvent>,
 }
 
@@ -104,6 +104,7 @@ impl BusListener {
     pub(crate) fn new_impl(
         cookie: BusListenerCookie,
         client: Handle,
+        pending: Arc<AtomicUsize>,
         events: UnboundedReceiver<BusListenerEvent>,
     ) -> Self {
         Self {
@@ -111,9 +112,7 @@ impl BusListener {
             client,
             filters: HashSet::new(),
             scope: None,
-            pending_started: 0,
-            pending_stopped: 0,
-            pending_current_finished: 0,
+            pending,
             events,
         }
     }
@@ -133,9 +132,7 @@ impl BusListener {
         self.client.destroy_bus_listener(self.cookie).await?;
 
         self.events.close();
-        self.pending_started = 0;
-        self.pending_stopped = 0;
-        self.pending_current_finished = 0;
+        self.pending.store(0, Ordering::Release);
 
         Ok(())
     }
@@ -346,21 +343,12 @@ impl BusListener {
     ///
     /// Bus listeners can only be started when they are stopped.
     pub async fn start(&mut self, scope: BusListenerScope) -> Result<(), Error> {
-        self.client.start_bus_listener(self.cookie, scope).await?;
-        self.pending_started += 1;
-
-        if scope.includes_current() {
-            self.pending_current_finished += 1;
-        }
-
-        Ok(())
+        self.client.start_bus_listener(self.cookie, scope).await
     }
 
     /// Stops the bus listener.
     pub async fn stop(&mut self) -> Result<(), Error> {
-        self.client.stop_bus_listener(self.cookie).await?;
-        self.pending_stopped += 1;
-        Ok(())
+        self.client.stop_bus_listener(self.cookie).await
     }
 
     /// Returns the bus listener's active scope, if any.
@@ -383,10 +371,7 @@ impl BusListener {
     /// [`BusListenerScope::Current`] and all events have been emitted.
     pub fn is_finished(&self) -> bool {
         self.events.is_terminated()
-            || (!self.includes_new()
-                && (self.pending_started == 0)
-                && (self.pending_stopped == 0)
-                && (self.pending_current_finished == 0))
+            || (!self.includes_new() && (self.pending.load(Ordering::Acquire) == 0))
     }
 
     /// Polls the bus listener for an event.
@@ -399,12 +384,12 @@ impl BusListener {
             match Pin::new(&mut self.events).poll_next(cx) {
                 Poll::Ready(Some(BusListenerEvent::Started(scope))) => {
                     self.scope = Some(scope);
-                    self.pending_started -= 1;
+                    self.pending_received();
                 }
 
                 Poll::Ready(Some(BusListenerEvent::Stopped)) => {
                     self.scope = None;
-                    self.pending_stopped -= 1;
+                    self.pending_received();
                 }
 
                 Poll::Ready(Some(BusListenerEvent::Event(event))) => {
@@ -412,7 +397,7 @@ impl BusListener {
                 }
 
                 Poll::Ready(Some(BusListenerEvent::CurrentFinished)) => {
-                    self.pending_current_finished -= 1;
+                    self.pending_received();
                 }
 
                 Poll::Ready(None) => break Poll::Ready(None),
@@ -431,6 +416,13 @@ impl BusListener {
             .map(BusListenerScope::includes_new)
             .unwrap_or(false)
     }
+
+    fn pending_received(&self) {
+        // The counter is reset when the bus listener is destroyed.
+        let _ = self
+            .pending
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |n| n.checked_sub(1));
+    }
 }
 
 impl Drop for BusListener {
@@ -456,6 +448,9 @@ impl FusedStream for BusListener {
 #[derive(Debug)]
 pub(crate) struct BusListenerHandle {
     filters: HashSet<BusListenerFilter>,
+    /// Number of `Started`, `Stopped` and `CurrentFinished` events which the `BusListener` has yet
+    /// to receive.
+    pending: Arc<AtomicUsize>,
     events: UnboundedSender<BusListenerEvent>,
     scope: Option<BusListenerScope>,
     current_finished: bool,
@@ -465,12 +460,17 @@ impl BusListenerHandle {
     pub(crate) fn new(events: UnboundedSender<BusListenerEvent>) -> Self {
         Self {
             filters: HashSet::new(),
+            pending: Arc::new(AtomicUsize::new(0)),
             events,
             scope: None,
             current_finished: false,
         }
     }
 
+    pub(crate) fn pending(&self) -> Arc<AtomicUsize> {
+        self.pending.clone()
+    }
+
     pub(crate) fn add_filter(&mut self, filter: BusListenerFilter) {
         self.filters.insert(filter);
     }
@@ -487,6 +487,8 @@ impl BusListenerHandle {
         if self.scope.is_none() {
             self.scope = Some(scope);
             self.current_finished = !scope.includes_current();
+            let num = if scope.includes_current() { 2 } else { 1 };
+            self.pending.fetch_add(num, Ordering::AcqRel);
             let _ = self.events.unbounded_send(BusListenerEvent::Started(scope));
             true
         } else {
@@ -497,6 +499,7 @@ impl BusListenerHandle {
     pub(crate) fn stop(&mut self) -> bool {
         if self.scope.is_some() {
             self.scope = None;
+            self.pending.fetch_add(1, Ordering::AcqRel);
             let _ = self.events.unbounded_send(BusListenerEvent::Stopped);
             true
         } else {
diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index cf36cad..6ae38f2 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -803,10 +803,16 @@ where
         };
 
         let (send, recv) = mpsc::unbounded();
+        let bus_listener_handle = BusListenerHandle::new(send);
 
         match data {
             CreateBusListenerData::BusListener(reply) => {
-                let listener = BusListener::new_impl(msg.cookie, self.handle.clone(), recv);
+                let listener = BusListener::new_impl(
+                    msg.cookie,
+                    self.handle.clone(),
+                    bus_listener_handle.pending(),
+                    recv,
+                );
                 let _ = reply.send(listener);
             }
 
@@ -816,7 +822,6 @@ where
             }
         }
 
-        let bus_listener_handle = BusListenerHandle::new(send);
         let dup = self.bus_listeners.insert(msg.cookie, bus_listener_handle);
         assert!(dup.is_none());
 
-- 
2.43.0


From f4e9084febe4ce63e32102c5999d96478a4354f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 23/23] fix: a client that is shutting down hung when a pending
 call was given up

Every selected call is marked as aborted, also while the transport is drained.
Otherwise it is selected over and over again without ever yielding.
---
 aldrin/src/client.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index 6ae38f2..7d77cfd 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -314,9 +314,10 @@ where
                     return Err(RunError::Transport(e))
                 }
 
-                Selected::Transport(Ok(_))
-                | Selected::Handle(_)
-                | Selected::AbortFunctionCall(_) => {}
+                // This must not be selected over and over again.
+                Selected::AbortFunctionCall(serial) => self.function_calls.abort(serial),
+
+                Selected::Transport(Ok(_)) | Selected::Handle(_) => {}
             }
         }
 
-- 
2.43.0

