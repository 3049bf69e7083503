From 551fa9535ea8738d983d90d4bc3c05486c0c7562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:49 +0000
Subject: [PATCH 01/25] fix: decrypt a message with the nonce of its final
 packet

The nonce of the packet that happened to arrive last was used, so a
multi-packet message whose final packet was reordered could not be decrypted.
---
 src/core/transport/wire/input/decoder.rs | 11 ++++++++++-
 src/core/transport/wire/input/mod.rs     |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 9807414..8293c37 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -1,4 +1,6 @@
-use crate::core::transport::{constants, wire::packet::Packet};
+use crate::core::transport::{
+    constants, crypto::Nonce, wire::packet::Packet,
+};
 use crate::utils::TtlValue;
 use derive_more::{Display, Error};
 use std::collections::HashMap;
@@ -131,6 +133,13 @@ impl Decoder {
             .unwrap_or_default()
     }
 
+    /// Retrieves the nonce carried by the final packet of the group, if that
+    /// packet has been received and has a nonce
+    pub fn nonce(&self, group_id: u32) -> Option<&Nonce> {
+        let group = self.packet_groups.get(&group_id.into())?;
+        group.packets.get(&group.final_index?)?.nonce()
+    }
+
     /// Reconstructs the data represented by the packets
     /// NOTE: This currently produces a copy of all data instead of passing
     ///       back out ownership
diff --git a/src/core/transport/wire/input/mod.rs b/src/core/transport/wire/input/mod.rs
index 3d53473..c6b4e15 100644
--- a/src/core/transport/wire/input/mod.rs
+++ b/src/core/transport/wire/input/mod.rs
@@ -59,7 +59,6 @@ where
         }
 
         let group_id = p.id();
-        let nonce = p.nonce().cloned();
 
         // Ensure that packet groups are still valid
         self.decoder.remove_expired();
@@ -67,6 +66,10 @@ where
         // Add the packet, see if we are ready to decode the data, and do so
         let do_decode = add_packet_and_verify(&mut self.decoder, p)?;
         if do_decode {
+            // The nonce travels with the final packet, which is not necessarily
+            // the packet that arrived last
+            let nonce = self.decoder.nonce(group_id).cloned();
+
             // Gather the complete data
             let data = decode_and_decrypt(
                 group_id,
-- 
2.43.0


From dd0352449b2362d1d0f7667a60b8e5322610687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:16 +0000
Subject: [PATCH 02/25] fix: drop a complete packet group whose data cannot be
 decrypted

The group was kept until its TTL and rejected any new message with its id.
---
 src/core/transport/wire/input/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/transport/wire/input/mod.rs b/src/core/transport/wire/input/mod.rs
index c6b4e15..38f77e1 100644
--- a/src/core/transport/wire/input/mod.rs
+++ b/src/core/transport/wire/input/mod.rs
@@ -71,17 +71,18 @@ where
             let nonce = self.decoder.nonce(group_id).cloned();
 
             // Gather the complete data
-            let data = decode_and_decrypt(
+            let result = decode_and_decrypt(
                 group_id,
                 &self.decoder,
                 &self.decrypter,
                 nonce,
-            )?;
+            );
 
-            // Remove the underlying group as we no longer need to keep it
+            // Remove the underlying group as we no longer need to keep it,
+            // regardless of whether or not we were able to decrypt its data
             self.decoder.remove_group(group_id);
 
-            Ok(Some(data))
+            Ok(Some(result?))
         } else {
             Ok(None)
         }
-- 
2.43.0


From 9737d7968bd94a7434e14ada2a3acc3ee055a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:21 +0000
Subject: [PATCH 03/25] fix: reject a final packet that precedes a packet
 already received

The group could otherwise be seen as complete with an index missing.
---
 src/core/transport/wire/input/decoder.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 8293c37..c0731fe 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -102,6 +102,17 @@ impl Decoder {
             return Err(DecoderError::PacketBeyondLastIndex { id, index });
         }
 
+        // Check if we are adding a final packet when we already have a packet
+        // that would be beyond it
+        if is_final {
+            if let Some(i) = group.packets.keys().find(|i| **i > index) {
+                return Err(DecoderError::PacketBeyondLastIndex {
+                    id,
+                    index: *i,
+                });
+            }
+        }
+
         // Add the packet to our group and, if it's final, mark it
         group.packets.insert(index, packet);
         if is_final {
-- 
2.43.0


From 53514cfab7560b6b9e7bb8173424c7b1df136e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:25 +0000
Subject: [PATCH 04/25] fix: do not overflow when the final packet has the
 largest index

A single packet with index 4294967295 panicked the receiving node.
---
 src/core/transport/wire/input/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index c0731fe..c763cb0 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -138,8 +138,8 @@ impl Decoder {
         self.packet_groups
             .get(&group_id.into())
             .and_then(|g| {
-                let total_packets = g.packets.len() as u32;
-                g.final_index.map(|i| i + 1 == total_packets)
+                let total_packets = g.packets.len() as u64;
+                g.final_index.map(|i| u64::from(i) + 1 == total_packets)
             })
             .unwrap_or_default()
     }
-- 
2.43.0


From 3849e7ef81720a8a7da2e060566548c30d425619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 05/25] fix: check and register a nonce under a single lock

---
 src/core/transport/crypto/nonce/cache.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/crypto/nonce/cache.rs b/src/core/transport/crypto/nonce/cache.rs
index 0b542f0..4cb61af 100644
--- a/src/core/transport/crypto/nonce/cache.rs
+++ b/src/core/transport/crypto/nonce/cache.rs
@@ -34,12 +34,16 @@ impl<T: Bicrypter> NonceCacheBicrypter<T> {
     ) -> Result<&'a [u8], CryptError> {
         if let Some(cache) = &self.cache {
             let nonce_vec = nonce.to_vec();
-            if cache.read().unwrap().contains(&nonce_vec) {
+
+            // Hold the lock across both the check and the registration so two
+            // uses of the same nonce cannot both be seen as the first
+            let mut cache = cache.write().unwrap();
+            if cache.contains(&nonce_vec) {
                 return Err(CryptError::NonceAlreadyUsed { nonce: nonce_vec });
             }
 
             // Mark that we have used the nonce
-            cache.write().unwrap().put(nonce_vec, ());
+            cache.put(nonce_vec, ());
         }
 
         Ok(nonce)
-- 
2.43.0


From 541803592418189c01fcec19861627e411f4d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 06/25] fix: do not grow the packet size caches with every
 message

The caches were keyed by the nonce, which is new for each message.
---
 src/core/transport/wire/output/encoder.rs |  7 +++++++
 src/core/transport/wire/packet.rs         | 16 ++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/core/transport/wire/output/encoder.rs b/src/core/transport/wire/output/encoder.rs
index 5bd8d70..55579f4 100644
--- a/src/core/transport/wire/output/encoder.rs
+++ b/src/core/transport/wire/output/encoder.rs
@@ -160,6 +160,9 @@ impl Encoder {
         r#type: PacketType,
         signer: &S,
     ) -> Result<usize, serde_cbor::Error> {
+        // Any nonce of the same kind takes up the same space at most
+        let r#type = r#type.into_largest_nonce();
+
         // Calculate key to use for cache
         let key = format!("{}{:?}", max_packet_size, r#type);
 
@@ -224,6 +227,10 @@ impl Encoder {
         r#type: PacketType,
         signer: &S,
     ) -> Result<usize, serde_cbor::Error> {
+        // The size of a serialized nonce depends on its bytes, so estimate with
+        // the largest; this also keeps the cache from growing with each nonce
+        let r#type = r#type.into_largest_nonce();
+
         // Calculate key to use for cache
         let key = format!("{}{:?}", data_size, r#type);
 
diff --git a/src/core/transport/wire/packet.rs b/src/core/transport/wire/packet.rs
index c4732cb..2a4bd13 100644
--- a/src/core/transport/wire/packet.rs
+++ b/src/core/transport/wire/packet.rs
@@ -68,6 +68,22 @@ impl PacketType {
             _ => false,
         }
     }
+
+    /// Replaces the nonce (if any) with one of the same kind whose serialized
+    /// form is the largest possible
+    pub(crate) fn into_largest_nonce(self) -> Self {
+        match self {
+            Self::Final {
+                encryption: PacketEncryption::EncryptedWithNonce { nonce },
+            } => Self::Final {
+                encryption: PacketEncryption::from(match nonce {
+                    Nonce::Nonce96Bits(_) => Nonce::from([u8::MAX; 12]),
+                    Nonce::Nonce128Bits(_) => Nonce::from([u8::MAX; 16]),
+                }),
+            },
+            x => x,
+        }
+    }
 }
 
 #[derive(Serialize, Deserialize, Debug, Clone, Copy)]
-- 
2.43.0


From 68e1f232689912a2977fc717be5496315dde5115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 07/25] fix: never produce a packet larger than the maximum
 packet size

The packet size was estimated from a single random signature, but the
serialized size of a signature depends on its bytes; larger packets are
truncated by the receiver and the whole message is lost.
---
 src/core/transport/wire/output/encoder.rs | 49 ++++++++++++++++-------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/core/transport/wire/output/encoder.rs b/src/core/transport/wire/output/encoder.rs
index 55579f4..ff2d526 100644
--- a/src/core/transport/wire/output/encoder.rs
+++ b/src/core/transport/wire/output/encoder.rs
@@ -109,22 +109,41 @@ impl Encoder {
             // Ensure data section size does not exceed our remaining data
             let data_size = std::cmp::min(data_size, remaining_data_size);
 
-            // Grab our chunk of data to store into a packet
-            let chunk = &data[i..i + data_size];
+            // Construct the packet based on whether or not is final; the size of
+            // a serialized signature depends on its bytes, so a packet can still
+            // be larger than estimated, in which case we shrink its data
+            let mut data_size = data_size;
+            let packet = loop {
+                // Grab our chunk of data to store into a packet
+                let chunk = &data[i..i + data_size];
+
+                let packet = Self::make_new_packet(
+                    id,
+                    packets.len() as u32,
+                    if data_size == remaining_data_size {
+                        PacketType::Final { encryption }
+                    } else {
+                        PacketType::NotFinal
+                    },
+                    chunk,
+                    signer,
+                )
+                .map_err(|_| EncoderError::FailedToSignPacket)?;
+
+                let packet_size = packet
+                    .to_vec()
+                    .map_err(|_| EncoderError::FailedToEstimateDataSize)?
+                    .len();
+                if packet_size <= max_packet_size {
+                    break packet;
+                }
 
-            // Construct the packet based on whether or not is final
-            let packet = Self::make_new_packet(
-                id,
-                packets.len() as u32,
-                if can_fit_all_in_final_packet {
-                    PacketType::Final { encryption }
-                } else {
-                    PacketType::NotFinal
-                },
-                chunk,
-                signer,
-            )
-            .map_err(|_| EncoderError::FailedToSignPacket)?;
+                let overflow_size = packet_size - max_packet_size;
+                if overflow_size >= data_size {
+                    return Err(EncoderError::MaxPacketSizeTooSmall);
+                }
+                data_size -= overflow_size;
+            };
 
             // Store packet in our collection
             packets.push(packet);
-- 
2.43.0


From 397d75e14a1b244c256bceb885c0b968c47396bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:01 +0000
Subject: [PATCH 08/25] fix: report the end of a tcp stream as an error

Reading from a closed stream returned no data forever, so the inbound loop
would spin instead of concluding.
---
 src/core/transport/wire/tcp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/transport/wire/tcp.rs b/src/core/transport/wire/tcp.rs
index a6c2355..14d1e7e 100644
--- a/src/core/transport/wire/tcp.rs
+++ b/src/core/transport/wire/tcp.rs
@@ -115,6 +115,14 @@ where
             .read(&mut buf)
             .await
             .map_err(InboundWireError::IO)?;
+
+        // Reading nothing means that the remote side closed the stream
+        if size == 0 {
+            return Err(InboundWireError::IO(
+                io::ErrorKind::UnexpectedEof.into(),
+            ));
+        }
+
         let data = self.inbound_wire.process(&buf[..size])?;
 
         Ok((data, self.remote_addr))
-- 
2.43.0


From f0b4820c87b4b58641eb610f7f4b9538e1559e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 09/25] fix: keep sending over udp after a single failed send

One message that could not be sent stopped all further replies to everyone.
---
 src/core/event/udp.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/event/udp.rs b/src/core/event/udp.rs
index fab8228..5126757 100644
--- a/src/core/event/udp.rs
+++ b/src/core/event/udp.rs
@@ -93,7 +93,6 @@ async fn udp_socket_outbound_loop<S, E>(
     while let Some((msg, addr)) = rx.recv().await {
         if let Err(x) = writer.write_to(&msg, addr).await {
             error!("Failed to send: {}", x);
-            break;
         }
     }
 }
-- 
2.43.0


From ae934c5f9ba4c85183f777c7837e94d212d61459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 10/25] fix: reply to a sequence or batch with a request that
 has no reply

The ignore reply cannot be serialized, so the whole reply was lost and the
client ran into its timeout.
---
 src/core/server/action/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/server/action/mod.rs b/src/core/server/action/mod.rs
index cf3b43d..40de201 100644
--- a/src/core/server/action/mod.rs
+++ b/src/core/server/action/mod.rs
@@ -334,6 +334,8 @@ fn route_and_execute(
                         );
                     }
 
+                    let results =
+                        results.into_iter().map(into_nested_reply).collect();
                     Reply::Sequence(reply::SequenceArgs { results })
                 }
                 Request::Batch(mut args) => {
@@ -354,6 +356,7 @@ fn route_and_execute(
                                 Reply::Error(From::from(format!("{}", x)))
                             })
                         })
+                        .map(into_nested_reply)
                         .collect();
                     Reply::Batch(reply::BatchArgs { results })
                 }
@@ -377,6 +380,17 @@ fn route_and_execute(
     .boxed()
 }
 
+/// Nested replies are identified by their position, so unlike a top-level reply
+/// they cannot be left out (and the ignore reply itself cannot be serialized)
+fn into_nested_reply(reply: Reply) -> Reply {
+    match reply {
+        Reply::Ignore => {
+            Reply::Error(ReplyError::from("Request does not have a reply"))
+        }
+        x => x,
+    }
+}
+
 #[derive(Debug, Display, Error)]
 enum SequenceError {
     Abort,
-- 
2.43.0


From 7bd26a587ed4bb6ffd544498c2b44af37ee4967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 11/25] fix: discard the callback of an ask that failed or
 timed out

---
 src/core/client/connected.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 739eb03..4a508bd 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -66,11 +66,12 @@ impl ConnectedClient {
         let timeout = self.timeout;
         let (tx, rx) = oneshot::channel::<Result<Reply, AskError>>();
         let msg = Msg::from(request);
+        let id = msg.header.id;
 
         // Assign a synchronous callback that uses the oneshot channel to
         // get back the result
         self.state.lock().await.callback_manager.add_callback(
-            msg.header.id,
+            id,
             |reply| {
                 // NOTE: We handle errors like IO further downstream, so
                 //       only extract the generic error here
@@ -88,12 +89,20 @@ impl ConnectedClient {
         );
 
         // Send the msg and report back an error if it occurs
-        self.send_msg(msg).await.map_err(AskError::from)?;
+        let result = match self.send_msg(msg).await {
+            Ok(_) => tokio::time::timeout(timeout, rx)
+                .await
+                .map_err(|_| AskError::Timeout),
+            Err(x) => Err(AskError::from(x)),
+        };
 
-        tokio::time::timeout(timeout, rx)
-            .await
-            .map_err(|_| AskError::Timeout)?
-            .map_err(|_| AskError::CallbackLost)?
+        // If we are no longer waiting for a reply, then the callback will never
+        // be invoked and must not stay around
+        if result.is_err() {
+            self.state.lock().await.callback_manager.take_callback(id);
+        }
+
+        result?.map_err(|_| AskError::CallbackLost)?
     }
 
     /// Sends a msg to the server, not expecting a response
-- 
2.43.0


From 5ed9e90882cf12ba821963dc92751a5f239235b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 12/25] fix: report a changed file signature as such to the
 client

FileAskError::FileSignatureChanged was never produced.
---
 src/core/client/connected.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 4a508bd..0ac9a77 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -631,6 +631,9 @@ fn make_file_ask_error(x: Reply) -> FileAskError {
         Reply::Error(ReplyError::Io(args)) => {
             FileAskError::IoError(args.into())
         }
+        Reply::Error(ReplyError::FileSigChanged(args)) => {
+            FileAskError::FileSignatureChanged { id: args.id }
+        }
         x => From::from(make_ask_error(x)),
     }
 }
-- 
2.43.0


From dac39b9a6dee5c4ace49a34e9664995563300a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 13/25] fix: keep the path of a renamed open file canonical

A file renamed to a relative or otherwise non-canonical path was no longer
recognized as open, so it could be removed, renamed or opened a second time.
---
 src/core/server/fs/file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/server/fs/file.rs b/src/core/server/fs/file.rs
index ee2b38c..f10fd5b 100644
--- a/src/core/server/fs/file.rs
+++ b/src/core/server/fs/file.rs
@@ -145,7 +145,9 @@ impl LocalFile {
         // Update signature to reflect the change and update our internal
         // path so that we can continue to do renames/removals properly
         self.sig = OsRng.next_u32();
-        self.path = to.as_ref().to_path_buf();
+        self.path = fs::canonicalize(to.as_ref())
+            .await
+            .unwrap_or_else(|_| to.as_ref().to_path_buf());
 
         Ok(self.sig)
     }
-- 
2.43.0


From c0cb55b11fe97cb7147aa322c59642910e079d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 14/25] fix: close an open file once it has been removed

The removed file stayed open (and its id valid) for as long as the server ran.
---
 src/core/server/action/handler/fs.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index dc5746d..e1249e0 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -150,13 +150,20 @@ pub async fn remove_file(
     debug!("handler::remove_file: {:?}", args);
     state.touch_file_id(args.id).await;
 
-    match state.fs_manager.lock().await.get_mut(args.id) {
+    let mut fs_manager = state.fs_manager.lock().await;
+    match fs_manager.get_mut(args.id) {
         Some(local_file) => match local_file.remove(args.sig).await {
             Ok(_) => {
+                let handle = local_file.handle();
+
+                // The file no longer exists, so do not keep it open
+                let _ = fs_manager.close_file(handle);
+                drop(fs_manager);
+
                 state.remove_file_id(args.id).await;
                 Ok(FileRemovedArgs {
-                    id: args.id,
-                    sig: local_file.sig(),
+                    id: handle.id,
+                    sig: handle.sig,
                 })
             }
             Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
-- 
2.43.0


From 556a2e8042aa26c72470ad0f482189986ea6ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 15/25] fix: support the AES-SIV ciphers offered by the cli

Both the client and the server refused aes128siv and aes256siv as unsupported.
---
 src/cli/builder/mod.rs                       | 44 ++++++++++++++++----
 src/core/transport/crypto/aes/aes_siv_128.rs |  6 ++-
 src/core/transport/crypto/aes/aes_siv_256.rs |  6 ++-
 3 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/cli/builder/mod.rs b/src/cli/builder/mod.rs
index d2715d2..e1f1ec5 100644
--- a/src/cli/builder/mod.rs
+++ b/src/cli/builder/mod.rs
@@ -70,10 +70,24 @@ pub async fn start_client(cmd: &ClientCommand) -> io::Result<ConnectedClient> {
             auth::Authenticator::Sha512(a),
             crypto::Bicrypter::Aes256GcmSiv(b),
         ) => build_client_and_connect(cmd, a, b).await,
-        _ => Err(io::Error::new(
-            io::ErrorKind::InvalidInput,
-            "Unsupported authentication or encryption protocol",
-        )),
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_client_and_connect(cmd, a, b).await
+        }
     }
 }
 
@@ -184,10 +198,24 @@ pub async fn start_server(cmd: &ServerCommand) -> io::Result<ListeningServer> {
             auth::Authenticator::Sha512(a),
             crypto::Bicrypter::Aes256GcmSiv(b),
         ) => build_server_and_listen(cmd, a, b).await,
-        _ => Err(io::Error::new(
-            io::ErrorKind::InvalidInput,
-            "Unsupported authentication or encryption protocol",
-        )),
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes128Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::None(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha256(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
+        (auth::Authenticator::Sha512(a), crypto::Bicrypter::Aes256Siv(b)) => {
+            build_server_and_listen(cmd, a, b).await
+        }
     }
 }
 
diff --git a/src/core/transport/crypto/aes/aes_siv_128.rs b/src/core/transport/crypto/aes/aes_siv_128.rs
index 661d011..54ee354 100644
--- a/src/core/transport/crypto/aes/aes_siv_128.rs
+++ b/src/core/transport/crypto/aes/aes_siv_128.rs
@@ -6,9 +6,11 @@ use super::super::{
 use aead::generic_array::GenericArray;
 use aead::{Aead, NewAead};
 use aes_siv::Aes128SivAead;
+use std::sync::Arc;
 
+#[derive(Clone)]
 pub struct Aes128SivBicrypter {
-    inner: Aes128SivAead,
+    inner: Arc<Aes128SivAead>,
     nonce_size: NonceSize,
 }
 
@@ -23,7 +25,7 @@ impl Aes128SivBicrypter {
     pub fn new(key: &Key256Bits) -> Self {
         let key = GenericArray::clone_from_slice(key);
         Aes128SivBicrypter {
-            inner: Aes128SivAead::new(key),
+            inner: Arc::new(Aes128SivAead::new(key)),
             nonce_size: NonceSize::Nonce128Bits,
         }
     }
diff --git a/src/core/transport/crypto/aes/aes_siv_256.rs b/src/core/transport/crypto/aes/aes_siv_256.rs
index 8c1f24b..7074445 100644
--- a/src/core/transport/crypto/aes/aes_siv_256.rs
+++ b/src/core/transport/crypto/aes/aes_siv_256.rs
@@ -6,9 +6,11 @@ use super::super::{
 use aead::generic_array::GenericArray;
 use aead::{Aead, NewAead};
 use aes_siv::Aes256SivAead;
+use std::sync::Arc;
 
+#[derive(Clone)]
 pub struct Aes256SivBicrypter {
-    inner: Aes256SivAead,
+    inner: Arc<Aes256SivAead>,
     nonce_size: NonceSize,
 }
 
@@ -23,7 +25,7 @@ impl Aes256SivBicrypter {
     pub fn new(key: &Key512Bits) -> Self {
         let key = GenericArray::clone_from_slice(key);
         Aes256SivBicrypter {
-            inner: Aes256SivAead::new(key),
+            inner: Arc::new(Aes256SivAead::new(key)),
             nonce_size: NonceSize::Nonce128Bits,
         }
     }
-- 
2.43.0


From e693ff28fdc8e54418d2d16d307d9af125d88ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 16/25] fix: apply the timeout option of the cli to the client

---
 src/cli/builder/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cli/builder/mod.rs b/src/cli/builder/mod.rs
index e1f1ec5..83b9e4e 100644
--- a/src/cli/builder/mod.rs
+++ b/src/cli/builder/mod.rs
@@ -121,7 +121,7 @@ where
         types::Transport::Udp => Transport::Udp(addrs),
     };
 
-    ClientBuilder::default()
+    let mut client = ClientBuilder::default()
         .authenticator(authenticator)
         .bicrypter(bicrypter)
         .transport(transport)
@@ -135,7 +135,10 @@ where
             )
         })?
         .connect()
-        .await
+        .await?;
+    client.timeout = cmd.opts.timeout;
+
+    Ok(client)
 }
 
 pub async fn start_server(cmd: &ServerCommand) -> io::Result<ListeningServer> {
-- 
2.43.0


From f615ed5990a3836e070552bf40e4a451762086bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 17/25] fix: do not report a process that failed as successful

---
 src/core/server/proc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/server/proc.rs b/src/core/server/proc.rs
index e39472b..72bc8e4 100644
--- a/src/core/server/proc.rs
+++ b/src/core/server/proc.rs
@@ -71,7 +71,10 @@ impl LocalProc {
                 if let Some(status) = exit_status {
                     self.exit_status = Some(ExitStatus {
                         id: self.id,
-                        is_success: status.is_ok(),
+                        is_success: status
+                            .as_ref()
+                            .map(|s| s.success())
+                            .unwrap_or(false),
                         exit_code: status.ok().and_then(|s| s.code()),
                     });
                 }
-- 
2.43.0


From ea6e0ceb665f2ee547863508d3e0d3da674131d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 18/25] fix: reject a negative or otherwise invalid duration
 instead of panicking

---
 src/cli/opts/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/opts/parsers.rs b/src/cli/opts/parsers.rs
index c9d47f3..546ea4b 100644
--- a/src/cli/opts/parsers.rs
+++ b/src/cli/opts/parsers.rs
@@ -4,7 +4,7 @@ use std::time::Duration;
 
 pub fn parse_duration_secs(s: &str) -> Result<Duration, Box<dyn Error>> {
     let secs: f64 = s.parse()?;
-    Ok(Duration::from_secs_f64(secs))
+    Ok(Duration::try_from_secs_f64(secs)?)
 }
 
 pub fn parse_duration_millis(s: &str) -> Result<Duration, Box<dyn Error>> {
-- 
2.43.0


From 26cdeb3a6e6778f43c62e0c43b15d2378d586a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 19/25] fix: report failures of the cli client instead of
 panicking

---
 src/cli/mod.rs | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index d914358..a5b249a 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -150,9 +150,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
 
     validate_opts(&cmd.opts)?;
 
-    let mut client = builder::start_client(&cmd)
-        .await
-        .expect("Failed to connect with client");
+    let mut client = builder::start_client(&cmd).await?;
 
     match &cmd.command {
         client::Subcommand::Version(_) => {
@@ -462,7 +460,7 @@ async fn process_proc(
     proc: RemoteProc,
     format: FormatOption,
     exit_print: bool,
-) -> io::Result<()> {
+) -> Result<(), Box<dyn Error>> {
     let stdin = io::stdin();
     let mut exit_instant: Option<Instant> = None;
 
@@ -479,35 +477,31 @@ async fn process_proc(
             match handle.read_line(&mut line) {
                 Ok(_) => (),
                 Err(x) if x.kind() == io::ErrorKind::WouldBlock => (),
-                Err(x) => panic!("Failed to read line of input: {:?}", x),
+                Err(x) => return Err(x.into()),
             }
 
             if !line.is_empty() {
                 client
                     .ask_write_proc_stdin(&proc, &line.into_bytes())
-                    .await
-                    .expect("Failed to write stdin");
+                    .await?;
             }
         }
 
         let stdout_args = client
             .ask_read_proc_stdout(&proc)
-            .await
-            .expect("Failed to get stdout");
+            .await?;
         if !stdout_args.output.is_empty() {
             format_content_write!(
                 format,
                 stdout_path.as_ref(),
                 Content::from(Reply::ProcStdoutContents(stdout_args)),
                 Ok(format!("{}", String::from_utf8_lossy(&stdout_args.output))),
-            )
-            .expect("Failed to format stdout");
+            )?;
         }
 
         let stderr_args = client
             .ask_read_proc_stderr(&proc)
-            .await
-            .expect("Failed to get stderr");
+            .await?;
         if !stderr_args.output.is_empty() {
             format_content_write!(
                 format,
@@ -517,16 +511,14 @@ async fn process_proc(
                     "{}",
                     String::from_utf8_lossy(&stderr_args.output)
                 )),
-            )
-            .expect("Failed to format stderr");
+            )?;
         }
 
         // Mark ready for exit if proc has exited
         if exit_instant.is_none() {
             let status = client
                 .ask_read_proc_status(&proc)
-                .await
-                .expect("Failed to get proc status");
+                .await?;
             if !status.is_alive {
                 match format {
                     FormatOption::Human if exit_print => format_content_write!(
@@ -546,8 +538,7 @@ async fn process_proc(
                         Content::from(Reply::ProcStatus(status)),
                         Err("unreachable!".into()),
                     ),
-                }
-                .expect("Failed to format status");
+                }?;
                 exit_instant = Some(Instant::now());
             }
         }
-- 
2.43.0


From eb27f631d346e85ab632a33f2f64a11d7b3a5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 20/25] fix: do not hold the lock on all procs while waiting
 for a killed one to exit

---
 src/core/server/action/handler/proc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/server/action/handler/proc.rs b/src/core/server/action/handler/proc.rs
index 622fc4a..3b057c2 100644
--- a/src/core/server/action/handler/proc.rs
+++ b/src/core/server/action/handler/proc.rs
@@ -154,7 +154,10 @@ pub async fn kill_proc(
     debug!("handler::kill_proc: {:?}", args);
     state.touch_proc_id(args.id).await;
 
-    match state.procs.lock().await.remove(&args.id) {
+    // NOTE: Removing in its own statement so the lock on all procs is released
+    //       before we wait for this one to die
+    let removed = state.procs.lock().await.remove(&args.id);
+    match removed {
         // NOTE: We are killing and then WAITING for the process to die, which
         //       would block, but seems to be required in order to properly
         //       have the process clean up -- try_wait doesn't seem to work
-- 
2.43.0


From 7b7d6b82362d953ae5d9b0918f4d15d09cf3f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 21/25] fix: do not hold the lock on all connections while
 waiting for room to send to one

---
 src/core/event/tcp.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index d8d7816..94fa14e 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -96,7 +96,10 @@ async fn tcp_listener_outbound_loop(
     connections: Arc<Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>>,
 ) {
     while let Some((msg, addr)) = rx.recv().await {
-        if let Some(stream) = connections.lock().await.get_mut(&addr) {
+        // NOTE: Cloning so the lock is released before we wait for room in the
+        //       queue of this one connection
+        let stream = connections.lock().await.get(&addr).cloned();
+        if let Some(mut stream) = stream {
             if stream.send(msg).await.is_err() {
                 error!("Failed to send to {}", addr);
             }
-- 
2.43.0


From 32010f15a61e50de8a5cbec3e2f9c270c6b26bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 22/25] fix: do not hold the lock on the custom handler while
 waiting for it to respond

---
 src/core/server/custom.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/server/custom.rs b/src/core/server/custom.rs
index 86d085b..cef4346 100644
--- a/src/core/server/custom.rs
+++ b/src/core/server/custom.rs
@@ -36,8 +36,13 @@ impl CustomHandler {
         &self,
         args: request::CustomArgs,
     ) -> Result<reply::CustomArgs, Box<dyn std::error::Error>> {
-        let f = &mut *self.f.lock().await;
-        f(args).await
+        // NOTE: Only creating the future requires exclusive access, so the lock
+        //       is released before we wait for it to complete
+        let future = {
+            let f = &mut *self.f.lock().await;
+            f(args)
+        };
+        future.await
     }
 }
 
-- 
2.43.0


From 104f431977993280e3d21d1b848d883e8e5248fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 23/25] fix: start the cleanup of a server only once it listens

---
 src/core/server/mod.rs | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/core/server/mod.rs b/src/core/server/mod.rs
index e6223e1..43bd008 100644
--- a/src/core/server/mod.rs
+++ b/src/core/server/mod.rs
@@ -93,18 +93,24 @@ where
     pub async fn listen(self) -> io::Result<ListeningServer> {
         let handle = Handle::current();
         let state = self.make_state();
+        let cleanup_interval = self.cleanup_interval;
 
-        handle.spawn(cleanup_loop(Arc::clone(&state), self.cleanup_interval));
-
-        match self.transport.clone() {
+        let server = match self.transport.clone() {
             Transport::Tcp(_) => Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
                 "Authenticator or Bicrypter is not clonable",
             )),
             Transport::Udp(addrs) => {
-                build_and_listen_udp_server(self, state, &addrs).await
+                build_and_listen_udp_server(self, Arc::clone(&state), &addrs)
+                    .await
             }
-        }
+        }?;
+
+        // NOTE: Only a server that is listening can be shut down, so do not
+        //       start cleaning up on behalf of one that failed to do so
+        handle.spawn(cleanup_loop(state, cleanup_interval));
+
+        Ok(server)
     }
 }
 
@@ -118,17 +124,24 @@ where
     pub async fn cloneable_listen(self) -> io::Result<ListeningServer> {
         let handle = Handle::current();
         let state = self.make_state();
+        let cleanup_interval = self.cleanup_interval;
 
-        handle.spawn(cleanup_loop(Arc::clone(&state), self.cleanup_interval));
-
-        match self.transport.clone() {
+        let server = match self.transport.clone() {
             Transport::Tcp(addrs) => {
-                build_and_listen_tcp_server(self, state, &addrs).await
+                build_and_listen_tcp_server(self, Arc::clone(&state), &addrs)
+                    .await
             }
             Transport::Udp(addrs) => {
-                build_and_listen_udp_server(self, state, &addrs).await
+                build_and_listen_udp_server(self, Arc::clone(&state), &addrs)
+                    .await
             }
-        }
+        }?;
+
+        // NOTE: Only a server that is listening can be shut down, so do not
+        //       start cleaning up on behalf of one that failed to do so
+        handle.spawn(cleanup_loop(state, cleanup_interval));
+
+        Ok(server)
     }
 }
 
-- 
2.43.0


From 9accb5df2176b22c97efa1e2e9e217e984736df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:01 +0000
Subject: [PATCH 24/25] fix: make the default file ttl the documented 2.5
 minutes

---
 src/core/server/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/server/state.rs b/src/core/server/state.rs
index a3c42a4..782d110 100644
--- a/src/core/server/state.rs
+++ b/src/core/server/state.rs
@@ -11,7 +11,7 @@ pub mod constants {
     use std::time::Duration;
 
     /// Default file ttl (time since last touched) before until closing (2.5 min)
-    pub const DEFAULT_FILE_TTL: Duration = Duration::from_secs(60 * 2.5 as u64);
+    pub const DEFAULT_FILE_TTL: Duration = Duration::from_secs(150);
 
     /// Default proc ttl (time since last touched) before until killing (5 min)
     pub const DEFAULT_PROC_TTL: Duration = Duration::from_secs(60 * 5);
-- 
2.43.0


From 43efa6db783cad676566a5973426c0071cb6cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 25/25] fix: flush output that is redirected to a file

---
 src/cli/mod.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index a5b249a..4cef1f9 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -79,13 +79,16 @@ async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
     match path {
         Some(p) => {
             use tokio::io::AsyncWriteExt;
-            tokio::fs::OpenOptions::new()
+            let mut file = tokio::fs::OpenOptions::new()
                 .create(true)
                 .append(true)
                 .open(p)
-                .await?
-                .write_all(text.as_bytes())
-                .await
+                .await?;
+            file.write_all(text.as_bytes()).await?;
+
+            // NOTE: Without flushing, the text may not have been written yet
+            //       (and may never be) once we are done
+            file.flush().await
         }
         None => {
             print!("{}", text);
@@ -98,13 +101,16 @@ async fn write_stderr(text: String, path: Option<&PathBuf>) -> io::Result<()> {
     match path {
         Some(p) => {
             use tokio::io::AsyncWriteExt;
-            tokio::fs::OpenOptions::new()
+            let mut file = tokio::fs::OpenOptions::new()
                 .create(true)
                 .append(true)
                 .open(p)
-                .await?
-                .write_all(text.as_bytes())
-                .await
+                .await?;
+            file.write_all(text.as_bytes()).await?;
+
+            // NOTE: Without flushing, the text may not have been written yet
+            //       (and may never be) once we are done
+            file.flush().await
         }
         None => {
             eprint!("{}", text);
-- 
2.43.0

