From b13f92a64ab9d50fe86b3719821803710c51f84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 01/15] fix: encode PUBACK instead of panicking when
 acknowledging a QoS 1 publish

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 913ec90..bb4feb6 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -112,9 +112,9 @@ impl ToMqttBytes for Packet {
             Self::Subscribe(p) => p.convert_to_mqtt(),
             Self::Unsubscribe(p) => p.convert_to_mqtt(),
             Self::Disconnect(p) => p.convert_to_mqtt(),
+            Self::PubAck(p) => p.convert_to_mqtt(),
             Self::PingResp(_) => unimplemented!("Client never sends this"),
             Self::Connack(_) => unimplemented!("Client never sends this"),
-            Self::PubAck(_) => unimplemented!("Client never sends this"),
             Self::SubAck(_) => unimplemented!("Client never sends this"),
             Self::UnsubAck(_) => unimplemented!("Client never sends this"),
         }
-- 
2.43.0


From a8c3bbf9e70839153d4c1632f2b7a2a58bae78ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 02/15] fix: reject a fifth variable byte integer byte before
 it overflows the value

---
 src/protocol/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index bb4feb6..e1a7d21 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -278,7 +278,6 @@ impl FromMqttBytes for VBI {
             match bytes.get(idx) {
                 None => return Err(ConvertError::NotEnoughBytes),
                 Some(byte) => {
-                    value += (byte & 127) as u32 * multiplier;
                     if multiplier > 128 * 128 * 128 {
                         return Err(format!(
                             "Invalid VariableByteInteger exceeds 4 bytes, bytes = {:?}",
@@ -286,6 +285,7 @@ impl FromMqttBytes for VBI {
                         )
                         .into());
                     }
+                    value += (byte & 127) as u32 * multiplier;
                     multiplier *= 128;
                     idx += 1;
 
-- 
2.43.0


From a45e93595114cf1f4aaf56d4ec50b66f795a8bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 03/15] fix: return an error instead of slicing past the end of
 a malformed packet

---
 src/protocol/connack.rs    | 14 +++++++++++---
 src/protocol/disconnect.rs |  4 +++-
 src/protocol/mod.rs        |  5 ++++-
 src/protocol/properties.rs |  9 +++++++--
 src/protocol/suback.rs     |  9 +++++++--
 src/protocol/unsuback.rs   |  9 +++++++--
 6 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/protocol/connack.rs b/src/protocol/connack.rs
index 0a73890..ddeac72 100644
--- a/src/protocol/connack.rs
+++ b/src/protocol/connack.rs
@@ -108,10 +108,16 @@ impl FromMqttBytes for Connack {
             return Err(ConvertError::NotEnoughBytes);
         }
 
-        let flags: ConnackFlags = bytes[bytes_read].try_into()?;
+        let flags: ConnackFlags = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
-        let reason: ConnackReason = bytes[bytes_read].try_into()?;
+        let reason: ConnackReason = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
         let (properties, props_bytes_read) =
@@ -221,7 +227,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = ConnackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index 4cae4b4..b1fa2c3 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -277,7 +277,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = DisconnectProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index e1a7d21..40a42ac 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -405,7 +405,10 @@ impl FromMqttBytes for Vec<u8> {
             })
             .map(|slice| u16::from_be_bytes(slice))? as usize;
         if len > 0 {
-            let v = bytes[2..(2 + len)].to_owned();
+            let v = bytes
+                .get(2..(2 + len))
+                .ok_or(ConvertError::NotEnoughBytes)?
+                .to_owned();
             Ok((v, len + 2))
         } else {
             Ok((vec![], 2))
diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index cad6c47..0192656 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -57,7 +57,10 @@ impl ToMqttBytes for Property {
 impl FromMqttBytes for Property {
     fn convert_from_mqtt(bytes: &[u8]) -> Result<(Self, usize), ConvertError> {
         match bytes.get(0) {
-            Some(0x01) => Ok((PayloadFormatId(bytes[1]), 2)),
+            Some(0x01) => {
+                let v = bytes.get(1).ok_or(ConvertError::NotEnoughBytes)?;
+                Ok((PayloadFormatId(*v), 2))
+            }
             Some(0x02) => {
                 let interval = bytes
                     .get(1..5)
@@ -113,7 +116,9 @@ impl FromMqttBytes for Vec<Property> {
         if bytelen == 0 {
             Ok((vec![], bytes_consumed))
         } else {
-            let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+            let mut bytes = bytes
+                .get(bytes_consumed..(bytes_consumed + bytelen))
+                .ok_or(ConvertError::NotEnoughBytes)?;
             let mut properties = vec![];
             while bytes.len() > 0 {
                 let (prop, bytes_read) = Property::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/suback.rs b/src/protocol/suback.rs
index 77c1711..e6b27df 100644
--- a/src/protocol/suback.rs
+++ b/src/protocol/suback.rs
@@ -34,7 +34,10 @@ impl FromMqttBytes for Suback {
             Vec::<properties::SubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: SubackReason = bytes[bytes_read].try_into()?;
+        let reason: SubackReason = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -163,7 +166,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = SubackProperty::convert_from_mqtt(bytes)?;
diff --git a/src/protocol/unsuback.rs b/src/protocol/unsuback.rs
index c70a86a..5d53e2e 100644
--- a/src/protocol/unsuback.rs
+++ b/src/protocol/unsuback.rs
@@ -34,7 +34,10 @@ impl FromMqttBytes for Unsuback {
             Vec::<properties::UnsubackProperty>::convert_from_mqtt(&bytes[bytes_read..])?;
         bytes_read += props_bytes_read;
 
-        let reason: UnsubackReason = bytes[bytes_read].try_into()?;
+        let reason: UnsubackReason = (*bytes
+            .get(bytes_read)
+            .ok_or(ConvertError::NotEnoughBytes)?)
+        .try_into()?;
         bytes_read += 1;
 
         let suback = Self {
@@ -153,7 +156,9 @@ mod properties {
             if bytelen == 0 {
                 Ok((vec![], bytes_consumed))
             } else {
-                let mut bytes = &bytes[bytes_consumed..(bytes_consumed + bytelen)];
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
                 let mut properties = vec![];
                 while bytes.len() > 0 {
                     let (prop, bytes_read) = UnsubackProperty::convert_from_mqtt(bytes)?;
-- 
2.43.0


From fc3f1906dd53e7c4ec349756a7775799296b4090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 04/15] fix: count the identifier byte of a received message
 expiry interval

---
 src/protocol/properties.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/properties.rs b/src/protocol/properties.rs
index 0192656..c63d061 100644
--- a/src/protocol/properties.rs
+++ b/src/protocol/properties.rs
@@ -71,7 +71,7 @@ impl FromMqttBytes for Property {
                         })
                     })
                     .map(|slice| u32::from_be_bytes(slice))?;
-                Ok((MessageExpiryInterval(interval), 4))
+                Ok((MessageExpiryInterval(interval), 5))
             }
             Some(0x08) => {
                 let (s, bytes_consumed) = String::convert_from_mqtt(&bytes[1..])?;
-- 
2.43.0


From 75c570bfd5c466cc5c7248b82a3319241f0c49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 05/15] fix: read and write the PUBACK property section with
 its length and every identifier

---
 src/protocol/puback.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/protocol/puback.rs b/src/protocol/puback.rs
index 6699e8d..432b278 100644
--- a/src/protocol/puback.rs
+++ b/src/protocol/puback.rs
@@ -148,15 +148,16 @@ mod properties {
                 buf.extend_from_slice(&s.convert_to_mqtt());
             }
 
-            if self.user_properties.len() > 0 {
-                buf.push(0x26);
-            }
             for (k, v) in &self.user_properties {
+                buf.push(0x26);
                 buf.extend_from_slice(&k.convert_to_mqtt());
                 buf.extend_from_slice(&v.convert_to_mqtt());
             }
 
-            buf
+            let len: VBI = (buf.len() as u32).into();
+            let mut header = len.convert_to_mqtt();
+            header.extend_from_slice(&buf);
+            header
         }
     }
 
@@ -166,20 +167,22 @@ mod properties {
             if bytelen == 0 {
                 Ok((Default::default(), bytes_consumed))
             } else {
-                let mut bytes = bytes.get(bytes_consumed..(bytes_consumed + bytelen));
+                let mut bytes = bytes
+                    .get(bytes_consumed..(bytes_consumed + bytelen))
+                    .ok_or(ConvertError::NotEnoughBytes)?;
 
                 let mut properties: PubackProperties = Default::default();
 
-                while let Some(slice) = bytes {
-                    let bytes_read = match slice.get(0) {
+                while bytes.len() > 0 {
+                    let bytes_read = match bytes.get(0) {
                         Some(0x1F) => {
-                            let (s, property_bytes_read) = String::convert_from_mqtt(&slice[1..])?;
+                            let (s, property_bytes_read) = String::convert_from_mqtt(&bytes[1..])?;
                             properties.reason_string = Some(s);
                             property_bytes_read + 1
                         }
                         Some(0x26) => {
-                            let (k, pbr1) = String::convert_from_mqtt(&slice[1..])?;
-                            let (v, pbr2) = String::convert_from_mqtt(&slice[(pbr1 + 1)..])?;
+                            let (k, pbr1) = String::convert_from_mqtt(&bytes[1..])?;
+                            let (v, pbr2) = String::convert_from_mqtt(&bytes[(pbr1 + 1)..])?;
                             properties.user_properties.push((k, v));
                             pbr1 + pbr2 + 1
                         }
@@ -193,7 +196,7 @@ mod properties {
                             return Err(ConvertError::NotEnoughBytes);
                         }
                     };
-                    bytes = slice.get((bytes_read + 1)..);
+                    bytes = &bytes[bytes_read..];
                 }
 
                 Ok((properties, bytes_consumed + bytelen))
-- 
2.43.0


From bb80016c8127fe1be1a04a89ec0b88499875964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 06/15] fix: write the DISCONNECT reason code and read every
 present property section

---
 src/protocol/disconnect.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol/disconnect.rs b/src/protocol/disconnect.rs
index b1fa2c3..7e65a52 100644
--- a/src/protocol/disconnect.rs
+++ b/src/protocol/disconnect.rs
@@ -144,6 +144,8 @@ impl ToMqttBytes for Disconnect {
         let mut header: Vec<u8> = vec![0b1110_0000];
         let mut buf = vec![];
 
+        buf.push(self.reason.into());
+
         buf.extend_from_slice(&self.properties.as_slice().convert_to_mqtt());
 
         // empty payload
@@ -176,7 +178,7 @@ impl FromMqttBytes for Disconnect {
             reason
         };
 
-        let properties = if remaining_len < 4 {
+        let properties = if remaining_len < 2 {
             vec![]
         } else {
             let (properties, props_bytes_read) =
-- 
2.43.0


From 1e5239cfb2f35f4f5acc928716d5a3ddcb3c7b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 07/15] fix: answer packet types the client does not support
 with an error, not a panic

---
 src/protocol/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index 40a42ac..af2bc8d 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -54,7 +54,10 @@ pub fn parse_pkt(data: &[u8]) -> Result<Option<Packet>, std::io::Error> {
         }
         ty => {
             info!("Received msg type = {:?}", ty);
-            unimplemented!("This is not impl");
+            Err(ConvertError::Other(format!(
+                "Unsupported packet type = {:?}",
+                ty
+            )))
         }
     };
 
-- 
2.43.0


From 76cab1bf34459be0cefd206427bd5a7e69a09329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 08/15] fix: end with an error when the stream ends before
 CONNACK instead of spinning

---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 74fc3b7..7a65f31 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -127,9 +127,13 @@ async fn poll(
 
     mqtt_write.send(protocol::Packet::Connect(pkt)).await?;
 
-    let pkt = loop {
-        if let Some(pkt) = mqtt_read.next().await {
-            break pkt?;
+    let pkt = match mqtt_read.next().await {
+        Some(pkt) => pkt?,
+        None => {
+            return Err(IOError::new(
+                ErrorKind::UnexpectedEof,
+                "Connection closed before connack",
+            ));
         }
     };
     match pkt {
-- 
2.43.0


From 16dab533f51cd65137558f5d5db660e8f2651068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 09/15] fix: do not start a session when CONNACK refuses the
 connection

---
 src/lib.rs          | 8 ++++++--
 src/protocol/mod.rs | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7a65f31..211843e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,7 +17,7 @@ use tokio_util::codec::{FramedRead, FramedWrite};
 
 use log::{error, info, warn};
 
-use crate::protocol::{DisconnectReason, PktId, Publish};
+use crate::protocol::{ConnackReason, DisconnectReason, PktId, Publish};
 
 pub use crate::client::{Client, Notification, PublishBuilder};
 pub use crate::protocol::Property;
@@ -139,7 +139,7 @@ async fn poll(
     match pkt {
         protocol::Packet::Connack(p) => {
             info!("Received connack: {:?}", p);
-            // TODO: pkt must be a connack with ConnackReason::Success
+            let reason = p.reason();
             match sender.send(Notification::ConnAck(p)).await {
                 Ok(()) => {}
                 Err(e) => {
@@ -147,6 +147,10 @@ async fn poll(
                     // probably send disconnect without acking any incoming messages?
                 }
             }
+            if !matches!(reason, ConnackReason::Success) {
+                let e = format!("Connection refused: {:?}", reason);
+                return Err(IOError::new(ErrorKind::ConnectionRefused, e));
+            }
         }
         _ => {
             error!("Expected connack, received: {:?}", pkt);
diff --git a/src/protocol/mod.rs b/src/protocol/mod.rs
index af2bc8d..d6d55e7 100644
--- a/src/protocol/mod.rs
+++ b/src/protocol/mod.rs
@@ -3,7 +3,7 @@ use std::{
     num::NonZeroU16,
 };
 
-pub use connack::Connack;
+pub use connack::{Connack, ConnackReason};
 pub use connect::Connect;
 pub use disconnect::{Disconnect, DisconnectReason};
 pub use pingreq::PingReq;
-- 
2.43.0


From 72a191921051a0ed7b14b94826af8f6ff40baa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 10/15] fix: keep serving the connection without spinning once
 every client handle is dropped

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 211843e..63d7e00 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -168,6 +168,7 @@ async fn poll(
     // todo: on conversion from future<output = connection_result> to stream<item = connection_result>
     // we should save this queue on disconnect and read from it first if user establishes new connection
     let mut queue: VecDeque<(PktId, Box<Publish>)> = VecDeque::new();
+    let mut commands_open = true;
 
     loop {
         tokio::select! {
@@ -243,7 +244,7 @@ async fn poll(
                     }
                 }
             },
-            cmd = commands_rx.next() => {
+            cmd = commands_rx.next(), if commands_open => {
                 match cmd {
                     Some(x) => match x {
                         Command::Publish { topic, payload, properties, qos, retain } => {
@@ -290,7 +291,10 @@ async fn poll(
                             return Ok(());
                         }
                     }
-                    None => {}
+                    None => {
+                        // every client handle is gone, there will be no more commands
+                        commands_open = false;
+                    }
                 }
             }
         }
-- 
2.43.0


From a5174a14fbf5a64303a20624419cbff041ae8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 11/15] fix: keep the free packet id ranges exact on exhaustion
 and double return

---
 src/pktids.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/pktids.rs b/src/pktids.rs
index 87b03cf..faad0d5 100644
--- a/src/pktids.rs
+++ b/src/pktids.rs
@@ -48,23 +48,14 @@ impl PktIds {
             } => {
                 let start = *range.start();
                 let end = *range.end();
-                let mut pktid = Some(start);
+                let pktid = Some(start);
                 let mut new_node = None;
 
                 if start >= end {
-                    // this range is exhausted
-                    if let Some(Node::Vacant) = self.ranges.get(*next) {
-                        // if we have no next nodes and all pktids are in use
-                        // just set this node's range as exhausted
-                        *range = (start + 1)..=end;
-                        if start != end {
-                            pktid = None;
-                        }
-                    } else {
-                        // if we have next node - set this node as vacant and start using next node
-                        new_node = Some(Node::Vacant);
-                        self.start = *next;
-                    }
+                    // this range is exhausted - set this node as vacant and start using next node
+                    // (or the always vacant node 0 if there is no next one and all pktids are in use)
+                    new_node = Some(Node::Vacant);
+                    self.start = *next;
                 } else {
                     *range = (start + 1)..=end;
                 }
@@ -93,6 +84,9 @@ impl PktIds {
         while let Some(Node::Taken { range, next }) = self.ranges.get(next_idx) {
             if *range.start() > id {
                 break;
+            } else if *range.end() >= id {
+                // this id is already free
+                return;
             } else {
                 prev_idx = Some(next_idx);
                 next_idx = *next;
-- 
2.43.0


From a6e2b17c699b16eeb31b819ed490e42d957c37c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 12/15] fix: end with an error instead of panicking on packet
 id exhaustion and incoming QoS 2

---
 src/lib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63d7e00..bd63306 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -223,7 +223,8 @@ async fn poll(
                                         mqtt_write.send(protocol::Packet::PubAck(pkt)).await?;
                                     }
                                     QoS::ExactlyOnce => {
-                                        todo!("Send pubrec");
+                                        // TODO: Send pubrec
+                                        return Err(IOError::new(ErrorKind::Other, "QoS 2 is not supported"));
                                     }
                                 }
 
@@ -259,13 +260,13 @@ async fn poll(
                                             queue.push_back((pktid, Box::new(pkt.clone())));
                                             pkt
                                         }
-                                        None => todo!(),
+                                        None => return Err(no_free_pktids()),
                                     }
                                 }
                                 QoS::ExactlyOnce => {
                                     match pktids.next_id() {
                                         Some(pktid) => protocol::Publish::exactly_once(topic, payload, retain, properties, pktid),
-                                        None => todo!(),
+                                        None => return Err(no_free_pktids()),
                                     }
                                 }
                             };
@@ -274,14 +275,14 @@ async fn poll(
                         Command::Subscribe(topic, qos) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Subscribe::new(&topic, pktid, qos),
-                                None => todo!(),
+                                None => return Err(no_free_pktids()),
                             };
                             mqtt_write.send(protocol::Packet::Subscribe(pkt)).await?;
                         }
                         Command::Unsubscribe(topics) => {
                             let pkt = match pktids.next_id() {
                                 Some(pktid) => protocol::Unsubscribe::new(topics, pktid),
-                                None => todo!(),
+                                None => return Err(no_free_pktids()),
                             };
                             mqtt_write.send(protocol::Packet::Unsubscribe(pkt)).await?;
                         }
@@ -301,6 +302,10 @@ async fn poll(
     }
 }
 
+fn no_free_pktids() -> IOError {
+    IOError::new(ErrorKind::Other, "No free packet identifiers")
+}
+
 pub(crate) enum Command {
     Publish {
         topic: String,
-- 
2.43.0


From 29390aec84b18dd27d44094d0bcf144d1f40942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 13/15] fix: release a packet id on PUBACK only when its
 publish is in flight

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bd63306..d38343b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -209,11 +209,10 @@ async fn poll(
                             protocol::Packet::PubAck(m) => {
                                 if let Some(idx) = queue.iter().position(|(pktid, _)| *pktid == m.pktid()) {
                                     queue.remove(idx);
+                                    pktids.return_id(m.pktid());
                                 } else {
                                     warn!("Failed to find message to ack in the queue");
                                 }
-
-                                pktids.return_id(m.pktid());
                             }
                             protocol::Packet::Publish(m) => {
                                 match m.qos() {
-- 
2.43.0


From cd875c129d722aa6852a786012125de13281a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 14/15] fix: do not take a burst of delayed keep-alive ticks
 for an unanswered ping

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d38343b..8af18d5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,7 +12,7 @@ use protocol::publish::Payload;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
-use tokio::time::{Duration, Instant};
+use tokio::time::{Duration, Instant, MissedTickBehavior};
 use tokio_util::codec::{FramedRead, FramedWrite};
 
 use log::{error, info, warn};
@@ -162,6 +162,8 @@ async fn poll(
         Instant::now() + Duration::from_secs(8),
         Duration::from_secs(8),
     );
+    // ticks delayed by other work must not fire in a burst, there would be no time for PingResp to arrive
+    ping.set_missed_tick_behavior(MissedTickBehavior::Delay);
     let mut pingresp_received = None;
 
     let mut pktids = pktids::PktIds::new();
-- 
2.43.0


From edd124c86a9fe0ec48e7b670d80114d175c8d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 15/15] fix: refuse fields and packets that do not fit their
 length prefix

---
 src/client.rs     | 54 +++++++++++++++++++++++++++++++++++++++++++++--
 src/mqtt_codec.rs |  2 +-
 2 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 6307cba..a6e68ef 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,9 +1,9 @@
-use anyhow::{Context as AnyContext, Error};
+use anyhow::{ensure, Context as AnyContext, Error};
 use futures::channel::mpsc::{channel, Receiver, Sender};
 use tokio::net::TcpStream;
 use tokio::net::ToSocketAddrs;
 
-use crate::protocol::{Connack, Property};
+use crate::protocol::{Connack, Property, ToMqttBytes};
 use crate::{Payload, QoS};
 
 use super::*;
@@ -58,18 +58,21 @@ impl Client {
     }
 
     pub fn subscribe(&mut self, topic: &str, qos: QoS) -> Result<(), Error> {
+        check_field_len(topic.len())?;
         self.tx
             .try_send(Command::Subscribe(topic.to_owned(), qos))
             .with_context(|| "Subscribe chan send failed")
     }
 
     pub fn publish(&mut self, publish_builder: PublishBuilder) -> Result<(), Error> {
+        publish_builder.check_len()?;
         self.tx
             .try_send(publish_builder.build())
             .with_context(|| "Publish chan send failed")
     }
 
     pub fn unsubscribe(&mut self, topic: &str) -> Result<(), Error> {
+        check_field_len(topic.len())?;
         self.tx
             .try_send(Command::Unsubscribe(vec![topic.to_owned()]))
             .with_context(|| "Unsubscribe chan send failed")
@@ -82,6 +85,17 @@ impl Client {
     }
 }
 
+/// Strings and binary data are written with a two byte length
+fn check_field_len(len: usize) -> Result<(), Error> {
+    ensure!(
+        len <= u16::MAX as usize,
+        "Field is too long: {} bytes, at most {} are allowed",
+        len,
+        u16::MAX
+    );
+    Ok(())
+}
+
 #[derive(Clone)]
 pub struct PublishBuilder {
     topic: String,
@@ -122,6 +136,42 @@ impl PublishBuilder {
         self
     }
 
+    fn check_len(&self) -> Result<(), Error> {
+        check_field_len(self.topic.len())?;
+        for prop in &self.properties {
+            match prop {
+                Property::ResponseTopic(s) => check_field_len(s.len())?,
+                Property::CorrelationData(b) => check_field_len(b.len())?,
+                Property::UserProperty(k, v) => {
+                    check_field_len(k.len())?;
+                    check_field_len(v.len())?;
+                }
+                Property::PayloadFormatId(_) | Property::MessageExpiryInterval(_) => {}
+            }
+        }
+
+        let pktid_len = match self.qos {
+            None | Some(QoS::AtMostOnce) => 0,
+            Some(QoS::AtLeastOnce) | Some(QoS::ExactlyOnce) => 2,
+        };
+        let payload_len = match &self.payload {
+            Payload::Bytes(b) => b.len(),
+            Payload::String(s) => s.len(),
+        };
+        let remaining_len = 2
+            + self.topic.len()
+            + pktid_len
+            + self.properties.as_slice().convert_to_mqtt().len()
+            + payload_len;
+        ensure!(
+            remaining_len <= crate::mqtt_codec::MAX as usize,
+            "Packet is too long: {} bytes, at most {} are allowed",
+            remaining_len,
+            crate::mqtt_codec::MAX
+        );
+        Ok(())
+    }
+
     fn build(self) -> Command {
         Command::Publish {
             topic: self.topic,
diff --git a/src/mqtt_codec.rs b/src/mqtt_codec.rs
index 11a45c9..9d83da8 100644
--- a/src/mqtt_codec.rs
+++ b/src/mqtt_codec.rs
@@ -15,7 +15,7 @@ impl MqttCodec {
 // Packet size is 1 byte for fixed header + len of VBI (at most 4 bytes) + value of VBI for remaining len
 // And the maximum value of VBI is 268_435_455
 // https://docs.oasis-open.org/mqtt/mqtt/v5.0/os/mqtt-v5.0-os.html#_Toc3901011
-const MAX: u32 = 268_435_455;
+pub(crate) const MAX: u32 = 268_435_455;
 
 impl Decoder for MqttCodec {
     type Item = protocol::Packet;
-- 
2.43.0

