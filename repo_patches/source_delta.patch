From 214a35f48dbbe71b9ae8659c1593141ab44d792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 01/17] fix: topic matching panicked on topics starting with a
 multi-byte character

---
 src/topic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topic.rs b/src/topic.rs
index ea76373..e740f7f 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -53,7 +53,7 @@ pub fn valid_filter(filter: &str) -> bool {
 /// **NOTE**: make sure a topic is validated during a publish and filter is validated
 /// during a subscribe
 pub fn matches(topic: &str, filter: &str) -> bool {
-    if !topic.is_empty() && topic[..1].contains('$') {
+    if topic.starts_with('$') {
         return false;
     }
 
-- 
2.43.0


From 710170ae897ae439fccf67e9d43a385b930967a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 02/17] fix: valid_filter accepted '+' inside a level

---
 src/topic.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/topic.rs b/src/topic.rs
index e740f7f..75d34f2 100644
--- a/src/topic.rs
+++ b/src/topic.rs
@@ -35,11 +35,18 @@ pub fn valid_filter(filter: &str) -> bool {
             if entry.contains('#') {
                 return false;
             }
+
+            // + must occupy an entire level
+            // invalid: sport+/player
+            if entry.len() != 1 && entry.contains('+') {
+                return false;
+            }
         }
 
-        // only single '#" is allowed in last entry
+        // only single '#" or '+' is allowed in last entry
         // invalid: sport/tennis#
-        if last.len() != 1 && last.contains('#') {
+        // invalid: sport/tennis+
+        if last.len() != 1 && (last.contains('#') || last.contains('+')) {
             return false;
         }
     }
-- 
2.43.0


From 49f97428b0a41ff536f9a4de813bc111e84c389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 03/17] fix: connect write overwrote a byte of earlier packets
 in the same buffer

The connect flags were patched at an index counted from the start of the
buffer, not from the start of the packet.
---
 src/v4/connect.rs | 3 ++-
 src/v5/connect.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index e92d700..345d768 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -102,6 +102,7 @@ impl Connect {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, "MQTT");
@@ -111,7 +112,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_session {
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index c0f4397..5b28064 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -124,6 +124,7 @@ impl Connect {
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
+        let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
         write_mqtt_string(buffer, "MQTT");
@@ -133,7 +134,7 @@ impl Connect {
             Protocol::V5 => buffer.put_u8(0x05),
         }
 
-        let flags_index = 1 + count + 2 + 4 + 1;
+        let flags_index = start + 1 + count + 2 + 4 + 1;
 
         let mut connect_flags = 0;
         if self.clean_session {
-- 
2.43.0


From 1093790ff0501393882221a3644f2818868fd6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 04/17] fix: connect write returned the remaining length, not
 the bytes written

---
 src/v4/connect.rs | 2 +-
 src/v5/connect.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index 345d768..725d0d5 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -133,7 +133,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 5b28064..5a45875 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -163,7 +163,7 @@ impl Connect {
 
         // update connect flags
         buffer[flags_index] = connect_flags;
-        Ok(len)
+        Ok(1 + count + len)
     }
 }
 
-- 
2.43.0


From d917f9061292bd53cf0941f08f9ebc273f675d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 05/17] fix: v5 connack without properties was written without
 its property length

The packet was malformed and this crate's own reader refused it.
---
 src/v5/connack.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 36391f4..758cffc 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -52,10 +52,16 @@ impl ConnAck {
         let mut len = 1  // session present
                         + 1; // code
 
-        if let Some(properties) = &self.properties {
-            let properties_len = properties.len();
-            let properties_len_len = len_len(properties_len);
-            len += properties_len_len + properties_len;
+        match &self.properties {
+            Some(properties) => {
+                let properties_len = properties.len();
+                let properties_len_len = len_len(properties_len);
+                len += properties_len_len + properties_len;
+            }
+            None => {
+                // just 1 byte representing 0 len
+                len += 1;
+            }
         }
 
         len
@@ -87,9 +93,12 @@ impl ConnAck {
         buffer.put_u8(self.session_present as u8);
         buffer.put_u8(self.code as u8);
 
-        if let Some(properties) = &self.properties {
-            properties.write(buffer)?;
-        }
+        match &self.properties {
+            Some(properties) => properties.write(buffer)?,
+            None => {
+                write_remaining_length(buffer, 0)?;
+            }
+        };
 
         Ok(1 + count + len)
     }
-- 
2.43.0


From 061a084535cd8a83dc55de11c393bba07251a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 06/17] fix: v5 read refused a normal disconnect (remaining
 length 0)

---
 src/v5/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index 28dcfbb..ef67855 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -127,6 +127,10 @@ pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
         return match packet_type {
             PacketType::PingReq => Ok(Packet::PingReq),
             PacketType::PingResp => Ok(Packet::PingResp),
+            PacketType::Disconnect => {
+                let disconnect = Disconnect::read(fixed_header, packet.freeze())?;
+                Ok(Packet::Disconnect(disconnect))
+            }
             _ => Err(Error::PayloadRequired),
         };
     }
-- 
2.43.0


From 8782711552c3ed9d8c85dd105e4b0f5363740970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 07/17] fix: v5 disconnect with only a reason code was refused

---
 src/v5/disconnect.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 4e12360..1ccb269 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -305,6 +305,14 @@ impl Disconnect {
 
         let reason_code = read_u8(&mut bytes)?;
 
+        // No properties len or properties if remaining length == 1
+        if fixed_header.remaining_len < 2 {
+            return Ok(Self {
+                reason_code: reason_code.try_into()?,
+                properties: None,
+            });
+        }
+
         let disconnect = Self {
             reason_code: reason_code.try_into()?,
             properties: DisconnectProperties::extract(&mut bytes)?,
-- 
2.43.0


From 2a9632118ebdca02c2091c301e05c5f2b12a2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 08/17] fix: v5 disconnect with an empty property set lost its
 reason code

Its remaining length is 2, which was taken for the short form.
---
 src/v5/disconnect.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 1ccb269..5d4f6b6 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -326,7 +326,10 @@ impl Disconnect {
 
         let length = self.len();
 
-        if length == 2 {
+        // Reason code is optional with normal disconnection if there are no properties
+        if self.reason_code == DisconnectReasonCode::NormalDisconnection
+            && self.properties.is_none()
+        {
             buffer.put_u8(0x00);
 
             return Ok(length);
-- 
2.43.0


From 025771222afc19e1ef9b3cf446c0d63391632a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 09/17] fix: v5 unsubscribe reader printed the packet id to
 stderr

---
 src/v5/unsubscribe.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 201b79a..e2e5b2c 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -42,7 +42,6 @@ impl Unsubscribe {
         bytes.advance(variable_header_index);
 
         let pkid = read_u16(&mut bytes)?;
-        dbg!(pkid);
         let properties = UnsubscribeProperties::extract(&mut bytes)?;
 
         let mut filters = Vec::with_capacity(1);
-- 
2.43.0


From d33cf8775a352d3cc3c757441a4edd0de5986c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 10/17] fix: v5 subscription identifiers were counted one byte
 too long

From the third identifier on, a publish lost identifiers and properties and
their bytes ended up in the payload.
---
 src/v5/publish.rs   | 2 +-
 src/v5/subscribe.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 166eb32..4d916f6 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -233,7 +233,7 @@ impl PublishProperties {
                 }
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, id) = length(bytes.iter())?;
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     subscription_identifiers.push(id);
                 }
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 83f0664..62d1709 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -192,7 +192,7 @@ impl SubscribeProperties {
                 PropertyType::SubscriptionIdentifier => {
                     let (id_len, sub_id) = length(bytes.iter())?;
                     // TODO: Validate 1 +. Tests are working either way
-                    cursor += 1 + id_len;
+                    cursor += id_len;
                     bytes.advance(id_len);
                     id = Some(sub_id)
                 }
-- 
2.43.0


From 8171e72381c574293cb00fe68f1f80523633605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 11/17] fix: v5 reader asked for more bytes on complete but
 malformed packets

A truncated property length or subscription identifier inside a framed (and
already consumed) packet was reported as InsufficientBytes, so that stream
readers silently dropped the packet instead of failing.
---
 src/v5/disconnect.rs | 2 +-
 src/v5/mod.rs        | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 5d4f6b6..e3c426d 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -4,7 +4,7 @@ use bytes::{BufMut, BytesMut};
 
 use crate::*;
 
-use super::{property, PropertyType};
+use super::{length, property, PropertyType};
 
 #[derive(Debug, Clone, Copy, PartialEq)]
 #[repr(u8)]
diff --git a/src/v5/mod.rs b/src/v5/mod.rs
index ef67855..76c9288 100644
--- a/src/v5/mod.rs
+++ b/src/v5/mod.rs
@@ -114,6 +114,15 @@ fn property(num: u8) -> Result<PropertyType, Error> {
     Ok(property)
 }
 
+/// Parses a variable byte integer inside an already framed packet. Waiting for
+/// more bytes can't complete it, so running out of bytes is a malformed packet
+fn length(stream: Iter<u8>) -> Result<(usize, usize), Error> {
+    match crate::length(stream) {
+        Err(Error::InsufficientBytes(_)) => Err(Error::MalformedPacket),
+        result => result,
+    }
+}
+
 /// Reads a stream of bytes and extracts next MQTT packet out of it
 pub fn read(stream: &mut BytesMut, max_size: usize) -> Result<Packet, Error> {
     let fixed_header = check(stream.iter(), max_size)?;
-- 
2.43.0


From 296fa56cfdddf95e1d8096e7cb678bd1a87522f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 12/17] fix: v5 properties could run across their declared
 length

Bytes of the payload or of following fields were taken for properties.
---
 src/v5/connack.rs     |  5 +++++
 src/v5/connect.rs     | 10 ++++++++++
 src/v5/disconnect.rs  |  5 +++++
 src/v5/puback.rs      |  5 +++++
 src/v5/pubcomp.rs     |  5 +++++
 src/v5/publish.rs     |  5 +++++
 src/v5/pubrec.rs      |  5 +++++
 src/v5/pubrel.rs      |  5 +++++
 src/v5/suback.rs      |  5 +++++
 src/v5/subscribe.rs   |  5 +++++
 src/v5/unsuback.rs    |  5 +++++
 src/v5/unsubscribe.rs |  5 +++++
 12 files changed, 65 insertions(+)

diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 758cffc..22faa42 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -334,6 +334,11 @@ impl ConnAckProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnAckProperties {
             session_expiry_interval,
             receive_max,
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 5a45875..aa7d739 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -364,6 +364,11 @@ impl WillProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(WillProperties {
             delay_interval,
             payload_format_indicator,
@@ -583,6 +588,11 @@ impl ConnectProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(ConnectProperties {
             session_expiry_interval,
             receive_maximum,
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index e3c426d..598596c 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -212,6 +212,11 @@ impl DisconnectProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         let properties = Self {
             session_expiry_interval,
             reason_string,
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 5113194..13dc12d 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -160,6 +160,11 @@ impl PubAckProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index 73c019a..bf3150e 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -148,6 +148,11 @@ impl PubCompProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubCompProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 4d916f6..5bcd861 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -246,6 +246,11 @@ impl PublishProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PublishProperties {
             payload_format_indicator,
             message_expiry_interval,
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index a9b0ba0..4a63316 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -156,6 +156,11 @@ impl PubRecProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRecProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index e18b465..70d1c72 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -147,6 +147,11 @@ impl PubRelProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(PubRelProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 1c8d541..d494177 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -137,6 +137,11 @@ impl SubAckProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 62d1709..40df681 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -206,6 +206,11 @@ impl SubscribeProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(SubscribeProperties {
             id,
             user_properties,
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 83e7f0d..1493b82 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -148,6 +148,11 @@ impl UnsubAckProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubAckProperties {
             reason_string,
             user_properties,
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index e2e5b2c..7d58bb5 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -127,6 +127,11 @@ impl UnsubscribeProperties {
             }
         }
 
+        // last property crosses the end of properties
+        if cursor != properties_len {
+            return Err(Error::MalformedPacket);
+        }
+
         Ok(Some(UnsubscribeProperties { user_properties }))
     }
 
-- 
2.43.0


From 0bacbfd796121898c505279ce9e7aaaa6eca4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 13/17] fix: 3.1.1 connects were read and written with MQTT 5
 properties by v5

A connect of protocol V4 got a property length the V4 format does not have
when written, and a will was read as if it was preceded by properties.
---
 src/v5/connect.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index aa7d739..0697e7e 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -52,6 +52,8 @@ impl Connect {
                               + 2; // keep alive
 
         match &self.properties {
+            // 3.1.1 has no properties
+            _ if self.protocol == Protocol::V4 => {}
             Some(properties) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
@@ -67,7 +69,7 @@ impl Connect {
 
         // last will len
         if let Some(last_will) = &self.last_will {
-            len += last_will.len();
+            len += last_will.len(self.protocol);
         }
 
         // username and password len
@@ -106,7 +108,7 @@ impl Connect {
         };
 
         let client_id = read_mqtt_string(&mut bytes)?;
-        let last_will = LastWill::read(connect_flags, &mut bytes)?;
+        let last_will = LastWill::read(protocol, connect_flags, &mut bytes)?;
         let login = Login::read(connect_flags, &mut bytes)?;
 
         let connect = Connect {
@@ -145,6 +147,8 @@ impl Connect {
         buffer.put_u16(self.keep_alive);
 
         match &self.properties {
+            // 3.1.1 has no properties
+            _ if self.protocol == Protocol::V4 => {}
             Some(properties) => properties.write(buffer)?,
             None => {
                 write_remaining_length(buffer, 0)?;
@@ -154,7 +158,7 @@ impl Connect {
         write_mqtt_string(buffer, &self.client_id);
 
         if let Some(last_will) = &self.last_will {
-            connect_flags |= last_will.write(buffer)?;
+            connect_flags |= last_will.write(self.protocol, buffer)?;
         }
 
         if let Some(login) = &self.login {
@@ -193,10 +197,12 @@ impl LastWill {
         }
     }
 
-    fn len(&self) -> usize {
+    fn len(&self, protocol: Protocol) -> usize {
         let mut len = 0;
 
         match &self.properties {
+            // 3.1.1 has no properties
+            _ if protocol == Protocol::V4 => {}
             Some(properties) => {
                 let properties_len = properties.len();
                 let properties_len_len = len_len(properties_len);
@@ -212,7 +218,11 @@ impl LastWill {
         len
     }
 
-    fn read(connect_flags: u8, mut bytes: &mut Bytes) -> Result<Option<LastWill>, Error> {
+    fn read(
+        protocol: Protocol,
+        connect_flags: u8,
+        mut bytes: &mut Bytes,
+    ) -> Result<Option<LastWill>, Error> {
         let last_will = match connect_flags & 0b100 {
             0 if (connect_flags & 0b0011_1000) != 0 => {
                 return Err(Error::IncorrectPacketFormat);
@@ -220,7 +230,10 @@ impl LastWill {
             0 => None,
             _ => {
                 // Properties in variable header
-                let properties = WillProperties::read(&mut bytes)?;
+                let properties = match protocol {
+                    Protocol::V5 => WillProperties::read(&mut bytes)?,
+                    Protocol::V4 => None,
+                };
 
                 let will_topic = read_mqtt_string(&mut bytes)?;
                 let will_message = read_mqtt_bytes(&mut bytes)?;
@@ -238,7 +251,7 @@ impl LastWill {
         Ok(last_will)
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
+    fn write(&self, protocol: Protocol, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
 
         connect_flags |= 0x04 | (self.qos as u8) << 3;
@@ -247,6 +260,8 @@ impl LastWill {
         }
 
         match &self.properties {
+            // 3.1.1 has no properties
+            _ if protocol == Protocol::V4 => {}
             Some(properties) => properties.write(buffer)?,
             None => {
                 write_remaining_length(buffer, 0)?;
-- 
2.43.0


From e1641f47ef115069757599e38cde993465a8a70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 14/17] fix: v4 connect sent a password without username flag,
 which 3.1.1 forbids

---
 src/v4/connect.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index 725d0d5..dee20c4 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -238,7 +238,8 @@ impl Login {
     fn len(&self) -> usize {
         let mut len = 0;
 
-        if !self.username.is_empty() {
+        // 3.1.1 doesn't allow a password without username
+        if !self.username.is_empty() || !self.password.is_empty() {
             len += 2 + self.username.len();
         }
 
@@ -251,7 +252,8 @@ impl Login {
 
     fn write(&self, buffer: &mut BytesMut) -> u8 {
         let mut connect_flags = 0;
-        if !self.username.is_empty() {
+        // 3.1.1 doesn't allow a password without username
+        if !self.username.is_empty() || !self.password.is_empty() {
             connect_flags |= 0x80;
             write_mqtt_string(buffer, &self.username);
         }
-- 
2.43.0


From fb172d43cc2ac897547d689dc1a43b2808028c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 15/17] fix: strings and binary fields over 65535 bytes were
 written with a wrong length

The 2 byte length prefix silently wrapped around, so the peer read garbage.
Such packets are now refused with PayloadTooLong.
---
 src/lib.rs            | 12 +++++++++---
 src/v4/connect.rs     | 18 +++++++++---------
 src/v4/publish.rs     |  2 +-
 src/v4/subscribe.rs   |  7 ++++---
 src/v4/unsubscribe.rs |  2 +-
 src/v5/connack.rs     | 16 ++++++++--------
 src/v5/connect.rs     | 36 ++++++++++++++++++------------------
 src/v5/disconnect.rs  |  8 ++++----
 src/v5/puback.rs      |  6 +++---
 src/v5/pubcomp.rs     |  6 +++---
 src/v5/publish.rs     | 12 ++++++------
 src/v5/pubrec.rs      |  6 +++---
 src/v5/pubrel.rs      |  6 +++---
 src/v5/suback.rs      |  6 +++---
 src/v5/subscribe.rs   | 11 ++++++-----
 src/v5/unsuback.rs    |  6 +++---
 src/v5/unsubscribe.rs |  6 +++---
 17 files changed, 87 insertions(+), 79 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2c046a3..1c4143a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -249,14 +249,20 @@ fn read_mqtt_string(stream: &mut Bytes) -> Result<String, Error> {
 }
 
 /// Serializes bytes to stream (including length)
-fn write_mqtt_bytes(stream: &mut BytesMut, bytes: &[u8]) {
+fn write_mqtt_bytes(stream: &mut BytesMut, bytes: &[u8]) -> Result<(), Error> {
+    // Length is a 2 byte integer
+    if bytes.len() > 65_535 {
+        return Err(Error::PayloadTooLong);
+    }
+
     stream.put_u16(bytes.len() as u16);
     stream.extend_from_slice(bytes);
+    Ok(())
 }
 
 /// Serializes a string to stream
-fn write_mqtt_string(stream: &mut BytesMut, string: &str) {
-    write_mqtt_bytes(stream, string.as_bytes());
+fn write_mqtt_string(stream: &mut BytesMut, string: &str) -> Result<(), Error> {
+    write_mqtt_bytes(stream, string.as_bytes())
 }
 
 /// Writes remaining length to stream and returns number of bytes for remaining length
diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index dee20c4..375e69f 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -105,7 +105,7 @@ impl Connect {
         let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, "MQTT");
+        write_mqtt_string(buffer, "MQTT")?;
 
         match self.protocol {
             Protocol::V4 => buffer.put_u8(0x04),
@@ -121,14 +121,14 @@ impl Connect {
 
         buffer.put_u8(connect_flags);
         buffer.put_u16(self.keep_alive);
-        write_mqtt_string(buffer, &self.client_id);
+        write_mqtt_string(buffer, &self.client_id)?;
 
         if let Some(last_will) = &self.last_will {
             connect_flags |= last_will.write(buffer)?;
         }
 
         if let Some(login) = &self.login {
-            connect_flags |= login.write(buffer);
+            connect_flags |= login.write(buffer)?;
         }
 
         // update connect flags
@@ -197,8 +197,8 @@ impl LastWill {
             connect_flags |= 0x20;
         }
 
-        write_mqtt_string(buffer, &self.topic);
-        write_mqtt_bytes(buffer, &self.message);
+        write_mqtt_string(buffer, &self.topic)?;
+        write_mqtt_bytes(buffer, &self.message)?;
         Ok(connect_flags)
     }
 }
@@ -250,20 +250,20 @@ impl Login {
         len
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> u8 {
+    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
         // 3.1.1 doesn't allow a password without username
         if !self.username.is_empty() || !self.password.is_empty() {
             connect_flags |= 0x80;
-            write_mqtt_string(buffer, &self.username);
+            write_mqtt_string(buffer, &self.username)?;
         }
 
         if !self.password.is_empty() {
             connect_flags |= 0x40;
-            write_mqtt_string(buffer, &self.password);
+            write_mqtt_string(buffer, &self.password)?;
         }
 
-        connect_flags
+        Ok(connect_flags)
     }
 
     pub fn validate(&self, username: &String, password: &String ) -> bool {
diff --git a/src/v4/publish.rs b/src/v4/publish.rs
index 0f49531..89c0a99 100644
--- a/src/v4/publish.rs
+++ b/src/v4/publish.rs
@@ -88,7 +88,7 @@ impl Publish {
         buffer.put_u8(0b0011_0000 | retain | qos << 1 | dup << 3);
 
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, self.topic.as_str());
+        write_mqtt_string(buffer, self.topic.as_str())?;
 
         if self.qos != QoS::AtMostOnce {
             let pkid = self.pkid;
diff --git a/src/v4/subscribe.rs b/src/v4/subscribe.rs
index 3bb386d..e05646a 100644
--- a/src/v4/subscribe.rs
+++ b/src/v4/subscribe.rs
@@ -87,7 +87,7 @@ impl Subscribe {
 
         // write filters
         for filter in self.filters.iter() {
-            filter.write(buffer);
+            filter.write(buffer)?;
         }
 
         Ok(1 + remaining_len_bytes + remaining_len)
@@ -111,12 +111,13 @@ impl SubscribeFilter {
         2 + self.path.len() + 1
     }
 
-    fn write(&self, buffer: &mut BytesMut) {
+    fn write(&self, buffer: &mut BytesMut) -> Result<(), Error> {
         let mut options = 0;
         options |= self.qos as u8;
 
-        write_mqtt_string(buffer, self.path.as_str());
+        write_mqtt_string(buffer, self.path.as_str())?;
         buffer.put_u8(options);
+        Ok(())
     }
 }
 
diff --git a/src/v4/unsubscribe.rs b/src/v4/unsubscribe.rs
index 9c32cc5..2ba45c9 100644
--- a/src/v4/unsubscribe.rs
+++ b/src/v4/unsubscribe.rs
@@ -47,7 +47,7 @@ impl Unsubscribe {
         payload.put_u16(self.pkid);
 
         for topic in self.topics.iter() {
-            write_mqtt_string(payload, topic.as_str());
+            write_mqtt_string(payload, topic.as_str())?;
         }
         Ok(1 + remaining_len_bytes + remaining_len)
     }
diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 22faa42..7d21c7d 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -391,7 +391,7 @@ impl ConnAckProperties {
 
         if let Some(id) = &self.assigned_client_identifier {
             buffer.put_u8(PropertyType::AssignedClientIdentifier as u8);
-            write_mqtt_string(buffer, id);
+            write_mqtt_string(buffer, id)?;
         }
 
         if let Some(topic_alias_max) = self.topic_alias_max {
@@ -401,13 +401,13 @@ impl ConnAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         if let Some(w) = self.wildcard_subscription_available {
@@ -432,22 +432,22 @@ impl ConnAckProperties {
 
         if let Some(info) = &self.response_information {
             buffer.put_u8(PropertyType::ResponseInformation as u8);
-            write_mqtt_string(buffer, info);
+            write_mqtt_string(buffer, info)?;
         }
 
         if let Some(reference) = &self.server_reference {
             buffer.put_u8(PropertyType::ServerReference as u8);
-            write_mqtt_string(buffer, reference);
+            write_mqtt_string(buffer, reference)?;
         }
 
         if let Some(authentication_method) = &self.authentication_method {
             buffer.put_u8(PropertyType::AuthenticationMethod as u8);
-            write_mqtt_string(buffer, authentication_method);
+            write_mqtt_string(buffer, authentication_method)?;
         }
 
         if let Some(authentication_data) = &self.authentication_data {
             buffer.put_u8(PropertyType::AuthenticationData as u8);
-            write_mqtt_bytes(buffer, authentication_data);
+            write_mqtt_bytes(buffer, authentication_data)?;
         }
 
         Ok(())
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 0697e7e..055589c 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -129,7 +129,7 @@ impl Connect {
         let start = buffer.len();
         buffer.put_u8(0b0001_0000);
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, "MQTT");
+        write_mqtt_string(buffer, "MQTT")?;
 
         match self.protocol {
             Protocol::V4 => buffer.put_u8(0x04),
@@ -155,14 +155,14 @@ impl Connect {
             }
         };
 
-        write_mqtt_string(buffer, &self.client_id);
+        write_mqtt_string(buffer, &self.client_id)?;
 
         if let Some(last_will) = &self.last_will {
             connect_flags |= last_will.write(self.protocol, buffer)?;
         }
 
         if let Some(login) = &self.login {
-            connect_flags |= login.write(buffer);
+            connect_flags |= login.write(buffer)?;
         }
 
         // update connect flags
@@ -268,8 +268,8 @@ impl LastWill {
             }
         };
 
-        write_mqtt_string(buffer, &self.topic);
-        write_mqtt_bytes(buffer, &self.message);
+        write_mqtt_string(buffer, &self.topic)?;
+        write_mqtt_bytes(buffer, &self.message)?;
         Ok(connect_flags)
     }
 }
@@ -416,23 +416,23 @@ impl WillProperties {
 
         if let Some(typ) = &self.content_type {
             buffer.put_u8(PropertyType::ContentType as u8);
-            write_mqtt_string(buffer, typ);
+            write_mqtt_string(buffer, typ)?;
         }
 
         if let Some(topic) = &self.response_topic {
             buffer.put_u8(PropertyType::ResponseTopic as u8);
-            write_mqtt_string(buffer, topic);
+            write_mqtt_string(buffer, topic)?;
         }
 
         if let Some(data) = &self.correlation_data {
             buffer.put_u8(PropertyType::CorrelationData as u8);
-            write_mqtt_bytes(buffer, data);
+            write_mqtt_bytes(buffer, data)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
@@ -485,19 +485,19 @@ impl Login {
         len
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> u8 {
+    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
         if !self.username.is_empty() {
             connect_flags |= 0x80;
-            write_mqtt_string(buffer, &self.username);
+            write_mqtt_string(buffer, &self.username)?;
         }
 
         if !self.password.is_empty() {
             connect_flags |= 0x40;
-            write_mqtt_string(buffer, &self.password);
+            write_mqtt_string(buffer, &self.password)?;
         }
 
-        connect_flags
+        Ok(connect_flags)
     }
 }
 
@@ -699,18 +699,18 @@ impl ConnectProperties {
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         if let Some(authentication_method) = &self.authentication_method {
             buffer.put_u8(PropertyType::AuthenticationMethod as u8);
-            write_mqtt_string(buffer, authentication_method);
+            write_mqtt_string(buffer, authentication_method)?;
         }
 
         if let Some(authentication_data) = &self.authentication_data {
             buffer.put_u8(PropertyType::AuthenticationData as u8);
-            write_mqtt_bytes(buffer, authentication_data);
+            write_mqtt_bytes(buffer, authentication_data)?;
         }
 
         Ok(())
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index 598596c..c33a460 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -238,18 +238,18 @@ impl DisconnectProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         if let Some(reference) = &self.server_reference {
             buffer.put_u8(PropertyType::ServerReference as u8);
-            write_mqtt_string(buffer, reference);
+            write_mqtt_string(buffer, reference)?;
         }
 
         Ok(())
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index 13dc12d..b928ba8 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -177,13 +177,13 @@ impl PubAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index bf3150e..b742cde 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -165,13 +165,13 @@ impl PubCompProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index 5bcd861..e9eb801 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -104,7 +104,7 @@ impl Publish {
         buffer.put_u8(0b0011_0000 | retain | qos << 1 | dup << 3);
 
         let count = write_remaining_length(buffer, len)?;
-        write_mqtt_string(buffer, self.topic.as_str());
+        write_mqtt_string(buffer, self.topic.as_str())?;
 
         if self.qos != QoS::AtMostOnce {
             let pkid = self.pkid;
@@ -284,18 +284,18 @@ impl PublishProperties {
 
         if let Some(topic) = &self.response_topic {
             buffer.put_u8(PropertyType::ResponseTopic as u8);
-            write_mqtt_string(buffer, topic);
+            write_mqtt_string(buffer, topic)?;
         }
 
         if let Some(data) = &self.correlation_data {
             buffer.put_u8(PropertyType::CorrelationData as u8);
-            write_mqtt_bytes(buffer, data);
+            write_mqtt_bytes(buffer, data)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         for id in self.subscription_identifiers.iter() {
@@ -305,7 +305,7 @@ impl PublishProperties {
 
         if let Some(typ) = &self.content_type {
             buffer.put_u8(PropertyType::ContentType as u8);
-            write_mqtt_string(buffer, typ);
+            write_mqtt_string(buffer, typ)?;
         }
 
         Ok(())
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index 4a63316..aa8974d 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -173,13 +173,13 @@ impl PubRecProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index 70d1c72..7fe00eb 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -164,13 +164,13 @@ impl PubRelProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index d494177..855221f 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -154,13 +154,13 @@ impl SubAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 40df681..9808bed 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -143,7 +143,7 @@ impl Subscribe {
 
         // write filters
         for filter in self.filters.iter() {
-            filter.write(buffer);
+            filter.write(buffer)?;
         }
 
         Ok(1 + remaining_len_bytes + remaining_len)
@@ -228,8 +228,8 @@ impl SubscribeProperties {
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
@@ -277,7 +277,7 @@ impl SubscribeFilter {
         2 + self.path.len() + 1
     }
 
-    fn write(&self, buffer: &mut BytesMut) {
+    fn write(&self, buffer: &mut BytesMut) -> Result<(), Error> {
         let mut options = 0;
         options |= self.qos as u8;
 
@@ -295,8 +295,9 @@ impl SubscribeFilter {
             RetainForwardRule::Never => options |= 2 << 4,
         }
 
-        write_mqtt_string(buffer, self.path.as_str());
+        write_mqtt_string(buffer, self.path.as_str())?;
         buffer.put_u8(options);
+        Ok(())
     }
 }
 
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index 1493b82..b4f0b93 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -165,13 +165,13 @@ impl UnsubAckProperties {
 
         if let Some(reason) = &self.reason_string {
             buffer.put_u8(PropertyType::ReasonString as u8);
-            write_mqtt_string(buffer, reason);
+            write_mqtt_string(buffer, reason)?;
         }
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 7d58bb5..55c0b14 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -77,7 +77,7 @@ impl Unsubscribe {
 
         // write filters
         for filter in self.filters.iter() {
-            write_mqtt_string(buffer, filter);
+            write_mqtt_string(buffer, filter)?;
         }
 
         Ok(1 + remaining_len_bytes + remaining_len)
@@ -141,8 +141,8 @@ impl UnsubscribeProperties {
 
         for (key, value) in self.user_properties.iter() {
             buffer.put_u8(PropertyType::UserProperty as u8);
-            write_mqtt_string(buffer, key);
-            write_mqtt_string(buffer, value);
+            write_mqtt_string(buffer, key)?;
+            write_mqtt_string(buffer, value)?;
         }
 
         Ok(())
-- 
2.43.0


From 26ac232d038aeca67d595c105077adcc2bce59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 16/17] fix: a failed write left part of the packet in the
 buffer

E.g. a QoS 1 publish without packet id returned PacketIdZero, but left its
first bytes in front of whatever was written next.
---
 src/lib.rs            | 14 ++++++++++++++
 src/v4/connect.rs     |  4 ++++
 src/v4/publish.rs     |  4 ++++
 src/v4/suback.rs      |  4 ++++
 src/v4/subscribe.rs   |  4 ++++
 src/v4/unsubscribe.rs |  4 ++++
 src/v5/connack.rs     |  4 ++++
 src/v5/connect.rs     |  4 ++++
 src/v5/disconnect.rs  |  4 ++++
 src/v5/puback.rs      |  4 ++++
 src/v5/pubcomp.rs     |  4 ++++
 src/v5/publish.rs     |  4 ++++
 src/v5/pubrec.rs      |  4 ++++
 src/v5/pubrel.rs      |  4 ++++
 src/v5/suback.rs      |  4 ++++
 src/v5/subscribe.rs   |  4 ++++
 src/v5/unsuback.rs    |  4 ++++
 src/v5/unsubscribe.rs |  4 ++++
 18 files changed, 82 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1c4143a..4dc9ba2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -265,6 +265,20 @@ fn write_mqtt_string(stream: &mut BytesMut, string: &str) -> Result<(), Error> {
     write_mqtt_bytes(stream, string.as_bytes())
 }
 
+/// Writes a packet to stream. If it can't be written, stream is left as it was
+fn write_or_rollback<F>(stream: &mut BytesMut, write: F) -> Result<usize, Error>
+where
+    F: FnOnce(&mut BytesMut) -> Result<usize, Error>,
+{
+    let start = stream.len();
+    let result = write(stream);
+    if result.is_err() {
+        stream.truncate(start);
+    }
+
+    result
+}
+
 /// Writes remaining length to stream and returns number of bytes for remaining length
 fn write_remaining_length(stream: &mut BytesMut, len: usize) -> Result<usize, Error> {
     if len > 268_435_455 {
diff --git a/src/v4/connect.rs b/src/v4/connect.rs
index 375e69f..e65a8e8 100644
--- a/src/v4/connect.rs
+++ b/src/v4/connect.rs
@@ -101,6 +101,10 @@ impl Connect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         let start = buffer.len();
         buffer.put_u8(0b0001_0000);
diff --git a/src/v4/publish.rs b/src/v4/publish.rs
index 89c0a99..8d1b449 100644
--- a/src/v4/publish.rs
+++ b/src/v4/publish.rs
@@ -80,6 +80,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
 
         let dup = self.dup as u8;
diff --git a/src/v4/suback.rs b/src/v4/suback.rs
index 198d6a9..9747b2e 100644
--- a/src/v4/suback.rs
+++ b/src/v4/suback.rs
@@ -40,6 +40,10 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0x90);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v4/subscribe.rs b/src/v4/subscribe.rs
index e05646a..2a735fe 100644
--- a/src/v4/subscribe.rs
+++ b/src/v4/subscribe.rs
@@ -75,6 +75,10 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         // write packet type
         buffer.put_u8(0x82);
 
diff --git a/src/v4/unsubscribe.rs b/src/v4/unsubscribe.rs
index 2ba45c9..81c7f03 100644
--- a/src/v4/unsubscribe.rs
+++ b/src/v4/unsubscribe.rs
@@ -37,6 +37,10 @@ impl Unsubscribe {
     }
 
     pub fn write(&self, payload: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(payload, |payload| self.encode(payload))
+    }
+
+    fn encode(&self, payload: &mut BytesMut) -> Result<usize, Error> {
         let remaining_len = 2 + self
             .topics
             .iter()
diff --git a/src/v5/connack.rs b/src/v5/connack.rs
index 7d21c7d..2b9369e 100644
--- a/src/v5/connack.rs
+++ b/src/v5/connack.rs
@@ -86,6 +86,10 @@ impl ConnAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x20);
 
diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 055589c..2239322 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -125,6 +125,10 @@ impl Connect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         let start = buffer.len();
         buffer.put_u8(0b0001_0000);
diff --git a/src/v5/disconnect.rs b/src/v5/disconnect.rs
index c33a460..6c60faa 100644
--- a/src/v5/disconnect.rs
+++ b/src/v5/disconnect.rs
@@ -327,6 +327,10 @@ impl Disconnect {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xE0);
 
         let length = self.len();
diff --git a/src/v5/puback.rs b/src/v5/puback.rs
index b928ba8..bd8ff24 100644
--- a/src/v5/puback.rs
+++ b/src/v5/puback.rs
@@ -87,6 +87,10 @@ impl PubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x40);
 
diff --git a/src/v5/pubcomp.rs b/src/v5/pubcomp.rs
index b742cde..cbafa3d 100644
--- a/src/v5/pubcomp.rs
+++ b/src/v5/pubcomp.rs
@@ -75,6 +75,10 @@ impl PubComp {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x70);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/publish.rs b/src/v5/publish.rs
index e9eb801..dafb033 100644
--- a/src/v5/publish.rs
+++ b/src/v5/publish.rs
@@ -96,6 +96,10 @@ impl Publish {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
 
         let dup = self.dup as u8;
diff --git a/src/v5/pubrec.rs b/src/v5/pubrec.rs
index aa8974d..5dfc99a 100644
--- a/src/v5/pubrec.rs
+++ b/src/v5/pubrec.rs
@@ -83,6 +83,10 @@ impl PubRec {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x50);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/pubrel.rs b/src/v5/pubrel.rs
index 7fe00eb..7438e65 100644
--- a/src/v5/pubrel.rs
+++ b/src/v5/pubrel.rs
@@ -74,6 +74,10 @@ impl PubRel {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         let len = self.len();
         buffer.put_u8(0x62);
         let count = write_remaining_length(buffer, len)?;
diff --git a/src/v5/suback.rs b/src/v5/suback.rs
index 855221f..237fd95 100644
--- a/src/v5/suback.rs
+++ b/src/v5/suback.rs
@@ -65,6 +65,10 @@ impl SubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0x90);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v5/subscribe.rs b/src/v5/subscribe.rs
index 9808bed..200d1e2 100644
--- a/src/v5/subscribe.rs
+++ b/src/v5/subscribe.rs
@@ -124,6 +124,10 @@ impl Subscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         // write packet type
         buffer.put_u8(0x82);
 
diff --git a/src/v5/unsuback.rs b/src/v5/unsuback.rs
index b4f0b93..46ded78 100644
--- a/src/v5/unsuback.rs
+++ b/src/v5/unsuback.rs
@@ -76,6 +76,10 @@ impl UnsubAck {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xB0);
         let remaining_len = self.len();
         let remaining_len_bytes = write_remaining_length(buffer, remaining_len)?;
diff --git a/src/v5/unsubscribe.rs b/src/v5/unsubscribe.rs
index 55c0b14..043bb5e 100644
--- a/src/v5/unsubscribe.rs
+++ b/src/v5/unsubscribe.rs
@@ -59,6 +59,10 @@ impl Unsubscribe {
     }
 
     pub fn write(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
+        write_or_rollback(buffer, |buffer| self.encode(buffer))
+    }
+
+    fn encode(&self, buffer: &mut BytesMut) -> Result<usize, Error> {
         buffer.put_u8(0xA2);
 
         // write remaining length
-- 
2.43.0


From 6d22b310d6d3ec4324bd7e4b2bb769cd5f8fa049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 17/17] fix: v5 wrote 3.1.1 connects with a password but no
 username flag

---
 src/v5/connect.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/v5/connect.rs b/src/v5/connect.rs
index 2239322..64bdc0a 100644
--- a/src/v5/connect.rs
+++ b/src/v5/connect.rs
@@ -74,7 +74,7 @@ impl Connect {
 
         // username and password len
         if let Some(login) = &self.login {
-            len += login.len();
+            len += login.len(self.protocol);
         }
 
         len
@@ -166,7 +166,7 @@ impl Connect {
         }
 
         if let Some(login) = &self.login {
-            connect_flags |= login.write(buffer)?;
+            connect_flags |= login.write(self.protocol, buffer)?;
         }
 
         // update connect flags
@@ -475,10 +475,15 @@ impl Login {
         }
     }
 
-    fn len(&self) -> usize {
+    /// 3.1.1 doesn't allow a password without username
+    fn has_username(&self, protocol: Protocol) -> bool {
+        !self.username.is_empty() || (protocol == Protocol::V4 && !self.password.is_empty())
+    }
+
+    fn len(&self, protocol: Protocol) -> usize {
         let mut len = 0;
 
-        if !self.username.is_empty() {
+        if self.has_username(protocol) {
             len += 2 + self.username.len();
         }
 
@@ -489,9 +494,9 @@ impl Login {
         len
     }
 
-    fn write(&self, buffer: &mut BytesMut) -> Result<u8, Error> {
+    fn write(&self, protocol: Protocol, buffer: &mut BytesMut) -> Result<u8, Error> {
         let mut connect_flags = 0;
-        if !self.username.is_empty() {
+        if self.has_username(protocol) {
             connect_flags |= 0x80;
             write_mqtt_string(buffer, &self.username)?;
         }
-- 
2.43.0

