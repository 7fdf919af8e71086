From 159ef8b26ddc277b6dc74c06b4c8f5d712fa7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 01/24] fix: match a literal level and '+' independently

Both branches consumed one shared level iterator, so once a literal child
existed, a '+' sibling was matched against what the literal branch left over.
---
 src/topic_heir.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index dca804c..a7fd878 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -116,17 +116,17 @@ impl SubHier {
 
     pub fn get(
         &self,
-        iter: &mut impl std::iter::Iterator<Item = String>,
+        levels: &[String],
         subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
         share: &Option<String>,
     ) {
-        if let Some(topic) = iter.next() {
-            if let Some(child) = self.children.get(&topic) {
-                child.get(iter, subscribers, share);
+        if let Some((topic, rest)) = levels.split_first() {
+            if let Some(child) = self.children.get(topic) {
+                child.get(rest, subscribers, share);
             }
 
             if let Some(child) = self.children.get("+") {
-                child.get(iter, subscribers, share);
+                child.get(rest, subscribers, share);
             }
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
@@ -208,15 +208,13 @@ impl SubscriptionTree {
         let mut subscribers = Vec::new();
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
-        let mut iter = filter_list.into_iter();
-
-        if let Some(topic) = iter.next() {
-            if let Some(child) = self.0.get(&topic) {
-                child.get(&mut iter, &mut subscribers, &sharename);
+        if let Some((topic, rest)) = filter_list.split_first() {
+            if let Some(child) = self.0.get(topic) {
+                child.get(rest, &mut subscribers, &sharename);
             }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
-                child.get(&mut iter, &mut subscribers, &sharename);
+                child.get(rest, &mut subscribers, &sharename);
             }
         }
 
-- 
2.43.0


From f79119845a9b229835eb269d34cb920f19c5df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 02/24] fix: keep '$' topics away from filters that start with
 a wildcard

---
 src/topic_heir.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index a7fd878..c57c513 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -212,6 +212,10 @@ impl SubscriptionTree {
             if let Some(child) = self.0.get(topic) {
                 child.get(rest, &mut subscribers, &sharename);
             }
+            // [MQTT-4.7.2-1] a filter starting with a wildcard does not match a topic starting with '$'
+            if topic.starts_with('$') {
+                return Ok(subscribers);
+            }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
                 child.get(rest, &mut subscribers, &sharename);
-- 
2.43.0


From 184902fdede9c985d7e594ce9336c3c2c4f92bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 03/24] fix: deliver at the highest QoS of a client's
 overlapping subscriptions

---
 src/topic_heir.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index c57c513..73f3c87 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -33,6 +33,18 @@ impl SubscriptionLeaf {
     }
 }
 
+/// Add a matching subscription; a client gets one copy at the highest QoS of all its matching
+/// subscriptions [MQTT-3.3.5-1].
+fn add_subscriber(
+    subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
+    leaf: &SubscriptionLeaf,
+) {
+    match subscribers.iter_mut().find(|e| e.0 == leaf.identifier) {
+        Some(known) => known.2 = known.2.max(leaf.qos),
+        None => subscribers.push((leaf.identifier, leaf.bridge.clone(), leaf.qos)),
+    }
+}
+
 #[derive(Debug)]
 struct SubHier {
     children: DashMap<String, SubHier>,
@@ -131,16 +143,12 @@ impl SubHier {
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
                 for x in s.iter() {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         } else {
             for x in &self.subs {
-                if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                    subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                }
+                add_subscriber(subscribers, x);
             }
         }
 
@@ -148,16 +156,12 @@ impl SubHier {
             if let Some(share) = share {
                 if let Some(s) = child.shared.get(share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         }
@@ -227,16 +231,12 @@ impl SubscriptionTree {
             if let Some(share) = sharename {
                 if let Some(s) = child.shared.get(&share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(&mut subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(&mut subscribers, x);
                 }
             }
         }
-- 
2.43.0


From 3bae00f7d05ff0cb37e8f42dfc0bae5ba4e0032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 04/24] fix: drop a share group with its last subscription

---
 src/topic_heir.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 73f3c87..45ada8f 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -118,6 +118,12 @@ impl SubHier {
                 if let Some(idx) = s.iter().position(|e| e.identifier == identifer) {
                     s.remove(idx);
                 }
+                let is_empty = s.is_empty();
+                // drop the reference into the map before changing the map
+                drop(s);
+                if is_empty {
+                    self.shared.remove(&sharename);
+                }
             }
         } else if let Some(idx) = self.subs.iter().position(|e| e.identifier == identifer) {
             self.subs.remove(idx);
-- 
2.43.0


From 28d37e3e622010a9c0a7348ea5d5c099484b3523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 05/24] fix: refuse invalid and unboundedly deep topic filters

An invalid filter was granted, and one SUBSCRIBE with tens of thousands of
levels overflowed the stack and aborted the broker.
---
 src/topic_heir.rs |  3 +++
 src/utils.rs      | 27 +++++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 45ada8f..8f8ab64 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -182,6 +182,9 @@ impl SubscriptionTree {
         Self(DashMap::new())
     }
     pub fn insert(&mut self, filter: String, sub: SubscriptionLeaf) -> Result<(), u8> {
+        if !utils::is_valid_filter(&filter) {
+            return Err(2);
+        }
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
         let mut iter = filter_list.into_iter();
diff --git a/src/utils.rs b/src/utils.rs
index 0ade54f..7b0f536 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,3 +1,30 @@
+/// Deepest topic filter accepted in a subscription. The subscription tree is walked recursively, so
+/// its depth has to be bounded.
+const MAX_FILTER_LEVELS: usize = 200;
+
+/// Check that a topic filter is not empty, not too deep, and has its wildcards where
+/// [MQTT-4.7.1-2] and [MQTT-4.7.1-3] allow them.
+pub fn is_valid_filter(filter: &str) -> bool {
+    if filter.is_empty() {
+        return false;
+    }
+    let mut levels = filter.split('/').peekable();
+    let mut count = 0;
+    while let Some(level) = levels.next() {
+        count += 1;
+        let is_last = levels.peek().is_none();
+        let valid = match level {
+            "+" => true,
+            "#" => is_last,
+            _ => !level.contains(['+', '#']),
+        };
+        if !valid || count > MAX_FILTER_LEVELS {
+            return false;
+        }
+    }
+    true
+}
+
 /// Parse a topic string into its parts and parse out $share
 pub fn tokenise_topic(value: String) -> Result<(Vec<String>, Option<String>), u8> {
     let mut topic = value.split('/').collect::<Vec<&str>>();
-- 
2.43.0


From 057530241b80dc7b72a586a117997258a2522bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 06/24] fix: write all four bytes of a large remaining length

The limit counted the fixed header byte already in the buffer, so packets of
2 MiB and more were sent with a truncated length.
---
 src/packets/utils.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index b6e5fb4..12860a4 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -133,11 +133,7 @@ where
 
 pub fn encode_length(len: usize, bytes: &mut BytesMut) {
     let mut mlen = len;
-    loop {
-        if bytes.len() + 1 > MAX_ENCODED_BYTES {
-            return;
-        }
-
+    for _ in 0..MAX_ENCODED_BYTES {
         let mut d = mlen % 128;
         mlen /= 128;
 
-- 
2.43.0


From 1272b6a477ffa2e4885af79368740ed12168d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 07/24] fix: hold a packet's contents to its remaining length

Lengths inside a packet that disagree with the remaining length underflowed
(a panic, or a huge length in release builds), read into the next packet, or
silently shortened strings and payloads.
---
 src/packets/mod.rs   | 33 ++++++++++++++++++++++-----------
 src/packets/utils.rs | 16 +++++++++++++++-
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4edc732..eb45f60 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -11,7 +11,9 @@ use crate::{
 use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
-    utils::{encode_length, unpack_bytes, unpack_properties, unpack_string, unpack_u16},
+    utils::{
+        encode_length, sub_length, unpack_bytes, unpack_properties, unpack_string, unpack_u16,
+    },
 };
 
 #[repr(u8)]
@@ -483,13 +485,13 @@ impl VariableHeader {
 
                 let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
                     let id = Some(unpack_u16(iter)?);
-                    len -= size_of::<u16>();
+                    len = sub_length(len, size_of::<u16>())?;
                     id
                 } else {
                     None
                 };
 
-                len -= size_of::<u16>() + topic.len();
+                len = sub_length(len, size_of::<u16>() + topic.len())?;
 
                 let payload = unpack_bytes(iter, len)?;
 
@@ -551,7 +553,7 @@ impl VariableHeader {
                 // # Variable header
 
                 let packet_id = unpack_u16(iter)?;
-                len -= size_of::<u16>();
+                len = sub_length(len, size_of::<u16>())?;
 
                 // # Payload
                 /*
@@ -563,13 +565,13 @@ impl VariableHeader {
                 let mut tuples = Vec::new();
                 while len > 0 {
                     let topic = unpack_string(iter)?;
-                    len -= topic.len() + size_of::<u16>();
+                    len = sub_length(len, topic.len() + size_of::<u16>())?;
 
                     let qos = QosLevel::try_from(
                         *iter.next().ok_or_else(|| MqttError::MalformedHeader)?,
                     )?;
 
-                    len -= size_of::<u8>();
+                    len = sub_length(len, size_of::<u8>())?;
 
                     tuples.push((topic, qos));
                 }
@@ -588,7 +590,7 @@ impl VariableHeader {
             PacketType::Suback => {
                 let packet_id = unpack_u16(iter)?;
 
-                let mut len = fixed.get_remaing_len() - size_of::<u16>();
+                let mut len = sub_length(fixed.get_remaing_len(), size_of::<u16>())?;
 
                 let mut return_codes = Vec::new();
                 while len > 0 {
@@ -610,13 +612,13 @@ impl VariableHeader {
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
                 let packet_id = unpack_u16(iter)?;
-                len -= size_of::<u16>();
+                len = sub_length(len, size_of::<u16>())?;
 
                 while len > 0 {
-                    len -= size_of::<u16>();
+                    len = sub_length(len, size_of::<u16>())?;
 
                     let topic = unpack_string(iter)?;
-                    len -= topic.len();
+                    len = sub_length(len, topic.len())?;
 
                     tuples.push(topic);
                 }
@@ -821,7 +823,16 @@ impl Packet {
 
         let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
 
-        let variable = VariableHeader::unpack(&mut iter, &fixed, protocal)?;
+        // The contents must take exactly the remaining length.
+        let mut body = bytes
+            .get(fixed.get_rl_len() + 1..len)
+            .ok_or(MqttError::MalformedRemaingLength)?
+            .iter();
+        let variable = VariableHeader::unpack(&mut body, &fixed, protocal)?;
+        if body.next().is_some() {
+            return Err(MqttError::MalformedRemaingLength);
+        }
+
         Ok((Self { fixed, variable }, len))
     }
 }
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index 12860a4..9b7a6b1 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -83,7 +83,12 @@ pub fn unpack_bytes<'a, I>(iter: &mut I, len: usize) -> Result<bytes::Bytes, Mqt
 where
     I: Iterator<Item = &'a u8>,
 {
-    Ok(Bytes::from_iter(iter.take(len).copied()))
+    let data = Bytes::from_iter(iter.take(len).copied());
+    if data.len() != len {
+        return Err(MqttError::MissingByte);
+    }
+
+    Ok(data)
 }
 
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
@@ -95,12 +100,21 @@ where
     }
 
     let chars: Vec<u8> = iter.take(len).copied().collect();
+    if chars.len() != len {
+        return Err(MqttError::MissingByte);
+    }
 
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
     Ok(result)
 }
 
+/// Take the size of a field off the number of bytes left in a packet
+pub fn sub_length(len: usize, size: usize) -> Result<usize, MqttError> {
+    len.checked_sub(size)
+        .ok_or(MqttError::MalformedRemaingLength)
+}
+
 pub fn decode_length<'a, I>(iter: &mut I) -> Result<(usize, usize), MqttError>
 where
     I: Iterator<Item = &'a u8>,
-- 
2.43.0


From 0adc93e2ba20639ccaf5538f6d38cc9c43195dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 08/24] fix: reject wrong reserved flags in the fixed header

Only SUBSCRIBE was checked, by a condition that required every flag to be
wrong at once.
---
 src/packets/headers/fixed_header.rs | 12 ++++++++++++
 src/packets/mod.rs                  |  4 +---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/packets/headers/fixed_header.rs b/src/packets/headers/fixed_header.rs
index 50fa549..1e2c782 100644
--- a/src/packets/headers/fixed_header.rs
+++ b/src/packets/headers/fixed_header.rs
@@ -141,6 +141,18 @@ impl FixedHeader {
     pub fn get_retain(&self) -> bool {
         self.flags & 0x01 == 1
     }
+    /// Check the flag bits: reserved values are fixed for every packet type but PUBLISH [MQTT-2.2.2-2]
+    pub fn validate_flags(&self) -> Result<(), MqttError> {
+        let expected = match self.get_packet_type()? {
+            PacketType::Publish => return self.get_qos().map(|_| ()),
+            PacketType::Pubrel | PacketType::Subscribe | PacketType::Unsubscribe => 0x02,
+            _ => 0x00,
+        };
+        if self.flags & 0x0F != expected {
+            return Err(MqttError::MalformedHeader);
+        }
+        Ok(())
+    }
     pub fn get_remaing_len(&self) -> usize {
         self.remaining_len
     }
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index eb45f60..03f83a4 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -545,9 +545,6 @@ impl VariableHeader {
                 })
             }
             PacketType::Subscribe => {
-                if !fixed.get_dup() && fixed.get_qos()? != QosLevel::AtLeast && fixed.get_retain() {
-                    return Err(MqttError::MalformedHeader);
-                }
                 let mut len = fixed.get_remaing_len();
 
                 // # Variable header
@@ -820,6 +817,7 @@ impl Packet {
         let mut iter = bytes.iter();
 
         let fixed = FixedHeader::from_bytes(&mut iter, None)?;
+        fixed.validate_flags()?;
 
         let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
 
-- 
2.43.0


From ce341c9508b1d0f5e11336903dcf9bfb10eb2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 09/24] fix: reject zero packet ids, U+0000, bad topic names
 and empty UNSUBSCRIBE

---
 src/packets/mod.rs   | 30 ++++++++++++++++++++----------
 src/packets/utils.rs | 15 +++++++++++++++
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 03f83a4..2a0f7aa 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -12,7 +12,8 @@ use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
     utils::{
-        encode_length, sub_length, unpack_bytes, unpack_properties, unpack_string, unpack_u16,
+        encode_length, sub_length, unpack_bytes, unpack_packet_id, unpack_properties,
+        unpack_string, unpack_u16,
     },
 };
 
@@ -476,6 +477,10 @@ impl VariableHeader {
             }
             PacketType::Publish => {
                 let topic = unpack_string(iter)?;
+                // [MQTT-3.3.2-2] [MQTT-4.7.3-1]
+                if topic.is_empty() || topic.contains(['+', '#']) {
+                    return Err(MqttError::ProtocolViolation);
+                }
 
                 /*
                  * Message len is calculated subtracting the length of the variable header
@@ -484,7 +489,7 @@ impl VariableHeader {
                 let mut len = fixed.get_remaing_len();
 
                 let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
-                    let id = Some(unpack_u16(iter)?);
+                    let id = Some(unpack_packet_id(iter)?);
                     len = sub_length(len, size_of::<u16>())?;
                     id
                 } else {
@@ -510,7 +515,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Puback => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubAck {
                     packet_id: id,
                     reason_string: None,
@@ -518,7 +523,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Pubrec => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubRec {
                     packet_id: id,
                     reason_code: PubRecReasonCode::Success,
@@ -527,7 +532,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Pubrel => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubRel {
                     packet_id: id,
                     reason_code: PubReasonCode::Success,
@@ -536,7 +541,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Pubcomp => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubComp {
                     packet_id: id,
                     reason_code: PubReasonCode::Success,
@@ -549,7 +554,7 @@ impl VariableHeader {
 
                 // # Variable header
 
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len = sub_length(len, size_of::<u16>())?;
 
                 // # Payload
@@ -585,7 +590,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Suback => {
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
 
                 let mut len = sub_length(fixed.get_remaing_len(), size_of::<u16>())?;
 
@@ -608,7 +613,7 @@ impl VariableHeader {
             PacketType::Unsubscribe => {
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len = sub_length(len, size_of::<u16>())?;
 
                 while len > 0 {
@@ -620,6 +625,11 @@ impl VariableHeader {
                     tuples.push(topic);
                 }
 
+                // [MQTT-3.10.3-2]
+                if tuples.is_empty() {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 Ok(Self::Unsubscribe {
                     packet_id,
                     tuples,
@@ -627,7 +637,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Unsuback => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::UnsubAck {
                     packet_id: id,
                     reason_string: None,
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index 9b7a6b1..142b208 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -33,6 +33,17 @@ where
     Ok(u16::from_be_bytes(bytes))
 }
 
+/// Unpack a packet identifier, which must not be zero [MQTT-2.3.1-1]
+pub fn unpack_packet_id<'a, I>(iter: &mut I) -> Result<u16, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    match unpack_u16(iter)? {
+        0 => Err(MqttError::ProtocolViolation),
+        id => Ok(id),
+    }
+}
+
 /// Unpack bytes into a u32
 ///
 /// Four Byte Integer data values are 32-bit unsigned integers in big-endian order: the high order byte precedes the successively lower order bytes. This means that a 32-bit word is presented on the network as Most Significant Byte (MSB), followed by the next most Significant Byte (MSB), followed by the next most Significant Byte (MSB), followed by Least Significant Byte (LSB).
@@ -105,6 +116,10 @@ where
     }
 
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
+    // [MQTT-1.5.3-2]
+    if result.contains('\0') {
+        return Err(MqttError::ProtocolViolation);
+    }
 
     Ok(result)
 }
-- 
2.43.0


From 93a3664d38f62b14a53ab9e095728586fbc665b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 10/24] fix: refuse contradictory connect flags

---
 src/packets/headers/connect.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/packets/headers/connect.rs b/src/packets/headers/connect.rs
index ac94af9..815560a 100644
--- a/src/packets/headers/connect.rs
+++ b/src/packets/headers/connect.rs
@@ -29,8 +29,13 @@ impl Flags {
         Self(bit)
     }
 
+    /// True when the flags are not valid: the reserved bit is set, the will QoS is 3, will bits are
+    /// set without the will flag, or there is a password without a user name.
     pub fn validate_flags(&self) -> bool {
         self.0 & 0x1 == 1
+            || self.will_qos().is_err()
+            || (!self.will() && self.0 & 0x38 != 0)
+            || (self.has_password() && !self.has_username())
     }
 
     /// #### Clean Start or Clean Session
-- 
2.43.0


From 171179cec54d9417645ed891d0e81af4c07fab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 11/24] fix: accept passwords and will messages that are not
 UTF-8

Both are binary data in MQTT 3.1.1; a CONNECT carrying other bytes was
rejected as malformed.
---
 src/packets/mod.rs   | 14 +++++++-------
 src/packets/utils.rs | 10 ++++++++++
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 2a0f7aa..bfcfdb3 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -12,7 +12,7 @@ use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
     utils::{
-        encode_length, sub_length, unpack_bytes, unpack_packet_id, unpack_properties,
+        encode_length, sub_length, unpack_binary, unpack_bytes, unpack_packet_id, unpack_properties,
         unpack_string, unpack_u16,
     },
 };
@@ -73,9 +73,9 @@ pub enum VariableHeader {
 
         client_id: String,
         username: Option<String>,
-        password: Option<String>,
+        password: Option<Bytes>,
         will_topic: Option<String>,
-        will_message: Option<String>,
+        will_message: Option<Bytes>,
         protocol_version: ProtocalVersion,
 
         session_expiry_interval: Option<u32>,
@@ -251,7 +251,7 @@ impl VariableHeader {
                     }
                     if let Some(wm) = will_message {
                         bytes.put_u16(wm.len() as u16);
-                        bytes.put(wm.as_bytes());
+                        bytes.put(wm);
                     }
                 }
 
@@ -265,7 +265,7 @@ impl VariableHeader {
                 if has_psd {
                     if let Some(psd) = password {
                         bytes.put_u16(psd.len() as u16);
-                        bytes.put(psd.as_bytes());
+                        bytes.put(psd);
                     }
                 }
             }
@@ -407,7 +407,7 @@ impl VariableHeader {
                     };
 
                     let will_topic = unpack_string(iter)?;
-                    let will_payload = unpack_string(iter)?;
+                    let will_payload = unpack_binary(iter)?;
 
                     (Some(will_topic), Some(will_payload), props)
                 } else {
@@ -421,7 +421,7 @@ impl VariableHeader {
                 };
 
                 let password = if flags.has_password() {
-                    Some(unpack_string(iter)?)
+                    Some(unpack_binary(iter)?)
                 } else {
                     None
                 };
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index 142b208..5b427f2 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -102,6 +102,16 @@ where
     Ok(data)
 }
 
+/// Read binary data that is prefixed with a two byte length
+pub fn unpack_binary<'a, I>(iter: &mut I) -> Result<bytes::Bytes, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    let len = usize::from(unpack_u16(iter)?);
+
+    unpack_bytes(iter, len)
+}
+
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
 where
     I: Iterator<Item = &'a u8>,
-- 
2.43.0


From 9adeba1a6f3f9460caf9c1d077ed4ac819969e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 12/24] fix: read whole packets, and notice the end of the
 stream

A packet was parsed from whatever one read returned: one that arrived in
pieces, or was larger than the 8 KiB buffer, was rejected or cut short.
A closed connection was read from in a busy loop until its keep-alive ended.
---
 src/handler.rs     | 60 +++++++++++++++++++++++++++++++++-------------
 src/packets/mod.rs |  8 +++++++
 2 files changed, 51 insertions(+), 17 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 5088d23..feab2af 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,8 +1,9 @@
 use std::time::Duration;
 
+use bytes::BytesMut;
 use log::{debug, error};
 use tokio::{
-    io::{AsyncBufReadExt, AsyncRead, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Sender},
     time::Instant,
@@ -21,8 +22,39 @@ use crate::{
     },
 };
 
+/// How many bytes to make room for before reading from a client
+const READ_SIZE: usize = 8 * 1024;
+
+/// Read up to the end of the next packet, which may arrive in any number of pieces.
+///
+/// `incoming` holds the bytes read so far, so nothing is lost if the future is dropped.
+/// Returns `None` at the end of the stream.
+async fn read_packet<R>(
+    reader: &mut R,
+    incoming: &mut BytesMut,
+    protocol: ProtocalVersion,
+) -> Result<Option<Packet>, MqttError>
+where
+    R: AsyncRead + Unpin,
+{
+    loop {
+        if let Some(size) = Packet::size(incoming)? {
+            if incoming.len() >= size {
+                let (packet, packet_size) = Packet::unpack(&incoming.split_to(size), protocol)?;
+                broker_info::sent_data(packet_size);
+                return Ok(Some(packet));
+            }
+        }
+
+        incoming.reserve(READ_SIZE);
+        if reader.read_buf(incoming).await? == 0 {
+            return Ok(None);
+        }
+    }
+}
+
 pub async fn client_handler<R, W>(
-    read_stream: R,
+    mut reader: R,
     mut writer: W,
     message_bridge: Sender<Command>,
     cancellation: CancellationToken,
@@ -38,7 +70,7 @@ where
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
-    let mut reader = tokio::io::BufReader::new(read_stream);
+    let mut incoming = BytesMut::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -51,26 +83,20 @@ where
             () = &mut keepalive_timer => {
                 break 'ctrl;
             }
-            buffer = reader.fill_buf() => {
-                let packet = match buffer {
-                    Ok(bytes) => {
-                        let len = bytes.len();
-                        if len == 0 {
-                            continue;
-                        }
-                        let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
-                        broker_info::sent_data(packet_size);
-
-                        reader.consume(packet_size);
-                        packet
+            packet = read_packet(&mut reader, &mut incoming, protocol) => {
+                let packet = match packet {
+                    Ok(Some(packet)) => packet,
+                    Ok(None) => {
+                        debug!("Connection closed");
+                        break 'ctrl;
                     }
-                    Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
+                    Err(MqttError::Io(ref e)) if e.kind() == std::io::ErrorKind::ConnectionReset => {
                         debug!("Connection lost");
                         break 'ctrl;
                     }
                     Err(err) => {
                         error!("{}",err);
-                        return Err(MqttError::Io(err));
+                        return Err(err);
                     }
                 };
 
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index bfcfdb3..3ffbe5e 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -823,6 +823,14 @@ impl Packet {
 
         buffer.freeze()
     }
+    /// Size of the packet that starts `bytes`, if its fixed header has arrived
+    pub fn size(bytes: &[u8]) -> Result<Option<usize>, MqttError> {
+        match FixedHeader::from_bytes(&mut bytes.iter(), None) {
+            Ok(fixed) => Ok(Some(fixed.get_remaing_len() + fixed.get_rl_len() + 1)),
+            Err(MqttError::RequiredByteMissing(_)) => Ok(None),
+            Err(err) => Err(err),
+        }
+    }
     pub fn unpack(bytes: &[u8], protocal: ProtocalVersion) -> Result<(Self, usize), MqttError> {
         let mut iter = bytes.iter();
 
-- 
2.43.0


From 724454f65337561bccbacb9bc84946662b6bc0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 13/24] fix: write every byte of every packet, without blocking
 on the client

Results of short writes were ignored, which cut packets short on a full
socket buffer, and a client that stopped reading blocked its handler for
good: no keep-alive, no takeover, no shutdown.
---
 src/handler.rs | 77 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index feab2af..ca94520 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -25,6 +25,13 @@ use crate::{
 /// How many bytes to make room for before reading from a client
 const READ_SIZE: usize = 8 * 1024;
 
+/// Stop taking messages for a client while this many bytes wait to be written to it
+const MAX_UNSENT_MESSAGES: usize = 64 * 1024;
+/// Stop reading from a client while this many bytes wait to be written to it
+const MAX_UNSENT: usize = 16 * 1024 * 1024;
+/// How long to try to write what is left when the broker ends a connection
+const FLUSH_TIMEOUT: Duration = Duration::from_secs(1);
+
 /// Read up to the end of the next packet, which may arrive in any number of pieces.
 ///
 /// `incoming` holds the bytes read so far, so nothing is lost if the future is dropped.
@@ -54,11 +61,43 @@ where
 }
 
 pub async fn client_handler<R, W>(
-    mut reader: R,
+    reader: R,
     mut writer: W,
     message_bridge: Sender<Command>,
     cancellation: CancellationToken,
 ) -> Result<(), MqttError>
+where
+    W: AsyncWrite + Unpin,
+    R: AsyncRead + Unpin,
+{
+    let mut outgoing = BytesMut::new();
+    let result = serve_client(
+        reader,
+        &mut writer,
+        &mut outgoing,
+        message_bridge,
+        cancellation,
+    )
+    .await;
+
+    // The last answers, for a client that still takes them.
+    let flush = writer.write_all_buf(&mut outgoing);
+    if let Ok(Err(err)) = tokio::time::timeout(FLUSH_TIMEOUT, flush).await {
+        debug!("{}", err);
+    }
+
+    result
+}
+
+/// Serve a client until its connection is to be closed. Whatever is to be sent goes through
+/// `outgoing`, so that a client that does not take its data never blocks this loop.
+async fn serve_client<R, W>(
+    mut reader: R,
+    writer: &mut W,
+    outgoing: &mut BytesMut,
+    message_bridge: Sender<Command>,
+    cancellation: CancellationToken,
+) -> Result<(), MqttError>
 where
     W: AsyncWrite + Unpin,
     R: AsyncRead + Unpin,
@@ -83,7 +122,12 @@ where
             () = &mut keepalive_timer => {
                 break 'ctrl;
             }
-            packet = read_packet(&mut reader, &mut incoming, protocol) => {
+            written = writer.write_buf(outgoing), if !outgoing.is_empty() => {
+                if written? == 0 {
+                    break 'ctrl;
+                }
+            }
+            packet = read_packet(&mut reader, &mut incoming, protocol), if outgoing.len() < MAX_UNSENT => {
                 let packet = match packet {
                     Ok(Some(packet)) => packet,
                     Ok(None) => {
@@ -108,8 +152,7 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                outgoing.extend_from_slice(&resp);
 
                                 break 'ctrl;
                             }
@@ -139,8 +182,7 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          let len = writer.write(&resp).await?;
-                          debug!("Wrote {} bytes", len);
+                          outgoing.extend_from_slice(&resp);
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -163,8 +205,7 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            outgoing.extend_from_slice(&resp);
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
@@ -187,8 +228,7 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            outgoing.extend_from_slice(&resp);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             message_bridge
@@ -214,26 +254,22 @@ where
                             };
 
                             if let Some(resp) = data {
-                                let len = writer.write(&resp).await?;
-                                debug!("Wrote {} bytes", len);
+                                outgoing.extend_from_slice(&resp);
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            outgoing.extend_from_slice(&resp);
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            outgoing.extend_from_slice(&resp);
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            let len = writer.write(&resp).await?;
-                            debug!("Wrote {} bytes", len);
+                            outgoing.extend_from_slice(&resp);
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
@@ -254,12 +290,11 @@ where
                         }
                     }
             }
-            event = rx.recv() => {
+            event = rx.recv(), if outgoing.len() < MAX_UNSENT_MESSAGES => {
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            let len = writer.write(&msg).await?;
-                            debug!("Wrote {} bytes",len);
+                            outgoing.extend_from_slice(&msg);
                         },
                         ClientEvent::Disconnect => break 'ctrl,
                     }
-- 
2.43.0


From 8ef8c7c105037c3d5d1b6f651b53aad8309f48a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 14/24] fix: require CONNECT before any other packet

Anyone could publish, and was answered, without connecting.
---
 src/handler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handler.rs b/src/handler.rs
index ca94520..70a91b8 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -144,6 +144,11 @@ where
                     }
                 };
 
+                // [MQTT-3.1.0-1]
+                if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
-- 
2.43.0


From 3b8912313ac7e5094bbc869633740cc539d932c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 15/24] fix: answer a refused CONNECT with its CONNACK return
 code

---
 src/handler.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/handler.rs b/src/handler.rs
index 70a91b8..33cc126 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -140,6 +140,15 @@ where
                     }
                     Err(err) => {
                         error!("{}",err);
+                        // [MQTT-3.1.2-2] [MQTT-3.1.3-8]
+                        let refusal = match err {
+                            MqttError::UnacceptableProtocolLevel => Some(ConnectReturnCode::V4UnacceptableProtocal),
+                            MqttError::ClientIdentifierRejected => Some(ConnectReturnCode::V4IdentifierRejected),
+                            _ => None,
+                        };
+                        if let (false, Some(code)) = (has_connected, refusal) {
+                            outgoing.extend_from_slice(&Packet::make_connack(code, false));
+                        }
                         return Err(err);
                     }
                 };
-- 
2.43.0


From c678193042dba4434e60e67696efaec076f7d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 16/24] fix: measure keep-alive from the last packet of any
 type

Only PINGREQ restarted the timer, so busy clients were disconnected, keep-alive
0 meant four seconds instead of none, and short keep-alives were exceeded by
more than half.
---
 src/handler.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 33cc126..a05ceba 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -104,7 +104,8 @@ where
 {
     broker_info::client_inc();
 
-    let mut keepalive_duration: u64 = 60;
+    // How long the client may stay silent; a connection has a minute for its CONNECT.
+    let mut keepalive_duration = Some(Duration::from_secs(60));
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
@@ -119,7 +120,7 @@ where
             () = cancellation.cancelled() => {
                 break 'ctrl;
             }
-            () = &mut keepalive_timer => {
+            () = &mut keepalive_timer, if keepalive_duration.is_some() => {
                 break 'ctrl;
             }
             written = writer.write_buf(outgoing), if !outgoing.is_empty() => {
@@ -158,6 +159,10 @@ where
                     return Err(MqttError::ProtocolViolation);
                 }
 
+                if let (true, Some(duration)) = (has_connected, keepalive_duration) {
+                    keepalive_timer.as_mut().reset(Instant::now() + duration);
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
@@ -191,8 +196,11 @@ where
 
                           r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
-                          keepalive_duration = (keepalive as u64) + 4;
-                          keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
+                          // [MQTT-3.1.2-24] one and a half times the keep alive; zero turns it off
+                          keepalive_duration = (keepalive > 0).then(|| Duration::from_millis(u64::from(keepalive) * 1500));
+                          if let Some(duration) = keepalive_duration {
+                              keepalive_timer.as_mut().reset(Instant::now() + duration);
+                          }
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
@@ -281,7 +289,6 @@ where
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
-                            keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
                             outgoing.extend_from_slice(&resp);
                         },
-- 
2.43.0


From e4a174113cb0620b8b82ed7d9330666aa5aadf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:55 +0000
Subject: [PATCH 17/24] fix: deliver at the lower of published and granted QoS,
 with packet ids

Messages went out at the subscription's QoS whatever they were published with,
and QoS 1 and 2 ones without a packet identifier, which corrupts the packet.
---
 src/core/enums.rs |  7 ++++++-
 src/core/mod.rs   | 19 ++++++++++---------
 src/handler.rs    | 42 +++++++++++++++++++++++++++++++++++++-----
 src/main.rs       |  6 +++++-
 4 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index fe5da56..3d11459 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -26,6 +26,7 @@ pub enum Command {
     Publish {
         topic: String,
         payload: Bytes,
+        qos: QosLevel,
     },
     Unsubscribe {
         topics: Vec<String>,
@@ -38,7 +39,11 @@ pub enum Command {
 
 #[derive(Debug)]
 pub enum ClientEvent {
-    Message(Bytes),
+    Message {
+        topic: String,
+        payload: Bytes,
+        qos: QosLevel,
+    },
     Disconnect,
 }
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 61f2080..f1e05b3 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -6,10 +6,7 @@ use tokio::sync::mpsc::Sender;
 
 use crate::{
     error::MqttError,
-    packets::{
-        enums::{QosLevel, SubackReturnCode},
-        Packet,
-    },
+    packets::enums::{QosLevel, SubackReturnCode},
     topic_heir::{SubscriptionLeaf, SubscriptionTree},
 };
 
@@ -135,7 +132,7 @@ impl App {
         self.sessions.remove(&cid);
     }
 
-    pub async fn publish(&self, topic: String, payload: Bytes) {
+    pub async fn publish(&self, topic: String, payload: Bytes, qos: QosLevel) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -143,10 +140,14 @@ impl App {
             }
         };
 
-        for (_, bridge, qos) in subs {
-            let packet =
-                Packet::make_publish(false, qos, false, topic.clone(), None, payload.clone());
-            if let Err(e) = bridge.send(ClientEvent::Message(packet)).await {
+        for (_, bridge, granted) in subs {
+            let message = ClientEvent::Message {
+                topic: topic.clone(),
+                payload: payload.clone(),
+                // [MQTT-3.8.4-6]
+                qos: qos.min(granted),
+            };
+            if let Err(e) = bridge.send(message).await {
                 log::error!("receiver dropped: {}", e);
             }
         }
diff --git a/src/handler.rs b/src/handler.rs
index a05ceba..678a7d2 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,4 @@
-use std::time::Duration;
+use std::{collections::HashSet, time::Duration};
 
 use bytes::BytesMut;
 use log::{debug, error};
@@ -32,6 +32,33 @@ const MAX_UNSENT: usize = 16 * 1024 * 1024;
 /// How long to try to write what is left when the broker ends a connection
 const FLUSH_TIMEOUT: Duration = Duration::from_secs(1);
 
+/// Packet identifiers of the messages a client has not acknowledged yet
+#[derive(Default)]
+struct InFlight {
+    ids: HashSet<u16>,
+    last: u16,
+}
+
+impl InFlight {
+    fn is_full(&self) -> bool {
+        self.ids.len() == usize::from(u16::MAX)
+    }
+
+    /// An identifier that is not zero and not in use; there must be one left.
+    fn next_id(&mut self) -> u16 {
+        loop {
+            self.last = self.last.wrapping_add(1);
+            if self.last != 0 && self.ids.insert(self.last) {
+                return self.last;
+            }
+        }
+    }
+
+    fn release(&mut self, id: u16) {
+        self.ids.remove(&id);
+    }
+}
+
 /// Read up to the end of the next packet, which may arrive in any number of pieces.
 ///
 /// `incoming` holds the bytes read so far, so nothing is lost if the future is dropped.
@@ -111,6 +138,7 @@ where
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut incoming = BytesMut::new();
+    let mut in_flight = InFlight::default();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -253,15 +281,17 @@ where
                             outgoing.extend_from_slice(&resp);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
+                            let qos = packet.fixed.get_qos()?;
                             message_bridge
                             .send(Command::Publish {
                                 topic,
                                 payload,
+                                qos,
                             })
                             .await
                             .map_err(MqttError::ChannelError)?;
 
-                            let data = match packet.fixed.get_qos()? {
+                            let data = match qos {
                                 QosLevel::AtMost => None,
                                 QosLevel::AtLeast => {
                                     let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;
@@ -287,7 +317,7 @@ where
                             let resp = Packet::make_pubcomp(packet_id);
                             outgoing.extend_from_slice(&resp);
                         },
-                        VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
+                        VariableHeader::PubComp { packet_id, ..} | VariableHeader::PubAck { packet_id, .. } => in_flight.release(packet_id),
                         VariableHeader::PingReq => {
                             let resp = Packet::make_ping_resp();
                             outgoing.extend_from_slice(&resp);
@@ -311,10 +341,12 @@ where
                         }
                     }
             }
-            event = rx.recv(), if outgoing.len() < MAX_UNSENT_MESSAGES => {
+            event = rx.recv(), if outgoing.len() < MAX_UNSENT_MESSAGES && !in_flight.is_full() => {
                 if let Some(ev) = event {
                     match ev {
-                        ClientEvent::Message(msg) => {
+                        ClientEvent::Message { topic, payload, qos } => {
+                            let packet_id = (qos > QosLevel::AtMost).then(|| in_flight.next_id());
+                            let msg = Packet::make_publish(false, qos, false, topic, packet_id, payload);
                             outgoing.extend_from_slice(&msg);
                         },
                         ClientEvent::Disconnect => break 'ctrl,
diff --git a/src/main.rs b/src/main.rs
index 7325fdb..ec95ab9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,7 +73,11 @@ async fn main() -> Result<(), MqttError> {
                     callback,
                 } => context.subscribe(client, topics, callback),
 
-                Command::Publish { topic, payload } => context.publish(topic, payload).await,
+                Command::Publish {
+                    topic,
+                    payload,
+                    qos,
+                } => context.publish(topic, payload, qos).await,
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From f74749ff4fec67322ce99aa527181796995b2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 18/24] fix: forward a repeated QoS 2 PUBLISH only once

---
 src/handler.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 678a7d2..c6c98d7 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -139,6 +139,8 @@ where
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut incoming = BytesMut::new();
     let mut in_flight = InFlight::default();
+    // QoS 2 messages forwarded but not released yet: a repeated PUBLISH is not forwarded again
+    let mut unreleased = HashSet::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -282,14 +284,21 @@ where
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
                             let qos = packet.fixed.get_qos()?;
-                            message_bridge
-                            .send(Command::Publish {
-                                topic,
-                                payload,
-                                qos,
-                            })
-                            .await
-                            .map_err(MqttError::ChannelError)?;
+                            // [MQTT-4.3.3-2]
+                            let is_new = match packet_id {
+                                Some(id) if qos == QosLevel::Exactly => unreleased.insert(id),
+                                _ => true,
+                            };
+                            if is_new {
+                                message_bridge
+                                    .send(Command::Publish {
+                                        topic,
+                                        payload,
+                                        qos,
+                                    })
+                                    .await
+                                    .map_err(MqttError::ChannelError)?;
+                            }
 
                             let data = match qos {
                                 QosLevel::AtMost => None,
@@ -314,6 +323,7 @@ where
                             outgoing.extend_from_slice(&resp);
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
+                            unreleased.remove(&packet_id);
                             let resp = Packet::make_pubcomp(packet_id);
                             outgoing.extend_from_slice(&resp);
                         },
-- 
2.43.0


From f07f0edf75aafe366b4cc03eb787af9ddb4d13e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:14 +0000
Subject: [PATCH 19/24] fix: tie sessions to connections and subscriptions to
 sessions

A session's subscriptions stayed with the connection that made them: they
leaked when it ended, reached nobody after a reconnect, and were not dropped
by a clean session. An old connection's DISCONNECT ended the session that a
new connection had taken over.
---
 src/core/enums.rs   | 23 +++++++++--
 src/core/mod.rs     | 97 +++++++++++++++++++++++++++++++--------------
 src/core/session.rs | 20 ++++++++--
 src/handler.rs      | 50 ++++++++++++++---------
 src/main.rs         | 24 +++++++----
 5 files changed, 151 insertions(+), 63 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 3d11459..b1b6e0c 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -1,4 +1,5 @@
 use bytes::Bytes;
+use tokio_util::sync::CancellationToken;
 
 use crate::packets::enums::QosLevel;
 use crate::{error::MqttError, packets::enums::SubackReturnCode};
@@ -11,14 +12,17 @@ pub type Receiver<T> = tokio::sync::mpsc::Sender<T>;
 pub enum Command {
     RegisterClient {
         id: String,
+        connection: Connection,
         message_channel: Receiver<ClientEvent>,
         protocol: ProtocalVersion,
         clean_session: bool,
-        callback: Responder<Result<(), MqttError>>,
+        /// Tells whether a session was present
+        callback: Responder<Result<bool, MqttError>>,
     },
 
     Subscribe {
         client: String,
+        connection: usize,
         topics: Vec<(String, QosLevel)>,
         callback: Responder<Result<Vec<SubackReturnCode>, MqttError>>,
     },
@@ -31,12 +35,26 @@ pub enum Command {
     Unsubscribe {
         topics: Vec<String>,
         cid: String,
+        connection: usize,
         callback: Responder<Result<(), MqttError>>,
     },
-    DisconnectClient(String),
+    /// The connection has ended
+    DisconnectClient {
+        cid: String,
+        connection: usize,
+    },
     Exit,
 }
 
+/// A client's network connection
+#[derive(Debug)]
+pub struct Connection {
+    /// Tells the connections that use one client identifier apart
+    pub id: usize,
+    /// Closes the connection
+    pub cancellation: CancellationToken,
+}
+
 #[derive(Debug)]
 pub enum ClientEvent {
     Message {
@@ -44,7 +62,6 @@ pub enum ClientEvent {
         payload: Bytes,
         qos: QosLevel,
     },
-    Disconnect,
 }
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[repr(u8)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index f1e05b3..7489366 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -11,7 +11,7 @@ use crate::{
 };
 
 use self::{
-    enums::{ClientEvent, ProtocalVersion},
+    enums::{ClientEvent, Connection, ProtocalVersion},
     session::Session,
 };
 
@@ -36,12 +36,13 @@ impl App {
     pub fn subscribe(
         &mut self,
         cid: String,
+        connection: usize,
         topics: Vec<(String, QosLevel)>,
         callback: tokio::sync::oneshot::Sender<Result<Vec<SubackReturnCode>, MqttError>>,
     ) {
-        let (id, bridge) = match self.sessions.get(&cid) {
-            Some(session) => (session.id, session.bridge.clone()),
-            None => {
+        let session = match self.sessions.get_mut(&cid) {
+            Some(session) if session.connection.id == connection => session,
+            _ => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
                 }
@@ -51,10 +52,11 @@ impl App {
         let codes = topics
             .into_iter()
             .map(|(topic, qos)| {
-                let leaf = SubscriptionLeaf::new(qos, id, bridge.clone());
-                if self.subscriptions.insert(topic, leaf).is_err() {
+                let leaf = SubscriptionLeaf::new(qos, session.id, session.bridge.clone());
+                if self.subscriptions.insert(topic.clone(), leaf).is_err() {
                     return SubackReturnCode::Failure;
                 }
+                session.filters.insert(topic, qos);
                 match qos {
                     QosLevel::AtMost => SubackReturnCode::SuccessQosZero,
                     QosLevel::AtLeast => SubackReturnCode::SuccessQosOne,
@@ -72,12 +74,13 @@ impl App {
     pub fn unsubscribe(
         &mut self,
         cid: String,
+        connection: usize,
         topics: Vec<String>,
         callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
     ) {
-        let id = match self.sessions.get(&cid) {
-            Some(session) => session.id,
-            None => {
+        let session = match self.sessions.get_mut(&cid) {
+            Some(session) if session.connection.id == connection => session,
+            _ => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
                 }
@@ -86,7 +89,8 @@ impl App {
         };
 
         topics.into_iter().for_each(|topic| {
-            if self.subscriptions.delete(topic, id).is_err() {
+            session.filters.remove(&topic);
+            if self.subscriptions.delete(topic, session.id).is_err() {
                 error!("Failed to delete subscription from tree");
             }
         });
@@ -96,40 +100,73 @@ impl App {
         }
     }
 
-    pub async fn connect(
+    pub fn connect(
         &mut self,
         client_id: String,
+        connection: Connection,
         message_channel: Sender<ClientEvent>,
         _protocol: ProtocalVersion,
-        _clean_session: bool,
-        callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
+        clean_session: bool,
+        callback: tokio::sync::oneshot::Sender<Result<bool, MqttError>>,
     ) {
         debug!("New client connecting with id of '{}'", client_id);
-        if self.sessions.contains_key(&client_id) {
-            if let Some(current_client) = self.sessions.get(&client_id) {
-                if let Err(err) = current_client.bridge.send(ClientEvent::Disconnect).await {
-                    error!("{}", err);
-                }
-            }
+        let previous = self.sessions.remove(&client_id);
+        if let Some(session) = &previous {
+            // [MQTT-3.1.4-2] the client identifier belongs to the newest connection
+            session.connection.cancellation.cancel();
         }
 
-        if let Some(existing_client) = self.sessions.get_mut(&client_id) {
-            existing_client.bridge = message_channel;
-        } else {
-            self.sessions
-                .insert(client_id, Session::new(message_channel));
-        }
+        let mut session_present = false;
+        let session = match previous {
+            Some(mut session) if !clean_session && !session.clean => {
+                // The subscriptions continue, on the new connection.
+                for (topic, qos) in &session.filters {
+                    let leaf =
+                        SubscriptionLeaf::new(*qos, session.id, message_channel.clone());
+                    if self.subscriptions.insert(topic.clone(), leaf).is_err() {
+                        error!("Failed to move subscription to new connection");
+                    }
+                }
+                session.bridge = message_channel;
+                session.connection = connection;
+                session_present = true;
+                session
+            }
+            previous => {
+                if let Some(session) = previous {
+                    self.discard(session);
+                }
+                Session::new(message_channel, connection, clean_session)
+            }
+        };
+        self.sessions.insert(client_id, session);
 
-        if callback.send(Ok(())).is_err() {
+        if callback.send(Ok(session_present)).is_err() {
             log::error!("Client no longer exists");
         }
     }
 
-    pub fn disconnect(&mut self, cid: String) {
-        /*if let Some(client) = self.sessions.get(&cid) {
+    /// A connection has ended. Its session does too, unless it is a persistent one or a newer
+    /// connection has taken it over.
+    pub fn disconnect(&mut self, cid: String, connection: usize) {
+        let is_over = self
+            .sessions
+            .get(&cid)
+            .is_some_and(|session| session.clean && session.connection.id == connection);
+        if is_over {
+            if let Some(session) = self.sessions.remove(&cid) {
+                self.discard(session);
+            }
+        }
+    }
 
-        }*/
-        self.sessions.remove(&cid);
+    /// Remove the subscriptions of a session
+    fn discard(&mut self, session: Session) {
+        for topic in session.filters.into_keys() {
+            if self.subscriptions.delete(topic, session.id).is_err() {
+                error!("Failed to delete subscription from tree");
+            }
+        }
     }
 
     pub async fn publish(&self, topic: String, payload: Bytes, qos: QosLevel) {
diff --git a/src/core/session.rs b/src/core/session.rs
index cac0152..265fe39 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -1,17 +1,31 @@
+use std::collections::HashMap;
+
 use tokio::sync::mpsc::Sender;
 use uuid::Uuid;
 
-use super::enums::ClientEvent;
+use super::enums::{ClientEvent, Connection};
+use crate::packets::enums::QosLevel;
 
 pub struct Session {
     pub id: u128,
     pub bridge: Sender<ClientEvent>,
+    /// The connection that owns the session, or the last one that did
+    pub connection: Connection,
+    pub clean: bool,
+    /// The topic filters subscribed to
+    pub filters: HashMap<String, QosLevel>,
 }
 
 impl Session {
-    pub fn new(bridge: Sender<ClientEvent>) -> Self {
+    pub fn new(bridge: Sender<ClientEvent>, connection: Connection, clean: bool) -> Self {
         let id = Uuid::new_v4().as_u128();
 
-        Self { id, bridge }
+        Self {
+            id,
+            bridge,
+            connection,
+            clean,
+            filters: HashMap::new(),
+        }
     }
 }
diff --git a/src/handler.rs b/src/handler.rs
index c6c98d7..c35a886 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -13,7 +13,7 @@ use tokio_util::sync::CancellationToken;
 use crate::{
     core::{
         broker_info,
-        enums::{ClientEvent, Command, ProtocalVersion},
+        enums::{ClientEvent, Command, Connection, ProtocalVersion},
     },
     error::MqttError,
     packets::{
@@ -98,15 +98,30 @@ where
     R: AsyncRead + Unpin,
 {
     let mut outgoing = BytesMut::new();
+    let mut cid = None;
+    let connection = broker_info::get_task_id();
     let result = serve_client(
         reader,
         &mut writer,
         &mut outgoing,
-        message_bridge,
-        cancellation,
+        &mut cid,
+        connection,
+        &message_bridge,
+        cancellation.child_token(),
     )
     .await;
 
+    // However the connection has ended, its session has to know.
+    if let Some(cid) = cid {
+        if message_bridge
+            .send(Command::DisconnectClient { cid, connection })
+            .await
+            .is_err()
+        {
+            error!("Receiver dropped!");
+        }
+    }
+
     // The last answers, for a client that still takes them.
     let flush = writer.write_all_buf(&mut outgoing);
     if let Ok(Err(err)) = tokio::time::timeout(FLUSH_TIMEOUT, flush).await {
@@ -122,7 +137,9 @@ async fn serve_client<R, W>(
     mut reader: R,
     writer: &mut W,
     outgoing: &mut BytesMut,
-    message_bridge: Sender<Command>,
+    cid: &mut Option<String>,
+    connection: usize,
+    message_bridge: &Sender<Command>,
     cancellation: CancellationToken,
 ) -> Result<(), MqttError>
 where
@@ -135,7 +152,6 @@ where
     let mut keepalive_duration = Some(Duration::from_secs(60));
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
-    let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut incoming = BytesMut::new();
     let mut in_flight = InFlight::default();
@@ -208,12 +224,16 @@ where
 
                             protocol = protocol_version;
 
-                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
-                            cid = Some(client_id.clone());
+                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<bool, MqttError>>();
+                            *cid = Some(client_id.clone());
 
                             if message_bridge
                             .send(Command::RegisterClient {
                                 id: client_id,
+                                connection: Connection {
+                                    id: connection,
+                                    cancellation: cancellation.clone(),
+                                },
                                 message_channel: tx.clone(),
                                 protocol,
                                 clean_session: flags.clean_session(),
@@ -224,7 +244,7 @@ where
                                 break 'ctrl;
                           }
 
-                          r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          let session_present = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
                           // [MQTT-3.1.2-24] one and a half times the keep alive; zero turns it off
                           keepalive_duration = (keepalive > 0).then(|| Duration::from_millis(u64::from(keepalive) * 1500));
@@ -232,7 +252,7 @@ where
                               keepalive_timer.as_mut().reset(Instant::now() + duration);
                           }
 
-                          let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
+                          let resp = Packet::make_connack(ConnectReturnCode::Accepted,session_present);
 
                           outgoing.extend_from_slice(&resp);
                         },
@@ -244,6 +264,7 @@ where
                             if message_bridge
                             .send(Command::Subscribe {
                                 client: id.clone(),
+                                connection,
                                 topics: tuples,
                                 callback: r_tx,
                             })
@@ -268,6 +289,7 @@ where
                                 .send(Command::Unsubscribe {
                                     topics: tuples,
                                     cid: id.clone(),
+                                    connection,
                                     callback: r_tx,
                                 })
                                 .await
@@ -334,15 +356,6 @@ where
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
-                            if message_bridge
-                            .send(Command::DisconnectClient(id.clone()))
-                            .await
-                            .is_err()
-                            {
-                                error!("Receiver dropped!");
-                                break 'ctrl;
-                            }
                             break 'ctrl;
                         },
                         _ => {
@@ -359,7 +372,6 @@ where
                             let msg = Packet::make_publish(false, qos, false, topic, packet_id, payload);
                             outgoing.extend_from_slice(&msg);
                         },
-                        ClientEvent::Disconnect => break 'ctrl,
                     }
                 }
 
diff --git a/src/main.rs b/src/main.rs
index ec95ab9..dbbb086 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,20 +58,25 @@ async fn main() -> Result<(), MqttError> {
             match command {
                 Command::RegisterClient {
                     id,
+                    connection,
                     message_channel,
                     protocol,
                     clean_session,
                     callback,
-                } => {
-                    context
-                        .connect(id, message_channel, protocol, clean_session, callback)
-                        .await
-                }
+                } => context.connect(
+                    id,
+                    connection,
+                    message_channel,
+                    protocol,
+                    clean_session,
+                    callback,
+                ),
                 Command::Subscribe {
                     client,
+                    connection,
                     topics,
                     callback,
-                } => context.subscribe(client, topics, callback),
+                } => context.subscribe(client, connection, topics, callback),
 
                 Command::Publish {
                     topic,
@@ -81,9 +86,12 @@ async fn main() -> Result<(), MqttError> {
                 Command::Unsubscribe {
                     topics,
                     cid,
+                    connection,
                     callback,
-                } => context.unsubscribe(cid, topics, callback),
-                Command::DisconnectClient(cid) => context.disconnect(cid),
+                } => context.unsubscribe(cid, connection, topics, callback),
+                Command::DisconnectClient { cid, connection } => {
+                    context.disconnect(cid, connection)
+                }
                 Command::Exit => break,
             }
         }
-- 
2.43.0


From fe8dc76be151bfccc25653bc669828a93d53708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 20/24] fix: never wait for a slow client in the command loop

With a client's queue full the loop waited for it: nobody was served while
the client did not read, and for good if its handler was itself waiting for
the loop (SUBSCRIBE, UNSUBSCRIBE, or PUBLISH with a full command queue).
---
 src/core/mod.rs | 9 ++++++---
 src/handler.rs  | 4 +++-
 src/main.rs     | 2 +-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 7489366..976ad7e 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -169,7 +169,10 @@ impl App {
         }
     }
 
-    pub async fn publish(&self, topic: String, payload: Bytes, qos: QosLevel) {
+    /// Hand a message to the clients subscribed to its topic. This never waits for a client: the
+    /// command loop serves all of them, and one that does not read would stop it. A message for a
+    /// client whose queue is full is dropped.
+    pub fn publish(&self, topic: String, payload: Bytes, qos: QosLevel) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -184,8 +187,8 @@ impl App {
                 // [MQTT-3.8.4-6]
                 qos: qos.min(granted),
             };
-            if let Err(e) = bridge.send(message).await {
-                log::error!("receiver dropped: {}", e);
+            if let Err(e) = bridge.try_send(message) {
+                log::error!("message dropped: {}", e);
             }
         }
     }
diff --git a/src/handler.rs b/src/handler.rs
index c35a886..22e17ed 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -25,6 +25,8 @@ use crate::{
 /// How many bytes to make room for before reading from a client
 const READ_SIZE: usize = 8 * 1024;
 
+/// Most messages that wait for a client; more are dropped
+const MAX_QUEUED_MESSAGES: usize = 100_000;
 /// Stop taking messages for a client while this many bytes wait to be written to it
 const MAX_UNSENT_MESSAGES: usize = 64 * 1024;
 /// Stop reading from a client while this many bytes wait to be written to it
@@ -157,7 +159,7 @@ where
     let mut in_flight = InFlight::default();
     // QoS 2 messages forwarded but not released yet: a repeated PUBLISH is not forwarded again
     let mut unreleased = HashSet::new();
-    let (tx, mut rx) = channel::<ClientEvent>(100);
+    let (tx, mut rx) = channel::<ClientEvent>(MAX_QUEUED_MESSAGES);
 
     tokio::pin!(keepalive_timer);
 
diff --git a/src/main.rs b/src/main.rs
index dbbb086..e8bb2a4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -82,7 +82,7 @@ async fn main() -> Result<(), MqttError> {
                     topic,
                     payload,
                     qos,
-                } => context.publish(topic, payload, qos).await,
+                } => context.publish(topic, payload, qos),
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From acb2b7fd3e05b857f875c45bbe70adbeec0be82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 21/24] fix: count connections that end in an error, and
 received data as received

---
 src/handler.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 22e17ed..1f9392e 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -77,7 +77,7 @@ where
         if let Some(size) = Packet::size(incoming)? {
             if incoming.len() >= size {
                 let (packet, packet_size) = Packet::unpack(&incoming.split_to(size), protocol)?;
-                broker_info::sent_data(packet_size);
+                broker_info::received_data(packet_size);
                 return Ok(Some(packet));
             }
         }
@@ -99,6 +99,8 @@ where
     W: AsyncWrite + Unpin,
     R: AsyncRead + Unpin,
 {
+    broker_info::client_inc();
+
     let mut outgoing = BytesMut::new();
     let mut cid = None;
     let connection = broker_info::get_task_id();
@@ -112,6 +114,7 @@ where
         cancellation.child_token(),
     )
     .await;
+    broker_info::client_dec();
 
     // However the connection has ended, its session has to know.
     if let Some(cid) = cid {
@@ -148,8 +151,6 @@ where
     W: AsyncWrite + Unpin,
     R: AsyncRead + Unpin,
 {
-    broker_info::client_inc();
-
     // How long the client may stay silent; a connection has a minute for its CONNECT.
     let mut keepalive_duration = Some(Duration::from_secs(60));
     let mut has_connected = false;
@@ -381,8 +382,6 @@ where
         }
     }
 
-    broker_info::client_dec();
-
     debug!("Client: disconnect");
 
     Ok(())
-- 
2.43.0


From 3b98a7de0f148c55c61681baaf484280537a3571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 22/24] hook: let the broker run under Miri (cfg(miri))

Miri cannot install a signal handler, so under cfg(miri) the broker waits for
a stop signal forever.
---
 src/main.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index e8bb2a4..5a6633e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -31,6 +31,18 @@ use tokio_util::sync::CancellationToken;
 // https://towardsdev.com/bitwise-operation-and-tricks-in-rust-5aea318c99b7
 // https://c-for-dummies.com/blog/?p=1848
 
+/// Resolves when the broker is to stop
+#[cfg(not(miri))]
+async fn stop_signal() {
+    let _ = tokio::signal::ctrl_c().await;
+}
+
+/// Miri cannot install signal handlers
+#[cfg(miri)]
+async fn stop_signal() {
+    std::future::pending().await
+}
+
 #[tokio::main(flavor = "multi_thread", worker_threads = 10)]
 async fn main() -> Result<(), MqttError> {
     env_logger::Builder::new()
@@ -115,7 +127,7 @@ async fn main() -> Result<(), MqttError> {
                     });
                 }
             }
-            _ = tokio::signal::ctrl_c() => {
+            _ = stop_signal() => {
                 break;
             }
         }
-- 
2.43.0


From ab86d30b99ad5a0a60fd9158d26558b4e7ee62f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:29 +0000
Subject: [PATCH 23/24] fix: do not lose a SIGINT between two connections

The accept loop waited for the signal with a future it made anew for every
connection (and every failed accept), so a signal that arrived before the
new one was polled went unnoticed and the broker kept running.
---
 src/main.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5a6633e..58cb049 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -111,8 +111,17 @@ async fn main() -> Result<(), MqttError> {
         debug!("Exiting Command loop");
     });
 
+    // One future for the whole loop: one that is made anew for every connection misses the signals
+    // that arrive in between.
+    let stop = stop_signal();
+    tokio::pin!(stop);
+
     loop {
         select! {
+            biased;
+            _ = &mut stop => {
+                break;
+            }
             res = listener.accept() => {
                 if let Ok((stream,addr)) = res {
                     log::debug!("Connection Start: {:?}",addr);
@@ -127,9 +136,6 @@ async fn main() -> Result<(), MqttError> {
                     });
                 }
             }
-            _ = stop_signal() => {
-                break;
-            }
         }
     }
 
-- 
2.43.0


From 38150696a67ee61afbe2c7d4daf8cc6034a772ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:29 +0000
Subject: [PATCH 24/24] fix: a command sent while the broker stopped was left
 unanswered, and the broker hung

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 58cb049..6664292 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,7 +104,9 @@ async fn main() -> Result<(), MqttError> {
                 Command::DisconnectClient { cid, connection } => {
                     context.disconnect(cid, connection)
                 }
-                Command::Exit => break,
+                // Commands that are being sent at this moment are still taken: one that was left
+                // behind would keep its client waiting for the answer for ever.
+                Command::Exit => rx.close(),
             }
         }
 
@@ -143,6 +145,8 @@ async fn main() -> Result<(), MqttError> {
     if tx.send(Command::Exit).await.is_err() {
         log::error!("Failed to exit message loop");
     }
+    // It ends when no sender is left, if it does not before.
+    drop(tx);
     token.cancel();
     tracker.close();
 
-- 
2.43.0

