From bc461ae3082847d6dc594ddd9306370d3af91a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:37 +0000
Subject: [PATCH 01/55] fix: store SET with a huge ttl panics on instant
 overflow

---
 src/brokers/store/domain/map.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/brokers/store/domain/map.rs b/src/brokers/store/domain/map.rs
index 353d9dc..492aa6f 100644
--- a/src/brokers/store/domain/map.rs
+++ b/src/brokers/store/domain/map.rs
@@ -55,12 +55,12 @@ impl MapStore {
     }
 
     pub fn set(&self, key: String, value: Bytes, ttl: Option<u64>) {
-        let expires_at = match ttl {
-            Some(0) | None => {
-                Some(Instant::now() + Duration::from_secs(self.config.default_ttl_secs))
-            }
-            Some(secs) => Some(Instant::now() + Duration::from_secs(secs)),
+        let secs = match ttl {
+            Some(0) | None => self.config.default_ttl_secs,
+            Some(secs) => secs,
         };
+        // A lifetime beyond the end of the clock never expires
+        let expires_at = Instant::now().checked_add(Duration::from_secs(secs));
 
         self.inner.insert(key, Entry {
             value: MapValue(value),
-- 
2.43.0


From 9d95380ae9d37eabc24bbc70d4f67f5a5be535c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:30 +0000
Subject: [PATCH 02/55] fix: pubsub registry and routing tree diverge under
 concurrent subscribe/unsubscribe/disconnect

---
 src/brokers/pub-sub/manager.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 5548465..1651dbe 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -120,12 +120,13 @@ impl PubSubManager {
     }
 
     pub fn subscribe(&self, client_id: &ClientId, pattern: &str) {
-        let sender = if let Some(mut info) = self.clients.get_mut(client_id) {
-            info.subscriptions.insert(pattern.to_string());
-            info.sender.clone()
-        } else {
+        // The registry entry stays locked until the tree is updated, so that a concurrent
+        // unsubscribe/disconnect of the same client cannot interleave (lock order: clients -> tree)
+        let Some(mut info) = self.clients.get_mut(client_id) else {
             return;
         };
+        info.subscriptions.insert(pattern.to_string());
+        let sender = info.sender.clone();
 
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
         let mut root = self.tree.write();
@@ -142,7 +143,8 @@ impl PubSubManager {
     }
 
     pub fn unsubscribe(&self, client_id: &ClientId, pattern: &str) {
-        if let Some(mut info) = self.clients.get_mut(client_id) {
+        let mut info = self.clients.get_mut(client_id);
+        if let Some(info) = info.as_mut() {
             info.subscriptions.remove(pattern);
         }
         let parts: Vec<String> = pattern.split('/').map(|s| s.to_string()).collect();
-- 
2.43.0


From d3152f98fcbfeba544d6ff1ded16e33d0ca666df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:30 +0000
Subject: [PATCH 03/55] fix: pubsub delivers a retained publish twice to a
 client subscribing at that moment

---
 src/brokers/pub-sub/manager.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 1651dbe..920ce47 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -156,6 +156,7 @@ impl PubSubManager {
         let parts: Vec<String> = topic.split('/').map(|s| s.to_string()).collect();
         if parts.is_empty() { return 0; }
 
+        let mut matched = Vec::new();
         if retain {
             let mut root = self.tree.write();
             if data.is_empty() {
@@ -165,10 +166,10 @@ impl PubSubManager {
                 root.set_retained(&parts, Some(RetainedMessage::new(data.clone(), Some(effective_ttl))));
             }
             self.retained_dirty.store(true, Ordering::Relaxed);
-        }
-
-        let mut matched = Vec::new();
-        {
+            // Same lock as the retained update: a client subscribing meanwhile gets
+            // the message either as retained value or live, not both
+            root.match_subscribers(&parts, &mut matched);
+        } else {
             let root = self.tree.read();
             root.match_subscribers(&parts, &mut matched);
         }
-- 
2.43.0


From 1726b2ca9a41c335baf29e763644a9f0303e7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:30 +0000
Subject: [PATCH 04/55] fix: pubsub retained message that expired while the
 server was down is resurrected forever

---
 src/brokers/pub-sub/domain/retained.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 0a1a683..0595afa 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -35,7 +35,8 @@ impl RetainedMessage {
                 let remaining = unix_ts - now_unix;
                 Some(Instant::now() + std::time::Duration::from_secs(remaining))
             } else {
-                None
+                // Expired while the server was down
+                Some(Instant::now())
             }
         });
         Self { data, expires_at, expires_at_unix }
-- 
2.43.0


From 88b2596b6ec2c70cd2914a096dadee4526e93524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:30 +0000
Subject: [PATCH 05/55] fix: pubsub retained publish with a huge ttl panics on
 overflow

---
 src/brokers/pub-sub/domain/retained.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/brokers/pub-sub/domain/retained.rs b/src/brokers/pub-sub/domain/retained.rs
index 0595afa..700d41d 100644
--- a/src/brokers/pub-sub/domain/retained.rs
+++ b/src/brokers/pub-sub/domain/retained.rs
@@ -14,12 +14,13 @@ pub(crate) struct RetainedMessage {
 
 impl RetainedMessage {
     pub(crate) fn new(data: Bytes, ttl_seconds: Option<u64>) -> Self {
-        let expires_at = ttl_seconds.map(|secs| Instant::now() + std::time::Duration::from_secs(secs));
+        let expires_at = ttl_seconds.and_then(|secs| Instant::now().checked_add(std::time::Duration::from_secs(secs)));
         let expires_at_unix = ttl_seconds.map(|secs| {
             SystemTime::now()
                 .duration_since(UNIX_EPOCH)
                 .unwrap()
-                .as_secs() + secs
+                .as_secs()
+                .saturating_add(secs)
         });
         Self { data, expires_at, expires_at_unix }
     }
@@ -33,7 +34,7 @@ impl RetainedMessage {
             let now_unix = SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs();
             if unix_ts > now_unix {
                 let remaining = unix_ts - now_unix;
-                Some(Instant::now() + std::time::Duration::from_secs(remaining))
+                Instant::now().checked_add(std::time::Duration::from_secs(remaining))
             } else {
                 // Expired while the server was down
                 Some(Instant::now())
-- 
2.43.0


From 42b5b94387ea2608590d51743fa8947040d27806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 06/55] fix: pubsub retained topics with a leading slash lose
 it and collide, failing every flush

---
 src/brokers/pub-sub/domain/radix_tree.rs | 53 ++++++++++++++----------
 src/brokers/pub-sub/manager.rs           |  7 ++--
 2 files changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 8fcc38f..2620518 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -23,6 +23,15 @@ pub(crate) struct Node {
     pub(crate) retained: Option<RetainedMessage>,
 }
 
+/// Path of a child segment; `None` is the root, which is not a segment itself
+/// (a topic may well start with an empty one, as in "/a")
+fn join_path(base: Option<&str>, segment: &str) -> String {
+    match base {
+        Some(base) => format!("{}/{}", base, segment),
+        None => segment.to_string(),
+    }
+}
+
 impl Node {
     pub(crate) fn new() -> Self {
         Self {
@@ -141,11 +150,11 @@ impl Node {
         current.retained = retained;
     }
 
-    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_retained_for_pattern(&self, pattern: &[String], current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if pattern.is_empty() {
             if let Some(retained) = &self.retained {
                 if !retained.is_expired() {
-                    results.push((current_path.to_string(), retained.data.clone()));
+                    results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
                 }
             }
             return;
@@ -156,40 +165,40 @@ impl Node {
 
         if head == "+" {
             for (key, child) in &self.children {
-                let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = join_path(current_path, key);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         } else if head == "#" {
             self.collect_all_retained_for_subscribe(current_path, results);
         } else {
             if let Some(child) = self.children.get(head) {
-                let next_path = if current_path.is_empty() { head.clone() } else { format!("{}/{}", current_path, head) };
-                child.collect_retained_for_pattern(tail, &next_path, results);
+                let next_path = join_path(current_path, head);
+                child.collect_retained_for_pattern(tail, Some(&next_path), results);
             }
         }
     }
 
-    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: &str, results: &mut Vec<(String, Bytes)>) {
+    pub(crate) fn collect_all_retained_for_subscribe(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone()));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone()));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained_for_subscribe(&next_path, results);
+            let next_path = join_path(current_path, key);
+            child.collect_all_retained_for_subscribe(Some(&next_path), results);
         }
     }
 
-    pub(crate) fn collect_all_retained(&self, current_path: &str, results: &mut Vec<(String, Bytes, Option<i64>)>) {
+    pub(crate) fn collect_all_retained(&self, current_path: Option<&str>, results: &mut Vec<(String, Bytes, Option<i64>)>) {
         if let Some(retained) = &self.retained {
             if !retained.is_expired() {
-                results.push((current_path.to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
+                results.push((current_path.unwrap_or_default().to_string(), retained.data.clone(), retained.expires_at_unix.map(|v| v as i64)));
             }
         }
         for (key, child) in &self.children {
-            let next_path = if current_path.is_empty() { key.clone() } else { format!("{}/{}", current_path, key) };
-            child.collect_all_retained(&next_path, results);
+            let next_path = join_path(current_path, key);
+            child.collect_all_retained(Some(&next_path), results);
         }
     }
 
@@ -224,8 +233,8 @@ impl Node {
         cleaned
     }
 
-    pub(crate) fn collect_filtered_topics(&self, base_path: &str, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
-        if !base_path.is_empty() {
+    pub(crate) fn collect_filtered_topics(&self, base_path: Option<&str>, search: Option<&str>, topics: &mut Vec<TopicSnapshot>) {
+        if let Some(base_path) = base_path {
             let matches = search.map_or(true, |s| base_path.contains(s));
             if matches && (!self.subscribers.is_empty() || self.retained.is_some()) {
                 topics.push(TopicSnapshot {
@@ -239,18 +248,18 @@ impl Node {
         }
 
         for (child_name, child_node) in &self.children {
-            let full_path = if base_path.is_empty() { child_name.clone() } else { format!("{}/{}", base_path, child_name) };
-            child_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, child_name);
+            child_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
 
         if let Some(plus_node) = &self.plus_child {
-            let full_path = if base_path.is_empty() { "+".to_string() } else { format!("{}/+", base_path) };
-            plus_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, "+");
+            plus_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
 
         if let Some(hash_node) = &self.hash_child {
-            let full_path = if base_path.is_empty() { "#".to_string() } else { format!("{}/#", base_path) };
-            hash_node.collect_filtered_topics(&full_path, search, topics);
+            let full_path = join_path(base_path, "#");
+            hash_node.collect_filtered_topics(Some(&full_path), search, topics);
         }
     }
 }
diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 920ce47..aefd170 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -62,7 +62,7 @@ impl PubSubManager {
                     let entries = {
                         let root = flush_tree.read();
                         let mut results = Vec::new();
-                        root.collect_all_retained("", &mut results);
+                        root.collect_all_retained(None, &mut results);
                         results
                     };
 
@@ -133,10 +133,9 @@ impl PubSubManager {
         root.insert_subscriber(&parts, client_id);
 
         let mut retained = Vec::new();
-        root.collect_retained_for_pattern(&parts, "", &mut retained);
+        root.collect_retained_for_pattern(&parts, None, &mut retained);
 
         for (p, b) in retained {
-            let p = if p.starts_with('/') { p[1..].to_string() } else { p };
             let msg = Arc::new(PubSubMessage::new(p, b));
             let _ = sender.send(msg);
         }
@@ -204,7 +203,7 @@ impl PubSubManager {
         let mut all_topics = Vec::new();
         {
             let root = self.tree.read();
-            root.collect_filtered_topics("", search, &mut all_topics);
+            root.collect_filtered_topics(None, search, &mut all_topics);
         }
 
         all_topics.sort_by(|a, b| a.full_path.cmp(&b.full_path));
-- 
2.43.0


From 3ae4257bc87d58b87e123e19d39ab710efe2e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:49 +0000
Subject: [PATCH 07/55] fix: pubsub retained changes are never persisted after
 a failed flush

---
 src/brokers/pub-sub/manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index aefd170..0f7f37d 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -68,6 +68,8 @@ impl PubSubManager {
 
                     if let Err(e) = persistence::flush(&mut conn, &entries) {
                         tracing::error!("Failed to flush retained messages to SQLite: {}", e);
+                        // Nothing was written: try again on the next tick
+                        flush_dirty.store(true, Ordering::Relaxed);
                     }
                 }
             }
-- 
2.43.0


From 0151c645d8775f556e282f7d59a67c0acfc2ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 08/55] fix: queue operations reach the store in a different
 order than they took effect

---
 src/brokers/queue/manager.rs | 39 ++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 7b923af..5957e8f 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -165,7 +165,8 @@ impl QueueManager {
                     let shared = entry.value().clone();
                     let now = current_time_ms();
 
-                    let (requeued, dlq_msgs) = {
+                    // The lock is kept until the store has the ops (same order as the changes)
+                    let (requeued, dlq_msgs, _inner) = {
                         let mut inner = Self::lock(&shared.inner);
                         
                         // Check if processing is needed
@@ -181,7 +182,7 @@ impl QueueManager {
                             inner.dlq.push((*dlq_msg).clone());
                         }
 
-                        (requeued, dlq_msgs)
+                        (requeued, dlq_msgs, inner)
                     };
 
                     if requeued.is_empty() && dlq_msgs.is_empty() {
@@ -285,9 +286,9 @@ impl QueueManager {
         {
             let mut inner = Self::lock(&shared.inner);
             inner.state.push(msg.clone());
+            shared.store.execute(StorageOp::Insert(msg));
         }
 
-        shared.store.execute(StorageOp::Insert(msg));
         shared.notify.notify_waiters();
 
         Ok(())
@@ -296,11 +297,9 @@ impl QueueManager {
     pub async fn pop(&self, queue_name: &str) -> Option<Message> {
         let shared = self.get_queue(queue_name)?;
 
-        let (msg_opt, _) = {
-            let mut inner = Self::lock(&shared.inner);
-            let vt = inner.config.visibility_timeout_ms;
-            inner.state.pop(vt)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let vt = inner.config.visibility_timeout_ms;
+        let (msg_opt, _) = inner.state.pop(vt);
 
         if let Some(msg) = &msg_opt {
             shared.store.execute(StorageOp::UpdateState {
@@ -319,10 +318,8 @@ impl QueueManager {
             None => return false,
         };
 
-        let result = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.state.ack(id)
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let result = inner.state.ack(id);
 
         if result {
             shared.store.execute(StorageOp::Delete(id));
@@ -337,7 +334,7 @@ impl QueueManager {
             None => return false,
         };
 
-        let (requeued, dlq_msg) = {
+        let (requeued, dlq_msg, _inner) = {
             let mut inner = Self::lock(&shared.inner);
             let max_retries = inner.config.max_retries;
             let (requeued, dlq_msg) = inner.state.nack(id, reason, max_retries);
@@ -346,7 +343,7 @@ impl QueueManager {
                 inner.dlq.push(dlq_message.clone());
             }
 
-            (requeued, dlq_msg)
+            (requeued, dlq_msg, inner)
         };
 
         if let Some(msg) = requeued {
@@ -382,10 +379,10 @@ impl QueueManager {
             let mut inner = Self::lock(&shared.inner);
             let vt = inner.config.visibility_timeout_ms;
             let (msgs, _) = inner.state.take_batch(max_val, vt);
+            self.persist_batch_state(&shared, &msgs);
             msgs
         };
         if !msgs.is_empty() {
-            self.persist_batch_state(&shared, &msgs);
             return Ok(msgs);
         }
 
@@ -405,10 +402,10 @@ impl QueueManager {
                 let mut inner = Self::lock(&shared.inner);
                 let vt = inner.config.visibility_timeout_ms;
                 let (msgs, _) = inner.state.take_batch(max_val, vt);
+                self.persist_batch_state(&shared, &msgs);
                 msgs
             };
             if !msgs.is_empty() {
-                self.persist_batch_state(&shared, &msgs);
                 return Ok(msgs);
             }
 
@@ -468,8 +465,8 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
+        let mut inner = Self::lock(&shared.inner);
         let new_msg = {
-            let mut inner = Self::lock(&shared.inner);
             if let Some(dlq_msg) = inner.dlq.remove(&message_id) {
                 let new_msg = dlq_msg.clone().to_message();
                 inner.state.push(new_msg.clone());
@@ -496,10 +493,8 @@ impl QueueManager {
         let shared = self.get_queue(queue_name)
             .ok_or_else(|| format!("Queue '{}' not found", queue_name))?;
 
-        let removed = {
-            let mut inner = Self::lock(&shared.inner);
-            inner.dlq.remove(&message_id).is_some()
-        };
+        let mut inner = Self::lock(&shared.inner);
+        let removed = inner.dlq.remove(&message_id).is_some();
 
         if removed {
             shared.store.execute(StorageOp::DeleteDLQ(message_id));
@@ -517,10 +512,10 @@ impl QueueManager {
             let mut inner = Self::lock(&shared.inner);
             let count = inner.dlq.len();
             inner.dlq.clear();
+            shared.store.execute(StorageOp::PurgeDLQ);
             count
         };
 
-        shared.store.execute(StorageOp::PurgeDLQ);
         Ok(count)
     }
 }
-- 
2.43.0


From 0776f2ef521ab693755e580eeb48c74da70ba7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 09/55] fix: queue whose name ends in .db is restored under
 another name

---
 src/brokers/queue/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 5957e8f..18c381d 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -74,7 +74,7 @@ impl QueueManager {
                     if path.is_file() {
                         if let Some(filename) = path.file_name().and_then(|n| n.to_str()) {
                             if filename.ends_with(".db") && !filename.ends_with(".db-wal") && !filename.ends_with(".db-shm") {
-                                let queue_name = filename.trim_end_matches(".db").to_string();
+                                let queue_name = filename.strip_suffix(".db").unwrap_or(filename).to_string();
 
                                 let config_path = persistence_path.join(format!("{}.config.json", queue_name));
                                 let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
-- 
2.43.0


From 2db1397191f95f62cc5b562aa5ddb8a61598e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 10/55] fix: queue consume with a huge batch size aborts the
 process

---
 src/brokers/queue/domain/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/queue/domain/queue.rs b/src/brokers/queue/domain/queue.rs
index 02284ef..a58f25e 100644
--- a/src/brokers/queue/domain/queue.rs
+++ b/src/brokers/queue/domain/queue.rs
@@ -139,7 +139,7 @@ impl QueueState {
 
     /// Take up to `max` messages for batch consumption.
     pub fn take_batch(&mut self, max: usize, visibility_timeout_ms: u64) -> (Vec<Message>, bool) {
-        let mut result = Vec::with_capacity(max);
+        let mut result = Vec::with_capacity(max.min(self.registry.len()));
         let mut any_earliest = false;
 
         while result.len() < max {
-- 
2.43.0


From f01c868cd8fe38a2e3d7a40b37d3f496b2c83560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 11/55] fix: queue pop with a huge visibility timeout panics on
 overflow

---
 src/brokers/queue/domain/queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/queue/domain/queue.rs b/src/brokers/queue/domain/queue.rs
index a58f25e..1d416d7 100644
--- a/src/brokers/queue/domain/queue.rs
+++ b/src/brokers/queue/domain/queue.rs
@@ -392,7 +392,7 @@ impl QueueState {
             None => return (None, false),
         };
 
-        let timeout = now + visibility_timeout_ms;
+        let timeout = now.saturating_add(visibility_timeout_ms);
         self.transition_to(next_id, MessageState::InFlight(timeout));
 
         // Update message fields
-- 
2.43.0


From 212905c7708c140308611b51aadc590e334fbc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 12/55] fix: queue message whose last attempt timed out while
 the server was down is redelivered instead of dead-lettered

---
 src/brokers/queue/domain/persistence.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 700342a..c5453c0 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -7,7 +7,7 @@ use rusqlite::{params, types::Type, Connection, Result};
 use tracing::{error, info};
 use uuid::Uuid;
 
-use crate::brokers::queue::domain::queue::{Message, MessageState, current_time_ms};
+use crate::brokers::queue::domain::queue::{Message, MessageState};
 use crate::brokers::queue::domain::dlq::DlqMessage;
 
 // ==========================================
@@ -286,10 +286,9 @@ fn load_all_messages(conn: &Connection) -> Result<Vec<Message>> {
         let attempts: u32 = row.get(4)?;
         let created_at = row.get::<_, i64>(5)? as u64;
  
-         let now = current_time_ms();
-         
-         // Reconstruct State
-         let state = if visible_at > now && attempts > 0 {
+         // Reconstruct State (a timeout that has passed meanwhile is processed
+         // like any other: requeue, or DLQ when no attempts are left)
+         let state = if visible_at > 0 && attempts > 0 {
              MessageState::InFlight(visible_at)
          } else {
              MessageState::Ready
-- 
2.43.0


From bb5ad84517451610b2db35d9c689caa9b7b8814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:23 +0000
Subject: [PATCH 13/55] fix: queue batch that fails to be stored is lost

---
 src/brokers/queue/domain/persistence.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index c5453c0..10b080d 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -207,14 +207,17 @@ fn flush_batch(conn: &mut Connection, batch: &mut Vec<StorageOp>) {
         }
     };
 
+    // A failed batch is rolled back and kept: the next flush tries again
     for op in batch.iter() {
         if let Err(e) = exec_op(&tx, op) {
             error!("Failed to exec op {:?}: {}", op, e);
+            return;
         }
     }
 
     if let Err(e) = tx.commit() {
         error!("Failed to commit batch: {}", e);
+        return;
     }
     
     batch.clear();
-- 
2.43.0


From c563e259b5d5bb51d72a2075ba1e173d647b3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:55 +0000
Subject: [PATCH 14/55] fix: queue creation during its deletion revives old
 messages or loses its files

---
 src/brokers/queue/manager.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 18c381d..b0d5160 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -46,6 +46,8 @@ pub struct QueueManager {
     queues: Arc<DashMap<String, Arc<QueueShared>>>,
     config: Arc<SystemQueueConfig>,
     cancel: CancellationToken,
+    /// Creation and deletion exclude each other (both work on the queue's files)
+    lifecycle: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl QueueManager {
@@ -63,6 +65,7 @@ impl QueueManager {
             queues: queues.clone(),
             config: system_config.clone(),
             cancel: cancel.clone(),
+            lifecycle: Arc::new(tokio::sync::Mutex::new(())),
         };
 
         // WARM START: Discover and restore queues from filesystem
@@ -239,6 +242,7 @@ impl QueueManager {
     pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
         use dashmap::mapref::entry::Entry;
 
+        let _lifecycle = self.lifecycle.lock().await;
         match self.queues.entry(name.clone()) {
             Entry::Occupied(_) => Ok(()),
             Entry::Vacant(v) => {
@@ -259,6 +263,15 @@ impl QueueManager {
     }
 
     pub async fn delete_queue(&self, name: String) -> Result<(), String> {
+        // A deletion that was started is completed even if the caller goes away
+        let manager = self.clone();
+        tokio::spawn(async move { manager.delete_queue_inner(name).await })
+            .await
+            .unwrap_or_else(|e| Err(e.to_string()))
+    }
+
+    async fn delete_queue_inner(&self, name: String) -> Result<(), String> {
+        let _lifecycle = self.lifecycle.lock().await;
         if let Some((_, shared)) = self.queues.remove(&name) {
             shared.store.shutdown().await;
         }
-- 
2.43.0


From 4f721e3eae59d1fadc41dc845af4e1c1341d9ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:41 +0000
Subject: [PATCH 15/55] fix: restore stream topics from the directory they are
 in, not the one they were created in

---
 src/brokers/stream/manager.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index be786fc..bf7012e 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -434,11 +434,14 @@ impl StreamManager {
 
     async fn load_topic_config(base_path: &PathBuf, options: StreamCreateOptions, config: &SystemStreamConfig) -> TopicConfig {
         let config_path = base_path.join("config.json");
-        if let Ok(data) = tokio::fs::read_to_string(&config_path).await {
+        let mut topic_config = if let Ok(data) = tokio::fs::read_to_string(&config_path).await {
             serde_json::from_str(&data).unwrap_or_else(|_| TopicConfig::from_options(options, config))
         } else {
             TopicConfig::from_options(options, config)
-        }
+        };
+        // The data may have been moved since the topic was created.
+        topic_config.persistence_path = config.persistence_path.clone();
+        topic_config
     }
 
     async fn bootstrap_from_disk(&self) {
-- 
2.43.0


From a7985b4b30d577fc3f62cf586e6e8bb5104e4068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:25 +0000
Subject: [PATCH 16/55] fix: store stream messages in the order they were
 numbered

---
 src/brokers/stream/manager.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index bf7012e..88867e6 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -154,21 +154,23 @@ impl StreamManager {
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let persisted_seq = topic_ref.persisted_seq.clone();
 
-        let (seq, timestamp) = {
+        let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
-            inner.state.append(payload.clone())
+            let (seq, timestamp) = inner.state.append(payload.clone());
+
+            // Queued under the lock: storage must see the messages in log order.
+            let _ = self.storage_tx.send(StorageCommand::Append {
+                topic_name: topic.to_string(),
+                messages: vec![MessageToAppend {
+                    seq,
+                    timestamp,
+                    payload,
+                }],
+                persisted_seq,
+            });
+            seq
         };
 
-        let _ = self.storage_tx.send(StorageCommand::Append {
-            topic_name: topic.to_string(),
-            messages: vec![MessageToAppend {
-                seq,
-                timestamp,
-                payload,
-            }],
-            persisted_seq,
-        });
-
         topic_ref.notify.notify_waiters();
         Ok(seq)
     }
-- 
2.43.0


From 4c0cf1e6771852d5494a067360a8035f71b08beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:54 +0000
Subject: [PATCH 17/55] fix: cut torn records off a stream log at recovery and
 continue after the last intact one

---
 src/brokers/stream/domain/persistence.rs | 54 ++++++++++++++++++++----
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index b932816..731d647 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -449,10 +449,24 @@ pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredSta
     let mut state = RecoveredState::default();
     if !base_path.exists() { return state; }
 
-    if let Ok(segments) = find_segments(&base_path).await {
+    if let Ok(mut segments) = find_segments(&base_path).await {
         state.head_seq = segments.first().map(|seg| seg.start_seq).unwrap_or(1);
-        if let Some(last_segment) = segments.last() {
-            state.messages = load_segment_file(&last_segment.path).await;
+        while let Some(last_segment) = segments.last() {
+            let (messages, valid_len) = load_segment_file(&last_segment.path).await;
+            // A crash can leave a torn record behind: new records must not follow it.
+            if let Some(valid_len) = valid_len {
+                if let Err(e) = truncate_segment(&last_segment.path, valid_len).await {
+                    error!("Failed to truncate torn segment {:?}: {}", last_segment.path, e);
+                }
+            }
+            if valid_len == Some(0) && segments.len() > 1 {
+                // Nothing was written to it: the log ends in the segment before.
+                let _ = tokio::fs::remove_file(&last_segment.path).await;
+                segments.pop();
+                continue;
+            }
+            state.messages = messages;
+            break;
         }
         state.segments = segments;
     }
@@ -528,26 +542,47 @@ async fn write_group_entry<W: tokio::io::AsyncWrite + std::marker::Unpin>(writer
     Ok(())
 }
 
-async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
+/// Cut a segment file down to its intact records.
+async fn truncate_segment(path: &Path, valid_len: u64) -> std::io::Result<()> {
+    if tokio::fs::metadata(path).await?.len() > valid_len {
+        warn!("Segment {:?} ends in a torn record, truncating to {} bytes", path, valid_len);
+        OpenOptions::new().write(true).open(path).await?.set_len(valid_len).await?;
+    }
+    Ok(())
+}
+
+/// Load the intact records of a segment file, and how many bytes they take
+/// (`None` if the file could not be read to its end).
+async fn load_segment_file(path: &PathBuf) -> (VecDeque<Message>, Option<u64>) {
     use bytes::Buf;
     let mut msgs = VecDeque::new();
+    let mut valid_len = 0;
     let file = match File::open(path).await {
         Ok(f) => f,
-        Err(_) => return msgs,
+        Err(_) => return (msgs, None),
     };
 
     let mut reader = BufReader::new(file);
     loop {
         let mut len_buf = [0u8; 4];
-        if reader.read_exact(&mut len_buf).await.is_err() { break; }
+        if let Err(e) = reader.read_exact(&mut len_buf).await {
+            if e.kind() != std::io::ErrorKind::UnexpectedEof { return (msgs, None); }
+            break;
+        }
         let len = u32::from_be_bytes(len_buf);
 
         let mut crc_buf = [0u8; 4];
-        if reader.read_exact(&mut crc_buf).await.is_err() { break; }
+        if let Err(e) = reader.read_exact(&mut crc_buf).await {
+            if e.kind() != std::io::ErrorKind::UnexpectedEof { return (msgs, None); }
+            break;
+        }
         let stored_crc = u32::from_be_bytes(crc_buf);
 
         let mut content_buf = vec![0u8; len as usize];
-        if reader.read_exact(&mut content_buf).await.is_err() { break; }
+        if let Err(e) = reader.read_exact(&mut content_buf).await {
+            if e.kind() != std::io::ErrorKind::UnexpectedEof { return (msgs, None); }
+            break;
+        }
 
         let mut hasher = Hasher::new();
         hasher.update(&content_buf);
@@ -562,8 +597,9 @@ async fn load_segment_file(path: &PathBuf) -> VecDeque<Message> {
         let payload = Bytes::copy_from_slice(&cursor.copy_to_bytes(payload_len));
 
         msgs.push_back(Message { seq, timestamp, payload });
+        valid_len += 8 + len as u64;
     }
-    msgs
+    (msgs, Some(valid_len))
 }
 
 async fn load_groups_file(path: &PathBuf) -> Result<HashMap<String, u64>, std::io::Error> {
-- 
2.43.0


From 928a31bf23480cf8d1a71f1b89555b9388157baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:11 +0000
Subject: [PATCH 18/55] fix: refuse a fetch of a fenced or departed member also
 while the group is at its limit

---
 src/brokers/stream/manager.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 88867e6..b4fab49 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -689,11 +689,10 @@ impl StreamManager {
 
             let was_clamped = group_ref.clamp_head(head_seq);
 
-            if group_ref.is_backpressured() {
-                return Ok(FetchAttempt::Ready(Vec::new()));
-            }
-
             let messages = group_ref.fetch(consumer_id, generation, limit, &state.log, ram_start_seq, head_seq)?;
+            if messages.is_empty() && group_ref.is_backpressured() {
+                return Ok(FetchAttempt::Ready(messages));
+            }
             let is_fetching_cold = group_ref.is_fetching_cold;
             let from_seq = group_ref.next_fetch_seq(head_seq);
             (was_clamped, messages, is_fetching_cold, from_seq)
-- 
2.43.0


From 49c6200753098e472b6f9fddf78ecbce3a04e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 19/55] fix: a stream fetch dropped while reading from disk no
 longer blocks its group

---
 src/brokers/stream/manager.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index b4fab49..317e93e 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -39,6 +39,26 @@ struct TopicInner {
     full_config: TopicConfig,
 }
 
+/// Ends a cold fetch of a group when the request is dropped while reading from disk.
+struct ColdFetchGuard<'a> {
+    topic_ref: &'a TopicShared,
+    group: &'a str,
+    armed: bool,
+}
+
+impl Drop for ColdFetchGuard<'_> {
+    fn drop(&mut self) {
+        if self.armed {
+            let mut inner = StreamManager::lock_topic(&self.topic_ref.inner);
+            if let Some(group_ref) = inner.groups.get_mut(self.group) {
+                group_ref.is_fetching_cold = false;
+            }
+            drop(inner);
+            self.topic_ref.notify.notify_waiters();
+        }
+    }
+}
+
 enum FetchAttempt {
     Ready(Vec<Message>),
     NeedColdRead { from_seq: u64 },
@@ -737,7 +757,11 @@ impl StreamManager {
             return Err("Disk read failed".to_string());
         }
 
-        let messages = match rx.await {
+        let mut guard = ColdFetchGuard { topic_ref, group, armed: true };
+        let read = rx.await;
+        guard.armed = false;
+
+        let messages = match read {
             Ok(messages) => messages,
             Err(_) => {
                 let mut inner = Self::lock_topic(&topic_ref.inner);
-- 
2.43.0


From 6b80e903e9f968001e0ad8d91cd76f1469bc1682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:26 +0000
Subject: [PATCH 20/55] fix: refuse stream group names that cannot be stored

---
 src/brokers/stream/manager.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 317e93e..2939167 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -295,6 +295,7 @@ impl StreamManager {
     }
 
     pub async fn seek(&self, group: &str, topic: &str, target: SeekTarget) -> Result<(), String> {
+        Self::validate_group_id(group)?;
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         {
             let mut inner = Self::lock_topic(&topic_ref.inner);
@@ -351,6 +352,7 @@ impl StreamManager {
     }
 
     pub async fn join_group(&self, group: &str, topic: &str, connection_client_id: &str) -> Result<JoinGroupResult, String> {
+        Self::validate_group_id(group)?;
         let topic_ref = self.get_topic(topic).ok_or("Topic not found")?;
         let mut inner = Self::lock_topic(&topic_ref.inner);
         let head_seq = inner.state.head_seq;
@@ -442,6 +444,14 @@ impl StreamManager {
         tokio::fs::metadata(path).await.map(|meta| meta.is_dir()).unwrap_or(false)
     }
 
+    /// The groups file stores the length of a group id in 16 bits.
+    fn validate_group_id(group: &str) -> Result<(), String> {
+        if group.len() > u16::MAX as usize {
+            return Err("Group name too long".to_string());
+        }
+        Ok(())
+    }
+
     fn get_topic(&self, topic: &str) -> Option<Arc<TopicShared>> {
         self.topics.get(topic).map(|entry| entry.value().clone())
     }
-- 
2.43.0


From 271d19ff4c107d6d96bc4eaa4cf732d86696b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:35 +0000
Subject: [PATCH 21/55] fix: a restored stream group does not start beyond the
 end of the log

---
 src/brokers/stream/manager.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 2939167..00aa73b 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -529,6 +529,8 @@ impl StreamManager {
         let persisted_seq = Arc::new(AtomicU64::new(state.next_seq.saturating_sub(1)));
         let mut groups = HashMap::new();
         for (group_id, ack_floor) in recovered.groups_data {
+            // Groups may have been saved before the last messages they acknowledged.
+            let ack_floor = ack_floor.min(state.next_seq.saturating_sub(1));
             groups.insert(
                 group_id.clone(),
                 ConsumerGroup::restore(group_id, ack_floor, state.head_seq, config.max_ack_pending, ack_wait, config.max_deliveries),
-- 
2.43.0


From 31c598b874d2ca08c8c2e81b0e1bc5aaccfbc4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:05 +0000
Subject: [PATCH 22/55] fix: stream creation, deletion and use at the same time
 mix up incarnations or lose files

Creation and deletion of a topic exclude each other and run to completion
even if the caller goes away; nothing is sent to storage under the name of
a topic once it is deleted.
---
 src/brokers/stream/manager.rs | 117 +++++++++++++++++++++-------------
 1 file changed, 74 insertions(+), 43 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 00aa73b..05b9d6d 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -37,6 +37,8 @@ struct TopicInner {
     client_map: HashMap<String, Vec<ConsumerBinding>>,
     groups_dirty: bool,
     full_config: TopicConfig,
+    /// Set when the topic is deleted: nothing may be sent to storage under its name any more.
+    deleted: bool,
 }
 
 /// Ends a cold fetch of a group when the request is dropped while reading from disk.
@@ -78,6 +80,8 @@ pub struct StreamManager {
     storage_tx: mpsc::UnboundedSender<StorageCommand>,
     config: Arc<SystemStreamConfig>,
     cancel: CancellationToken,
+    /// Creation and deletion exclude each other (both work on the topic's files)
+    lifecycle: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl StreamManager {
@@ -101,6 +105,7 @@ impl StreamManager {
             storage_tx,
             config,
             cancel: CancellationToken::new(),
+            lifecycle: Arc::new(tokio::sync::Mutex::new(())),
         };
 
         manager.bootstrap_from_disk().await;
@@ -113,6 +118,15 @@ impl StreamManager {
     }
 
     pub async fn create_topic(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
+        // A creation that was started is completed even if the caller goes away
+        let manager = self.clone();
+        tokio::spawn(async move { manager.create_topic_inner(name, options).await })
+            .await
+            .unwrap_or_else(|e| Err(e.to_string()))
+    }
+
+    async fn create_topic_inner(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
+        let _lifecycle = self.lifecycle.lock().await;
         self.deleted_topics.remove(&name);
 
         if self.topics.contains_key(&name) {
@@ -156,10 +170,24 @@ impl StreamManager {
     }
 
     pub async fn delete_topic(&self, name: String) -> Result<(), String> {
+        // A deletion that was started is completed even if the caller goes away
+        let manager = self.clone();
+        tokio::spawn(async move { manager.delete_topic_inner(name).await })
+            .await
+            .unwrap_or_else(|e| Err(e.to_string()))
+    }
+
+    async fn delete_topic_inner(&self, name: String) -> Result<(), String> {
+        let _lifecycle = self.lifecycle.lock().await;
         self.deleted_topics.insert(name.clone(), ());
 
+        let removed = self.topics.remove(&name);
+        if let Some((_, topic_ref)) = &removed {
+            Self::lock_topic(&topic_ref.inner).deleted = true;
+        }
+
         let topic_path = PathBuf::from(&self.config.persistence_path).join(&name);
-        if self.topics.remove(&name).is_some() || tokio::fs::metadata(&topic_path).await.map(|meta| meta.is_dir()).unwrap_or(false) {
+        if removed.is_some() || tokio::fs::metadata(&topic_path).await.map(|meta| meta.is_dir()).unwrap_or(false) {
             let (del_tx, del_rx) = oneshot::channel();
             let _ = self.storage_tx.send(StorageCommand::DropTopic {
                 topic_name: name,
@@ -176,6 +204,9 @@ impl StreamManager {
 
         let seq = {
             let mut inner = Self::lock_topic(&topic_ref.inner);
+            if inner.deleted {
+                return Err("Topic not found".to_string());
+            }
             let (seq, timestamp) = inner.state.append(payload.clone());
 
             // Queued under the lock: storage must see the messages in log order.
@@ -200,27 +231,30 @@ impl StreamManager {
             return Vec::new();
         };
 
-        let (effective_from_seq, messages, need_cold) = {
+        let (tx, rx) = oneshot::channel();
+        let (messages, need_cold) = {
             let inner = Self::lock_topic(&topic_ref.inner);
             let effective_from_seq = from_seq.max(inner.state.head_seq);
             let messages = inner.state.read(effective_from_seq, limit);
             let need_cold = messages.is_empty()
                 && effective_from_seq < inner.state.ram_start_seq
-                && effective_from_seq < inner.state.next_seq;
-            (effective_from_seq, messages, need_cold)
+                && effective_from_seq < inner.state.next_seq
+                && !inner.deleted;
+            if need_cold {
+                let _ = self.storage_tx.send(StorageCommand::ColdRead {
+                    topic_name: topic.to_string(),
+                    from_seq: effective_from_seq,
+                    limit,
+                    reply: tx,
+                });
+            }
+            (messages, need_cold)
         };
 
         if !messages.is_empty() || !need_cold {
             return messages;
         }
 
-        let (tx, rx) = oneshot::channel();
-        let _ = self.storage_tx.send(StorageCommand::ColdRead {
-            topic_name: topic.to_string(),
-            from_seq: effective_from_seq,
-            limit,
-            reply: tx,
-        });
         rx.await.unwrap_or_default()
     }
 
@@ -544,6 +578,7 @@ impl StreamManager {
                 client_map: HashMap::new(),
                 groups_dirty: false,
                 full_config: config,
+                deleted: false,
             }),
             notify: Notify::new(),
             persisted_seq,
@@ -587,17 +622,10 @@ impl StreamManager {
                         _ = timer.tick() => {}
                     }
                     for (topic_name, topic_ref) in StreamManager::collect_topics(&topics) {
-                        let groups_data = {
-                            let mut inner = StreamManager::lock_topic(&topic_ref.inner);
-                            if !inner.groups_dirty {
-                                None
-                            } else {
-                                inner.groups_dirty = false;
-                                Some(inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>())
-                            }
-                        };
-
-                        if let Some(groups_data) = groups_data {
+                        let mut inner = StreamManager::lock_topic(&topic_ref.inner);
+                        if inner.groups_dirty && !inner.deleted {
+                            inner.groups_dirty = false;
+                            let groups_data = inner.groups.iter().map(|(id, group)| (id.clone(), group.ack_floor)).collect::<HashMap<_, _>>();
                             let _ = storage_tx.send(StorageCommand::SaveGroups {
                                 topic_name,
                                 groups_data,
@@ -622,19 +650,17 @@ impl StreamManager {
                         _ = timer.tick() => {}
                     }
                     for (topic_name, topic_ref) in StreamManager::collect_topics(&topics) {
-                        let (retention, max_segment_size) = {
-                            let inner = StreamManager::lock_topic(&topic_ref.inner);
-                            (inner.full_config.retention.clone(), inner.full_config.max_segment_size)
-                        };
-
                         let (reply_tx, reply_rx) = oneshot::channel();
-                        if storage_tx.send(StorageCommand::ApplyRetention {
-                            topic_name,
-                            retention,
-                            max_segment_size,
-                            reply: reply_tx,
-                        }).is_err() {
-                            continue;
+                        {
+                            let inner = StreamManager::lock_topic(&topic_ref.inner);
+                            if inner.deleted || storage_tx.send(StorageCommand::ApplyRetention {
+                                topic_name,
+                                retention: inner.full_config.retention.clone(),
+                                max_segment_size: inner.full_config.max_segment_size,
+                                reply: reply_tx,
+                            }).is_err() {
+                                continue;
+                            }
                         }
 
                         let Ok(outcome) = reply_rx.await else {
@@ -756,17 +782,22 @@ impl StreamManager {
 
     async fn cold_fetch(&self, topic_ref: &Arc<TopicShared>, topic: &str, group: &str, consumer_id: &str, generation: u64, limit: usize, from_seq: u64, group_cancel: &CancellationToken) -> Result<Vec<Message>, String> {
         let (tx, rx) = oneshot::channel();
-        if self.storage_tx.send(StorageCommand::ColdRead {
-            topic_name: topic.to_string(),
-            from_seq,
-            limit,
-            reply: tx,
-        }).is_err() {
+        {
             let mut inner = Self::lock_topic(&topic_ref.inner);
-            if let Some(group_ref) = inner.groups.get_mut(group) {
-                group_ref.is_fetching_cold = false;
+            if inner.deleted {
+                return Err("Topic not found".to_string());
+            }
+            if self.storage_tx.send(StorageCommand::ColdRead {
+                topic_name: topic.to_string(),
+                from_seq,
+                limit,
+                reply: tx,
+            }).is_err() {
+                if let Some(group_ref) = inner.groups.get_mut(group) {
+                    group_ref.is_fetching_cold = false;
+                }
+                return Err("Disk read failed".to_string());
             }
-            return Err("Disk read failed".to_string());
         }
 
         let mut guard = ColdFetchGuard { topic_ref, group, armed: true };
-- 
2.43.0


From 39f96c7a97a5346bb3022081039738aed7feee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 23/55] fix: a crash during stream creation or deletion leaves
 a stream with wrong settings or part of its messages

The settings are written in one piece, a topic being deleted is moved away
before its files are removed, and a topic exists only if it was loaded.
---
 src/brokers/stream/domain/persistence.rs |  8 ++++-
 src/brokers/stream/manager.rs            | 39 +++++++++++++++---------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 731d647..d9cc661 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -58,6 +58,9 @@ pub struct RetentionOutcome {
     pub head_seq: u64,
 }
 
+/// Directories of deleted topics are renamed to this before their files are removed.
+pub const DELETED_PREFIX: &str = ".deleted-";
+
 // ==========================================
 // COMMANDS
 // ==========================================
@@ -189,7 +192,10 @@ impl StorageManager {
                 }
                 let topic_path = self.base_path.join(&topic_name);
                 if topic_path.exists() {
-                    let _ = std::fs::remove_dir_all(&topic_path);
+                    // Moved away first: a crash leaves either the whole topic or nothing of it
+                    let trash_path = self.base_path.join(format!("{}{}", DELETED_PREFIX, uuid::Uuid::new_v4()));
+                    let doomed = if std::fs::rename(&topic_path, &trash_path).is_ok() { trash_path } else { topic_path };
+                    let _ = std::fs::remove_dir_all(&doomed);
                 }
                 let _ = reply.send(());
             }
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 05b9d6d..912f0e0 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -16,7 +16,7 @@ use crate::brokers::stream::config::SystemStreamConfig;
 use crate::brokers::stream::domain::group::ConsumerGroup;
 use crate::brokers::stream::domain::message::Message;
 use crate::brokers::stream::snapshot::{ConsumerGroupSnapshot, StreamSnapshot, TopicSnapshot};
-use crate::brokers::stream::domain::persistence::{recover_topic, MessageToAppend, StorageCommand, StorageManager};
+use crate::brokers::stream::domain::persistence::{find_segments, recover_topic, MessageToAppend, StorageCommand, StorageManager, DELETED_PREFIX};
 use crate::brokers::stream::domain::topic::{TopicConfig, TopicState};
 
 struct TopicShared {
@@ -143,17 +143,12 @@ impl StreamManager {
             if let Err(e) = tokio::fs::create_dir_all(&base_path).await {
                 tracing::error!("Failed to create topic directory at {:?}: {}", base_path, e);
             } else {
-                let config_path = base_path.join("config.json");
-                if let Ok(data) = serde_json::to_string_pretty(&topic_config) {
-                    let _ = tokio::fs::write(&config_path, data).await;
-                }
+                Self::save_topic_config(&base_path, &topic_config).await;
             }
         } else {
             let config_path = base_path.join("config.json");
             if !config_path.exists() {
-                if let Ok(data) = serde_json::to_string_pretty(&topic_config) {
-                    let _ = tokio::fs::write(&config_path, data).await;
-                }
+                Self::save_topic_config(&base_path, &topic_config).await;
             }
         }
 
@@ -470,12 +465,7 @@ impl StreamManager {
     }
 
     pub async fn exists(&self, name: &str) -> bool {
-        if self.topics.contains_key(name) {
-            return true;
-        }
-
-        let path = PathBuf::from(&self.config.persistence_path).join(name);
-        tokio::fs::metadata(path).await.map(|meta| meta.is_dir()).unwrap_or(false)
+        self.topics.contains_key(name)
     }
 
     /// The groups file stores the length of a group id in 16 bits.
@@ -510,6 +500,16 @@ impl StreamManager {
         topic_config
     }
 
+    /// Written under another name first: a crash leaves either no config or all of it.
+    async fn save_topic_config(base_path: &PathBuf, topic_config: &TopicConfig) {
+        let tmp_path = base_path.join("config.json.tmp");
+        if let Ok(data) = serde_json::to_string_pretty(topic_config) {
+            if tokio::fs::write(&tmp_path, data).await.is_ok() {
+                let _ = tokio::fs::rename(&tmp_path, base_path.join("config.json")).await;
+            }
+        }
+    }
+
     async fn bootstrap_from_disk(&self) {
         let persistence_path = PathBuf::from(&self.config.persistence_path);
         if !persistence_path.exists() {
@@ -536,6 +536,17 @@ impl StreamManager {
                 continue;
             }
 
+            if name.starts_with(DELETED_PREFIX) {
+                // Left by a deletion that was interrupted
+                let _ = tokio::fs::remove_dir_all(&path).await;
+                continue;
+            }
+
+            if !path.join("config.json").exists() && find_segments(&path).await.unwrap_or_default().is_empty() {
+                // Left by a creation that was interrupted
+                continue;
+            }
+
             let topic_config = Self::load_topic_config(&path, StreamCreateOptions::default(), &self.config).await;
             let topic_ref = Self::build_topic_shared(name.clone(), topic_config).await;
 
-- 
2.43.0


From eb396f5fc7f14f2000ceab2218c1a1ffe8f43577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 24/55] fix: refuse pub/sub topics deeper than 256 levels

The topic tree is walked and dropped recursively, so one request with a topic of
some ten thousand levels overflowed the stack and took the whole server down.
---
 src/brokers/pub-sub/tcp.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/brokers/pub-sub/tcp.rs b/src/brokers/pub-sub/tcp.rs
index 32d4e46..89d055f 100644
--- a/src/brokers/pub-sub/tcp.rs
+++ b/src/brokers/pub-sub/tcp.rs
@@ -24,6 +24,17 @@ pub const OP_UNSUB: u8 = 0x23;
 // COMMANDS
 // ==========================================
 
+/// The topic tree is walked recursively: an unbounded depth would exhaust the stack.
+const MAX_TOPIC_LEVELS: usize = 256;
+
+fn read_topic(cursor: &mut PayloadCursor) -> Result<String, ParseError> {
+    let topic = cursor.read_string()?;
+    if topic.split('/').count() > MAX_TOPIC_LEVELS {
+        return Err(ParseError::Invalid(format!("Topic has more than {} levels", MAX_TOPIC_LEVELS)));
+    }
+    Ok(topic)
+}
+
 #[derive(Debug)]
 enum PubSubCommand {
     Publish { topic: String, options: PubSubPublishOptions, payload: Bytes },
@@ -35,7 +46,7 @@ impl PubSubCommand {
     fn parse(opcode: u8, cursor: &mut PayloadCursor) -> Result<Self, ParseError> {
         match opcode {
             OP_PUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 let json_str = cursor.read_string()?;
                 let options: PubSubPublishOptions = serde_json::from_str(&json_str)
                     .map_err(|e| ParseError::Invalid(format!("Invalid JSON options: {}", e)))?;
@@ -43,11 +54,11 @@ impl PubSubCommand {
                 Ok(Self::Publish { topic, options, payload })
             }
             OP_SUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 Ok(Self::Subscribe { topic })
             }
             OP_UNSUB => {
-                let topic = cursor.read_string()?;
+                let topic = read_topic(cursor)?;
                 Ok(Self::Unsubscribe { topic })
             }
             _ => Err(ParseError::Invalid(format!("Unknown PubSub opcode: 0x{:02X}", opcode))),
-- 
2.43.0


From dc6d9e87a6e3b222ae6c561cc93887a42850e3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 25/55] fix: unregister a connection however it ended

A protocol or I/O error returned early from handle_connection and left the client's
subscriptions, stream memberships and push task behind; requests still running could
register again after the cleanup.
---
 src/transport/tcp/connection.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/transport/tcp/connection.rs b/src/transport/tcp/connection.rs
index 5897216..03ab7b7 100644
--- a/src/transport/tcp/connection.rs
+++ b/src/transport/tcp/connection.rs
@@ -56,7 +56,7 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
     // ==========================================
     let mut request_set = tokio::task::JoinSet::new();
 
-    loop {
+    let result = loop {
         tokio::select! {
             // EVENT A: We received a command from the Client
             Some(frame) = inbound_rx.recv() => {
@@ -80,28 +80,30 @@ pub async fn handle_connection(socket: TcpStream, engine: NexoEngine) -> Result<
             // EVENT B: The TCP Socket crashed or disconnected
             socket_result = &mut socket_task => {
                 match socket_result {
-                    Ok(Ok(())) => break, // Clean disconnect
-                    Ok(Err(err)) => return Err(format!("Protocol error: {err:?}")),
-                    Err(err) => return Err(format!("Socket task panicked: {err:?}")),
+                    Ok(Ok(())) => break Ok(()), // Clean disconnect
+                    Ok(Err(err)) => break Err(format!("Protocol error: {err:?}")),
+                    Err(err) => break Err(format!("Socket task panicked: {err:?}")),
                 }
             }
 
             // EVENT C: A background request finished, clean up its memory
             _ = request_set.join_next(), if !request_set.is_empty() => {}
         }
-    }
+    };
 
     // ==========================================
     // ACT 4: CLEANUP & DISCONNECT
     // ==========================================
     tracing::debug!("Client {:?} disconnected", client_id);
 
-    request_set.abort_all();
+    // However the connection ended, nothing of it may stay behind. Requests still being
+    // executed are over before the unregistration, so that none registers anything after it.
+    request_set.shutdown().await;
     bridge_handle.abort();
     engine.pubsub.disconnect(&client_id);
     engine.stream.disconnect(client_id.0.clone()).await;
 
-    Ok(())
+    result
 }
 
 
-- 
2.43.0


From 6e568fccbec6472021201099363f081b7e2646af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:17 +0000
Subject: [PATCH 26/55] fix: refuse queue and stream names that are not file
 names

---
 src/brokers/queue/manager.rs  | 13 +++++++++++++
 src/brokers/stream/manager.rs | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index b0d5160..28690fe 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -225,6 +225,17 @@ impl QueueManager {
         self.queues.get(name).map(|r| r.value().clone())
     }
 
+    /// The name is part of the queue's file names (the longest is `<name>.config.json`).
+    fn validate_name(name: &str) -> Result<(), String> {
+        if name.contains(['/', '\0']) {
+            return Err("Invalid queue name".to_string());
+        }
+        if name.len() > 255 - ".config.json".len() {
+            return Err("Queue name too long".to_string());
+        }
+        Ok(())
+    }
+
     fn persist_batch_state(&self, shared: &Arc<QueueShared>, msgs: &[Message]) {
         for msg in msgs {
             shared.store.execute(StorageOp::UpdateState {
@@ -242,6 +253,7 @@ impl QueueManager {
     pub async fn create_queue(&self, name: String, options: QueueCreateOptions) -> Result<(), String> {
         use dashmap::mapref::entry::Entry;
 
+        Self::validate_name(&name)?;
         let _lifecycle = self.lifecycle.lock().await;
         match self.queues.entry(name.clone()) {
             Entry::Occupied(_) => Ok(()),
@@ -271,6 +283,7 @@ impl QueueManager {
     }
 
     async fn delete_queue_inner(&self, name: String) -> Result<(), String> {
+        Self::validate_name(&name)?;
         let _lifecycle = self.lifecycle.lock().await;
         if let Some((_, shared)) = self.queues.remove(&name) {
             shared.store.shutdown().await;
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 912f0e0..5498c5c 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -126,6 +126,7 @@ impl StreamManager {
     }
 
     async fn create_topic_inner(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
+        Self::validate_topic_name(&name)?;
         let _lifecycle = self.lifecycle.lock().await;
         self.deleted_topics.remove(&name);
 
@@ -173,6 +174,7 @@ impl StreamManager {
     }
 
     async fn delete_topic_inner(&self, name: String) -> Result<(), String> {
+        Self::validate_topic_name(&name)?;
         let _lifecycle = self.lifecycle.lock().await;
         self.deleted_topics.insert(name.clone(), ());
 
@@ -468,6 +470,17 @@ impl StreamManager {
         self.topics.contains_key(name)
     }
 
+    /// The name is the name of the topic's directory.
+    fn validate_topic_name(name: &str) -> Result<(), String> {
+        if name.is_empty() || name == "." || name == ".." || name.contains(['/', '\0']) || name.starts_with(DELETED_PREFIX) {
+            return Err("Invalid topic name".to_string());
+        }
+        if name.len() > 255 {
+            return Err("Topic name too long".to_string());
+        }
+        Ok(())
+    }
+
     /// The groups file stores the length of a group id in 16 bits.
     fn validate_group_id(group: &str) -> Result<(), String> {
         if group.len() > u16::MAX as usize {
-- 
2.43.0


From d685c267d89464779948626735941095eaf0cd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 27/55] fix: any paging offset is accepted by the pub/sub
 dashboard endpoint

---
 src/brokers/pub-sub/manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 0f7f37d..40e455f 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -211,7 +211,7 @@ impl PubSubManager {
         all_topics.sort_by(|a, b| a.full_path.cmp(&b.full_path));
         let total_topics = all_topics.len();
         
-        let end = (offset + limit).min(total_topics);
+        let end = offset.saturating_add(limit).min(total_topics);
         let paginated = if offset < total_topics {
             all_topics[offset..end].to_vec()
         } else {
-- 
2.43.0


From a20c9c9d54eee21d38944f227c79231898b936f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:12 +0000
Subject: [PATCH 28/55] fix: the store dashboard endpoint counts and pages the
 live keys that match

---
 src/brokers/store/manager.rs | 39 ++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/brokers/store/manager.rs b/src/brokers/store/manager.rs
index dae4448..145edaf 100644
--- a/src/brokers/store/manager.rs
+++ b/src/brokers/store/manager.rs
@@ -18,34 +18,29 @@ impl StoreManager {
     }
 
     pub fn scan(&self, limit: usize, offset: usize, filter: Option<String>) -> StoreSnapshot {
-        let total = self.map.len();
         let now = Instant::now();
 
-        let entries = self.map.iter()
-            .filter(|entry| {
-                if let Some(ref f) = filter {
-                    entry.key().contains(f)
-                } else {
-                    true
-                }
-            })
-            .skip(offset)
-            .take(limit)
-            .filter_map(|entry| {
-                let val = entry.value();
-                if let Some(expiry) = val.expires_at {
-                    if expiry <= now {
-                        return None;
-                    }
-                }
+        // Only what is live and matches is counted and paged
+        let mut total = 0;
+        let mut entries = Vec::new();
+        for entry in self.map.iter() {
+            let val = entry.value();
+            if val.expires_at.map_or(false, |expiry| expiry <= now) {
+                continue;
+            }
+            if filter.as_ref().map_or(false, |f| !entry.key().contains(f)) {
+                continue;
+            }
+            if total >= offset && entries.len() < limit {
                 let MapValue(payload) = val.value.clone();
-                Some(KeyEntry {
+                entries.push(KeyEntry {
                     key: entry.key().clone(),
                     payload,
                     expires_at: val.expires_at,
-                })
-            })
-            .collect();
+                });
+            }
+            total += 1;
+        }
 
         StoreSnapshot { entries, total }
     }
-- 
2.43.0


From efbe55983121f58f827b2f5e68eebd207cb6de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 29/55] fix: a key with a lifetime beyond the calendar does not
 break the store dashboard endpoint

---
 src/brokers/store/http.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/brokers/store/http.rs b/src/brokers/store/http.rs
index 05f426e..534e707 100644
--- a/src/brokers/store/http.rs
+++ b/src/brokers/store/http.rs
@@ -57,10 +57,11 @@ async fn get_store(
         .map(|entry| {
             let exp_at = match entry.expires_at {
                 Some(expiry) => {
-                    let sys_now = std::time::SystemTime::now();
                     let dur = expiry.saturating_duration_since(now);
-                    let future_sys = sys_now + dur;
-                    chrono::DateTime::<chrono::Utc>::from(future_sys).to_rfc3339()
+                    // A lifetime beyond the end of the calendar is shown like an unlimited one
+                    chrono::TimeDelta::from_std(dur).ok()
+                        .and_then(|dur| chrono::DateTime::<chrono::Utc>::from(std::time::SystemTime::now()).checked_add_signed(dur))
+                        .map_or_else(|| "Never".to_string(), |date| date.to_rfc3339())
                 }
                 None => "Never".to_string(),
             };
-- 
2.43.0


From 543b84dcfa60d216502a589926fb8ec890f07748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 30/55] fix: client request numbers stay unsigned beyond 2^31

---
 sdk/ts/src/connection.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index b6420af..eff4806 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -213,7 +213,7 @@ export class NexoConnection extends EventEmitter {
     options?: { timeoutMs?: number }
   ): Promise<{ status: ResponseStatus, cursor: Cursor }> {
     const id = this.nextId;
-    this.nextId = (this.nextId + 1) & 0xFFFFFFFF || 1;
+    this.nextId = (this.nextId + 1) >>> 0 || 1;
 
     this.writer.begin();
     if (build) build(this.writer);
@@ -259,7 +259,7 @@ export class NexoConnection extends EventEmitter {
     if (!this.isConnected) return;
 
     const id = this.nextId;
-    this.nextId = (this.nextId + 1) & 0xFFFFFFFF || 1;
+    this.nextId = (this.nextId + 1) >>> 0 || 1;
 
     this.writer.begin();
     if (build) build(this.writer);
-- 
2.43.0


From 9cfdf203b440e6953e69ae99151f472ee0f80748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 31/55] fix: the client refuses message ids of the wrong length

---
 sdk/ts/src/codec.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/ts/src/codec.ts b/sdk/ts/src/codec.ts
index 9ae0676..a8b579c 100644
--- a/sdk/ts/src/codec.ts
+++ b/sdk/ts/src/codec.ts
@@ -135,6 +135,7 @@ export class FrameWriter {
       if (!highSet) { high = nib << 4; highSet = true; }
       else { buf[off++] = high | nib; highSet = false; }
     }
+    if (highSet || off !== this.offset + 16) throw new Error(`Invalid UUID length: ${hex}`);
     this.offset = off;
     return this;
   }
-- 
2.43.0


From 6348c51137369160f4925a3cd1d15c4ab222e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 32/55] fix: calls pending at disconnect() fail instead of
 hanging

---
 sdk/ts/src/connection.ts | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index eff4806..c100b7a 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -113,10 +113,7 @@ export class NexoConnection extends EventEmitter {
         this.logger.error(`[Connection] SOCKET CLOSED. Error: ${err ? err.message : 'Clean close'}. Reconnecting: ${this.shouldReconnect}`);
       }
 
-      this.pending.forEach(p => {
-        p.reject(new ConnectionClosedError());
-      });
-      this.pending.clear();
+      this.rejectPending();
       this.chunks = [];
       this.buffer = Buffer.alloc(0);
 
@@ -129,6 +126,12 @@ export class NexoConnection extends EventEmitter {
     this.socket.on('close', cleanup);
   }
 
+  private rejectPending() {
+    const requests = [...this.pending.values()];
+    this.pending.clear();
+    requests.forEach(p => p.reject(new ConnectionClosedError()));
+  }
+
   private async startReconnectLoop() {
     this.isReconnecting = true;
     this.logger.warn("⚠️ Connection lost. Attempting to reconnect...");
@@ -271,8 +274,8 @@ export class NexoConnection extends EventEmitter {
     this.shouldReconnect = false;
     this.isReconnecting = false;
     this.stopSweep();
-    this.pending.clear();
-    this.socket.destroy();
     this.isConnected = false;
+    this.socket.destroy();
+    this.rejectPending();
   }
 }
-- 
2.43.0


From 399c2e6d7d3eaec229600e5e99ff24d888e875e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 33/55] fix: disconnect() during the reconnect delay ends the
 reconnection

---
 sdk/ts/src/connection.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index c100b7a..abc9fd4 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -138,6 +138,7 @@ export class NexoConnection extends EventEmitter {
 
     while (this.shouldReconnect && !this.isConnected) {
       await new Promise(r => setTimeout(r, this.config.reconnectDelayMs));
+      if (!this.shouldReconnect) break; // disconnect() during the delay
 
       try {
         await this.createSocketAndConnect();
-- 
2.43.0


From 469e4185f183867819614a3736c6fb7c3e9b0ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 34/55] fix: a client whose connect() failed does not keep
 dialing

---
 sdk/ts/src/connection.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index abc9fd4..8837bce 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -48,7 +48,12 @@ export class NexoConnection extends EventEmitter {
   async connect(): Promise<void> {
     this.shouldReconnect = true;
     this.startSweep();
-    return this.createSocketAndConnect();
+    try {
+      await this.createSocketAndConnect();
+    } catch (e) {
+      this.disconnect();
+      throw e;
+    }
   }
 
   private startSweep() {
@@ -117,7 +122,8 @@ export class NexoConnection extends EventEmitter {
       this.chunks = [];
       this.buffer = Buffer.alloc(0);
 
-      if (this.shouldReconnect && !this.isReconnecting) {
+      // A first connection that fails is reported by connect(), not retried.
+      if (this.shouldReconnect && wasConnected && !this.isReconnecting) {
         this.startReconnectLoop();
       }
     };
-- 
2.43.0


From 6c86ad01f09d3d58c6bb0757d864f802652a30ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 35/55] fix: a malformed or empty push or response does not end
 the client process

---
 sdk/ts/src/codec.ts      |  1 +
 sdk/ts/src/connection.ts | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sdk/ts/src/codec.ts b/sdk/ts/src/codec.ts
index a8b579c..19985f4 100644
--- a/sdk/ts/src/codec.ts
+++ b/sdk/ts/src/codec.ts
@@ -32,6 +32,7 @@ export class Cursor {
    * to the end of the buffer.
    */
   decodeAny(): any {
+    if (this.offset >= this.buf.length) return null; // empty payload (not written by this SDK)
     const type = this.buf.readUInt8(this.offset++);
     const start = this.offset;
     const end = this.buf.length;
diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index 8837bce..fe3f599 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -199,15 +199,25 @@ export class NexoConnection extends EventEmitter {
         if (req) {
           this.pending.delete(id);
           // Status is in header (byte 1), payload is clean data
-          req.resolve({ status: meta, data: payload });
+          try {
+            req.resolve({ status: meta, data: payload });
+          } catch (e: any) {
+            req.reject(e); // malformed response
+          }
         }
         break;
       }
       case FrameType.PUSH_PUBSUB: {
         if (this.onPush) {
-          const pushCursor = new Cursor(payload);
-          const topic = pushCursor.readString();
-          const data = pushCursor.decodeAny();
+          let topic: string, data: any;
+          try {
+            const pushCursor = new Cursor(payload);
+            topic = pushCursor.readString();
+            data = pushCursor.decodeAny();
+          } catch (e) {
+            this.logger.error('[Connection] Malformed push dropped', e);
+            break;
+          }
           this.onPush(topic, data);
         }
         break;
-- 
2.43.0


From 3fc9b89adbe8d0a0cd9819795f2b897af5106326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 36/55] fix: simultaneous queue subscriptions: only one is
 accepted

---
 sdk/ts/src/brokers/queue.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/brokers/queue.ts b/sdk/ts/src/brokers/queue.ts
index 326c6ea..9e8bce8 100644
--- a/sdk/ts/src/brokers/queue.ts
+++ b/sdk/ts/src/brokers/queue.ts
@@ -230,14 +230,14 @@ export class NexoQueue<T = any> {
 
   async subscribe(callback: (data: T) => Promise<any> | any, options: QueueSubscribeOptions = {}): Promise<{ stop: () => void }> {
     if (this.isSubscribed) throw new Error(`Queue '${this.name}' already subscribed.`);
+    this.isSubscribed = true;
 
     // Fail Fast: Check existence first
     if (!(await this.exists())) {
+      this.isSubscribed = false;
       throw new Error(`Queue '${this.name}' not found`);
     }
 
-    this.isSubscribed = true;
-
     const batchSize = options.batchSize ?? DEFAULT_CONFIG.queue.batchSize;
     const waitMs = options.waitMs ?? DEFAULT_CONFIG.queue.waitMs;
     const concurrency = options.concurrency ?? DEFAULT_CONFIG.queue.concurrency;
-- 
2.43.0


From 5315c62ef04311f12537ae6d9b83fcffe017d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 37/55] fix: an unreadable queue message is rejected without
 losing the rest of its batch

---
 sdk/ts/src/brokers/queue.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sdk/ts/src/brokers/queue.ts b/sdk/ts/src/brokers/queue.ts
index 9e8bce8..1397564 100644
--- a/sdk/ts/src/brokers/queue.ts
+++ b/sdk/ts/src/brokers/queue.ts
@@ -47,7 +47,7 @@ const QueueCommands = {
       .any(data)
     ),
 
-  consume: async <T>(conn: NexoConnection, name: string, batchSize: number, waitMs: number): Promise<{ id: string, data: T }[]> => {
+  consume: async <T>(conn: NexoConnection, name: string, batchSize: number, waitMs: number): Promise<{ id: string, data: T, error?: Error }[]> => {
     const res = await conn.send(QueueOpcode.Q_CONSUME, w => w
       .string(name)
       .string(JSON.stringify({ batchSize, waitMs }))
@@ -56,13 +56,17 @@ const QueueCommands = {
     const count = res.cursor.readU32();
     if (count === 0) return [];
 
-    const messages: { id: string; data: T }[] = [];
+    const messages: { id: string; data: T; error?: Error }[] = [];
     for (let i = 0; i < count; i++) {
       const idHex = res.cursor.readUUID();
       const payloadLen = res.cursor.readU32();
       const payloadBuf = res.cursor.readBuffer(payloadLen);
-      const data = new Cursor(payloadBuf).decodeAny();
-      messages.push({ id: idHex, data });
+      try {
+        messages.push({ id: idHex, data: new Cursor(payloadBuf).decodeAny() });
+      } catch (e: any) {
+        // Unreadable payload: must not take the rest of the batch with it.
+        messages.push({ id: idHex, data: undefined as T, error: e });
+      }
     }
     return messages;
   },
@@ -267,6 +271,7 @@ export class NexoQueue<T = any> {
               return;
             }
             try {
+              if (msg.error) throw msg.error;
               await callback(msg.data);
               this.ack(msg.id);
             } catch (e: any) {
-- 
2.43.0


From 51fb340c0af89d4939c27838af195e0c09edee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 38/55] fix: queue consumers end when their client is
 disconnected

---
 sdk/ts/src/brokers/queue.ts | 4 ++--
 sdk/ts/src/connection.ts    | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/brokers/queue.ts b/sdk/ts/src/brokers/queue.ts
index 1397564..c9cae28 100644
--- a/sdk/ts/src/brokers/queue.ts
+++ b/sdk/ts/src/brokers/queue.ts
@@ -249,7 +249,7 @@ export class NexoQueue<T = any> {
     let active = true;
 
     const loop = async () => {
-      while (active) {
+      while (active && !this.conn.isClosed) {
         if (!this.conn.isConnected) {
           await new Promise(r => setTimeout(r, DEFAULT_CONFIG.connection.backoff.short));
           continue;
@@ -283,7 +283,7 @@ export class NexoQueue<T = any> {
           });
 
         } catch (e: any) {
-          if (!active) break;
+          if (!active || this.conn.isClosed) break;
           // Catch-all for connection issues to prevent Unhandled Rejection
           if (!this.conn.isConnected || e instanceof ConnectionClosedError || e.code === 'ECONNRESET') {
             await new Promise(r => setTimeout(r, DEFAULT_CONFIG.connection.backoff.short));
diff --git a/sdk/ts/src/connection.ts b/sdk/ts/src/connection.ts
index fe3f599..1536b78 100644
--- a/sdk/ts/src/connection.ts
+++ b/sdk/ts/src/connection.ts
@@ -56,6 +56,9 @@ export class NexoConnection extends EventEmitter {
     }
   }
 
+  /** True after disconnect(): the connection will not come back. */
+  get isClosed(): boolean { return !this.shouldReconnect; }
+
   private startSweep() {
     if (this.sweepInterval) return;
     this.sweepInterval = setInterval(() => {
-- 
2.43.0


From 58f5351aab62c14e6bbbace9d9690e7a1f27a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 39/55] fix: stream consumers end when their client is
 disconnected

---
 sdk/ts/src/brokers/stream.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/ts/src/brokers/stream.ts b/sdk/ts/src/brokers/stream.ts
index 7c7f9b8..0663b84 100644
--- a/sdk/ts/src/brokers/stream.ts
+++ b/sdk/ts/src/brokers/stream.ts
@@ -102,12 +102,12 @@ class StreamSubscription<T> {
   }
 
   private async loop(): Promise<void> {
-    while (this.active) {
+    while (this.active && !this.conn.isClosed) {
       try {
         if (this.consumerId === null) await this.join();
         await this.pollOnce();
       } catch (e: any) {
-        if (!this.active) break;
+        if (!this.active || this.conn.isClosed) break;
         this.consumerId = null;
 
         if (isRecoverableMembershipError(e)) continue;
-- 
2.43.0


From 56384c59db843b79207a03c7cc078a31e3815872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 40/55] fix: a stream consumer stopped while joining leaves the
 group

---
 sdk/ts/src/brokers/stream.ts | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/sdk/ts/src/brokers/stream.ts b/sdk/ts/src/brokers/stream.ts
index 0663b84..ba59a33 100644
--- a/sdk/ts/src/brokers/stream.ts
+++ b/sdk/ts/src/brokers/stream.ts
@@ -77,17 +77,23 @@ class StreamSubscription<T> {
 
   async stop(): Promise<void> {
     this.active = false;
-    if (this.consumerId !== null) {
-      try {
-        await this.conn.send(StreamOpcode.S_LEAVE, w => w
-          .string(this.streamName)
-          .string(this.group)
-          .string(this.consumerId!)
-          .u64(this.generation)
-        );
-      } catch { /* connection may already be closed */ }
-    }
+    await this.leave();
     await this.loopDone;
+    await this.leave(); // the loop may have been (re-)joining in the meantime
+  }
+
+  private async leave(): Promise<void> {
+    const consumerId = this.consumerId;
+    if (consumerId === null) return;
+    this.consumerId = null;
+    try {
+      await this.conn.send(StreamOpcode.S_LEAVE, w => w
+        .string(this.streamName)
+        .string(this.group)
+        .string(consumerId)
+        .u64(this.generation)
+      );
+    } catch { /* connection may already be closed */ }
   }
 
   private async join(): Promise<void> {
@@ -105,6 +111,7 @@ class StreamSubscription<T> {
     while (this.active && !this.conn.isClosed) {
       try {
         if (this.consumerId === null) await this.join();
+        if (!this.active) break; // stopped while joining
         await this.pollOnce();
       } catch (e: any) {
         if (!this.active || this.conn.isClosed) break;
-- 
2.43.0


From 9cd2dd5c27f4a7884d47c1a6d598b6588f51ecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:46 +0000
Subject: [PATCH 41/55] fix: an unreadable stream record does not block the
 rest of its batch

---
 sdk/ts/src/brokers/stream.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdk/ts/src/brokers/stream.ts b/sdk/ts/src/brokers/stream.ts
index ba59a33..c6a497d 100644
--- a/sdk/ts/src/brokers/stream.ts
+++ b/sdk/ts/src/brokers/stream.ts
@@ -146,18 +146,24 @@ class StreamSubscription<T> {
     const count = res.cursor.readU32();
     if (count === 0) return;
 
-    const batch: { seq: bigint; data: T }[] = [];
+    const batch: { seq: bigint; data: T; error?: Error }[] = [];
     for (let i = 0; i < count; i++) {
       const seq = res.cursor.readU64();
       res.cursor.readU64(); // skip timestamp
       const payloadLen = res.cursor.readU32();
       const payloadBuf = res.cursor.readBuffer(payloadLen);
-      batch.push({ seq, data: new Cursor(payloadBuf).decodeAny() as T });
+      try {
+        batch.push({ seq, data: new Cursor(payloadBuf).decodeAny() as T });
+      } catch (e: any) {
+        // Unreadable payload: must not take the rest of the batch with it.
+        batch.push({ seq, data: undefined as T, error: e });
+      }
     }
 
-    await runConcurrent(batch, this.concurrency, async ({ seq, data }) => {
+    await runConcurrent(batch, this.concurrency, async ({ seq, data, error }) => {
       if (!this.active) return;
       try {
+        if (error) throw error;
         await this.callback(data);
         this.conn.sendFireAndForget(StreamOpcode.S_ACK, w => w
           .string(this.streamName)
-- 
2.43.0


From acd19e3048a2864d5556a97005875326834a582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:23 +0000
Subject: [PATCH 42/55] fix: refuse a waiting fetch of a stream consumer that
 is not a member

---
 src/brokers/stream/manager.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 5498c5c..04f6ef4 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -275,6 +275,7 @@ impl StreamManager {
         }
 
         let deadline = Instant::now() + Duration::from_millis(wait_ms);
+        let mut waited = false;
 
         loop {
             let notified = topic_ref.notify.notified();
@@ -285,7 +286,8 @@ impl StreamManager {
                     return self.cold_fetch(&topic_ref, topic, group, consumer_id, generation, limit, from_seq, &group_cancel).await;
                 }
                 Ok(FetchAttempt::Wait) => {}
-                Err(e) if e == "NOT_MEMBER" && !self.is_active_member(&topic_ref, group, consumer_id) => {
+                // Ends a fetch whose member left while it waited; any other is refused
+                Err(e) if waited && e == "NOT_MEMBER" && !self.is_active_member(&topic_ref, group, consumer_id) => {
                     return Ok(Vec::new());
                 }
                 Err(e) => return Err(e),
@@ -300,6 +302,7 @@ impl StreamManager {
                 _ = sleep_until(deadline) => return Ok(Vec::new()),
                 _ = group_cancel.cancelled() => return Ok(Vec::new()),
             }
+            waited = true;
         }
     }
 
-- 
2.43.0


From 343f5db1dc7cd55ae37524eb1a22e272838180d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 43/55] fix: stream messages that could not be stored are
 stored later

A failed write, flush, rotation or file creation was logged and the messages
forgotten: the position counted as persisted all the same, so they were
evicted from memory and a gap stayed in the log. They are kept until they
were flushed, the active file is cut back to what is known good, and
persisted_seq only follows a successful flush. A cold read stops at a file
that cannot be read instead of skipping its messages, and retention stops at
a file it cannot remove instead of leaving a hole.
---
 src/brokers/stream/domain/persistence.rs | 225 +++++++++++++++--------
 1 file changed, 146 insertions(+), 79 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index d9cc661..4755f47 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -99,10 +99,18 @@ pub enum StorageCommand {
 }
 
 pub struct TopicContext {
-    active_path: PathBuf,
+    /// `None` until the topic's files have been looked at
+    active_path: Option<PathBuf>,
     persisted_seq: Arc<AtomicU64>,
     highest_pending_seq: u64,
     current_file_size: u64,
+    /// Size of the active file when it was last flushed
+    flushed_size: u64,
+    /// Messages since then; the first `written` of them were handed to the writer
+    unflushed: Vec<MessageToAppend>,
+    written: usize,
+    /// Storing failed: the active file is cut back to `flushed_size` and written again
+    failed: bool,
 }
 
 // ==========================================
@@ -187,8 +195,8 @@ impl StorageManager {
                 let _ = reply.send(outcome);
             }
             StorageCommand::DropTopic { topic_name, reply } => {
-                if let Some(ctx) = self.topics.remove(&topic_name) {
-                    self.open_files.pop(&ctx.active_path);
+                if let Some(path) = self.topics.remove(&topic_name).and_then(|ctx| ctx.active_path) {
+                    self.open_files.pop(&path);
                 }
                 let topic_path = self.base_path.join(&topic_name);
                 if topic_path.exists() {
@@ -210,75 +218,92 @@ impl StorageManager {
     ) {
         if messages.is_empty() { return; }
 
-        let highest_seq = messages.last().unwrap().seq;
-        let base_topic_path = self.base_path.join(&topic_name);
-
-        if !self.topics.contains_key(&topic_name) {
-            if !base_topic_path.exists() {
-                if let Err(e) = tokio::fs::create_dir_all(&base_topic_path).await {
-                    error!("FATAL: Failed to create topic dir {:?}: {}", base_topic_path, e);
-                    return;
-                }
+        let ctx = self.topics.entry(topic_name.clone()).or_insert_with(|| TopicContext {
+            active_path: None,
+            persisted_seq: persisted_seq.clone(),
+            highest_pending_seq: 0,
+            current_file_size: 0,
+            flushed_size: 0,
+            unflushed: Vec::new(),
+            written: 0,
+            failed: false,
+        });
+        ctx.persisted_seq = persisted_seq;
+        ctx.highest_pending_seq = messages.last().unwrap().seq;
+        ctx.unflushed.extend(messages);
+        let failed = ctx.failed;
+        self.dirty_topics.insert(topic_name.clone());
+
+        // After a failure everything unflushed is written again at the next flush
+        if !failed {
+            if let Err(e) = self.write_unwritten(&topic_name).await {
+                self.storing_failed(&topic_name, e);
             }
-            
-            let segments = find_segments(&base_topic_path).await.unwrap_or_default();
-            let (active_path, file_size) = if let Some(last) = segments.last() {
-                let size = tokio::fs::metadata(&last.path).await.map(|m| m.len()).unwrap_or(0);
-                (last.path.clone(), size)
-            } else {
-                (base_topic_path.join("1.log"), 0)
-            };
-
-            self.topics.insert(topic_name.clone(), TopicContext {
-                active_path,
-                persisted_seq: persisted_seq.clone(),
-                highest_pending_seq: 0,
-                current_file_size: file_size,
-            });
-        } else {
-            self.topics.get_mut(&topic_name).unwrap().persisted_seq = persisted_seq;
         }
+    }
 
-        let mut buffer = Vec::new();
-        for msg in &messages {
+    /// Hand the messages that were not written yet to the writer of the active file.
+    async fn write_unwritten(&mut self, topic_name: &str) -> std::io::Result<()> {
+        let base_topic_path = self.base_path.join(topic_name);
+        while let Some(ctx) = self.topics.get_mut(topic_name) {
+            let Some(msg) = ctx.unflushed.get(ctx.written) else { break };
+            let first_seq = msg.seq;
+            let mut buffer = Vec::new();
             serialize_message(&mut buffer, msg.seq, msg.timestamp, &msg.payload);
-        }
-        let bytes_len = buffer.len() as u64;
+            let bytes_len = buffer.len() as u64;
+
+            let mut path = match &ctx.active_path {
+                Some(path) => path.clone(),
+                None => {
+                    let (path, size) = locate_active_file(&base_topic_path).await?;
+                    ctx.active_path = Some(path.clone());
+                    ctx.current_file_size = size;
+                    ctx.flushed_size = size;
+                    path
+                }
+            };
 
-        let path = {
-            let ctx = self.topics.get_mut(&topic_name).unwrap();
             if ctx.current_file_size + bytes_len > self.max_segment_size && ctx.current_file_size > 0 {
-                if let Some(mut old_writer) = self.open_files.pop(&ctx.active_path) {
-                    let _ = old_writer.flush().await;
+                if let Some(mut old_writer) = self.open_files.pop(&path) {
+                    old_writer.flush().await?;
                 }
-                let first_seq = messages.first().unwrap().seq;
-                ctx.active_path = base_topic_path.join(format!("{}.log", first_seq));
+                ctx.unflushed.drain(..ctx.written);
+                ctx.written = 0;
+                path = base_topic_path.join(format!("{}.log", first_seq));
+                ctx.active_path = Some(path.clone());
                 ctx.current_file_size = 0;
+                ctx.flushed_size = 0;
             }
-            ctx.active_path.clone()
-        };
 
-        match self.get_or_open_writer(&path).await {
-            Ok(writer) => {
-                if let Err(e) = writer.write_all(&buffer).await {
-                    error!("StorageManager: Failed to write to {:?}: {}", path, e);
-                    self.open_files.pop(&path);
-                    return;
-                }
-                let ctx = self.topics.get_mut(&topic_name).unwrap();
+            self.get_or_open_writer(&path).await?.write_all(&buffer).await?;
+            if let Some(ctx) = self.topics.get_mut(topic_name) {
                 ctx.current_file_size += bytes_len;
-                ctx.highest_pending_seq = highest_seq;
-                self.dirty_topics.insert(topic_name.clone());
+                ctx.written += 1;
+            }
+        }
+        Ok(())
+    }
+
+    fn storing_failed(&mut self, topic_name: &str, e: std::io::Error) {
+        error!("StorageManager: Failed to store messages of '{}': {}", topic_name, e);
+        if let Some(ctx) = self.topics.get_mut(topic_name) {
+            ctx.failed = true;
+            if let Some(path) = &ctx.active_path {
+                self.open_files.pop(path);
             }
-            Err(e) => error!("StorageManager: Failed to open file {:?}: {}", path, e),
         }
     }
 
     async fn get_or_open_writer(&mut self, path: &PathBuf) -> Result<&mut BufWriter<File>, std::io::Error> {
         if !self.open_files.contains(path) {
             if self.open_files.len() == self.open_files.cap().get() {
-                if let Some((_, mut evicted_writer)) = self.open_files.pop_lru() {
-                    let _ = evicted_writer.flush().await;
+                if let Some((evicted_path, mut evicted_writer)) = self.open_files.pop_lru() {
+                    if let Err(e) = evicted_writer.flush().await {
+                        error!("StorageManager: Failed to write to {:?}: {}", evicted_path, e);
+                        if let Some(ctx) = self.topics.values_mut().find(|ctx| ctx.active_path.as_ref() == Some(&evicted_path)) {
+                            ctx.failed = true;
+                        }
+                    }
                 }
             }
             let file = OpenOptions::new().create(true).append(true).open(path).await?;
@@ -288,21 +313,41 @@ impl StorageManager {
     }
 
     async fn flush_all(&mut self) {
-        for (_, writer) in self.open_files.iter_mut() {
-            let _ = writer.flush().await;
+        let topics_to_flush: Vec<String> = self.dirty_topics.drain().collect();
+        for name in topics_to_flush {
+            if let Err(e) = self.flush_topic(&name).await {
+                self.storing_failed(&name, e);
+                self.dirty_topics.insert(name);
+            }
         }
+    }
 
-        if !self.dirty_topics.is_empty() {
-            let topics_to_flush: Vec<String> = self.dirty_topics.drain().collect();
-            for name in topics_to_flush {
-                if let Some(ctx) = self.topics.get_mut(&name) {
-                    if ctx.highest_pending_seq > 0 {
-                        ctx.persisted_seq.store(ctx.highest_pending_seq, Ordering::Release);
-                        ctx.highest_pending_seq = 0;
-                    }
+    async fn flush_topic(&mut self, topic_name: &str) -> std::io::Result<()> {
+        let Some(ctx) = self.topics.get_mut(topic_name) else { return Ok(()) };
+        if ctx.failed {
+            if let Some(path) = &ctx.active_path {
+                if path.exists() {
+                    truncate_segment(path, ctx.flushed_size).await?;
                 }
             }
+            ctx.current_file_size = ctx.flushed_size;
+            ctx.written = 0;
+            ctx.failed = false;
+            self.write_unwritten(topic_name).await?;
+        }
+
+        let Some(ctx) = self.topics.get_mut(topic_name) else { return Ok(()) };
+        if let Some(writer) = ctx.active_path.as_ref().and_then(|path| self.open_files.peek_mut(path)) {
+            writer.flush().await?;
         }
+        ctx.unflushed.clear();
+        ctx.written = 0;
+        ctx.flushed_size = ctx.current_file_size;
+        if ctx.highest_pending_seq > 0 {
+            ctx.persisted_seq.store(ctx.highest_pending_seq, Ordering::Release);
+            ctx.highest_pending_seq = 0;
+        }
+        Ok(())
     }
 
     async fn cold_read(&self, topic_name: &str, from_seq: u64, limit: usize) -> Vec<Message> {
@@ -319,7 +364,8 @@ impl StorageManager {
         if let Some(idx) = segments.iter().rposition(|s| s.start_seq <= current_from_seq) {
             for segment in segments.iter().skip(idx) {
                 if remaining_limit == 0 { break; }
-                let msgs = read_log_segment(&segment.path, current_from_seq, remaining_limit).await;
+                // What follows a file that cannot be read must not be returned in its place
+                let Ok(msgs) = read_log_segment(&segment.path, current_from_seq, remaining_limit).await else { break };
                 if !msgs.is_empty() {
                     current_from_seq = msgs.last().unwrap().seq + 1;
                     remaining_limit = remaining_limit.saturating_sub(msgs.len());
@@ -346,16 +392,18 @@ impl StorageManager {
         if let Some(max_age) = retention.max_age_ms {
             let limit = std::time::SystemTime::now() - Duration::from_millis(max_age);
             let mut survivors = Vec::new();
+            let mut removing = true;
             let last_start_seq = segments.last().map(|seg| seg.start_seq);
             for seg in segments {
                 let mut deleted = false;
-                if Some(seg.start_seq) != last_start_seq {
+                if removing && Some(seg.start_seq) != last_start_seq {
                     if let Ok(metadata) = tokio::fs::metadata(&seg.path).await {
                         if let Ok(modified) = metadata.modified() {
                             if modified < limit {
                                 self.open_files.pop(&seg.path);
-                                let _ = tokio::fs::remove_file(&seg.path).await;
-                                deleted = true;
+                                // The files after one that stays must stay too
+                                deleted = tokio::fs::remove_file(&seg.path).await.is_ok();
+                                removing = deleted;
                             }
                         }
                     }
@@ -375,7 +423,7 @@ impl StorageManager {
                 let seg = &segments[i];
                 let size = tokio::fs::metadata(&seg.path).await.map(|m| m.len()).unwrap_or(0);
                 self.open_files.pop(&seg.path);
-                let _ = tokio::fs::remove_file(&seg.path).await;
+                if tokio::fs::remove_file(&seg.path).await.is_err() { break; }
                 current_total = current_total.saturating_sub(size);
                 i += 1;
             }
@@ -408,26 +456,22 @@ pub fn serialize_message(buf: &mut Vec<u8>, seq: u64, timestamp: u64, payload: &
 }
 
 /// Read messages from a log segment file starting at a given seq.
-pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> Vec<Message> {
+pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> std::io::Result<Vec<Message>> {
     use bytes::Buf;
     let mut msgs = Vec::new();
-    let file = match File::open(path).await {
-        Ok(f) => f,
-        Err(_) => return msgs,
-    };
-    let mut reader = BufReader::new(file);
+    let mut reader = BufReader::new(File::open(path).await?);
 
     loop {
         let mut len_buf = [0u8; 4];
-        if reader.read_exact(&mut len_buf).await.is_err() { break; }
+        if !read_or_eof(&mut reader, &mut len_buf).await? { break; }
         let len = u32::from_be_bytes(len_buf);
 
         let mut crc_buf = [0u8; 4];
-        if reader.read_exact(&mut crc_buf).await.is_err() { break; }
+        if !read_or_eof(&mut reader, &mut crc_buf).await? { break; }
         let stored_crc = u32::from_be_bytes(crc_buf);
 
         let mut content_buf = vec![0u8; len as usize];
-        if reader.read_exact(&mut content_buf).await.is_err() { break; }
+        if !read_or_eof(&mut reader, &mut content_buf).await? { break; }
 
         let mut hasher = Hasher::new();
         hasher.update(&content_buf);
@@ -446,7 +490,16 @@ pub async fn read_log_segment(path: &PathBuf, start_seq: u64, limit: usize) -> V
             if msgs.len() >= limit { break; }
         }
     }
-    msgs
+    Ok(msgs)
+}
+
+/// `false` at the end of the file.
+async fn read_or_eof(reader: &mut BufReader<File>, buf: &mut [u8]) -> std::io::Result<bool> {
+    match reader.read_exact(buf).await {
+        Ok(_) => Ok(true),
+        Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => Ok(false),
+        Err(e) => Err(e),
+    }
 }
 
 /// Recover topic state from filesystem.
@@ -486,6 +539,20 @@ pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredSta
     state
 }
 
+/// The file new messages of a topic are appended to, and its size.
+async fn locate_active_file(base_path: &Path) -> std::io::Result<(PathBuf, u64)> {
+    if !base_path.exists() {
+        tokio::fs::create_dir_all(base_path).await?;
+    }
+    match find_segments(base_path).await?.pop() {
+        Some(last) => {
+            let size = tokio::fs::metadata(&last.path).await?.len();
+            Ok((last.path, size))
+        }
+        None => Ok((base_path.join("1.log"), 0)),
+    }
+}
+
 /// Find all segment files for a topic, sorted by start_seq.
 pub async fn find_segments(base_path: &Path) -> std::io::Result<Vec<Segment>> {
     let mut segments = Vec::new();
-- 
2.43.0


From 284c76ab9b9bb2bf55a49921f09f562958e213fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 44/55] fix: group positions that could not be saved are saved
 at the next flush

---
 src/brokers/stream/domain/persistence.rs | 25 ++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index 4755f47..ea77c03 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -125,6 +125,8 @@ pub struct StorageManager {
     flush_interval: Duration,
     max_segment_size: u64,
     dirty_topics: HashSet<String>,
+    /// Groups that could not be saved: tried again at the next flush
+    unsaved_groups: HashMap<String, HashMap<String, u64>>,
 }
 
 impl StorageManager {
@@ -143,6 +145,7 @@ impl StorageManager {
             flush_interval: Duration::from_millis(flush_interval_ms),
             max_segment_size,
             dirty_topics: HashSet::new(),
+            unsaved_groups: HashMap::new(),
         }
     }
 
@@ -184,10 +187,7 @@ impl StorageManager {
                 let _ = reply.send(msgs);
             }
             StorageCommand::SaveGroups { topic_name, groups_data } => {
-                let base_path = self.base_path.join(&topic_name);
-                if let Err(e) = save_groups_file(&base_path, &groups_data).await {
-                    error!("Failed to save groups for {}: {}", topic_name, e);
-                }
+                self.save_groups(topic_name, groups_data).await;
             }
             StorageCommand::ApplyRetention { topic_name, retention, max_segment_size: _, reply } => {
                 let base_path = self.base_path.join(&topic_name);
@@ -198,6 +198,7 @@ impl StorageManager {
                 if let Some(path) = self.topics.remove(&topic_name).and_then(|ctx| ctx.active_path) {
                     self.open_files.pop(&path);
                 }
+                self.unsaved_groups.remove(&topic_name);
                 let topic_path = self.base_path.join(&topic_name);
                 if topic_path.exists() {
                     // Moved away first: a crash leaves either the whole topic or nothing of it
@@ -320,6 +321,22 @@ impl StorageManager {
                 self.dirty_topics.insert(name);
             }
         }
+
+        for (name, groups_data) in std::mem::take(&mut self.unsaved_groups) {
+            self.save_groups(name, groups_data).await;
+        }
+    }
+
+    async fn save_groups(&mut self, topic_name: String, groups_data: HashMap<String, u64>) {
+        match save_groups_file(&self.base_path.join(&topic_name), &groups_data).await {
+            Ok(()) => {
+                self.unsaved_groups.remove(&topic_name);
+            }
+            Err(e) => {
+                error!("Failed to save groups for {}: {}", topic_name, e);
+                self.unsaved_groups.insert(topic_name, groups_data);
+            }
+        }
     }
 
     async fn flush_topic(&mut self, topic_name: &str) -> std::io::Result<()> {
-- 
2.43.0


From 4dd1d24b3cd943fa3e6469e5ff02c930c2c14391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 45/55] fix: deleting a stream reports that its files could not
 be removed

---
 src/brokers/stream/domain/persistence.rs | 13 +++++++++----
 src/brokers/stream/manager.rs            |  4 +++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index ea77c03..aa39302 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -94,7 +94,7 @@ pub enum StorageCommand {
 
     DropTopic {
         topic_name: String,
-        reply: oneshot::Sender<()>,
+        reply: oneshot::Sender<std::io::Result<()>>,
     }
 }
 
@@ -200,13 +200,18 @@ impl StorageManager {
                 }
                 self.unsaved_groups.remove(&topic_name);
                 let topic_path = self.base_path.join(&topic_name);
+                let mut outcome = Ok(());
                 if topic_path.exists() {
                     // Moved away first: a crash leaves either the whole topic or nothing of it
                     let trash_path = self.base_path.join(format!("{}{}", DELETED_PREFIX, uuid::Uuid::new_v4()));
-                    let doomed = if std::fs::rename(&topic_path, &trash_path).is_ok() { trash_path } else { topic_path };
-                    let _ = std::fs::remove_dir_all(&doomed);
+                    if std::fs::rename(&topic_path, &trash_path).is_ok() {
+                        // What is left of it is removed at the next start
+                        let _ = std::fs::remove_dir_all(&trash_path);
+                    } else {
+                        outcome = std::fs::remove_dir_all(&topic_path);
+                    }
                 }
-                let _ = reply.send(());
+                let _ = reply.send(outcome);
             }
         }
     }
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 04f6ef4..2f760dc 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -190,7 +190,9 @@ impl StreamManager {
                 topic_name: name,
                 reply: del_tx,
             });
-            let _ = del_rx.await;
+            if let Ok(Err(e)) = del_rx.await {
+                return Err(format!("Failed to delete topic files: {}", e));
+            }
         }
         Ok(())
     }
-- 
2.43.0


From dd556bd1781aade7df915b0d250d5d94d21e0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:12 +0000
Subject: [PATCH 46/55] fix: a stream that cannot be read at startup is not
 replaced by an empty one

---
 src/brokers/stream/domain/persistence.rs | 82 +++++++++---------------
 src/brokers/stream/manager.rs            | 36 +++++++----
 2 files changed, 54 insertions(+), 64 deletions(-)

diff --git a/src/brokers/stream/domain/persistence.rs b/src/brokers/stream/domain/persistence.rs
index aa39302..134cf65 100644
--- a/src/brokers/stream/domain/persistence.rs
+++ b/src/brokers/stream/domain/persistence.rs
@@ -524,41 +524,34 @@ async fn read_or_eof(reader: &mut BufReader<File>, buf: &mut [u8]) -> std::io::R
     }
 }
 
-/// Recover topic state from filesystem.
-pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> RecoveredState {
+/// Recover topic state from filesystem. What cannot be read must not be taken for empty.
+pub async fn recover_topic(topic_name: &str, base_path: PathBuf) -> std::io::Result<RecoveredState> {
     let base_path = base_path.join(topic_name);
     let mut state = RecoveredState::default();
-    if !base_path.exists() { return state; }
-
-    if let Ok(mut segments) = find_segments(&base_path).await {
-        state.head_seq = segments.first().map(|seg| seg.start_seq).unwrap_or(1);
-        while let Some(last_segment) = segments.last() {
-            let (messages, valid_len) = load_segment_file(&last_segment.path).await;
-            // A crash can leave a torn record behind: new records must not follow it.
-            if let Some(valid_len) = valid_len {
-                if let Err(e) = truncate_segment(&last_segment.path, valid_len).await {
-                    error!("Failed to truncate torn segment {:?}: {}", last_segment.path, e);
-                }
-            }
-            if valid_len == Some(0) && segments.len() > 1 {
-                // Nothing was written to it: the log ends in the segment before.
-                let _ = tokio::fs::remove_file(&last_segment.path).await;
-                segments.pop();
-                continue;
-            }
-            state.messages = messages;
-            break;
+    if !base_path.exists() { return Ok(state); }
+
+    let mut segments = find_segments(&base_path).await?;
+    state.head_seq = segments.first().map(|seg| seg.start_seq).unwrap_or(1);
+    while let Some(last_segment) = segments.last() {
+        let (messages, valid_len) = load_segment_file(&last_segment.path).await?;
+        // A crash can leave a torn record behind: new records must not follow it.
+        truncate_segment(&last_segment.path, valid_len).await?;
+        if valid_len == 0 && segments.len() > 1 {
+            // Nothing was written to it: the log ends in the segment before.
+            let _ = tokio::fs::remove_file(&last_segment.path).await;
+            segments.pop();
+            continue;
         }
-        state.segments = segments;
+        state.messages = messages;
+        break;
     }
+    state.segments = segments;
 
     let groups_path = base_path.join("groups.log");
     if groups_path.exists() {
-        if let Ok(groups) = load_groups_file(&groups_path).await {
-            state.groups_data = groups;
-        }
+        state.groups_data = load_groups_file(&groups_path).await?;
     }
-    state
+    Ok(state)
 }
 
 /// The file new messages of a topic are appended to, and its size.
@@ -646,38 +639,23 @@ async fn truncate_segment(path: &Path, valid_len: u64) -> std::io::Result<()> {
     Ok(())
 }
 
-/// Load the intact records of a segment file, and how many bytes they take
-/// (`None` if the file could not be read to its end).
-async fn load_segment_file(path: &PathBuf) -> (VecDeque<Message>, Option<u64>) {
+/// Load the intact records of a segment file, and how many bytes they take.
+async fn load_segment_file(path: &PathBuf) -> std::io::Result<(VecDeque<Message>, u64)> {
     use bytes::Buf;
     let mut msgs = VecDeque::new();
     let mut valid_len = 0;
-    let file = match File::open(path).await {
-        Ok(f) => f,
-        Err(_) => return (msgs, None),
-    };
-
-    let mut reader = BufReader::new(file);
+    let mut reader = BufReader::new(File::open(path).await?);
     loop {
         let mut len_buf = [0u8; 4];
-        if let Err(e) = reader.read_exact(&mut len_buf).await {
-            if e.kind() != std::io::ErrorKind::UnexpectedEof { return (msgs, None); }
-            break;
-        }
+        if !read_or_eof(&mut reader, &mut len_buf).await? { break; }
         let len = u32::from_be_bytes(len_buf);
 
         let mut crc_buf = [0u8; 4];
-        if let Err(e) = reader.read_exact(&mut crc_buf).await {
-            if e.kind() != std::io::ErrorKind::UnexpectedEof { return (msgs, None); }
-            break;
-        }
+        if !read_or_eof(&mut reader, &mut crc_buf).await? { break; }
         let stored_crc = u32::from_be_bytes(crc_buf);
 
         let mut content_buf = vec![0u8; len as usize];
-        if let Err(e) = reader.read_exact(&mut content_buf).await {
-            if e.kind() != std::io::ErrorKind::UnexpectedEof { return (msgs, None); }
-            break;
-        }
+        if !read_or_eof(&mut reader, &mut content_buf).await? { break; }
 
         let mut hasher = Hasher::new();
         hasher.update(&content_buf);
@@ -694,7 +672,7 @@ async fn load_segment_file(path: &PathBuf) -> (VecDeque<Message>, Option<u64>) {
         msgs.push_back(Message { seq, timestamp, payload });
         valid_len += 8 + len as u64;
     }
-    (msgs, Some(valid_len))
+    Ok((msgs, valid_len))
 }
 
 async fn load_groups_file(path: &PathBuf) -> Result<HashMap<String, u64>, std::io::Error> {
@@ -705,15 +683,15 @@ async fn load_groups_file(path: &PathBuf) -> Result<HashMap<String, u64>, std::i
 
     loop {
         let mut len_buf = [0u8; 4];
-        if reader.read_exact(&mut len_buf).await.is_err() { break; }
+        if !read_or_eof(&mut reader, &mut len_buf).await? { break; }
         let len = u32::from_be_bytes(len_buf);
 
         let mut crc_buf = [0u8; 4];
-        if reader.read_exact(&mut crc_buf).await.is_err() { break; }
+        if !read_or_eof(&mut reader, &mut crc_buf).await? { break; }
         let stored_crc = u32::from_be_bytes(crc_buf);
 
         let mut content_buf = vec![0u8; len as usize];
-        if reader.read_exact(&mut content_buf).await.is_err() { break; }
+        if !read_or_eof(&mut reader, &mut content_buf).await? { break; }
 
         let mut hasher = Hasher::new();
         hasher.update(&content_buf);
diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 2f760dc..4041ba1 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -136,7 +136,8 @@ impl StreamManager {
 
         let base_path = PathBuf::from(&self.config.persistence_path).join(&name);
         let existed_on_disk = tokio::fs::metadata(&base_path).await.map(|meta| meta.is_dir()).unwrap_or(false);
-        let topic_config = Self::load_topic_config(&base_path, options, &self.config).await;
+        let topic_config = Self::load_topic_config(&base_path, options, &self.config).await
+            .map_err(|e| format!("Failed to read topic config: {}", e))?;
 
         info!("[StreamManager] Creating topic '{}'", name);
 
@@ -153,7 +154,8 @@ impl StreamManager {
             }
         }
 
-        let shared = Self::build_topic_shared(name.clone(), topic_config).await;
+        let shared = Self::build_topic_shared(name.clone(), topic_config).await
+            .map_err(|e| format!("Failed to read topic files: {}", e))?;
 
         use dashmap::mapref::entry::Entry;
         match self.topics.entry(name) {
@@ -506,16 +508,17 @@ impl StreamManager {
         topics.iter().map(|entry| (entry.key().clone(), entry.value().clone())).collect()
     }
 
-    async fn load_topic_config(base_path: &PathBuf, options: StreamCreateOptions, config: &SystemStreamConfig) -> TopicConfig {
+    async fn load_topic_config(base_path: &PathBuf, options: StreamCreateOptions, config: &SystemStreamConfig) -> std::io::Result<TopicConfig> {
         let config_path = base_path.join("config.json");
-        let mut topic_config = if let Ok(data) = tokio::fs::read_to_string(&config_path).await {
-            serde_json::from_str(&data).unwrap_or_else(|_| TopicConfig::from_options(options, config))
+        let mut topic_config = if config_path.exists() {
+            let data = tokio::fs::read(&config_path).await?;
+            serde_json::from_slice(&data).unwrap_or_else(|_| TopicConfig::from_options(options, config))
         } else {
             TopicConfig::from_options(options, config)
         };
         // The data may have been moved since the topic was created.
         topic_config.persistence_path = config.persistence_path.clone();
-        topic_config
+        Ok(topic_config)
     }
 
     /// Written under another name first: a crash leaves either no config or all of it.
@@ -565,8 +568,17 @@ impl StreamManager {
                 continue;
             }
 
-            let topic_config = Self::load_topic_config(&path, StreamCreateOptions::default(), &self.config).await;
-            let topic_ref = Self::build_topic_shared(name.clone(), topic_config).await;
+            let restored = match Self::load_topic_config(&path, StreamCreateOptions::default(), &self.config).await {
+                Ok(topic_config) => Self::build_topic_shared(name.clone(), topic_config).await,
+                Err(e) => Err(e),
+            };
+            let topic_ref = match restored {
+                Ok(topic_ref) => topic_ref,
+                Err(e) => {
+                    tracing::error!("Failed to restore topic '{}': {}", name, e);
+                    continue;
+                }
+            };
 
             use dashmap::mapref::entry::Entry;
             match self.topics.entry(name.clone()) {
@@ -579,13 +591,13 @@ impl StreamManager {
         }
     }
 
-    async fn build_topic_shared(name: String, config: TopicConfig) -> Arc<TopicShared> {
+    async fn build_topic_shared(name: String, config: TopicConfig) -> std::io::Result<Arc<TopicShared>> {
         let base_path = PathBuf::from(&config.persistence_path).join(&name);
         if let Err(e) = tokio::fs::create_dir_all(&base_path).await {
             tracing::error!("Failed to create topic directory at {:?}: {}", base_path, e);
         }
 
-        let recovered = recover_topic(&name, PathBuf::from(config.persistence_path.clone())).await;
+        let recovered = recover_topic(&name, PathBuf::from(config.persistence_path.clone())).await?;
         let state = TopicState::restore(name.clone(), config.ram_soft_limit, recovered.head_seq.max(1), recovered.messages);
 
         let ack_wait = Duration::from_millis(config.ack_wait_ms);
@@ -600,7 +612,7 @@ impl StreamManager {
             );
         }
 
-        Arc::new(TopicShared {
+        Ok(Arc::new(TopicShared {
             inner: Mutex::new(TopicInner {
                 state,
                 groups,
@@ -611,7 +623,7 @@ impl StreamManager {
             }),
             notify: Notify::new(),
             persisted_seq,
-        })
+        }))
     }
 
     fn spawn_background_tasks(&self) {
-- 
2.43.0


From 3d710bd067e996d364f8508cb70bf73fecaff72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:17 +0000
Subject: [PATCH 47/55] fix: a waiting fetch waits while its group is at its
 limit

It returned empty at once, so that an idle member of a group at its limit
asked again and again, and an acknowledgement that made room woke nobody.
---
 src/brokers/stream/manager.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 4041ba1..fac82ca 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -324,11 +324,16 @@ impl StreamManager {
         };
 
         let was_clamped = group_ref.clamp_head(head_seq);
+        let was_backpressured = group_ref.is_backpressured();
         group_ref.ack(consumer_id, generation, seq)?;
         if was_clamped {
             inner.groups_dirty = true;
         }
         inner.groups_dirty = true;
+        drop(inner);
+        if was_backpressured {
+            topic_ref.notify.notify_waiters();
+        }
         Ok(())
     }
 
@@ -790,7 +795,7 @@ impl StreamManager {
 
             let messages = group_ref.fetch(consumer_id, generation, limit, &state.log, ram_start_seq, head_seq)?;
             if messages.is_empty() && group_ref.is_backpressured() {
-                return Ok(FetchAttempt::Ready(messages));
+                return Ok(FetchAttempt::Wait);
             }
             let is_fetching_cold = group_ref.is_fetching_cold;
             let from_seq = group_ref.next_fetch_seq(head_seq);
-- 
2.43.0


From 9a3252360415f9571241487f633241600de1c167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:53 +0000
Subject: [PATCH 48/55] fix: a waiting fetch waits while another member reads
 from disk

It returned empty at once, although more messages were on disk.
---
 src/brokers/stream/manager.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index fac82ca..d0ec353 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -41,7 +41,7 @@ struct TopicInner {
     deleted: bool,
 }
 
-/// Ends a cold fetch of a group when the request is dropped while reading from disk.
+/// Ends a cold fetch of a group, also when the request is dropped while reading from disk.
 struct ColdFetchGuard<'a> {
     topic_ref: &'a TopicShared,
     group: &'a str,
@@ -55,9 +55,9 @@ impl Drop for ColdFetchGuard<'_> {
             if let Some(group_ref) = inner.groups.get_mut(self.group) {
                 group_ref.is_fetching_cold = false;
             }
-            drop(inner);
-            self.topic_ref.notify.notify_waiters();
         }
+        // Other members waited for it
+        self.topic_ref.notify.notify_waiters();
     }
 }
 
@@ -811,7 +811,7 @@ impl StreamManager {
         }
 
         if is_fetching_cold {
-            return Ok(FetchAttempt::Ready(Vec::new()));
+            return Ok(FetchAttempt::Wait);
         }
 
         if from_seq < next_seq {
-- 
2.43.0


From 6af2bf8118c84e0facb68966ab37c3338fd1490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 49/55] fix: a queue whose database could not be opened or
 written is stored at a later flush

---
 src/brokers/queue/domain/persistence.rs | 58 +++++++++++++++----------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/brokers/queue/domain/persistence.rs b/src/brokers/queue/domain/persistence.rs
index 10b080d..4583736 100644
--- a/src/brokers/queue/domain/persistence.rs
+++ b/src/brokers/queue/domain/persistence.rs
@@ -132,25 +132,7 @@ async fn run_writer(
     flush_ms: u64,
     batch_size: usize,
 ) {
-    let mut conn = match Connection::open(&db_path) {
-        Ok(c) => c,
-        Err(e) => {
-            error!("FATAL: Cannot open queue DB at {:?}: {}", db_path, e);
-            return;
-        }
-    };
-    if let Err(e) = conn.execute_batch(
-        // Writer connection pragmas for high-throughput batch operations
-        // synchronous=OFF for performance (data is flushed periodically via timer)
-        "PRAGMA journal_mode = WAL;
-         PRAGMA synchronous = OFF;
-         PRAGMA cache_size = -64000;
-         PRAGMA temp_store = MEMORY;
-         PRAGMA mmap_size = 268435456;
-         PRAGMA page_size = 8192;"
-    ) {
-        error!("Failed to set writer pragmas: {}", e);
-    }
+    let mut conn = open_writer(&db_path);
 
     info!("Queue Persistence Writer started for {:?}", db_path);
 
@@ -175,13 +157,13 @@ async fn run_writer(
                         }
 
                         if batch.len() >= batch_size {
-                            flush_batch(&mut conn, &mut batch);
+                            flush_batch(&mut conn, &db_path, &mut batch);
                         }
                     }
                     None => {
                         // Sender dropped — flush remaining and exit
                         if !batch.is_empty() {
-                            flush_batch(&mut conn, &mut batch);
+                            flush_batch(&mut conn, &db_path, &mut batch);
                         }
                         info!("Queue Persistence Writer stopped for {:?}", db_path);
                         return;
@@ -191,14 +173,43 @@ async fn run_writer(
             
             _ = flush_timer.tick() => {
                 if !batch.is_empty() {
-                    flush_batch(&mut conn, &mut batch);
+                    flush_batch(&mut conn, &db_path, &mut batch);
                 }
             }
         }
     }
 }
 
-fn flush_batch(conn: &mut Connection, batch: &mut Vec<StorageOp>) {
+fn open_writer(db_path: &PathBuf) -> Option<Connection> {
+    let opened = Connection::open(db_path).and_then(|conn| init_db(&conn).map(|_| conn));
+    let conn = match opened {
+        Ok(c) => c,
+        Err(e) => {
+            error!("Cannot open queue DB at {:?}: {}", db_path, e);
+            return None;
+        }
+    };
+    if let Err(e) = conn.execute_batch(
+        // Writer connection pragmas for high-throughput batch operations
+        // synchronous=OFF for performance (data is flushed periodically via timer)
+        "PRAGMA journal_mode = WAL;
+         PRAGMA synchronous = OFF;
+         PRAGMA cache_size = -64000;
+         PRAGMA temp_store = MEMORY;
+         PRAGMA mmap_size = 268435456;
+         PRAGMA page_size = 8192;"
+    ) {
+        error!("Failed to set writer pragmas: {}", e);
+    }
+    Some(conn)
+}
+
+fn flush_batch(writer: &mut Option<Connection>, db_path: &PathBuf, batch: &mut Vec<StorageOp>) {
+    // A connection that failed may not be able to write at all: the next flush opens another
+    let Some(mut conn) = writer.take().or_else(|| open_writer(db_path)) else {
+        return;
+    };
+
     let tx = match conn.transaction() {
         Ok(t) => t,
         Err(e) => {
@@ -221,6 +232,7 @@ fn flush_batch(conn: &mut Connection, batch: &mut Vec<StorageOp>) {
     }
     
     batch.clear();
+    *writer = Some(conn);
 }
 
 // ==========================================
-- 
2.43.0


From 9e7b5f45ce812622177d853950f0bc7e8b630e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 50/55] fix: deleting a queue reports that its files could not
 be removed

---
 src/brokers/queue/manager.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 28690fe..51ec8c8 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -296,10 +296,15 @@ impl QueueManager {
         let shm_path = base_path.join(format!("{}.db-shm", name));
         let config_path = base_path.join(format!("{}.config.json", name));
 
-        let _ = std::fs::remove_file(db_path);
-        let _ = std::fs::remove_file(wal_path);
-        let _ = std::fs::remove_file(shm_path);
-        let _ = std::fs::remove_file(config_path);
+        // The database first: without it the queue is gone
+        for path in [db_path, wal_path, shm_path, config_path] {
+            match std::fs::remove_file(path) {
+                Err(e) if e.kind() != std::io::ErrorKind::NotFound => {
+                    return Err(format!("Failed to delete queue files: {}", e));
+                }
+                _ => {}
+            }
+        }
 
         Ok(())
     }
-- 
2.43.0


From 45e805efbe4aa290f72c4dbd6a3c0d178150aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 51/55] fix: a queue that cannot be read at startup is not
 replaced by an empty one

---
 src/brokers/queue/manager.rs | 66 +++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 19 deletions(-)

diff --git a/src/brokers/queue/manager.rs b/src/brokers/queue/manager.rs
index 51ec8c8..489d813 100644
--- a/src/brokers/queue/manager.rs
+++ b/src/brokers/queue/manager.rs
@@ -80,15 +80,18 @@ impl QueueManager {
                                 let queue_name = filename.strip_suffix(".db").unwrap_or(filename).to_string();
 
                                 let config_path = persistence_path.join(format!("{}.config.json", queue_name));
-                                let config = if let Ok(data) = std::fs::read_to_string(&config_path) {
-                                    serde_json::from_str(&data).unwrap_or_else(|_| QueueConfig::from_options(QueueCreateOptions::default(), &system_config))
-                                } else {
-                                    QueueConfig::from_options(QueueCreateOptions::default(), &system_config)
-                                };
-
-                                let shared = Self::build_queue(queue_name.clone(), config, &system_config);
-                                queues.insert(queue_name.clone(), shared);
-                                info!("[QueueManager] Warm start: Restored queue '{}'", queue_name);
+                                // A queue that cannot be read is not served as if it were empty
+                                let restored = Self::load_config(&config_path).and_then(|config| {
+                                    let config = config.unwrap_or_else(|| QueueConfig::from_options(QueueCreateOptions::default(), &system_config));
+                                    Self::build_queue(queue_name.clone(), config, &system_config)
+                                });
+                                match restored {
+                                    Ok(shared) => {
+                                        queues.insert(queue_name.clone(), shared);
+                                        info!("[QueueManager] Warm start: Restored queue '{}'", queue_name);
+                                    }
+                                    Err(e) => error!("[QueueManager] Warm start: Failed to restore queue '{}': {}", queue_name, e),
+                                }
                             }
                         }
                     }
@@ -104,9 +107,19 @@ impl QueueManager {
     // INTERNAL HELPERS
     // ==========================================
 
-    fn build_queue(name: String, config: QueueConfig, system_config: &SystemQueueConfig) -> Arc<QueueShared> {
+    /// The settings the queue was created with, if there are any.
+    fn load_config(config_path: &std::path::Path) -> Result<Option<QueueConfig>, String> {
+        match std::fs::read_to_string(config_path) {
+            Ok(data) => Ok(serde_json::from_str(&data).ok()),
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+            Err(e) => Err(format!("Failed to read queue config: {}", e)),
+        }
+    }
+
+    fn build_queue(name: String, config: QueueConfig, system_config: &SystemQueueConfig) -> Result<Arc<QueueShared>, String> {
         let persistence_path = std::path::PathBuf::from(&system_config.persistence_path);
         let db_path = persistence_path.join(format!("{}.db", name));
+        let existed_on_disk = db_path.exists();
         let store = QueueStore::new(
             db_path,
             system_config.default_flush_ms,
@@ -135,10 +148,13 @@ impl QueueManager {
             }
             Err(e) => {
                 error!("Queue '{}': Persistence recovery failed: {}", name, e);
+                if existed_on_disk {
+                    return Err(e);
+                }
             }
         }
 
-        Arc::new(QueueShared {
+        Ok(Arc::new(QueueShared {
             inner: Mutex::new(QueueInner {
                 name,
                 state: main_state,
@@ -147,7 +163,7 @@ impl QueueManager {
             }),
             notify: Notify::new(),
             store,
-        })
+        }))
     }
 
     fn spawn_timeout_task(&self) {
@@ -258,16 +274,28 @@ impl QueueManager {
         match self.queues.entry(name.clone()) {
             Entry::Occupied(_) => Ok(()),
             Entry::Vacant(v) => {
-                let config = QueueConfig::from_options(options, &self.config);
-
-                // Persist config
                 let persistence_path = std::path::PathBuf::from(&self.config.persistence_path);
                 let config_path = persistence_path.join(format!("{}.config.json", name));
-                if let Ok(data) = serde_json::to_string_pretty(&config) {
-                    let _ = std::fs::write(&config_path, data);
-                }
 
-                let shared = Self::build_queue(name, config, &self.config);
+                // A queue that could not be restored at startup keeps its settings
+                let stored = if persistence_path.join(format!("{}.db", name)).exists() {
+                    Self::load_config(&config_path)?
+                } else {
+                    None
+                };
+                let config = match stored {
+                    Some(config) => config,
+                    None => {
+                        let config = QueueConfig::from_options(options, &self.config);
+                        // Persist config
+                        if let Ok(data) = serde_json::to_string_pretty(&config) {
+                            let _ = std::fs::write(&config_path, data);
+                        }
+                        config
+                    }
+                };
+
+                let shared = Self::build_queue(name, config, &self.config)?;
                 v.insert(shared);
                 Ok(())
             }
-- 
2.43.0


From 165208af49f04d81ae20971f0798c8bcdcfedfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 52/55] fix: retained messages that could not be loaded at
 startup are loaded later instead of overwritten

---
 src/brokers/pub-sub/domain/persistence.rs |  9 +--
 src/brokers/pub-sub/manager.rs            | 89 +++++++++++++++--------
 2 files changed, 63 insertions(+), 35 deletions(-)

diff --git a/src/brokers/pub-sub/domain/persistence.rs b/src/brokers/pub-sub/domain/persistence.rs
index 8c02918..def4741 100644
--- a/src/brokers/pub-sub/domain/persistence.rs
+++ b/src/brokers/pub-sub/domain/persistence.rs
@@ -33,11 +33,10 @@ pub(crate) fn load_all(conn: &Connection) -> std::result::Result<Vec<(String, Re
 
     let mut results = Vec::new();
     for entry in entries {
-        if let Ok((path, data, expires)) = entry {
-            let msg = RetainedMessage::from_persisted(data, expires);
-            if !msg.is_expired() {
-                results.push((path, msg));
-            }
+        let (path, data, expires) = entry?;
+        let msg = RetainedMessage::from_persisted(data, expires);
+        if !msg.is_expired() {
+            results.push((path, msg));
         }
     }
     Ok(results)
diff --git a/src/brokers/pub-sub/manager.rs b/src/brokers/pub-sub/manager.rs
index 40e455f..72ef557 100644
--- a/src/brokers/pub-sub/manager.rs
+++ b/src/brokers/pub-sub/manager.rs
@@ -3,7 +3,7 @@ use std::sync::atomic::{AtomicBool, Ordering};
 use std::time::Duration;
 use bytes::Bytes;
 use dashmap::DashMap;
-use parking_lot::RwLock;
+use parking_lot::{Mutex, RwLock};
 use tokio::sync::mpsc;
 use std::collections::HashSet;
 
@@ -18,6 +18,9 @@ pub struct PubSubManager {
     tree: Arc<RwLock<Node>>,
     clients: ClientRegistry,
     retained_dirty: Arc<AtomicBool>,
+    /// While the stored retained messages could not be loaded: the topics whose
+    /// retained message was set or cleared since the start (these are newer).
+    unloaded: Arc<Mutex<Option<HashSet<String>>>>,
     config: Arc<PubSubConfig>,
 }
 
@@ -29,46 +32,46 @@ impl PubSubManager {
         let persistence_path = format!("{}/retained.db", config.persistence_path);
 
         // Load retained from SQLite
-        if let Ok(conn) = persistence::init_db(&persistence_path) {
-            if let Ok(loaded) = persistence::load_all(&conn) {
-                let mut root = tree.write();
-                for (path, msg) in loaded {
-                    let parts: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
-                    root.set_retained(&parts, Some(msg));
-                }
-            } else {
-                tracing::warn!("Failed to load retained topics from SQLite DB");
-            }
-        } else {
-             tracing::warn!("Failed to initialize SQLite for retained at {}", persistence_path);
-        }
+        let unloaded = Arc::new(Mutex::new(Some(HashSet::new())));
+        Self::load_retained(&persistence_path, &tree, &unloaded);
 
         // Background Flush Task
         let flush_tree = tree.clone();
         let flush_dirty = retained_dirty.clone();
         let flush_path = persistence_path.clone();
+        let flush_unloaded = unloaded.clone();
         let flush_ms = config.retained_flush_ms;
         
         tokio::spawn(async move {
-            if let Ok(mut conn) = persistence::init_db(&flush_path) {
-                let mut interval = tokio::time::interval(Duration::from_millis(flush_ms));
-                interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
-                loop {
-                    interval.tick().await;
-                    if !flush_dirty.swap(false, Ordering::Relaxed) {
-                        continue;
-                    }
+            let mut writer = persistence::init_db(&flush_path).ok();
+            let mut interval = tokio::time::interval(Duration::from_millis(flush_ms));
+            interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Skip);
+            loop {
+                interval.tick().await;
+                // What was not loaded yet must not be overwritten
+                if flush_unloaded.lock().is_some() && !Self::load_retained(&flush_path, &flush_tree, &flush_unloaded) {
+                    continue;
+                }
+                if !flush_dirty.swap(false, Ordering::Relaxed) {
+                    continue;
+                }
 
-                    let entries = {
-                        let root = flush_tree.read();
-                        let mut results = Vec::new();
-                        root.collect_all_retained(None, &mut results);
-                        results
-                    };
+                let entries = {
+                    let root = flush_tree.read();
+                    let mut results = Vec::new();
+                    root.collect_all_retained(None, &mut results);
+                    results
+                };
 
-                    if let Err(e) = persistence::flush(&mut conn, &entries) {
+                let result = match writer.take() {
+                    Some(conn) => Ok(conn),
+                    None => persistence::init_db(&flush_path),
+                };
+                match result.and_then(|mut conn| persistence::flush(&mut conn, &entries).map(|_| conn)) {
+                    Ok(conn) => writer = Some(conn),
+                    Err(e) => {
                         tracing::error!("Failed to flush retained messages to SQLite: {}", e);
-                        // Nothing was written: try again on the next tick
+                        // Nothing was written: try again on the next tick, with a new connection
                         flush_dirty.store(true, Ordering::Relaxed);
                     }
                 }
@@ -100,10 +103,33 @@ impl PubSubManager {
             tree,
             clients,
             retained_dirty,
+            unloaded,
             config,
         }
     }
 
+    /// Loads the stored retained messages, except those that were set or cleared meanwhile.
+    fn load_retained(path: &str, tree: &RwLock<Node>, unloaded: &Mutex<Option<HashSet<String>>>) -> bool {
+        match persistence::init_db(path).and_then(|conn| persistence::load_all(&conn)) {
+            Ok(loaded) => {
+                let mut root = tree.write();
+                let newer = unloaded.lock().take().unwrap_or_default();
+                for (path, msg) in loaded {
+                    if newer.contains(&path) {
+                        continue;
+                    }
+                    let parts: Vec<String> = path.split('/').map(|s| s.to_string()).collect();
+                    root.set_retained(&parts, Some(msg));
+                }
+                true
+            }
+            Err(e) => {
+                tracing::warn!("Failed to load retained topics from SQLite DB at {}: {}", path, e);
+                false
+            }
+        }
+    }
+
     pub fn connect(&self, client_id: ClientId, sender: mpsc::UnboundedSender<Arc<PubSubMessage>>) {
         self.clients.insert(client_id, ClientInfo {
             sender,
@@ -167,6 +193,9 @@ impl PubSubManager {
                 root.set_retained(&parts, Some(RetainedMessage::new(data.clone(), Some(effective_ttl))));
             }
             self.retained_dirty.store(true, Ordering::Relaxed);
+            if let Some(newer) = self.unloaded.lock().as_mut() {
+                newer.insert(parts.join("/"));
+            }
             // Same lock as the retained update: a client subscribing meanwhile gets
             // the message either as retained value or live, not both
             root.match_subscribers(&parts, &mut matched);
-- 
2.43.0


From 037015dae3660c821bee5f221e567200d9ac9d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:02 +0000
Subject: [PATCH 53/55] fix: a seek forgets the memberships it ends

---
 src/brokers/stream/manager.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index d0ec353..7f6acc7 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -354,6 +354,11 @@ impl StreamManager {
                 SeekTarget::Beginning => group_ref.seek_beginning(head_seq),
                 SeekTarget::End => group_ref.seek_end(last_seq),
             }
+            // A seek ends every membership of the group: forget which connection they belonged to.
+            inner.client_map.retain(|_, bindings| {
+                bindings.retain(|binding| binding.group_id != group);
+                !bindings.is_empty()
+            });
             inner.groups_dirty = true;
         }
         topic_ref.notify.notify_waiters();
-- 
2.43.0


From 2ab95787071af364fe9ab686d72aed46e7dcd72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:02 +0000
Subject: [PATCH 54/55] fix: deleting a topic does not leave its name in memory
 for good

---
 src/brokers/stream/manager.rs | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/brokers/stream/manager.rs b/src/brokers/stream/manager.rs
index 7f6acc7..b09bf86 100644
--- a/src/brokers/stream/manager.rs
+++ b/src/brokers/stream/manager.rs
@@ -76,7 +76,6 @@ pub struct JoinGroupResult {
 #[derive(Clone)]
 pub struct StreamManager {
     topics: Arc<DashMap<String, Arc<TopicShared>>>,
-    deleted_topics: Arc<DashMap<String, ()>>,
     storage_tx: mpsc::UnboundedSender<StorageCommand>,
     config: Arc<SystemStreamConfig>,
     cancel: CancellationToken,
@@ -87,7 +86,6 @@ pub struct StreamManager {
 impl StreamManager {
     pub async fn new(config: Arc<SystemStreamConfig>) -> Self {
         let topics = Arc::new(DashMap::new());
-        let deleted_topics = Arc::new(DashMap::new());
         let (storage_tx, storage_rx) = mpsc::unbounded_channel();
 
         let storage_manager = StorageManager::new(
@@ -101,7 +99,6 @@ impl StreamManager {
 
         let manager = Self {
             topics,
-            deleted_topics,
             storage_tx,
             config,
             cancel: CancellationToken::new(),
@@ -128,7 +125,6 @@ impl StreamManager {
     async fn create_topic_inner(&self, name: String, options: StreamCreateOptions) -> Result<(), String> {
         Self::validate_topic_name(&name)?;
         let _lifecycle = self.lifecycle.lock().await;
-        self.deleted_topics.remove(&name);
 
         if self.topics.contains_key(&name) {
             return Ok(());
@@ -178,7 +174,6 @@ impl StreamManager {
     async fn delete_topic_inner(&self, name: String) -> Result<(), String> {
         Self::validate_topic_name(&name)?;
         let _lifecycle = self.lifecycle.lock().await;
-        self.deleted_topics.insert(name.clone(), ());
 
         let removed = self.topics.remove(&name);
         if let Some((_, topic_ref)) = &removed {
@@ -563,10 +558,6 @@ impl StreamManager {
             };
 
             let name = topic_name.to_string();
-            if self.deleted_topics.contains_key(&name) {
-                continue;
-            }
-
             if name.starts_with(DELETED_PREFIX) {
                 // Left by a deletion that was interrupted
                 let _ = tokio::fs::remove_dir_all(&path).await;
-- 
2.43.0


From 9e33e6369065725081ef374dcd6753be35ea83ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:15 +0000
Subject: [PATCH 55/55] fix: topics whose retained message is over are
 forgotten

---
 src/brokers/pub-sub/domain/radix_tree.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/brokers/pub-sub/domain/radix_tree.rs b/src/brokers/pub-sub/domain/radix_tree.rs
index 2620518..a2d5152 100644
--- a/src/brokers/pub-sub/domain/radix_tree.rs
+++ b/src/brokers/pub-sub/domain/radix_tree.rs
@@ -217,6 +217,8 @@ impl Node {
                 cleaned = true;
             }
         }
+        // Topics without a retained message, and nobody subscribed to, are over
+        self.children.retain(|_, child| !child.is_empty());
         
         if let Some(ref mut plus_child) = self.plus_child {
             if plus_child.cleanup_expired_retained() {
-- 
2.43.0

