From ed36f9a867fcb8c867af2a0516b3ae8e5e1d7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 01/40] hook: controlled scheduler and virtual time behind
 cfg(fledger_mc)

---
 flarch/src/broker.rs     |  23 +++++
 flarch/src/lib.rs        |   2 +
 flarch/src/tasks.rs      |   3 +
 flarch/src/tasks/libc.rs |  13 ++-
 flarch/src/tasks/mc.rs   | 179 +++++++++++++++++++++++++++++++++++++++
 5 files changed, 219 insertions(+), 1 deletion(-)
 create mode 100644 flarch/src/tasks/mc.rs

diff --git a/flarch/src/broker.rs b/flarch/src/broker.rs
index 7d40bfc..68ef5ba 100644
--- a/flarch/src/broker.rs
+++ b/flarch/src/broker.rs
@@ -495,10 +495,29 @@ impl<I: Message + 'static, O: Message + 'static> Intern<I, O> {
             copies: 1,
         }));
 
+        #[cfg(fledger_mc)]
+        {
+            // Linked brokers hold references to each other.
+            let weak = Arc::downgrade(&intern);
+            crate::tasks::mc::at_end(Box::new(move || {
+                let mut garbage = (HashMap::new(), vec![]);
+                if let Some(arc) = weak.upgrade() {
+                    if let Some(mut intern) = arc.try_lock() {
+                        garbage.0 = std::mem::take(&mut intern.subsystems);
+                        while let Ok(msg) = intern.main_rx.try_recv() {
+                            garbage.1.push(msg);
+                        }
+                    };
+                }
+            }));
+        }
+
         let intern_arc = intern.clone();
         spawn_local(async move {
             let mut intern = intern_arc.try_lock().expect("Getting global lock");
             loop {
+                #[cfg(fledger_mc)]
+                crate::tasks::mc::yield_point().await;
                 if !intern.get_msg().await {
                     // log::warn!(
                     //     "{}: Closed Intern_locked.main_rx for {}",
@@ -631,6 +650,8 @@ impl<I: Message + 'static, O: Message + 'static> Intern<I, O> {
         self.process_translate_out_messages().await;
         self.process_translate_in_messages().await;
 
+        #[cfg(fledger_mc)]
+        crate::tasks::mc::yield_point().await;
         let mut subsystems_error = self.send_tap_out().await;
         subsystems_error.extend(self.send_tap_in().await);
 
@@ -938,6 +959,8 @@ impl<I: Message, O: Message, TI: Message + 'static, TO: Message + 'static>
 {
     async fn emit_ti_to(&mut self, trail: Vec<BrokerID>, msg_ti: Option<TI>, msg_to: Option<TO>) {
         if let Some(msg_tr) = msg_ti {
+            #[cfg(fledger_mc)]
+            crate::tasks::mc::yield_point().await;
             if let Err(e) = self
                 .broker
                 .emit_msg_in_dest(Destination::Forwarded(trail.clone()), msg_tr)
diff --git a/flarch/src/lib.rs b/flarch/src/lib.rs
index 0f0d9f5..d6369f4 100644
--- a/flarch/src/lib.rs
+++ b/flarch/src/lib.rs
@@ -1,3 +1,5 @@
+// `fledger_mc` is only set when model-checking the code.
+#![allow(unexpected_cfgs)]
 // pub mod broker;
 pub mod broker;
 pub mod broker_macros;
diff --git a/flarch/src/tasks.rs b/flarch/src/tasks.rs
index bb92c1a..e2cc789 100644
--- a/flarch/src/tasks.rs
+++ b/flarch/src/tasks.rs
@@ -7,3 +7,6 @@ pub use wasm::*;
 mod libc;
 #[cfg(target_family="unix")]
 pub use libc::*;
+
+#[cfg(fledger_mc)]
+pub mod mc;
diff --git a/flarch/src/tasks/libc.rs b/flarch/src/tasks/libc.rs
index 8b5793f..201666a 100644
--- a/flarch/src/tasks/libc.rs
+++ b/flarch/src/tasks/libc.rs
@@ -2,14 +2,21 @@ use std::{
     pin::Pin,
     task::{Context, Poll},
 };
+#[cfg(fledger_mc)]
+pub use super::mc::time;
+#[cfg(not(fledger_mc))]
 pub use tokio::time;
 
-use tokio::time::{sleep, Duration, Instant};
+use time::{sleep, Duration, Instant};
 
 use futures::{Future, Stream};
 
 /// Returns the milliseconds since 1/1/1970.
 pub fn now() -> i64 {
+    #[cfg(fledger_mc)]
+    if let Some(rt) = super::mc::current() {
+        return rt.now();
+    }
     use chrono::Utc;
     Utc::now().timestamp_millis() as i64
 }
@@ -20,6 +27,10 @@ pub fn spawn_local_nosend<F: Future<Output = ()> + 'static>(_: F) {
 
 /// Spawns the given method on the local scheduler.
 pub fn spawn_local<F: Future<Output = ()> + 'static + Send>(f: F) {
+    #[cfg(fledger_mc)]
+    if let Some(rt) = super::mc::current() {
+        return rt.spawn(Box::pin(f));
+    }
     tokio::spawn(async { f.await });
 }
 
diff --git a/flarch/src/tasks/mc.rs b/flarch/src/tasks/mc.rs
new file mode 100644
index 0000000..ae55be2
--- /dev/null
+++ b/flarch/src/tasks/mc.rs
@@ -0,0 +1,179 @@
+//! Model-checking hooks, only compiled with `--cfg fledger_mc`.
+//!
+//! A [`Runtime`] installed in the current thread takes over spawning, time, and
+//! the places where other tasks may run.
+//! Without an installed runtime everything behaves as without the cfg flag.
+use std::{cell::RefCell, future::Future, pin::Pin, rc::Rc};
+
+pub use tokio::time::Duration;
+
+/// A future which can be handed over to another executor.
+pub type McFuture = Pin<Box<dyn Future<Output = ()> + Send>>;
+
+/// What a controlled scheduler must provide.
+pub trait Runtime {
+    /// Adds a new task to the scheduler.
+    fn spawn(&self, f: McFuture);
+    /// Current (virtual) time in milliseconds.
+    fn now(&self) -> i64;
+    /// Returns a future that gets ready once the virtual time advanced by dur.
+    fn sleep(&self, dur: Duration) -> McFuture;
+    /// Returns a future where other tasks can be scheduled.
+    fn yield_point(&self) -> McFuture;
+    /// Runs the closure when the scheduler is torn down, to free cyclic references.
+    fn at_end(&self, f: Box<dyn FnOnce()>);
+}
+
+thread_local! {
+    static RUNTIME: RefCell<Option<Rc<dyn Runtime>>> = const { RefCell::new(None) };
+}
+
+/// Installs, or removes, the runtime of the current thread.
+pub fn install(rt: Option<Rc<dyn Runtime>>) {
+    RUNTIME.with(|r| *r.borrow_mut() = rt);
+}
+
+/// Returns the runtime of the current thread, if there is one.
+pub fn current() -> Option<Rc<dyn Runtime>> {
+    RUNTIME.with(|r| r.borrow().clone())
+}
+
+/// Lets the controlled scheduler run other tasks.
+pub async fn yield_point() {
+    if let Some(fut) = current().map(|rt| rt.yield_point()) {
+        fut.await;
+    }
+}
+
+/// Registers a closure to be run when the controlled scheduler is torn down.
+pub fn at_end(f: Box<dyn FnOnce()>) {
+    if let Some(rt) = current() {
+        rt.at_end(f);
+    }
+}
+
+/// Replacement for the parts of [`tokio::time`] used in [`crate::tasks`].
+pub mod time {
+    use super::{current, McFuture};
+    use std::{
+        future::Future,
+        pin::Pin,
+        task::{Context, Poll},
+    };
+    pub use tokio::time::{error, Duration};
+
+    /// Either a real, or a virtual point in time.
+    #[derive(Clone, Copy, Debug)]
+    pub enum Instant {
+        Real(tokio::time::Instant),
+        Virtual(Duration),
+    }
+
+    impl Instant {
+        pub fn now() -> Self {
+            match current() {
+                Some(rt) => Instant::Virtual(Duration::from_millis(rt.now() as u64)),
+                None => Instant::Real(tokio::time::Instant::now()),
+            }
+        }
+
+        pub fn checked_add(&self, dur: Duration) -> Option<Self> {
+            match self {
+                Instant::Real(i) => i.checked_add(dur).map(Instant::Real),
+                Instant::Virtual(i) => i.checked_add(dur).map(Instant::Virtual),
+            }
+        }
+    }
+
+    /// Sleeps in real or virtual time.
+    pub fn sleep(dur: Duration) -> McFuture {
+        match current() {
+            Some(rt) => rt.sleep(dur),
+            None => Box::pin(tokio::time::sleep(dur)),
+        }
+    }
+
+    /// A real or a virtual interval.
+    pub enum Interval {
+        Real(tokio::time::Interval),
+        Virtual {
+            next: Duration,
+            period: Duration,
+            sleep: Option<McFuture>,
+        },
+    }
+
+    pub fn interval_at(start: Instant, period: Duration) -> Interval {
+        match start {
+            Instant::Real(i) => Interval::Real(tokio::time::interval_at(i, period)),
+            Instant::Virtual(next) => Interval::Virtual {
+                next,
+                period,
+                sleep: None,
+            },
+        }
+    }
+
+    impl Interval {
+        pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
+            match self {
+                Interval::Real(i) => i.poll_tick(cx).map(Instant::Real),
+                Interval::Virtual {
+                    next,
+                    period,
+                    sleep,
+                } => {
+                    let rt = current().expect("virtual interval needs a runtime");
+                    let left = next.saturating_sub(Duration::from_millis(rt.now() as u64));
+                    let fut = sleep.get_or_insert_with(|| rt.sleep(left));
+                    match fut.as_mut().poll(cx) {
+                        Poll::Ready(()) => {
+                            let this = *next;
+                            *next += *period;
+                            *sleep = None;
+                            Poll::Ready(Instant::Virtual(this))
+                        }
+                        Poll::Pending => Poll::Pending,
+                    }
+                }
+            }
+        }
+    }
+
+    /// Waits for the future, or until the time has passed.
+    pub async fn timeout<F: Future>(dur: Duration, fut: F) -> Result<F::Output, error::Elapsed> {
+        let rt = match current() {
+            None => return tokio::time::timeout(dur, fut).await,
+            Some(rt) => rt,
+        };
+        let mut fut = Box::pin(fut);
+        let mut limit: McFuture = rt.sleep(dur);
+        let res = std::future::poll_fn(move |cx| {
+            if let Poll::Ready(v) = fut.as_mut().poll(cx) {
+                return Poll::Ready(Some(v));
+            }
+            Pin::new(&mut limit).poll(cx).map(|_| None)
+        })
+        .await;
+        match res {
+            Some(v) => Ok(v),
+            None => Err(elapsed().await),
+        }
+    }
+
+    // There is no public constructor for [`error::Elapsed`].
+    async fn elapsed() -> error::Elapsed {
+        let (tx, rx) = std::sync::mpsc::channel();
+        std::thread::spawn(move || {
+            let rt = tokio::runtime::Builder::new_current_thread()
+                .enable_time()
+                .build()
+                .expect("runtime");
+            let res = rt.block_on(async {
+                tokio::time::timeout(Duration::from_millis(0), std::future::pending::<()>()).await
+            });
+            tx.send(res.unwrap_err()).expect("send");
+        });
+        rx.recv().expect("elapsed")
+    }
+}
-- 
2.43.0


From ff1a80a5231c10b1a3a4603bfafefb335c6ebeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 02/40] fix: U256::from_str returns an error instead of
 panicking on non-hexadecimal text

---
 flarch/src/nodeids.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index 7911751..fc09669 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -12,6 +12,8 @@ use thiserror::Error;
 pub enum ParseError {
     #[error("Give no more than 64 hexadecimal characters")]
     HexTooLong,
+    #[error("Need an even number of hexadecimal characters")]
+    NotHex,
     #[error(transparent)]
     ParseInt(#[from] ParseIntError),
 }
@@ -133,6 +135,9 @@ impl FromStr for U256 {
         if s.len() > 64 {
             return Err(ParseError::HexTooLong.into());
         }
+        if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return Err(ParseError::NotHex.into());
+        }
         let v: Vec<u8> = (0..s.len())
             .step_by(2)
             .map(|i| u8::from_str_radix(&s[i..i + 2], 16).map_err(|e| e.into()))
-- 
2.43.0


From f9caa8812e493e75910c74bb592b4d53c9a095ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 03/40] fix: hash_domain_hashmap gives the same ID for equal
 maps

---
 flarch/src/nodeids.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index fc09669..0be87d2 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -91,12 +91,13 @@ impl U256 {
         domain: &str,
         hm: &HashMap<K, V>,
     ) -> Self {
-        let mut parts = vec![];
-        for (k, v) in hm {
-            parts.push(rmp_serde::to_vec(k).unwrap());
-            parts.push(rmp_serde::to_vec(v).unwrap());
-        }
-        let slices: Vec<&[u8]> = parts.iter().map(|e| e.as_slice()).collect();
+        let mut parts = hm
+            .iter()
+            .map(|(k, v)| [rmp_serde::to_vec(k).unwrap(), rmp_serde::to_vec(v).unwrap()])
+            .collect::<Vec<_>>();
+        // The order of the elements of a HashMap is random.
+        parts.sort();
+        let slices: Vec<&[u8]> = parts.iter().flatten().map(|e| e.as_slice()).collect();
         Self::hash_domain_parts(domain, &slices)
     }
 
-- 
2.43.0


From 03d8acc01d9ef38c6ca328a21cbd751ed46610fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 04/40] fix: settling linked brokers concurrently doesn't
 dead-lock anymore

---
 flarch/src/broker.rs | 70 ++++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 19 deletions(-)

diff --git a/flarch/src/broker.rs b/flarch/src/broker.rs
index 68ef5ba..19f6d1b 100644
--- a/flarch/src/broker.rs
+++ b/flarch/src/broker.rs
@@ -421,12 +421,18 @@ impl<I: 'static + Message, O: 'static + Message> Broker<I, O> {
     /// The caller argument is to be used when recursively settling, to avoid
     /// endless loops.
     pub async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        let (tx, mut rx) = unbounded_channel();
+        self.request_settle(callers)?.recv().await;
+        Ok(())
+    }
+
+    /// Like settle, but returns immediately.
+    /// The returned channel receives a message, or is closed, once the broker has settled.
+    fn request_settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<UnboundedReceiver<bool>> {
+        let (tx, rx) = unbounded_channel();
         self.intern_tx
-            .send(InternMessage::Settle(callers.clone(), tx))
+            .send(InternMessage::Settle(callers, tx))
             .map_err(|_| BrokerError::SendQueue("settle".into()))?;
-        rx.recv().await;
-        Ok(())
+        Ok(rx)
     }
 
     fn type_str(&self) -> String {
@@ -582,20 +588,35 @@ impl<I: Message + 'static, O: Message + 'static> Intern<I, O> {
             InternMessage::MessageOut(dst, msg) => self.msg_queue_out.push((dst, msg)),
             InternMessage::Settle(list, reply) => {
                 let type_str = self.type_str();
+                let mut pending = vec![];
                 if !list.contains(&self.id) {
                     let mut list = list.clone();
                     list.push(self.id);
                     for (_, ss) in self.subsystems.iter_mut() {
-                        ss.settle(list.clone())
-                            .await
-                            .err()
-                            .map(|e| log::error!("{}: While settling: {e:?}", type_str));
+                        match ss.settle(list.clone()).await {
+                            Ok(rx) => pending.extend(rx),
+                            Err(e) => log::error!("{}: While settling: {e:?}", type_str),
+                        }
                     }
                 }
-                reply
-                    .send(true)
-                    .err()
-                    .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str));
+                let settled = move || {
+                    reply
+                        .send(true)
+                        .err()
+                        .map(|e| log::error!("{}: Couldn't send: {e:?}", type_str))
+                };
+                if pending.is_empty() {
+                    settled();
+                } else {
+                    // Waiting here for the linked brokers would dead-lock if one of them is
+                    // settling at the same time and waits for this broker.
+                    spawn_local(async move {
+                        for mut rx in pending {
+                            rx.recv().await;
+                        }
+                        settled();
+                    });
+                }
                 return true;
             }
             InternMessage::Dropped => {
@@ -908,10 +929,13 @@ impl<I: Message, O: Message> Subsystem<I, O> {
         matches!(self, Self::Handler(_))
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
+    async fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
         match self {
             Subsystem::Translator(tr) => tr.settle(callers).await,
-            _ => Ok(()),
+            _ => Ok(None),
         }
     }
 }
@@ -940,7 +964,12 @@ pub trait SubsystemHandler<I: Async, O: Async> {
 pub trait SubsystemTranslator<I: Async, O: Async> {
     async fn translate_input(&mut self, trail: Vec<BrokerID>, from_broker: I);
     async fn translate_output(&mut self, trail: Vec<BrokerID>, from_broker: O);
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()>;
+    /// Asks the linked broker to settle, without waiting for it.
+    /// If there is something to wait for, it returns the channel that will be informed.
+    async fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>>;
 }
 
 #[target_send()]
@@ -1005,11 +1034,14 @@ impl<I: Message, O: Message, TI: Message + 'static, TO: Message + 'static> Subsy
         .await;
     }
 
-    async fn settle(&mut self, callers: Vec<BrokerID>) -> anyhow::Result<()> {
-        if !callers.contains(&self.broker.id) {
-            self.broker.settle(callers).await?;
+    async fn settle(
+        &mut self,
+        callers: Vec<BrokerID>,
+    ) -> anyhow::Result<Option<UnboundedReceiver<bool>>> {
+        if callers.contains(&self.broker.id) {
+            return Ok(None);
         }
-        Ok(())
+        Ok(Some(self.broker.request_settle(callers)?))
     }
 }
 
-- 
2.43.0


From d1da90d88c0527a7bc157766c7123a30325aa035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 05/40] fix: a crash or a full disk doesn't destroy stored
 values

---
 flarch/src/data_storage/libc.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/flarch/src/data_storage/libc.rs b/flarch/src/data_storage/libc.rs
index 5b37897..1250e3a 100644
--- a/flarch/src/data_storage/libc.rs
+++ b/flarch/src/data_storage/libc.rs
@@ -1,6 +1,7 @@
 use std::{
-    fs::{create_dir_all, remove_file, File},
-    path::PathBuf,
+    fs::{create_dir_all, remove_file, rename, File},
+    path::{Path, PathBuf},
+    sync::atomic::{AtomicUsize, Ordering},
 };
 
 use async_trait::async_trait;
@@ -42,8 +43,17 @@ impl DataStorageFile {
         });
         name
     }
+
+    fn write_synced(name: &Path, value: &str) -> std::io::Result<()> {
+        let mut file = File::create(name)?;
+        file.write_all(value.as_bytes())?;
+        file.sync_all()
+    }
 }
 
+// Makes the names of the temporary files unique.
+static TEMP_FILES: AtomicUsize = AtomicUsize::new(0);
+
 use std::io::prelude::*;
 
 #[async_trait]
@@ -63,10 +73,21 @@ impl DataStorage for DataStorageFile {
     }
 
     fn set(&mut self, key: &str, value: &str) -> Result<(), StorageError> {
-        File::create(self.name(key))
-            .map_err(|e| StorageError::Underlying(format!("While creating file: {:?}", e)))?
-            .write_all(value.as_bytes())
-            .map_err(|e| StorageError::Underlying(format!("While writing file: {:?}", e)))?;
+        // Only replace the current value once the new one is completely written to the disk,
+        // so that a crash or a full disk doesn't destroy it.
+        let name = self.name(key);
+        let temp = name.with_extension(format!(
+            "{}-{}.tmp",
+            std::process::id(),
+            TEMP_FILES.fetch_add(1, Ordering::Relaxed)
+        ));
+        if let Err(e) = Self::write_synced(&temp, value).and_then(|_| rename(&temp, &name)) {
+            let _ = remove_file(&temp);
+            return Err(StorageError::Underlying(format!(
+                "While writing file: {:?}",
+                e
+            )));
+        }
         Ok(())
     }
 
-- 
2.43.0


From ce97764b5dad2b98f3fd923a8bd1a2abf99da667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 06/40] fix: disconnected nodes in the root bucket are removed
 from the routing table

---
 flmodules/src/dht_router/kademlia.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/flmodules/src/dht_router/kademlia.rs b/flmodules/src/dht_router/kademlia.rs
index 2f833d1..fb3cfb3 100644
--- a/flmodules/src/dht_router/kademlia.rs
+++ b/flmodules/src/dht_router/kademlia.rs
@@ -81,15 +81,13 @@ impl Kademlia {
     }
 
     pub fn node_disconnected(&mut self, id: &NodeID) {
-        if let Some(bucket) = self
-            .buckets
+        self.buckets
             .get_mut(KNode::get_depth(&self.config.root, id))
-        {
-            bucket.remove_node(id);
-            if self.root_bucket.status() == BucketStatus::Wanting {
-                self.rebalance_wanting();
-            }
-        };
+            .unwrap_or(&mut self.root_bucket)
+            .remove_node(id);
+        if self.root_bucket.status() == BucketStatus::Wanting {
+            self.rebalance_wanting();
+        }
     }
 
     pub fn remove_node(&mut self, id: &NodeID) {
-- 
2.43.0


From f896497826104ecf06c975eee34d25a8ba7c8ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:00 +0000
Subject: [PATCH 07/40] fix: gossip events are limited and replaced
 independently of their order of arrival

---
 flmodules/src/gossip_events/core.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index ce04ef2..b7bb6fa 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -151,7 +151,7 @@ impl Events {
             .find(|(_, v)| v.src == msg.src)
             .map(|(id, ev)| (*id, ev.clone()))
         {
-            if ev.created > msg.created {
+            if (ev.created, ev.get_id()) > (msg.created, msg.get_id()) {
                 return false;
             }
             self.events.remove(&id);
@@ -161,9 +161,10 @@ impl Events {
 
     // Insert the message in the events and make sure the limits are kept.
     fn insert_simple(&mut self, msg: Event) -> bool {
-        self.events.insert(msg.get_id(), msg);
+        let id = msg.get_id();
+        self.events.insert(id, msg);
         self.limit();
-        true
+        self.events.contains_key(&id)
     }
 
     /// Returns all messages that are part of the ids.
@@ -195,11 +196,10 @@ impl Events {
         let ids: Vec<U256> = self
             .events
             .iter()
-            .map(|(k, v)| (k, v.created))
-            .sorted_by(|a, b| b.1.partial_cmp(&a.1).unwrap())
+            .map(|(k, v)| (v.created, *k))
+            .sorted_by(|a, b| b.cmp(a))
             .skip(self.config.max_events)
-            .map(|(k, _)| k)
-            .cloned()
+            .map(|(_, k)| k)
             .collect();
         for id in ids {
             self.events.remove(&id);
-- 
2.43.0


From fbf64cfbd8730cab2e80adf65cc00d7a76567cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:03 +0000
Subject: [PATCH 08/40] fix: unreadable gossip events don't prevent a node from
 starting

---
 flmodules/src/gossip_events/core.rs   | 5 ++++-
 flmodules/src/gossip_events/intern.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index b7bb6fa..356bdd9 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -86,7 +86,10 @@ impl EventsStorage {
     }
 
     pub fn set(&mut self, data: &str) -> anyhow::Result<()> {
-        self.storage = EventsStorageSave::from_str(data)?.storage;
+        // Make sure that all categories exist, even if they are not in the data.
+        let mut storage = Self::new().storage;
+        storage.extend(EventsStorageSave::from_str(data)?.storage);
+        self.storage = storage;
         Ok(())
     }
 }
diff --git a/flmodules/src/gossip_events/intern.rs b/flmodules/src/gossip_events/intern.rs
index 5c73a1c..72f39f6 100644
--- a/flmodules/src/gossip_events/intern.rs
+++ b/flmodules/src/gossip_events/intern.rs
@@ -68,7 +68,10 @@ impl Intern {
         storage: Box<dyn DataStorage + Send>,
     ) -> (Self, watch::Receiver<EventsStorage>) {
         let mut events = EventsStorage::new();
-        let gossip_msgs_str = storage.get(MODULE_NAME).unwrap();
+        let gossip_msgs_str = storage.get(MODULE_NAME).unwrap_or_else(|e| {
+            log::warn!("Couldn't read gossip messages: {}", e);
+            String::new()
+        });
         if !gossip_msgs_str.is_empty() {
             if let Err(e) = events.set(&gossip_msgs_str) {
                 log::warn!("Couldn't load gossip messages: {}", e);
-- 
2.43.0


From 32c94d5d372d9b6b66e699c51828f649a977a32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 09/40] fix: badges that are part of themselves don't overflow
 the stack

---
 flcrypto/src/access.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 1f154c8..d753ec0 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -35,7 +35,6 @@ pub enum ConditionLink {
 
 /// A Condition represents a full ConditinLink with all IDs replaced by
 /// their actual values.
-/// TODO: Avoid loops
 #[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
 pub enum Condition {
     Verifier(Verifier),
@@ -131,8 +130,18 @@ impl<T: Serialize + Clone + AsRef<[u8]>> VersionSpec<T> {
 }
 
 impl ConditionLink {
-    #[async_recursion(?Send)]
     pub async fn to_condition<B, V>(&self, gb: &B, gv: &V) -> Condition
+    where
+        B: AsyncFn(VersionSpec<BadgeID>) -> Option<BadgeLink>,
+        V: AsyncFn(KeyPairID) -> Option<Verifier>,
+    {
+        self.to_condition_parents(gb, gv, &[]).await
+    }
+
+    /// The parents are the badges this link is part of. A badge which is part of itself
+    /// is not available, instead of looping forever.
+    #[async_recursion(?Send)]
+    async fn to_condition_parents<B, V>(&self, gb: &B, gv: &V, parents: &[BadgeID]) -> Condition
     where
         B: AsyncFn(VersionSpec<BadgeID>) -> Option<BadgeLink>,
         V: AsyncFn(KeyPairID) -> Option<Verifier>,
@@ -143,13 +152,18 @@ impl ConditionLink {
                 .map(|v| Condition::Verifier(v))
                 .unwrap_or(Condition::NotAvailable),
             ConditionLink::Badge(version) => {
+                if parents.contains(&version.get_id()) {
+                    return Condition::NotAvailable;
+                }
                 if let Some(b) = gb(version.clone()).await {
+                    let parents = [parents, &[version.get_id()]].concat();
+                    let condition = b.condition.to_condition_parents(gb, gv, &parents).await;
                     Condition::Badge(
                         version.clone(),
                         Badge {
                             id: b.id,
                             version: b.version,
-                            condition: Box::new(b.condition.to_condition(gb, gv).await),
+                            condition: Box::new(condition),
                         },
                     )
                 } else {
@@ -159,7 +173,7 @@ impl ConditionLink {
             ConditionLink::NofT(thr, vec) => {
                 let mut conds = vec![];
                 for cond in vec {
-                    conds.push(cond.to_condition(gb, gv).await)
+                    conds.push(cond.to_condition_parents(gb, gv, parents).await)
                 }
                 Condition::NofT(*thr, conds)
             }
-- 
2.43.0


From f9668be2ecf05137b34bbfb679a2ac74148c7c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 10/40] fix: a group of signers only corresponds to the rule
 with the same group and threshold

---
 flcrypto/src/access.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index d753ec0..5a6b734 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -222,8 +222,11 @@ impl Condition {
                 if BadgeLink{ id: badge.id.clone(), version: badge.version, condition: badge.condition.to_link() }
                     .fits_version(version_spec.clone()) && badge.condition.equal_link(cond_link) && version_spec == ver_spec)
             }
-            ConditionLink::NofT(_, condition_links) => {
-                condition_links.iter().all(|cl| self.equal_link(cl))
+            ConditionLink::NofT(thr_link, condition_links) => {
+                matches!(self, Condition::NofT(thr, conditions)
+                if thr == thr_link
+                    && conditions.len() == condition_links.len()
+                    && conditions.iter().zip(condition_links).all(|(c, cl)| c.equal_link(cl)))
             }
             ConditionLink::Pass => matches!(self, Condition::Pass),
             ConditionLink::Fail => matches!(self, Condition::Fail),
-- 
2.43.0


From ee6e1daba3cc784dd5f77ed766ed8c1c19bc6079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 11/40] fix: signatures of a wrong length and unavailable
 conditions don't crash the verification

---
 flcrypto/src/access.rs         | 3 ++-
 flcrypto/src/signer_ed25519.rs | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 5a6b734..0488f21 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -244,7 +244,8 @@ impl Condition {
                     .map(|cond| cond.to_link())
                     .collect::<Vec<_>>(),
             ),
-            Condition::NotAvailable => todo!(),
+            // Nobody can sign for a condition which is not available.
+            Condition::NotAvailable => ConditionLink::Fail,
             Condition::Pass => ConditionLink::Pass,
             Condition::Fail => ConditionLink::Fail,
         }
diff --git a/flcrypto/src/signer_ed25519.rs b/flcrypto/src/signer_ed25519.rs
index 8354156..005c604 100644
--- a/flcrypto/src/signer_ed25519.rs
+++ b/flcrypto/src/signer_ed25519.rs
@@ -79,8 +79,8 @@ where
 
 impl VerifierTrait for VerifierEd25519 {
     fn verify(&self, msg: &Bytes, sig: &Signature) -> anyhow::Result<()> {
-        let s: ed25519_dalek::Signature =
-            TryInto::<[u8; 64]>::try_into(sig.bytes().as_ref()).unwrap().into();
+        let s = ed25519_dalek::Signature::from_slice(sig.bytes())
+            .map_err(|_| SignerError::SignatureMessageMismatch)?;
         match self.verifier.verify_strict(msg, &s) {
             Ok(_) => Ok(()),
             Err(_) => Err(SignerError::SignatureMessageMismatch.into()),
-- 
2.43.0


From 9d7b8578f43e6ad61c868f3bc21db0df446942af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 12/40] fix: can_sign works for any number of signers and
 groups

---
 flcrypto/src/access.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/flcrypto/src/access.rs b/flcrypto/src/access.rs
index 0488f21..2d4d830 100644
--- a/flcrypto/src/access.rs
+++ b/flcrypto/src/access.rs
@@ -263,22 +263,15 @@ impl Condition {
     }
 
     pub fn can_sign(&self, vids: &[&KeyPairID]) -> bool {
-        if vids.len() > 1 {
-            todo!("Check with more than one signer");
-        }
-        if let Some(&vid) = vids.first() {
-            match self {
-                Condition::Verifier(verifier) => &verifier.get_id() == vid,
-                Condition::Badge(_, badge) => badge.condition.can_sign(&[vid]),
-                Condition::NofT(nbr, conditions) => {
-                    conditions.iter().any(|c| c.can_sign(&[vid])) && nbr == &1
-                }
-                Condition::NotAvailable => false,
-                Condition::Pass => true,
-                Condition::Fail => false,
+        match self {
+            Condition::Verifier(verifier) => vids.contains(&&verifier.get_id()),
+            Condition::Badge(_, badge) => badge.condition.can_sign(vids),
+            Condition::NofT(nbr, conditions) => {
+                conditions.iter().filter(|c| c.can_sign(vids)).count() >= *nbr as usize
             }
-        } else {
-            self == &Condition::Pass
+            Condition::NotAvailable => false,
+            Condition::Pass => true,
+            Condition::Fail => false,
         }
     }
 
-- 
2.43.0


From 65f3f66aa0c0012f46f35fd131f2dddbdc92365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 13/40] fix: cuckoos are kept when a flo is updated

---
 flmodules/src/dht_storage/core.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 8fa0bda..3721fd2 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -273,7 +273,7 @@ impl RealmStorage {
 
     fn put(&mut self, flo: Flo) {
         let id = flo.flo_id();
-        self.remove_entry(&id);
+        let old = self.remove_entry(&id);
         let depth = KNode::get_depth(&self.dht_config.our_id, &id);
         // log::info!(
         //     "{} Storing id({id}) / version({}) / flo_type({}) at depth {depth}",
@@ -285,19 +285,22 @@ impl RealmStorage {
             .entry(depth)
             .or_insert_with(Vec::new)
             .push(id.clone());
-        let df: FloStorage = flo.into();
+        let mut df: FloStorage = flo.into();
+        if let Some(old) = old {
+            df.cuckoos = old.cuckoos;
+        }
         self.size += df.size() as u64;
         self.flos.insert(id, df);
     }
 
-    fn remove_entry(&mut self, id: &FloID) {
-        if let Some(df) = self.flos.remove(id) {
+    fn remove_entry(&mut self, id: &FloID) -> Option<FloStorage> {
+        self.flos.remove(id).inspect(|df| {
             let distance = KNode::get_depth(&self.dht_config.our_id, id);
             self.distances
                 .entry(distance)
                 .and_modify(|v| v.retain(|i| i != id));
             self.size -= df.size() as u64;
-        }
+        })
     }
 
     fn remove_furthest(&mut self) {
-- 
2.43.0


From f47fe40712bdcf8c083563cfcc9d82e26cd881a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 14/40] fix: realms respect their space, also for cuckoos, and
 follow their configuration

- adding a cuckoo can make the realm too big
- a realm which is bigger than its own space led to an endless loop
- the realm object doesn't free any space for new objects, but other objects
  were evicted before the new object was evicted, too
- a new version of the realm with another configuration was ignored
---
 flmodules/src/dht_storage/core.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 3721fd2..64be021 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -189,6 +189,7 @@ impl RealmStorage {
                 self.size += fs.size() as u64;
             }
         }
+        self.enforce_max_space();
     }
 
     /// TODO: decide which IDs need to be stored.
@@ -245,9 +246,7 @@ impl RealmStorage {
             }
         }
 
-        while self.size > self.realm_config.max_space {
-            self.remove_furthest();
-        }
+        self.enforce_max_space();
         let size_verify: usize = self.flos.iter().map(|f| f.1.size()).sum();
         if size_verify as u64 > self.realm_config.max_space {
             log::warn!(
@@ -265,6 +264,8 @@ impl RealmStorage {
             .get(&distance)
             .map(|ids| {
                 ids.iter()
+                    // The realm cannot be removed, so it doesn't free any space.
+                    .filter(|&id| **id != *self.realm_id)
                     .map(|id| self.flos.get(id).map(|flo| flo.size()).unwrap_or(0))
                     .sum::<usize>() as u64
             })
@@ -273,6 +274,11 @@ impl RealmStorage {
 
     fn put(&mut self, flo: Flo) {
         let id = flo.flo_id();
+        if *id == *self.realm_id {
+            if let Ok(realm) = FloRealm::try_from(flo.clone()) {
+                self.realm_config = realm.cache().get_config();
+            }
+        }
         let old = self.remove_entry(&id);
         let depth = KNode::get_depth(&self.dht_config.our_id, &id);
         // log::info!(
@@ -303,7 +309,13 @@ impl RealmStorage {
         })
     }
 
-    fn remove_furthest(&mut self) {
+    /// Removes the furthest Flos until the realm fits in its space, or only
+    /// the realm itself is left.
+    fn enforce_max_space(&mut self) {
+        while self.size > self.realm_config.max_space && self.remove_furthest() {}
+    }
+
+    fn remove_furthest(&mut self) -> bool {
         if let Some(furthest) = self
             .distances
             .iter()
@@ -332,9 +344,10 @@ impl RealmStorage {
                 //     KNode::get_depth(&self.dht_config.our_id, *id.clone())
                 // );
 
-                self.remove_entry(&id);
+                return self.remove_entry(&id).is_some();
             }
         }
+        false
     }
 }
 
-- 
2.43.0


From 49a6bd1dd2558cdf9d4b3c56c920f59cccecca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:15 +0000
Subject: [PATCH 15/40] fix: changes of the cuckoos are stored, so they are
 kept over a restart

---
 flmodules/src/dht_storage/core.rs   | 14 ++++++++---
 flmodules/src/dht_storage/intern.rs | 36 ++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/flmodules/src/dht_storage/core.rs b/flmodules/src/dht_storage/core.rs
index 64be021..fe0ac02 100644
--- a/flmodules/src/dht_storage/core.rs
+++ b/flmodules/src/dht_storage/core.rs
@@ -176,20 +176,28 @@ impl RealmStorage {
             .collect()
     }
 
-    pub fn store_cuckoo_ids(&mut self, parent: &FloID, cuckoos: Vec<FloID>) {
+    /// Returns true if at least one of the cuckoos has been added.
+    pub fn store_cuckoo_ids(&mut self, parent: &FloID, cuckoos: Vec<FloID>) -> bool {
+        let mut added = false;
         for cuckoo in cuckoos {
-            self.store_cuckoo_id(parent, cuckoo);
+            added |= self.store_cuckoo_id(parent, cuckoo);
         }
+        added
     }
-    pub fn store_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) {
+
+    /// Returns true if the cuckoo has been added.
+    pub fn store_cuckoo_id(&mut self, parent: &FloID, cuckoo: FloID) -> bool {
+        let mut added = false;
         if let Some(fs) = self.flos.get_mut(parent) {
             if !fs.cuckoos.contains(&cuckoo) {
                 self.size -= fs.size() as u64;
                 fs.cuckoos.push(cuckoo);
                 self.size += fs.size() as u64;
+                added = true;
             }
         }
         self.enforce_max_space();
+        added
     }
 
     /// TODO: decide which IDs need to be stored.
diff --git a/flmodules/src/dht_storage/intern.rs b/flmodules/src/dht_storage/intern.rs
index f0f3b31..2475bcf 100644
--- a/flmodules/src/dht_storage/intern.rs
+++ b/flmodules/src/dht_storage/intern.rs
@@ -242,9 +242,7 @@ impl Messages {
                     });
             }
             MessageClosest::StoreCuckooID(gid) => {
-                self.realms
-                    .get_mut(&gid.realm_id())
-                    .map(|realm| realm.store_cuckoo_id(&fid, gid.flo_id().clone()));
+                self.store_cuckoo_ids(gid.realm_id(), &fid, vec![gid.flo_id().clone()]);
             }
         }
         vec![]
@@ -255,9 +253,7 @@ impl Messages {
             MessageDest::FloValue(fc) => {
                 // log::info!("{} stores {:?}", self.config.our_id, flo.0);
                 self.store_flo(fc.0.clone());
-                self.realms
-                    .get_mut(&fc.0.realm_id())
-                    .map(|realm| realm.store_cuckoo_ids(&fc.0.flo_id(), fc.1.clone()));
+                self.store_cuckoo_ids(&fc.0.realm_id(), &fc.0.flo_id(), fc.1.clone());
                 Some(DHTStorageOut::FloValue(fc).into())
             }
             MessageDest::UnknownFlo(key) => Some(DHTStorageOut::ValueMissing(key).into()),
@@ -332,11 +328,7 @@ impl Messages {
             MessageNeighbour::Flos(flo_cuckoos) => {
                 for (flo, cuckoos) in flo_cuckoos {
                     self.store_flo(flo.clone());
-                    self.realms.get_mut(&flo.realm_id()).map(|realm| {
-                        cuckoos
-                            .into_iter()
-                            .for_each(|cuckoo| realm.store_cuckoo_id(&flo.flo_id(), cuckoo))
-                    });
+                    self.store_cuckoo_ids(&flo.realm_id(), &flo.flo_id(), cuckoos);
                 }
                 vec![]
             }
@@ -369,6 +361,16 @@ impl Messages {
         res
     }
 
+    fn store_cuckoo_ids(&mut self, realm_id: &RealmID, parent: &FloID, cuckoos: Vec<FloID>) {
+        if self
+            .realms
+            .get_mut(realm_id)
+            .is_some_and(|realm| realm.store_cuckoo_ids(parent, cuckoos))
+        {
+            self.store();
+        }
+    }
+
     // Try really hard to store the flo.
     // Either its realm is already known, or it is a new realm.
     // When 'true' is returned, then the flo has been stored.
@@ -392,11 +394,19 @@ impl Messages {
         //     flo.data(),
         //     TryInto::<FloRealm>::try_into(flo.clone())
         // );
+        // A flo which is already stored can still be added as a cuckoo to its parent.
+        let mut new_cuckoo = false;
         let modification = self
             .realms
             .get_mut(&flo.realm_id())
             // .inspect(|rs| log::info!("{} has realm", self.config.our_id))
-            .map(|dsc| dsc.upsert_flo(flo.clone()))
+            .map(|dsc| {
+                let parent = flo.flo_config().cuckoo_parent();
+                let cuckoos = parent.and_then(|p| dsc.get_cuckoo_ids(p));
+                let modification = dsc.upsert_flo(flo.clone());
+                new_cuckoo = parent.and_then(|p| dsc.get_cuckoo_ids(p)) != cuckoos;
+                modification
+            })
             .unwrap_or_else(|| {
                 TryInto::<FloRealm>::try_into(flo)
                     .ok()
@@ -404,7 +414,7 @@ impl Messages {
                     .is_some()
             });
 
-        if modification {
+        if modification || new_cuckoo {
             self.store();
         }
         modification
-- 
2.43.0


From 9a06e066861174b5faa6a8807099e7ad7c8be9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 16/40] fix: node lists with repeated entries don't create
 duplicates

---
 flarch/src/nodeids.rs                     | 12 +++++-------
 flmodules/src/random_connections/nodes.rs | 11 +++++------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/flarch/src/nodeids.rs b/flarch/src/nodeids.rs
index 0be87d2..945613d 100644
--- a/flarch/src/nodeids.rs
+++ b/flarch/src/nodeids.rs
@@ -235,13 +235,11 @@ impl NodeIDs {
 
     /// Merges all other nodes into this list. Ignores nodes already in this list.
     pub fn merge(&mut self, other: NodeIDs) {
-        self.0.extend(
-            other
-                .0
-                .into_iter()
-                .filter(|n| !self.0.contains(n))
-                .collect::<Vec<NodeID>>(),
-        );
+        for node in other.0 {
+            if !self.0.contains(&node) {
+                self.0.push(node);
+            }
+        }
     }
 
     fn remove(&mut self, nodes: &NodeIDs, exists: bool) -> NodeIDs {
diff --git a/flmodules/src/random_connections/nodes.rs b/flmodules/src/random_connections/nodes.rs
index 4a664d0..5adfe5f 100644
--- a/flmodules/src/random_connections/nodes.rs
+++ b/flmodules/src/random_connections/nodes.rs
@@ -33,12 +33,11 @@ impl Nodes {
     }
 
     pub fn add_new(&mut self, nodes: Vec<NodeID>) {
-        let nodes_new: Vec<NodeID> = nodes.into_iter().filter(|n| !self.contains(n)).collect();
-        let mut nts = nodes_new
-            .iter()
-            .map(|n| NodeTime { id: *n, ticks: 0 })
-            .collect();
-        self.0.append(&mut nts);
+        for id in nodes {
+            if !self.contains(&id) {
+                self.0.push(NodeTime { id, ticks: 0 });
+            }
+        }
     }
 
     pub fn contains(&self, node: &NodeID) -> bool {
-- 
2.43.0


From c87e93555a8c074adc45c84565b091427fc40c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 17/40] fix: the newest information of a node replaces the
 older one

---
 flmodules/src/random_connections/core.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/flmodules/src/random_connections/core.rs b/flmodules/src/random_connections/core.rs
index b95eefd..c73ba3b 100644
--- a/flmodules/src/random_connections/core.rs
+++ b/flmodules/src/random_connections/core.rs
@@ -1,6 +1,5 @@
 use std::cmp::{max, min};
 
-use itertools::Itertools;
 use rand::prelude::SliceRandom;
 use serde::{Deserialize, Serialize};
 
@@ -33,13 +32,13 @@ impl RandomStats {
                 .collect::<Vec<U256>>()
                 .into(),
         );
-        self.infos = self
-            .infos
-            .iter()
-            .chain(list.iter())
-            .unique()
-            .cloned()
-            .collect();
+        // The new information of a node replaces the previous one.
+        for info in list {
+            match self.infos.iter_mut().find(|ni| **ni == info) {
+                Some(known) => *known = info,
+                None => self.infos.push(info),
+            }
+        }
     }
 
     pub fn get_connected_info(&self) -> Vec<NodeInfo> {
-- 
2.43.0


From daf3f2f2e48bd08c69e9ee9636bcaaabfbd3c8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 18/40] fix: connection attempts without an answer are dropped
 after connecting_timeout

---
 flmodules/src/random_connections/intern.rs | 6 ++++++
 flmodules/src/random_connections/nodes.rs  | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/random_connections/intern.rs b/flmodules/src/random_connections/intern.rs
index 21d2802..38f24e1 100644
--- a/flmodules/src/random_connections/intern.rs
+++ b/flmodules/src/random_connections/intern.rs
@@ -67,6 +67,12 @@ impl Intern {
 
     fn msg_tick(&mut self) -> Vec<InternOut> {
         self.storage.tick();
+        // Connections which didn't succeed must not use up the available places.
+        let failed = self
+            .storage
+            .connecting
+            .oldest_ticks(self.cfg.connecting_timeout);
+        self.storage.failure(&failed);
 
         concat([
             self.new_connection(),
diff --git a/flmodules/src/random_connections/nodes.rs b/flmodules/src/random_connections/nodes.rs
index 5adfe5f..db6b08c 100644
--- a/flmodules/src/random_connections/nodes.rs
+++ b/flmodules/src/random_connections/nodes.rs
@@ -117,7 +117,7 @@ impl Nodes {
     // Removes nodes that are as old or older than age and returns the removed nodes.
     pub fn remove_oldest_ticks(&mut self, ticks: u32) -> NodeIDs {
         let nodes = self.oldest_ticks(ticks);
-        self.0.splice(..nodes.0.len(), vec![]);
+        self.remove(&nodes);
         nodes
     }
 
-- 
2.43.0


From 7c5152c376cc03a71149db7c52238ed01658de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 19/40] fix: announcements must present the challenge of their
 connection

---
 flmodules/src/network/signal.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flmodules/src/network/signal.rs b/flmodules/src/network/signal.rs
index 001d177..8678ada 100644
--- a/flmodules/src/network/signal.rs
+++ b/flmodules/src/network/signal.rs
@@ -226,6 +226,10 @@ impl SignalServer {
                 return vec![];
             }
         };
+        if msg.challenge != challenge {
+            log::warn!("Got an announcement for another challenge");
+            return vec![];
+        }
         if !msg.node_info.verify(&challenge.to_bytes(), &msg.signature) {
             log::warn!("Got node with wrong signature");
             return vec![];
-- 
2.43.0


From 31039da19f86d865f56aa1f6a5bae50b04294e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 20/40] fix: node information with an invalid public key
 doesn't stop the node

---
 flmodules/src/nodeconfig.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index ab309b1..2647955 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -79,13 +79,19 @@ impl NodeInfo {
         if let Some(id) = self.id {
             return id;
         }
-        let a: [u8; PublicKey::BYTES] = self.pubkey.clone().try_into().unwrap();
-        U256::from(a)
+        match <[u8; PublicKey::BYTES]>::try_from(self.pubkey.as_slice()) {
+            Ok(a) => U256::from(a),
+            // This is not a valid public key, so nobody can sign for this ID.
+            Err(_) => U256::hash_data(&self.pubkey),
+        }
     }
 
     /// Verifies a signature with the public key of this `NodeInfo`
     pub fn verify(&self, msg: &[u8], sig_bytes: &[u8]) -> bool {
-        let pubkey = PublicKey::from_slice(&self.pubkey).unwrap();
+        let pubkey = match PublicKey::from_slice(&self.pubkey) {
+            Ok(pubkey) => pubkey,
+            Err(_) => return false,
+        };
         let sig = match Signature::from_slice(sig_bytes) {
             Ok(sig) => sig,
             Err(_) => return false,
@@ -173,7 +179,15 @@ bitflags! {
 
 impl From<NodeInfoV1> for NodeInfoV2 {
     fn from(_: NodeInfoV1) -> Self {
-        panic!("Old configuration not supported anymore")
+        // Old configurations are not supported anymore: without a public key,
+        // this node cannot be verified.
+        Self {
+            name: "".into(),
+            client: "".into(),
+            pubkey: vec![],
+            modules: ModulesV2::empty(),
+            _id: None,
+        }
     }
 }
 
-- 
2.43.0


From 2f45c401f0093af5edbc4014cb69fb9116601707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 21/40] fix: idle nodes are kept for at least ttl_minutes

---
 flmodules/src/network/signal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/network/signal.rs b/flmodules/src/network/signal.rs
index 8678ada..7bce3a9 100644
--- a/flmodules/src/network/signal.rs
+++ b/flmodules/src/network/signal.rs
@@ -182,10 +182,11 @@ impl SignalServer {
     fn msg_in_timer(&mut self) {
         let mut to_remove = Vec::new();
         for (index, ttl) in self.ttl.iter_mut() {
-            *ttl -= 1;
             if *ttl == 0 {
                 log::info!("Removing idle node {index}");
                 to_remove.push(*index);
+            } else {
+                *ttl -= 1;
             }
         }
         for id in to_remove {
-- 
2.43.0


From 7bf4bc6d5e5c3c7ad858db2f153dfc0b14daa78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 22/40] fix: a node is not its own remote peer

---
 flarch/src/web_rtc/messages.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flarch/src/web_rtc/messages.rs b/flarch/src/web_rtc/messages.rs
index 8cdecb1..bad8eef 100644
--- a/flarch/src/web_rtc/messages.rs
+++ b/flarch/src/web_rtc/messages.rs
@@ -238,6 +238,9 @@ impl std::fmt::Display for PeerInfo {
 impl PeerInfo {
     /// Gets the other ID given one of the two IDs
     pub fn get_remote(&self, local: &NodeID) -> Option<NodeID> {
+        if self.id_init == self.id_follow {
+            return None;
+        }
         if self.id_init == *local {
             return Some(self.id_follow);
         }
-- 
2.43.0


From f024d5bdebe10ccc4fd13f66f3db3b9758c9454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 23/40] fix: a message with an empty map doesn't stop the node

---
 flmodules/src/router/messages.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/router/messages.rs b/flmodules/src/router/messages.rs
index 3871a4d..d7b6144 100644
--- a/flmodules/src/router/messages.rs
+++ b/flmodules/src/router/messages.rs
@@ -35,9 +35,11 @@ impl NetworkWrapper {
 
     pub fn unwrap_yaml<T: DeserializeOwned>(&self, module: &str) -> Option<T> {
         if self.module == module {
-            if let Ok(msg) = serde_yaml::from_str(&self.msg) {
-                return Some(msg);
-            }
+            // serde_yaml panics if it reads an empty map as an enum, so first read a generic
+            // value, as this message can come from anybody.
+            return serde_yaml::from_str::<serde_yaml::Value>(&self.msg)
+                .and_then(serde_yaml::from_value)
+                .ok();
         }
         None
     }
-- 
2.43.0


From 972f9b3208a8b33c1a5c8d9fdaed87068c411223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 24/40] fix: an empty map as stored events doesn't stop the
 node

---
 flmodules/src/gossip_events/core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index 356bdd9..36f7662 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -104,10 +104,12 @@ enum EventsStorageSave {
 
 impl EventsStorageSave {
     fn from_str(data: &str) -> anyhow::Result<EventsStorage> {
-        if let Ok(es) = serde_yaml::from_str::<EventsStorageSave>(data) {
+        // serde_yaml panics if it reads an empty map as an enum, so first read a generic value.
+        let value: serde_yaml::Value = serde_yaml::from_str(data)?;
+        if let Ok(es) = serde_yaml::from_value::<EventsStorageSave>(value.clone()) {
             return Ok(es.to_latest());
         }
-        Ok(serde_yaml::from_str::<EventsStorageV1>(data).map(|es| es.to_latest())?)
+        Ok(serde_yaml::from_value::<EventsStorageV1>(value).map(|es| es.to_latest())?)
     }
 
     fn to_latest(self) -> EventsStorage {
-- 
2.43.0


From d6e3c736cff3e12cc6d24f78f8674a90590659fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 25/40] fix: signalling messages from peers don't stop the node

---
 flmodules/src/network/intern.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 48d330a..837bc5c 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -186,10 +186,8 @@ impl Intern {
         match serde_yaml::from_str::<NetworkWrapper>(&msg) {
             Ok(nw) => {
                 if let Some(net_msg) = nw.unwrap_yaml::<ModuleMessage>(MODULE_NAME) {
-                    match net_msg {
-                        ModuleMessage::SignalIn(_) => todo!(),
-                        ModuleMessage::SignalOut(_) => todo!(),
-                    }
+                    log::debug!("Signalling over peers is not supported yet: {net_msg:?}");
+                    return vec![];
                 }
                 return vec![NetworkOut::MessageFromNode(id, nw).into()];
             }
-- 
2.43.0


From 3c72e18c02d99695fd77cce05af2f8b004e53567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 26/40] fix: a signalling server with another version is
 reported as an error

---
 flmodules/src/network/intern.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 837bc5c..2e6347a 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -1,7 +1,6 @@
 //! Handles all the incoming messages and produces messages for the modules
 //! connected to [Network].
 
-use core::panic;
 use serde::{Deserialize, Serialize};
 use std::{collections::HashMap, fmt::Display};
 use tokio::sync::watch;
@@ -94,9 +93,10 @@ impl Intern {
         match msg_node {
             WSSignalMessageToNode::Challenge(version, challenge) => {
                 if version != SIGNAL_VERSION {
-                    panic!(
+                    return vec![NetworkOut::Error(format!(
                         "Wrong signal-server version: got {version}, expected {SIGNAL_VERSION}."
-                    );
+                    ))
+                    .into()];
                 }
                 let ma = MessageAnnounce {
                     version,
-- 
2.43.0


From 2ee45f90d8d6ddf0c01702d54bc84c1f4eadf4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 27/40] fix: the list of connections is always up to date

---
 flmodules/src/network/intern.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 2e6347a..0697f13 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -126,7 +126,6 @@ impl Intern {
                 let dir = pi.get_direction(&own_id);
                 if self.connected_only(&remote_node, &dir) {
                     out.push(NetworkOut::Disconnected(remote_node.clone()).into());
-                    self.send_connections();
                 }
                 self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
                 out.push(InternOut::WebRTC(WebRTCConnIn::Message(
@@ -282,7 +281,6 @@ impl Intern {
         } else {
             self.connection_state_set(*dst, &Direction::Incoming, ConnectionState::None);
             self.connection_state_set(*dst, &Direction::Outgoing, ConnectionState::None);
-            self.send_connections();
             return vec![
                 NetworkOut::Disconnected(*dst).into(),
                 InternOut::WebRTC(WebRTCConnIn::Message(*dst, NCInput::Disconnect)),
@@ -336,6 +334,7 @@ impl Intern {
             .entry(node)
             .and_modify(|ioc| ioc.set(dir, state.clone()))
             .or_insert(IOConnection::new(dir, state));
+        self.send_connections();
     }
 }
 
-- 
2.43.0


From 9e2afd4246be21f35b0e8db50dd40c5826b93fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 28/40] fix: late ice candidates don't disconnect a node

---
 flmodules/src/network/intern.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index 0697f13..b99b052 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -10,7 +10,7 @@ use flarch::{
     nodeids::{NodeID, U256},
     platform_async_trait,
     web_rtc::{
-        messages::PeerInfo,
+        messages::{PeerInfo, PeerMessage},
         node_connection::{Direction, NCInput, NCOutput},
         websocket::{WSClientIn, WSClientOut},
         WebRTCConnIn, WebRTCConnOut,
@@ -124,10 +124,14 @@ impl Intern {
                 };
                 let mut out = vec![];
                 let dir = pi.get_direction(&own_id);
-                if self.connected_only(&remote_node, &dir) {
-                    out.push(NetworkOut::Disconnected(remote_node.clone()).into());
+                // IceCandidates also arrive for existing connections, while the other messages
+                // start a new connection.
+                if !matches!(pi.message, PeerMessage::IceCandidate(_)) {
+                    if self.connected_only(&remote_node, &dir) {
+                        out.push(NetworkOut::Disconnected(remote_node.clone()).into());
+                    }
+                    self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
                 }
-                self.connection_state_set(remote_node.clone(), &dir, ConnectionState::Setup);
                 out.push(InternOut::WebRTC(WebRTCConnIn::Message(
                     remote_node,
                     NCInput::Setup(dir, pi.message),
-- 
2.43.0


From c7e83f42f7de2827f82809ecb2c3c32f56c361ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:38 +0000
Subject: [PATCH 29/40] fix: a node doesn't set up a connection to itself

---
 flmodules/src/network/intern.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/network/intern.rs b/flmodules/src/network/intern.rs
index b99b052..c1d8323 100644
--- a/flmodules/src/network/intern.rs
+++ b/flmodules/src/network/intern.rs
@@ -156,6 +156,10 @@ impl Intern {
                     self.connections
                 );
 
+                if id == self.node_config.info.get_id() {
+                    log::warn!("Dropping message to this node");
+                    return vec![];
+                }
                 let mut out = vec![];
                 if let Ok(s) = serde_yaml::to_string(&msg_nw) {
                     if !self.connected(&id) {
@@ -260,7 +264,10 @@ impl Intern {
 
     /// Connect to the given node.
     fn connect(&mut self, dst: &U256) -> Vec<InternOut> {
-        if self.connected(dst) {
+        if *dst == self.node_config.info.get_id() {
+            log::warn!("Cannot connect to this node");
+            vec![]
+        } else if self.connected(dst) {
             log::trace!("Already connected to {}", dst);
             vec![]
         } else {
-- 
2.43.0


From b7c5258e816d4c1196180c635d022373689526a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:57 +0000
Subject: [PATCH 30/40] fix: packets with a wrong header neither stop the node
 nor give a text

---
 flarch/src/web_rtc/node_connection.rs | 41 +++++++++++----------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/flarch/src/web_rtc/node_connection.rs b/flarch/src/web_rtc/node_connection.rs
index 8fde700..dff86db 100644
--- a/flarch/src/web_rtc/node_connection.rs
+++ b/flarch/src/web_rtc/node_connection.rs
@@ -337,42 +337,33 @@ impl Packet {
 
 #[derive(Default)]
 struct PacketCollector {
-    packets: HashMap<U256, Vec<Option<String>>>,
+    packets: HashMap<U256, HashMap<usize, String>>,
 }
 
 impl PacketCollector {
     fn new_packet(&mut self, p: Packet) -> Option<String> {
-        match Self::get_params(&p) {
-            None => return Some(p.data),
-            Some((id, total, part)) => {
-                // Add the new packet to the list.
-                if let Some(e) = self
-                    .packets
-                    .entry(id)
-                    .or_insert(vec![None; total])
-                    .get_mut(part)
-                {
-                    *e = Some(p.data);
-                }
-
-                // Check if one of the entires is full, and return it.
-                self.packets
-                    .iter()
-                    .find(|(_, parts)| parts.iter().all(|p| p.is_some()))
-                    .map(|(id, _)| id.clone())
-                    .and_then(|id| self.packets.remove(&id))
-                    .map(|parts| parts.into_iter().flatten().collect())
+        let (id, total, part) = match (p.id, p.total, p.part) {
+            (None, None, None) => return Some(p.data),
+            (Some(id), Some(total), Some(part)) if part < total => (id, total, part),
+            _ => {
+                log::warn!("Got a packet with a wrong header");
+                return None;
             }
+        };
+
+        // Add the new packet to the list, and return the message once it's complete.
+        let parts = self.packets.entry(id).or_default();
+        parts.insert(part, p.data);
+        if (0..total).any(|i| !parts.contains_key(&i)) {
+            return None;
         }
+        let mut parts = self.packets.remove(&id)?;
+        Some((0..total).filter_map(|i| parts.remove(&i)).collect())
     }
 
     fn new_packet_str(&mut self, s: &str) -> Option<String> {
         self.new_packet(serde_yaml::from_str(s).ok()?)
     }
-
-    fn get_params(p: &Packet) -> Option<(U256, usize, usize)> {
-        Some((p.id?, p.total?, p.part?))
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From ac82a56322f3b03b24d425e62178e17c70a0088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 31/40] fix: proxied answers are complete, in order, end
 exactly once, and only come from the asked node

---
 flmodules/src/web_proxy/core.rs     | 38 +++++++++++---
 flmodules/src/web_proxy/intern.rs   | 77 +++++++++++------------------
 flmodules/src/web_proxy/response.rs |  2 +-
 3 files changed, 60 insertions(+), 57 deletions(-)

diff --git a/flmodules/src/web_proxy/core.rs b/flmodules/src/web_proxy/core.rs
index 26a37ee..88beac8 100644
--- a/flmodules/src/web_proxy/core.rs
+++ b/flmodules/src/web_proxy/core.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use flarch::tasks::spawn_local;
 use serde::{Deserialize, Serialize};
-use tokio::sync::mpsc::Sender;
+use tokio::sync::mpsc::{unbounded_channel, Sender, UnboundedSender};
 
 use flarch::nodeids::{NodeID, NodeIDs, U256};
 
@@ -27,7 +27,7 @@ pub struct WebProxyCore {
     nodes: NodeIDs,
     our_id: NodeID,
     node_index: usize,
-    requests: HashMap<U256, (NodeID, Sender<Bytes>)>,
+    requests: HashMap<U256, (NodeID, UnboundedSender<Bytes>)>,
 }
 
 impl WebProxyCore {
@@ -68,14 +68,34 @@ impl WebProxyCore {
 
     pub fn request_get(&mut self, rnd: U256, tx: Sender<Bytes>) -> Option<NodeID> {
         if let Some(node) = self.get_node() {
-            self.requests.insert(rnd, (node, tx));
+            // One task per request, so that the chunks stay in the order they arrive,
+            // even if the reader is slow.
+            let (body_tx, mut body_rx) = unbounded_channel();
+            spawn_local(async move {
+                while let Some(body) = body_rx.recv().await {
+                    if tx.send(body).await.is_err() {
+                        // Nobody is interested in the answer anymore.
+                        return;
+                    }
+                }
+            });
+            self.requests.insert(rnd, (node, body_tx));
             return Some(node);
         }
         None
     }
 
-    pub fn handle_response(&mut self, nonce: U256, msg: ResponseMessage) -> Option<ResponseHeader> {
-        if let Some((_, tx)) = self.requests.get(&nonce) {
+    pub fn handle_response(
+        &mut self,
+        src: NodeID,
+        nonce: U256,
+        msg: ResponseMessage,
+    ) -> Option<ResponseHeader> {
+        if let Some((node, tx)) = self.requests.get(&nonce) {
+            if *node != src {
+                log::warn!("Got response from {src} for a request sent to {node}");
+                return None;
+            }
             match msg {
                 ResponseMessage::Header(header) => {
                     self.storage.counters.rx_packets += 1;
@@ -83,14 +103,16 @@ impl WebProxyCore {
                 }
                 ResponseMessage::Body(body) => {
                     self.storage.counters.rx_packets += 1;
-                    let tx = tx.clone();
-                    spawn_local(async move { tx.send(body).await.expect("sending body") })
+                    if tx.send(body).is_err() {
+                        self.requests.remove(&nonce);
+                    }
                 }
                 ResponseMessage::Done => {
                     self.requests.remove(&nonce);
                 }
                 ResponseMessage::Error(err) => {
-                    log::warn!("Got error {err} for response of nonce {nonce}")
+                    log::warn!("Got error {err} for response of nonce {nonce}");
+                    self.requests.remove(&nonce);
                 }
             }
         }
diff --git a/flmodules/src/web_proxy/intern.rs b/flmodules/src/web_proxy/intern.rs
index a76289d..27fc67a 100644
--- a/flmodules/src/web_proxy/intern.rs
+++ b/flmodules/src/web_proxy/intern.rs
@@ -134,58 +134,39 @@ impl Intern {
     fn start_request(&mut self, src: NodeID, nonce: U256, request: String) -> Vec<InternOut> {
         let mut broker = self.broker.clone();
         spawn_local(async move {
-            match reqwest::get(request).await {
-                Ok(resp) => {
-                    broker
-                        .emit_msg_out(Self::module_msg(
-                            src,
-                            &ModuleMessage::Response(
-                                nonce,
-                                ResponseMessage::Header((&resp).into()),
-                            ),
-                        ))
-                        .expect("sending header");
-                    let mut stream = resp.bytes_stream().chunks(1024);
-                    while let Some(chunks) = stream.next().await {
-                        for chunk in chunks {
-                            broker
-                                .emit_msg_out(Self::module_msg(
-                                    src,
-                                    &ModuleMessage::Response(
-                                        nonce,
-                                        ResponseMessage::Body(chunk.expect("getting chunk")),
-                                    ),
-                                ))
-                                .expect("sending body");
-                        }
-                    }
-                    broker
-                        .emit_msg_out(Self::module_msg(
-                            src,
-                            &ModuleMessage::Response(nonce, ResponseMessage::Done),
-                        ))
-                        .expect("sending done");
-                }
-                Err(e) => {
-                    broker
-                        .emit_msg_out(Self::module_msg(
-                            src,
-                            &ModuleMessage::Response(nonce, ResponseMessage::Error(e.to_string())),
-                        ))
-                        .expect("Sending done message for");
-                    return;
-                }
+            if let Err(e) = Self::fetch(&mut broker, src, nonce, request).await {
+                log::warn!("Couldn't send response to {src}: {e}");
             }
-            broker
-                .emit_msg_out(Self::module_msg(
-                    src,
-                    &ModuleMessage::Response(nonce, ResponseMessage::Done),
-                ))
-                .expect("Sending done message for");
         });
         vec![]
     }
 
+    /// Fetches the URL and sends the answer to `src`: one header, the body, and then either
+    /// `Done`, or `Error` if something went wrong.
+    async fn fetch(
+        broker: &mut BrokerIntern,
+        src: NodeID,
+        nonce: U256,
+        request: String,
+    ) -> anyhow::Result<()> {
+        let mut reply = |msg: ResponseMessage| {
+            broker.emit_msg_out(Self::module_msg(src, &ModuleMessage::Response(nonce, msg)))
+        };
+        let resp = match reqwest::get(request).await {
+            Ok(resp) => resp,
+            Err(e) => return Ok(reply(ResponseMessage::Error(e.to_string()))?),
+        };
+        reply(ResponseMessage::Header((&resp).into()))?;
+        let mut stream = resp.bytes_stream();
+        while let Some(chunk) = stream.next().await {
+            match chunk {
+                Ok(body) => reply(ResponseMessage::Body(body))?,
+                Err(e) => return Ok(reply(ResponseMessage::Error(e.to_string()))?),
+            }
+        }
+        Ok(reply(ResponseMessage::Done)?)
+    }
+
     fn handle_response(
         &mut self,
         src: NodeID,
@@ -193,7 +174,7 @@ impl Intern {
         msg: ResponseMessage,
     ) -> Vec<InternOut> {
         self.core
-            .handle_response(nonce, msg)
+            .handle_response(src, nonce, msg)
             .map_or(vec![], |header| {
                 vec![InternOut::WebProxy(WebProxyOut::ResponseGet(
                     src, nonce, header,
diff --git a/flmodules/src/web_proxy/response.rs b/flmodules/src/web_proxy/response.rs
index 5b943f3..2e167be 100644
--- a/flmodules/src/web_proxy/response.rs
+++ b/flmodules/src/web_proxy/response.rs
@@ -64,7 +64,7 @@ impl From<&reqwest::Response> for ResponseHeader {
         let mut headers = HashMap::new();
         for (k, v) in value.headers() {
             let values = headers.entry(k.to_string()).or_insert(vec![]);
-            values.push(v.to_str().expect("converting header value").into());
+            values.push(String::from_utf8_lossy(v.as_bytes()).into());
         }
         Self {
             status: ResponseStatus {
-- 
2.43.0


From dbaf46b22b3886499bf3edf05cc085c2df44c1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 32/40] fix: WebProxy::get listens before it asks, and always
 removes its tap

---
 flmodules/src/web_proxy/broker.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/flmodules/src/web_proxy/broker.rs b/flmodules/src/web_proxy/broker.rs
index 2cf37fe..2ecf534 100644
--- a/flmodules/src/web_proxy/broker.rs
+++ b/flmodules/src/web_proxy/broker.rs
@@ -93,23 +93,30 @@ impl WebProxy {
         log::debug!("Getting {url}");
         let our_rnd = U256::rnd();
         let (tx, rx) = channel(128);
-        self.web_proxy
-            .emit_msg_in(WebProxyIn::RequestGet(our_rnd, url.to_string(), tx))?;
+        // Listen before sending the request, so that the answer cannot be missed.
         let (mut tap, id) = self.web_proxy.get_tap_out().await?;
-        Ok(timeout(Duration::from_secs(5), async move {
+        let sent = self
+            .web_proxy
+            .emit_msg_in(WebProxyIn::RequestGet(our_rnd, url.to_string(), tx));
+        let answer = timeout(Duration::from_secs(5), async move {
             while let Some(msg) = tap.recv().await {
                 let WebProxyOut::ResponseGet(proxy, rnd, header) = msg;
                 if rnd == our_rnd {
-                    self.web_proxy.remove_subsystem(id).await?;
-                    return Ok(Response::new(proxy, header, rx));
+                    return Some(Response::new(proxy, header, rx));
                 }
             }
-            // TODO: is this really called sometime?
-            self.web_proxy.remove_subsystem(id).await?;
-            return Err(anyhow::anyhow!(WebProxyError::ResponseTimeout));
-        })
-        .await
-        .map_err(|_| WebProxyError::ResponseTimeout)??)
+            None
+        });
+        let answer = match sent {
+            Ok(_) => answer.await,
+            Err(_) => Ok(None),
+        };
+        self.web_proxy.remove_subsystem(id).await?;
+        sent?;
+        Ok(answer
+            .ok()
+            .flatten()
+            .ok_or(WebProxyError::ResponseTimeout)?)
     }
 
     pub fn get_counters(&mut self) -> Counters {
-- 
2.43.0


From 0333dcff601cf62a3fcbb7f29118367c94c5e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 33/40] fix: a stored configuration without a version doesn't
 panic

---
 flmodules/src/nodeconfig.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index 2647955..780d9b1 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -8,6 +8,7 @@ use bitflags::bitflags;
 use ed25519_compact::{KeyPair, Noise, PublicKey, Seed, Signature};
 use flarch::nodeids::{NodeID, U256};
 use flmacro::VersionedSerde;
+use serde::de::DeserializeOwned;
 use serde_derive::{Deserialize, Serialize};
 use serde_with::{base64::Base64, hex::Hex, serde_as};
 use std::fmt::{Debug, Formatter};
@@ -29,6 +30,12 @@ pub enum ConfigError {
     DecodeYaml(#[from] serde_yaml::Error),
 }
 
+/// Reads any yaml text. Going directly to a versioned type panics for some texts without
+/// a version, for example `{}`.
+fn from_yaml<T: DeserializeOwned>(data: &str) -> Result<T, serde_yaml::Error> {
+    serde_yaml::from_value(serde_yaml::from_str(data)?)
+}
+
 /// NodeInfo is the public information of the node.
 #[serde_as]
 #[derive(VersionedSerde, Clone, Hash)]
@@ -101,7 +108,7 @@ impl NodeInfo {
 
     /// Decodes a given string as yaml and returns the corresponding `NodeInfo`.
     pub fn decode(data: &str) -> Result<Self, ConfigError> {
-        Ok(serde_yaml::from_str(data)?)
+        Ok(from_yaml(data)?)
     }
 
     /// Encodes this NodeInfo as yaml string.
@@ -240,7 +247,7 @@ impl NodeConfig {
     /// Returns the configuration or an error. Correctly handles
     /// old toml-configurations.
     pub fn decode(data: &str) -> Self {
-        serde_yaml::from_str(data)
+        from_yaml(data)
             .ok()
             .unwrap_or_else(|| Self::new())
     }
-- 
2.43.0


From aee08a7eb9a9a5d3f68fe756a6b95dec8d0c13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 34/40] fix: websocket server keeps the numbers of its
 connections, and they don't block each other

---
 flarch/src/web_rtc/libc/web_socket_server.rs | 190 ++++++++-----------
 1 file changed, 82 insertions(+), 108 deletions(-)

diff --git a/flarch/src/web_rtc/libc/web_socket_server.rs b/flarch/src/web_rtc/libc/web_socket_server.rs
index 27e35c9..bf5eb37 100644
--- a/flarch/src/web_rtc/libc/web_socket_server.rs
+++ b/flarch/src/web_rtc/libc/web_socket_server.rs
@@ -1,17 +1,13 @@
 use async_trait::async_trait;
-use futures::{
-    lock::Mutex,
-    stream::{SplitSink, SplitStream},
-    SinkExt, StreamExt,
-};
-use std::sync::Arc;
+use futures::{lock::Mutex, SinkExt, StreamExt};
+use std::{collections::HashMap, sync::Arc};
 use tokio::{
     net::{TcpListener, TcpStream},
     select,
-    sync::oneshot,
-    task::JoinHandle,
+    sync::{mpsc, oneshot},
+    task::{JoinHandle, JoinSet},
 };
-use tokio_tungstenite::{accept_async, tungstenite::Message, WebSocketStream};
+use tokio_tungstenite::{accept_async, tungstenite::Message};
 
 use crate::web_rtc::websocket::{WSError, WSServerIn, WSServerOut};
 use crate::{
@@ -19,38 +15,42 @@ use crate::{
     web_rtc::websocket::BrokerWSServer,
 };
 
+type Connections = Arc<Mutex<HashMap<usize, WSConnection>>>;
+
 pub struct WebSocketServer {
-    connections: Arc<Mutex<Vec<WSConnection>>>,
+    connections: Connections,
     conn_thread: JoinHandle<()>,
 }
 
 impl WebSocketServer {
     pub async fn new(port: u16) -> anyhow::Result<BrokerWSServer> {
         let server = TcpListener::bind(format!("0.0.0.0:{}", port)).await?;
-        let connections = Arc::new(Mutex::new(Vec::new()));
+        let connections = Connections::default();
         let connections_cl = Arc::clone(&connections);
         let mut broker = Broker::new();
-        let mut broker_cl = broker.clone();
+        let broker_cl = broker.clone();
         let conn_thread = tokio::spawn(async move {
             let mut connection_id = 0;
+            // Every connection has its own task, including the handshake, so that one slow
+            // client doesn't block the others. Aborting this thread also stops all of them.
+            let mut tasks = JoinSet::new();
             loop {
                 match server.accept().await {
                     Ok((stream, _)) => {
-                        let broker_cl2 = broker_cl.clone();
-                        match WSConnection::new(stream, broker_cl2, connection_id).await {
-                            Ok(conn) => {
-                                log::trace!("Got new connection");
-                                connections_cl.lock().await.push(conn);
-                                broker_cl
-                                    .emit_msg_out(WSServerOut::NewConnection(connection_id))
-                                    .expect("Error sending connect message");
+                        let broker = broker_cl.clone();
+                        let connections = Arc::clone(&connections_cl);
+                        let id = connection_id;
+                        tasks.spawn(async move {
+                            if let Err(e) = WSConnection::run(stream, broker, connections, id).await
+                            {
+                                log::error!("Error in connection {id}: {e:?}");
                             }
-                            Err(e) => log::error!("Error while getting connection: {:?}", e),
-                        }
+                        });
+                        connection_id += 1;
                     }
                     Err(e) => log::error!("While accepting connection: {e:?}"),
                 }
-                connection_id += 1;
+                while tasks.try_join_next().is_some() {}
             }
         });
 
@@ -71,21 +71,15 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
         for msg in from_broker {
             match msg {
                 WSServerIn::Message(id, msg) => {
-                    let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
-                        if let Err(e) = conn.send(msg).await {
-                            log::error!("Error while sending: {e}");
-                            conn.close();
-                            connections.remove(id);
+                    if let Some(conn) = self.connections.lock().await.get(&id) {
+                        if conn.tx_msg.send(msg).is_err() {
+                            log::warn!("Connection {id} is already closed");
                         }
                     }
                 }
                 WSServerIn::Close(id) => {
-                    let mut connections = self.connections.lock().await;
-                    if let Some(conn) = connections.get_mut(id) {
-                        conn.close();
-                        connections.remove(id);
-                    }
+                    // Dropping the connection tells its task to stop.
+                    self.connections.lock().await.remove(&id);
                 }
                 WSServerIn::Stop => {
                     log::trace!("Stopping thread");
@@ -98,93 +92,73 @@ impl SubsystemHandler<WSServerIn, WSServerOut> for WebSocketServer {
     }
 }
 
+/// The server's side of a connection, which is handled in its own task.
+/// The connection is closed when this structure is dropped.
 pub struct WSConnection {
-    websocket: SplitSink<WebSocketStream<TcpStream>, Message>,
-    tx: Option<oneshot::Sender<bool>>,
+    tx_msg: mpsc::UnboundedSender<String>,
+    _close: oneshot::Sender<()>,
 }
 
 impl WSConnection {
-    async fn new(
+    /// Does the handshake, announces the connection, and handles it until it is closed by
+    /// either side.
+    async fn run(
         stream: TcpStream,
-        broker: BrokerWSServer,
+        mut broker: BrokerWSServer,
+        connections: Connections,
         id: usize,
-    ) -> anyhow::Result<WSConnection> {
+    ) -> anyhow::Result<()> {
         let websocket = accept_async(stream)
             .await
             .map_err(|e| WSError::Underlying(e.to_string()))?;
-        let (wr, rd) = websocket.split();
-        let (tx, rx) = oneshot::channel();
-        let uwsc = WSConnection {
-            websocket: wr,
-            tx: Some(tx),
-        };
-
-        WSConnection::loop_read(broker, rd, rx, id).await;
-        Ok(uwsc)
-    }
+        let (mut wr, mut rd) = websocket.split();
+        let (tx_msg, mut rx_msg) = mpsc::unbounded_channel::<String>();
+        let (_close, mut closed) = oneshot::channel();
 
-    async fn loop_read(
-        mut broker: BrokerWSServer,
-        mut ws: SplitStream<WebSocketStream<TcpStream>>,
-        mut rx: oneshot::Receiver<bool>,
-        id: usize,
-    ) {
-        tokio::spawn(async move {
-            loop {
-                select! {
-                    _ = (&mut rx) => {
-                        broker
-                        .emit_msg_out(WSServerOut::Disconnection(id))
-                        .expect("While sending message to broker.");
-                        return;
-                    },
-                    ws_out = ws.next() =>
-                        if let Some(msg_ws) = ws_out {
-                            if let Some(out) = match msg_ws {
-                                Ok(msg) => match msg {
-                                    Message::Text(s) => {
-                                        Some(WSServerOut::Message(id, s.to_string()))
-                                    }
-                                    Message::Close(_) => {
-                                        Some(WSServerOut::Disconnection(id))
-                                    }
-                                    _ => None,
-                                },
-                                Err(e) => {
-                                    log::warn!("Closing connection because of error: {e:?}");
-                                    Some(WSServerOut::Disconnection(id))
-                                }
-                            } {
-                                broker
-                                    .emit_msg_out(out.clone())
-                                    .expect("While sending message to broker.");
-                                if matches!(
-                                    out,
-                                    WSServerOut::Disconnection(_)
-                                ) {
-                                    return;
-                                }
-                            }
-                        }
+        log::trace!("Got new connection");
+        connections
+            .lock()
+            .await
+            .insert(id, WSConnection { tx_msg, _close });
+        broker.emit_msg_out(WSServerOut::NewConnection(id))?;
+
+        let mut broker_rd = broker.clone();
+        let read = async move {
+            while let Some(msg_ws) = rd.next().await {
+                match msg_ws {
+                    Ok(Message::Text(s)) => {
+                        broker_rd.emit_msg_out(WSServerOut::Message(id, s.to_string()))?
+                    }
+                    Ok(Message::Close(_)) => break,
+                    Ok(_) => {}
+                    Err(e) => {
+                        log::warn!("Closing connection because of error: {e:?}");
+                        break;
+                    }
                 }
             }
-        });
-    }
-
-    async fn send(&mut self, msg: String) -> anyhow::Result<()> {
-        Ok(self
-            .websocket
-            .send(Message::Text(msg.into()))
-            .await
-            .map_err(|e| WSError::Underlying(e.to_string()))?)
-    }
+            anyhow::Ok(())
+        };
+        let write = async move {
+            while let Some(msg) = rx_msg.recv().await {
+                if let Err(e) = wr.send(Message::Text(msg.into())).await {
+                    log::error!("Error while sending: {e}");
+                    return;
+                }
+            }
+            // The server dropped this connection, which also closes `closed`.
+            std::future::pending().await
+        };
 
-    fn close(&mut self) {
-        if let Some(tx) = self.tx.take() {
-            tx.send(true)
-                .err()
-                .map(|_| log::error!("Closing Websocket failed"));
-        }
+        let result = select! {
+            biased;
+            _ = &mut closed => Ok(()),
+            res = read => res,
+            _ = write => Ok(()),
+        };
+        connections.lock().await.remove(&id);
+        broker.emit_msg_out(WSServerOut::Disconnection(id))?;
+        result
     }
 }
 
-- 
2.43.0


From 0d74ec2d9bff10aa76de96fc2f552bcc9b911dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 35/40] fix: DHTStorage reads what it stored before

---
 flmodules/src/dht_storage/broker.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 787c82f..aabfb4e 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -135,7 +135,10 @@ impl DHTStorage {
     }
 
     pub fn store_flo(&mut self, flo: Flo) -> anyhow::Result<()> {
-        Ok(self.broker.emit_msg_in(DHTStorageIn::StoreFlo(flo))?)
+        // Takes the same way as the methods reading flos, so that they always see this flo.
+        Ok(self
+            .intern
+            .emit_msg_in(InternIn::Storage(DHTStorageIn::StoreFlo(flo)))?)
     }
 
     pub fn propagate(&mut self) -> anyhow::Result<()> {
-- 
2.43.0


From 80c1ed31f6d81f10e6cf1ef664e9e0dd20095406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 36/40] fix: full path of a page whose parents form a loop

---
 flmodules/src/dht_storage/realm_view.rs | 37 ++++++++++++++++---------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/flmodules/src/dht_storage/realm_view.rs b/flmodules/src/dht_storage/realm_view.rs
index 7eb1cd5..889cb2c 100644
--- a/flmodules/src/dht_storage/realm_view.rs
+++ b/flmodules/src/dht_storage/realm_view.rs
@@ -263,23 +263,34 @@ impl RealmView {
     }
 
     pub fn get_full_path_id(&self, id: &BlobID) -> anyhow::Result<String> {
-        if let Some(page) = self.pages.storage.get(id) {
-            self.get_full_path_blob(page)
-        } else if let Some(tag) = self.tags.storage.get(id) {
-            self.get_full_path_blob(tag)
-        } else {
-            Err(anyhow::anyhow!("Didn't find page or tag with this ID"))
-        }
+        let blob = self
+            .get_blob_path_family(id)
+            .ok_or(anyhow::anyhow!("Didn't find page or tag with this ID"))?;
+        self.get_full_path(blob)
     }
 
     pub fn get_full_path_blob<T: BlobPathFamily>(&self, b: &T) -> anyhow::Result<String> {
-        let path = b
-            .get_path()
-            .ok_or(anyhow::anyhow!("Didn't find path in blob"))?;
-        if let Some(p) = b.get_parents().first() {
-            return Ok(format!("{}/{path}", self.get_full_path_id(p)?));
+        self.get_full_path(b)
+    }
+
+    fn get_full_path<'a>(&'a self, mut blob: &'a dyn BlobPathFamily) -> anyhow::Result<String> {
+        let mut full_path = String::new();
+        let mut visited = HashSet::new();
+        loop {
+            let path = blob
+                .get_path()
+                .ok_or(anyhow::anyhow!("Didn't find path in blob"))?;
+            full_path = format!("/{path}{full_path}");
+            let Some(parent) = blob.get_parents().into_iter().next() else {
+                return Ok(full_path);
+            };
+            blob = self
+                .get_blob_path_family(&parent)
+                .ok_or(anyhow::anyhow!("Didn't find page or tag with this ID"))?;
+            if !visited.insert(parent) {
+                return Err(anyhow::anyhow!("The parents of this blob form a loop"));
+            }
         }
-        Ok(format!("/{path}"))
     }
 
     pub fn get_page_from_path(&self, path: &str) -> anyhow::Result<&FloBlobPage> {
-- 
2.43.0


From 1f45a1f40f63d11e00c89274e88962a2025264ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 37/40] fix: strings like "0b1" stay the same when they are
 written and read as yaml

---
 flmodules/src/gossip_events/core.rs | 10 ++++----
 flmodules/src/lib.rs                |  1 +
 flmodules/src/nodeconfig.rs         | 17 ++++----------
 flmodules/src/router/messages.rs    | 10 +++-----
 flmodules/src/yaml.rs               | 36 +++++++++++++++++++++++++++++
 5 files changed, 50 insertions(+), 24 deletions(-)
 create mode 100644 flmodules/src/yaml.rs

diff --git a/flmodules/src/gossip_events/core.rs b/flmodules/src/gossip_events/core.rs
index 36f7662..351a2eb 100644
--- a/flmodules/src/gossip_events/core.rs
+++ b/flmodules/src/gossip_events/core.rs
@@ -5,6 +5,8 @@ use std::collections::HashMap;
 
 use flarch::nodeids::{NodeID, U256};
 
+use crate::yaml;
+
 /// This holds a number of Events from of different categories. Every category can
 /// have its own configuration with regard of whether its events are unique to a
 /// node (e.g., NodeInfo), or can be many per node (e.g., TextMessage).
@@ -82,7 +84,7 @@ impl EventsStorage {
     }
 
     pub fn get(&self) -> anyhow::Result<String> {
-        Ok(serde_yaml::to_string(&EventsStorageSave::V4(self.clone()))?)
+        Ok(yaml::to_string(&EventsStorageSave::V4(self.clone()))?)
     }
 
     pub fn set(&mut self, data: &str) -> anyhow::Result<()> {
@@ -104,12 +106,10 @@ enum EventsStorageSave {
 
 impl EventsStorageSave {
     fn from_str(data: &str) -> anyhow::Result<EventsStorage> {
-        // serde_yaml panics if it reads an empty map as an enum, so first read a generic value.
-        let value: serde_yaml::Value = serde_yaml::from_str(data)?;
-        if let Ok(es) = serde_yaml::from_value::<EventsStorageSave>(value.clone()) {
+        if let Ok(es) = yaml::from_str::<EventsStorageSave>(data) {
             return Ok(es.to_latest());
         }
-        Ok(serde_yaml::from_value::<EventsStorageV1>(value).map(|es| es.to_latest())?)
+        Ok(yaml::from_str::<EventsStorageV1>(data).map(|es| es.to_latest())?)
     }
 
     fn to_latest(self) -> EventsStorage {
diff --git a/flmodules/src/lib.rs b/flmodules/src/lib.rs
index 020b011..cbd63d0 100644
--- a/flmodules/src/lib.rs
+++ b/flmodules/src/lib.rs
@@ -33,5 +33,6 @@ pub mod router;
 pub mod template;
 pub mod timer;
 pub mod web_proxy;
+mod yaml;
 
 pub mod testing;
diff --git a/flmodules/src/nodeconfig.rs b/flmodules/src/nodeconfig.rs
index 780d9b1..09d19d4 100644
--- a/flmodules/src/nodeconfig.rs
+++ b/flmodules/src/nodeconfig.rs
@@ -8,13 +8,12 @@ use bitflags::bitflags;
 use ed25519_compact::{KeyPair, Noise, PublicKey, Seed, Signature};
 use flarch::nodeids::{NodeID, U256};
 use flmacro::VersionedSerde;
-use serde::de::DeserializeOwned;
 use serde_derive::{Deserialize, Serialize};
 use serde_with::{base64::Base64, hex::Hex, serde_as};
 use std::fmt::{Debug, Formatter};
 use thiserror::Error;
 
-use crate::Modules;
+use crate::{yaml, Modules};
 
 /// Errors to be returned when setting up a new config
 #[derive(Error, Debug)]
@@ -30,12 +29,6 @@ pub enum ConfigError {
     DecodeYaml(#[from] serde_yaml::Error),
 }
 
-/// Reads any yaml text. Going directly to a versioned type panics for some texts without
-/// a version, for example `{}`.
-fn from_yaml<T: DeserializeOwned>(data: &str) -> Result<T, serde_yaml::Error> {
-    serde_yaml::from_value(serde_yaml::from_str(data)?)
-}
-
 /// NodeInfo is the public information of the node.
 #[serde_as]
 #[derive(VersionedSerde, Clone, Hash)]
@@ -108,12 +101,12 @@ impl NodeInfo {
 
     /// Decodes a given string as yaml and returns the corresponding `NodeInfo`.
     pub fn decode(data: &str) -> Result<Self, ConfigError> {
-        Ok(from_yaml(data)?)
+        Ok(yaml::from_str(data)?)
     }
 
     /// Encodes this NodeInfo as yaml string.
     pub fn encode(&self) -> String {
-        serde_yaml::to_string(&self).unwrap()
+        yaml::to_string(&self).unwrap()
     }
 }
 
@@ -241,13 +234,13 @@ impl NodeConfig {
 
     /// Returns a yaml representation of the config.
     pub fn encode(&self) -> String {
-        serde_yaml::to_string(&self).unwrap()
+        yaml::to_string(&self).unwrap()
     }
 
     /// Returns the configuration or an error. Correctly handles
     /// old toml-configurations.
     pub fn decode(data: &str) -> Self {
-        from_yaml(data)
+        yaml::from_str(data)
             .ok()
             .unwrap_or_else(|| Self::new())
     }
diff --git a/flmodules/src/router/messages.rs b/flmodules/src/router/messages.rs
index d7b6144..b74f6dc 100644
--- a/flmodules/src/router/messages.rs
+++ b/flmodules/src/router/messages.rs
@@ -1,7 +1,7 @@
 use flarch::nodeids::{NodeID, NodeIDs};
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 
-use crate::{network::signal::FledgerConfig, nodeconfig::NodeInfo};
+use crate::{network::signal::FledgerConfig, nodeconfig::NodeInfo, yaml};
 
 #[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
 pub struct NetworkWrapper {
@@ -29,17 +29,13 @@ impl NetworkWrapper {
     pub fn wrap_yaml<T: Serialize>(module: &str, msg: &T) -> anyhow::Result<Self> {
         Ok(Self {
             module: module.into(),
-            msg: serde_yaml::to_string(msg)?,
+            msg: yaml::to_string(msg)?,
         })
     }
 
     pub fn unwrap_yaml<T: DeserializeOwned>(&self, module: &str) -> Option<T> {
         if self.module == module {
-            // serde_yaml panics if it reads an empty map as an enum, so first read a generic
-            // value, as this message can come from anybody.
-            return serde_yaml::from_str::<serde_yaml::Value>(&self.msg)
-                .and_then(serde_yaml::from_value)
-                .ok();
+            return yaml::from_str(&self.msg).ok();
         }
         None
     }
diff --git a/flmodules/src/yaml.rs b/flmodules/src/yaml.rs
new file mode 100644
index 0000000..03e275d
--- /dev/null
+++ b/flmodules/src/yaml.rs
@@ -0,0 +1,36 @@
+//! Reading and writing yaml with serde_yaml 0.8, without its problems:
+//! - reading an empty map as an enum panics
+//! - strings like "0b1" or "0o7" are written without quotes, and are numbers for a reader who
+//!   doesn't know the type
+
+use serde::{de::DeserializeOwned, Serialize};
+use serde_yaml::{Error, Value};
+
+/// Returns yaml which can be read independently of the type.
+pub fn to_string<T: Serialize>(value: &T) -> Result<String, Error> {
+    let text = serde_yaml::to_string(value)?;
+    if serde_yaml::from_str::<Value>(&text).ok() != serde_yaml::to_value(value).ok() {
+        // Json is also yaml, but always has quotes.
+        return Ok(serde_json::to_string(value).unwrap_or(text));
+    }
+    Ok(text)
+}
+
+/// Reads yaml from any source, also if it is not trusted.
+pub fn from_str<T: DeserializeOwned>(text: &str) -> Result<T, Error> {
+    let value = serde_yaml::from_str::<Value>(text)?;
+    if has_empty_map(&value) {
+        return serde_yaml::from_value(value);
+    }
+    serde_yaml::from_str(text)
+}
+
+fn has_empty_map(value: &Value) -> bool {
+    match value {
+        Value::Mapping(map) => {
+            map.is_empty() || map.iter().any(|(k, v)| has_empty_map(k) || has_empty_map(v))
+        }
+        Value::Sequence(seq) => seq.iter().any(has_empty_map),
+        _ => false,
+    }
+}
-- 
2.43.0


From b6e75dc8fdbe6fc8beedc4e01029e647f70fe691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 38/40] fix: a stored badge which is part of itself made
 resolving its rule loop forever

---
 flmodules/src/dht_storage/broker.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index aabfb4e..c3386b4 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -6,7 +6,7 @@ use flarch::{
     tasks::wait_ms,
 };
 use flcrypto::{
-    access::{Condition, ConditionLink},
+    access::{BadgeID, Condition, ConditionLink},
     signer::{SignerError, Verifier},
 };
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
@@ -215,8 +215,19 @@ impl DHTStorage {
         Ok(self.broker.emit_msg_in(DHTStorageIn::SyncFromNeighbors)?)
     }
 
-    #[async_recursion(?Send)]
     pub async fn convert(&mut self, cl: &ConditionLink, rid: &RealmID) -> Condition {
+        self.convert_parents(cl, rid, &[]).await
+    }
+
+    /// The parents are the badges this link is part of. A badge which is part of itself
+    /// is not available, instead of looping forever.
+    #[async_recursion(?Send)]
+    async fn convert_parents(
+        &mut self,
+        cl: &ConditionLink,
+        rid: &RealmID,
+        parents: &[BadgeID],
+    ) -> Condition {
         match cl {
             ConditionLink::Verifier(ver) => self
                 .get_flo::<Verifier>(&rid.global_id((*Flo::calc_flo_id(&*ver)).into()))
@@ -224,17 +235,23 @@ impl DHTStorage {
                 .map(|v| Condition::Verifier(v.cache().clone()))
                 .unwrap_or(Condition::NotAvailable),
             ConditionLink::Badge(version) => {
+                if parents.contains(&version.get_id()) {
+                    return Condition::NotAvailable;
+                }
                 if let Ok(b) = self
                     .get_flo::<BadgeCond>(&rid.global_id((*version.get_id()).into()))
                     .await
                 {
                     let bl = b.badge_link();
+                    let parents = [parents, &[version.get_id()]].concat();
                     Condition::Badge(
                         version.clone(),
                         flcrypto::access::Badge {
                             id: bl.id,
                             version: bl.version,
-                            condition: Box::new(self.convert(&bl.condition, rid).await),
+                            condition: Box::new(
+                                self.convert_parents(&bl.condition, rid, &parents).await,
+                            ),
                         },
                     )
                 } else {
@@ -244,7 +261,7 @@ impl DHTStorage {
             ConditionLink::NofT(thr, vec) => {
                 let mut conds = vec![];
                 for cond in vec {
-                    conds.push(self.convert(cond, rid).await)
+                    conds.push(self.convert_parents(cond, rid, parents).await)
                 }
                 Condition::NofT(*thr, conds)
             }
-- 
2.43.0


From a026cd00ea3674b7297de9b7dd2a7c7fc46b8e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 39/40] fix: a rule was resolved with a badge of a version it
 doesn't accept

---
 flmodules/src/dht_storage/broker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index c3386b4..3cccecc 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -238,9 +238,11 @@ impl DHTStorage {
                 if parents.contains(&version.get_id()) {
                     return Condition::NotAvailable;
                 }
-                if let Ok(b) = self
+                if let Some(b) = self
                     .get_flo::<BadgeCond>(&rid.global_id((*version.get_id()).into()))
                     .await
+                    .ok()
+                    .filter(|b| b.fits_version(version))
                 {
                     let bl = b.badge_link();
                     let parents = [parents, &[version.get_id()]].concat();
-- 
2.43.0


From 5e8e97f25d1c51f76cd25937e547c5873971bae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 40/40] fix: a key stored with the ID of another key was used
 to resolve rules

---
 flmodules/src/dht_storage/broker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flmodules/src/dht_storage/broker.rs b/flmodules/src/dht_storage/broker.rs
index 3cccecc..bcfbff0 100644
--- a/flmodules/src/dht_storage/broker.rs
+++ b/flmodules/src/dht_storage/broker.rs
@@ -7,7 +7,7 @@ use flarch::{
 };
 use flcrypto::{
     access::{BadgeID, Condition, ConditionLink},
-    signer::{SignerError, Verifier},
+    signer::{SignerError, Verifier, VerifierTrait},
 };
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use thiserror::Error;
@@ -232,6 +232,8 @@ impl DHTStorage {
             ConditionLink::Verifier(ver) => self
                 .get_flo::<Verifier>(&rid.global_id((*Flo::calc_flo_id(&*ver)).into()))
                 .await
+                .ok()
+                .filter(|v| v.cache().get_id() == *ver)
                 .map(|v| Condition::Verifier(v.cache().clone()))
                 .unwrap_or(Condition::NotAvailable),
             ConditionLink::Badge(version) => {
-- 
2.43.0

