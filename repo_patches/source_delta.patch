From 8dfc9b6239265f3dadccd172309ff92a98232995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:15 +0000
Subject: [PATCH 01/21] Hook: re-export the scheduler under
 cfg(libmcaptcha_verif)

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8b85500..9301165 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -204,6 +204,14 @@ pub mod system;
 #[cfg(feature = "full")]
 mod utils;
 
+/// Access to private items for the external verification harness; only with `--cfg libmcaptcha_verif`
+#[allow(unexpected_cfgs)]
+#[cfg(all(feature = "full", libmcaptcha_verif))]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::queue::{Manager, Runnable};
+}
+
 #[cfg(feature = "full")]
 pub use crate::cache::hashcache::HashCache;
 #[cfg(feature = "full")]
-- 
2.43.0


From 78a5cadadc297bff0ccec049b5acbd0ee405308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 02/21] fix: Defense::visitor_threshold reports the visitor
 threshold, not the difficulty factor

---
 src/defense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/defense.rs b/src/defense.rs
index fd65df0..6d6e8c0 100644
--- a/src/defense.rs
+++ b/src/defense.rs
@@ -218,7 +218,7 @@ impl Defense {
 
     /// Get current level's  visitor threshold
     pub fn visitor_threshold(&self) -> u32 {
-        self.levels[self.current_visitor_threshold].difficulty_factor
+        self.levels[self.current_visitor_threshold].visitor_threshold
     }
 }
 
-- 
2.43.0


From 68242ec4471e68753318ae8fed896b5a8317b54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 03/21] fix: a visit below the current threshold no longer
 loosens the defense while the lower level is exceeded

---
 src/mcaptcha.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index afff229..cb45625 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -97,6 +97,10 @@ impl MCaptcha {
             self.defense.tighten_up();
         } else {
             self.defense.loosen_up();
+            // the lower level is only right if its threshold isn't exceeded
+            if self.visitor_threshold > self.defense.current_level().visitor_threshold {
+                self.defense.tighten_up();
+            }
         }
     }
 
-- 
2.43.0


From 6f757b7388064e123767921341182287c86c8b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 04/21] fix: visitor count saturates instead of overflowing
 (panic or wrap to zero)

---
 src/mcaptcha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mcaptcha.rs b/src/mcaptcha.rs
index cb45625..724707e 100644
--- a/src/mcaptcha.rs
+++ b/src/mcaptcha.rs
@@ -91,7 +91,7 @@ impl MCaptcha {
     /// increments the visitor count by one
     #[inline]
     pub fn add_visitor(&mut self) {
-        self.visitor_threshold += 1;
+        self.visitor_threshold = self.visitor_threshold.saturating_add(1);
         let current_level = self.defense.current_level();
         if self.visitor_threshold > current_level.visitor_threshold {
             self.defense.tighten_up();
-- 
2.43.0


From 4ccc5ec98d7a0f559d78d6294d10f834e43f9213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 05/21] fix: garbage collection survives stopped sites and
 overlapping runs, and stops and forgets exactly the idle site it found

Two overlapping clean ups (e.g. a requested one beside the periodic one), or a
site stopped or removed during one, panicked and took the site manager down.
A site visited or registered anew between the check and the removal was lost.
---
 src/master/embedded/counter.rs | 17 +++++++++++++++++
 src/master/embedded/master.rs  | 31 ++++++++++++++++++++++---------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index f5a2ed3..551502b 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -168,6 +168,23 @@ impl Handler<Stop> for Counter {
     }
 }
 
+/// Message to stop [Counter] if it has no visitors, returns if it was stopped
+#[derive(Message)]
+#[rtype(result = "bool")]
+pub(super) struct StopIfIdle;
+
+impl Handler<StopIfIdle> for Counter {
+    type Result = bool;
+
+    fn handle(&mut self, _: StopIfIdle, ctx: &mut Self::Context) -> Self::Result {
+        let idle = self.0.get_visitors() == 0;
+        if idle {
+            ctx.stop()
+        }
+        idle
+    }
+}
+
 /// Gets internal Captcha data
 #[derive(Message)]
 #[rtype(result = "MCaptcha")]
diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 1a34183..7fc245f 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -32,7 +32,7 @@ use crate::master::messages::{
 };
 use crate::master::Master as MasterTrait;
 
-use super::counter::{GetCurrentVisitorCount, Stop};
+use super::counter::{Stop, StopIfIdle};
 
 /// This Actor manages the [Counter] actors.
 /// A service can have several [Counter] actors with
@@ -109,8 +109,10 @@ impl Handler<AddVisitor> for Master {
                 let _ = tx.send(Ok(None));
             }
             Some(addr) => {
+                // sent right away: a clean up started after this visit must find it
+                let visit = addr.send(super::counter::AddVisitor);
                 let fut = async move {
-                    match addr.send(super::counter::AddVisitor).await {
+                    match visit.await {
                         Ok(val) => {
                             let _ = tx.send(Ok(Some(val)));
                         }
@@ -170,12 +172,10 @@ impl Handler<CleanUp> for Master {
         let master = ctx.address();
         info!("init master actor cleanup up");
         let task = async move {
-            for (id, (new, addr)) in sites.iter() {
-                let visitor_count = addr.send(GetCurrentVisitorCount).await.unwrap();
-                println!("{}", visitor_count);
-                if visitor_count == 0 && new.is_some() {
-                    addr.send(Stop).await.unwrap();
-                    master.send(RemoveCaptcha(id.to_owned())).await.unwrap();
+            for (new, addr) in sites.into_values() {
+                // a counter that was stopped by someone else can be forgotten too
+                if new.is_some() && addr.send(StopIfIdle).await.unwrap_or(true) {
+                    let _ = master.send(Forget(addr)).await;
                     println!("cleaned up");
                 }
             }
@@ -183,13 +183,26 @@ impl Handler<CleanUp> for Master {
             let duration = Duration::new(gc, 0);
             sleep(duration).await;
             //delay_for(duration).await;
-            master.send(CleanUp).await.unwrap();
+            let _ = master.send(CleanUp).await;
         }
         .into_actor(self);
         ctx.spawn(task);
     }
 }
 
+/// Message to forget a stopped [Counter], whatever name it goes by now
+#[derive(Message)]
+#[rtype(result = "()")]
+struct Forget(Addr<Counter>);
+
+impl Handler<Forget> for Master {
+    type Result = ();
+
+    fn handle(&mut self, m: Forget, _ctx: &mut Self::Context) -> Self::Result {
+        self.sites.retain(|_, (_, addr)| *addr != m.0);
+    }
+}
+
 impl Handler<RemoveCaptcha> for Master {
     type Result = MessageResult<RemoveCaptcha>;
 
-- 
2.43.0


From d92d60454c8606f5f12a5179b1adf8163ecf3d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 06/21] fix: restoring a snapshot gives sites that were not
 registered (or stopped) their state with its expiry

Restored visitors of such sites were never dropped again.
---
 src/master/embedded/master.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 7fc245f..4f773ac 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -277,26 +277,20 @@ impl Handler<GetInternalData> for Master {
 impl Handler<SetInternalData> for Master {
     type Result = MessageResult<SetInternalData>;
 
-    fn handle(&mut self, mut m: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
+    fn handle(&mut self, mut m: SetInternalData, _ctx: &mut Self::Context) -> Self::Result {
         let (tx, rx) = channel();
         for (name, mcaptcha) in m.mcaptcha.drain() {
-            let addr = self.get_site(&name);
-            let master = ctx.address();
-            let fut = async move {
-                match addr {
-                    None => {
-                        master.send(AddSite { id: name, mcaptcha }).await.unwrap();
-                    }
-                    Some(addr) => {
-                        let _ = addr.send(super::counter::SetInternalData(mcaptcha)).await;
-                        // best effort basis
-                        //let err: CaptchaError = e.into();
-                        //let _ = tx.send(Err(err));
-                    }
+            let addr = match self.get_site(&name) {
+                Some(addr) if addr.connected() => addr,
+                _ => {
+                    let counter: Counter = mcaptcha.clone().into();
+                    let addr = counter.start();
+                    self.add_site(addr.clone(), name);
+                    addr
                 }
-            }
-            .into_actor(self);
-            ctx.spawn(fut);
+            };
+            // also for new counters: it takes care of the restored visitors' expiry
+            addr.do_send(super::counter::SetInternalData(mcaptcha));
         }
 
         let _ = tx.send(Ok(()));
-- 
2.43.0


From 584802c5255d3e679c1c91df2517c6021d0ef31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 07/21] fix: restoring state into a running counter drops the
 expirations of the visitors it replaced

They were subtracted from the restored count on top of its own expiry.
---
 src/master/embedded/counter.rs | 35 ++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/master/embedded/counter.rs b/src/master/embedded/counter.rs
index 551502b..9a24c0d 100644
--- a/src/master/embedded/counter.rs
+++ b/src/master/embedded/counter.rs
@@ -92,11 +92,16 @@ use crate::mcaptcha::MCaptcha;
 /// This struct represents the mCaptcha state and is used
 /// to configure leaky-bucket lifetime and manage defense
 #[derive(Clone, Serialize, Deserialize, Debug)]
-pub struct Counter(MCaptcha);
+#[serde(transparent)]
+pub struct Counter(
+    MCaptcha,
+    // how often the state was replaced; visitors of an earlier state have nothing to decrement
+    #[serde(skip)] u64,
+);
 
 impl From<MCaptcha> for Counter {
     fn from(m: MCaptcha) -> Counter {
-        Counter(m)
+        Counter(m, 0)
     }
 }
 impl Actor for Counter {
@@ -106,12 +111,14 @@ impl Actor for Counter {
 /// Message to decrement the visitor count
 #[derive(Message)]
 #[rtype(result = "()")]
-struct DeleteVisitor;
+struct DeleteVisitor(u64);
 
 impl Handler<DeleteVisitor> for Counter {
     type Result = ();
-    fn handle(&mut self, _msg: DeleteVisitor, _ctx: &mut Self::Context) -> Self::Result {
-        self.0.decrement_visitor_by(1);
+    fn handle(&mut self, msg: DeleteVisitor, _ctx: &mut Self::Context) -> Self::Result {
+        if msg.0 == self.1 {
+            self.0.decrement_visitor_by(1);
+        }
     }
 }
 
@@ -129,10 +136,11 @@ impl Handler<AddVisitor> for Counter {
         //use actix::clock::delay_for;
 
         let duration: Duration = Duration::new(self.0.get_duration(), 0);
+        let state = self.1;
         let wait_for = async move {
             sleep(duration).await;
             //delay_for(duration).await;
-            addr.send(DeleteVisitor).await.unwrap();
+            addr.send(DeleteVisitor(state)).await.unwrap();
         }
         .into_actor(self);
         ctx.spawn(wait_for);
@@ -219,16 +227,19 @@ impl Handler<SetInternalData> for Counter {
     type Result = MessageResult<SetInternalData>;
 
     fn handle(&mut self, d: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
-        let addr = ctx.address();
         self.0 = d.0;
+        self.1 += 1;
+        let state = self.1;
         let duration: Duration = Duration::new(self.0.get_duration(), 0);
         let count = self.0.get_visitors();
-        let wait_for = async move {
-            sleep(duration).await;
+        let wait_for = sleep(duration)
             //delay_for(duration).await;
-            addr.send(BulkDecrement(count)).await.unwrap();
-        }
-        .into_actor(self);
+            .into_actor(self)
+            .map(move |_, counter, ctx| {
+                if counter.1 == state {
+                    counter.handle(BulkDecrement(count), ctx)
+                }
+            });
         ctx.spawn(wait_for);
 
         MessageResult(())
-- 
2.43.0


From 6c4514eb486fb692f8cb183fa8a702d556a76e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 08/21] fix: the scheduler hands jobs to idle runners only and
 forgets drained addresses

Addresses were never forgotten, so jobs stayed behind when a drained address had
its turn, and the queue was full for good after queue_length distinct addresses.
Jobs were handed to busy runners on every submission, so neither turns nor the
limit applied to them and they still ran after the shutdown.
---
 src/queue.rs | 51 +++++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/queue.rs b/src/queue.rs
index 918eb0c..366ecd5 100644
--- a/src/queue.rs
+++ b/src/queue.rs
@@ -90,13 +90,16 @@ enum InnerManagerMessage {
 }
 
 type InnerManagerQueue = HashMap<Rc<String>, VecDeque<Box<dyn Runnable>>>;
-type InnerManagerIP = Vec<Rc<String>>;
+type InnerManagerIP = VecDeque<Rc<String>>;
 
 struct InnerManager {
+    /// waiting jobs, only for IPs that have any
     queues: InnerManagerQueue,
     runners: HashMap<usize, RunnerThread>,
+    /// runners without a job
+    idle: VecDeque<usize>,
+    /// IPs with waiting jobs, in the order of their turns
     ips: InnerManagerIP,
-    currnet_index: usize,
     queue_length: usize,
 }
 
@@ -114,30 +117,30 @@ impl Drop for InnerManager {
 }
 
 impl InnerManager {
+    /// the runner has finished its job
     fn dispatch_to(&mut self, name: usize) {
-        if let Some(r) = self.runners.get(&name) {
-            let ip_vec_len = { self.ips.len() };
-
-            if self.currnet_index < ip_vec_len - 1 {
-                self.currnet_index += 1
-            } else {
-                self.currnet_index = 0;
-            }
-
-            let ip = self.ips.get(self.currnet_index).unwrap();
-            let ip_queue = self.queues.get_mut(ip).unwrap();
-            if let Some(work) = ip_queue.pop_front() {
-                r.tx.send(Message::Prove(work)).unwrap();
-            }
-        }
+        self.idle.push_back(name);
+        self.dispatch();
     }
 
+    /// hand waiting jobs to idle runners, one job per IP and turn
     fn dispatch(&mut self) {
-        for name in 0..self.runners.len() {
-            if !self.runners.contains_key(&name) {
-                panic!("unable to find thread: {name}");
+        while !self.idle.is_empty() {
+            let ip = match self.ips.pop_front() {
+                Some(ip) => ip,
+                None => return,
+            };
+            let ip_queue = self.queues.get_mut(&ip).unwrap();
+            let work = ip_queue.pop_front();
+            if ip_queue.is_empty() {
+                self.queues.remove(&ip);
             } else {
-                self.dispatch_to(name)
+                self.ips.push_back(ip);
+            }
+            if let Some(work) = work {
+                let name = self.idle.pop_front().unwrap();
+                let r = self.runners.get(&name).unwrap();
+                r.tx.send(Message::Prove(work)).unwrap();
             }
         }
     }
@@ -148,12 +151,12 @@ impl InnerManager {
             runners.insert(name, RunnerThread::spawn(name, tx.clone()));
         }
         let queues = HashMap::default();
-        let ips = Vec::default();
+        let ips = VecDeque::default();
         InnerManager {
             queues,
             runners,
+            idle: (0..workers).collect(),
             ips,
-            currnet_index: 0,
             queue_length,
         }
     }
@@ -172,7 +175,7 @@ impl InnerManager {
         queue.push_back(job);
         let ip = Rc::new(ip);
         self.queues.insert(ip.clone(), queue);
-        self.ips.push(ip);
+        self.ips.push_back(ip);
         self.dispatch();
         Ok(())
     }
-- 
2.43.0


From a10c48472838502a7bd681bca5c29aa7b62a791e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 09/21] fix: calls made on one Redis connection at the same
 time do not panic

---
 src/redis/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 14727f0..924dbe3 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -74,7 +74,12 @@ impl RedisConnection {
     /// execute a redis command against a [Self]
     pub async fn exec<T: FromRedisValue>(&self, cmd: &mut redis::Cmd) -> redis::RedisResult<T> {
         match self {
-            RedisConnection::Single(con) => cmd.query_async(&mut *con.borrow_mut()).await,
+            RedisConnection::Single(con) => {
+                // a borrow must not outlive this statement: others may use the connection
+                // while this command is under way
+                let mut con = con.borrow().clone();
+                cmd.query_async(&mut con).await
+            }
             RedisConnection::Cluster(con) => cmd.query(&mut *con.borrow_mut()),
         }
     }
-- 
2.43.0


From 790bd964d5c5fc7db74798b367cbcd1eee4360d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 10/21] fix: Redis keys of tokens do not coincide for different
 pairs of captcha and token

---
 src/redis/mcaptcha_redis.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 238891c..7624b26 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -47,6 +47,12 @@ const DELETE_CHALLENGE: &str = "MCAPTCHA_CACHE.DELETE_CHALLENGE";
 
 const MODULE_NAME: &str = "mcaptcha_cache";
 
+/// Redis key of a token: mcaptcha:token:<length of captcha>:captcha:token. The length keeps
+/// different pairs apart when captcha or token contain separators
+fn token_key(captcha: &str, token: &str) -> String {
+    format!("mcaptcha:token:{}:{}:{}", captcha.len(), captcha, token)
+}
+
 impl MCaptchaRedis {
     /// Get new [MCaptchaRedis]. Use this when executing commands that are
     /// only supported by mCaptcha Redis module. Internally, when object
@@ -208,8 +214,7 @@ impl MCaptchaRedisConnection {
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
         use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         let e: RedisResult<()> = self
             .0
             .exec::<()>(redis::cmd("SET").arg(&[
@@ -228,8 +233,7 @@ impl MCaptchaRedisConnection {
     /// Get PoW Token object to Redis
     pub async fn get_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<bool> {
         //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         let res = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
         match res {
             1 => Ok(true),
@@ -241,8 +245,7 @@ impl MCaptchaRedisConnection {
     /// Delete PoW Token object from Redis
     pub async fn delete_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<()> {
         //use redis::RedisResult;
-        // mcaptcha:token:captcha::token
-        let key = format!("mcaptcha:token:{}:{}", &msg.key, &msg.token);
+        let key = token_key(&msg.key, &msg.token);
         self.0.exec::<()>(redis::cmd("DEL").arg(&[&key])).await?;
         Ok(())
     }
-- 
2.43.0


From 51f86bfc9edcc268441dea1805d1446fc0118b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 11/21] fix: error and malformed replies of Redis are reported
 instead of crashing the actor that asked

---
 src/redis/mcaptcha_redis.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 7624b26..6997fab 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -123,7 +123,8 @@ impl MCaptchaRedisConnection {
     /// Add visitor
     pub async fn add_visitor(&self, msg: AddVisitor) -> CaptchaResult<Option<AddVisitorResult>> {
         let res: String = self.0.exec(redis::cmd(ADD_VISITOR).arg(&[msg.0])).await?;
-        let res: AddVisitorResult = serde_json::from_str(&res).unwrap();
+        let res: AddVisitorResult =
+            serde_json::from_str(&res).map_err(|_| CaptchaError::MCaptchaRedisModuleError)?;
         Ok(Some(res))
     }
 
@@ -194,7 +195,7 @@ impl MCaptchaRedisConnection {
             .0
             .exec(redis::cmd(GET_CHALLENGE).arg(&[&msg.key, &msg.token]))
             .await?;
-        Ok(serde_json::from_str(&challege).unwrap())
+        serde_json::from_str(&challege).map_err(|_| CaptchaError::MCaptchaRedisModuleError)
     }
 
     /// Delete PoW Challenge object from Redis
@@ -213,20 +214,15 @@ impl MCaptchaRedisConnection {
 
     /// Add PoW Token object to Redis
     pub async fn add_token(&self, msg: &CacheResult) -> CaptchaResult<()> {
-        use redis::RedisResult;
         let key = token_key(&msg.key, &msg.token);
-        let e: RedisResult<()> = self
-            .0
+        self.0
             .exec::<()>(redis::cmd("SET").arg(&[
                 &key,
                 &msg.key,
                 "EX",
                 msg.duration.to_string().as_str(),
             ]))
-            .await;
-        if let Err(e) = e {
-            panic!("{}", e);
-        }
+            .await?;
         Ok(())
     }
 
-- 
2.43.0


From 957d5aef5ac007597ccd66375f5e63cd6dd0c810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 12/21] fix: a negative visitor count from Redis is an error,
 not a huge count

---
 src/redis/mcaptcha_redis.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 6997fab..7bc02e5 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -208,8 +208,10 @@ impl MCaptchaRedisConnection {
 
     /// Get number of visitors of an mCaptcha object from Redis
     pub async fn get_visitors(&self, captcha: &str) -> CaptchaResult<usize> {
-        let visitors: usize = self.0.exec(redis::cmd(GET).arg(&[captcha])).await?;
-        Ok(visitors)
+        let visitors: i64 = self.0.exec(redis::cmd(GET).arg(&[captcha])).await?;
+        visitors
+            .try_into()
+            .map_err(|_| CaptchaError::MCaptchaRedisModuleError)
     }
 
     /// Add PoW Token object to Redis
-- 
2.43.0


From c370320b8da314d0778ca73b8e87c9a16bfd6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 13/21] fix: the mCaptcha module is found wherever it is in the
 list of modules, failures to ask are errors

---
 src/redis/mcaptcha_redis.rs | 41 ++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 7bc02e5..5e0c7c9 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -53,6 +53,15 @@ fn token_key(captcha: &str, token: &str) -> String {
     format!("mcaptcha:token:{}:{}:{}", captcha.len(), captcha, token)
 }
 
+/// Is this entry of MODULE LIST, a list of alternating field names and values, about mCaptcha's
+/// module?
+fn is_mcaptcha_module(module: &Value) -> bool {
+    match module {
+        Value::Array(fields) => fields.iter().any(|i| format!("{:?}", i).contains(MODULE_NAME)),
+        _ => false,
+    }
+}
+
 impl MCaptchaRedis {
     /// Get new [MCaptchaRedis]. Use this when executing commands that are
     /// only supported by mCaptcha Redis module. Internally, when object
@@ -75,15 +84,13 @@ impl MCaptchaRedis {
 
 impl MCaptchaRedisConnection {
     async fn is_module_loaded(&self) -> CaptchaResult<()> {
-        if let Value::Array(s) = self.0.exec(redis::cmd("MODULE").arg("LIST")).await.unwrap() {
-            if let Some(Value::Array(s)) = s.first() {
-                match s.iter().find(|i| format!("{:?}", i).contains(MODULE_NAME)) {
-                    Some(_) => (),
-                    None => return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded),
-                }
-            } else {
-                return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
-            }
+        let modules: Value = self.0.exec(redis::cmd("MODULE").arg("LIST")).await?;
+        let loaded = match &modules {
+            Value::Array(modules) => modules.iter().any(is_mcaptcha_module),
+            _ => false,
+        };
+        if !loaded {
+            return Err(CaptchaError::MCaptchaRedisModuleIsNotLoaded);
         }
 
         let commands = vec![
@@ -99,18 +106,18 @@ impl MCaptchaRedisConnection {
         ];
 
         for cmd in commands.iter() {
-            if let Value::Array(mut val) = self
+            let info: Value = self
                 .0
                 .exec(redis::cmd("COMMAND").arg(&["INFO", cmd]))
-                .await
-                .unwrap()
-            {
-                if let Some(Value::Nil) = val.pop() {
+                .await?;
+            match info {
+                Value::Array(info) if matches!(info.first(), Some(Value::Array(_))) => (),
+                _ => {
                     return Err(CaptchaError::MCaptchaRediSModuleCommandNotFound(
                         cmd.to_string(),
-                    ));
-                };
-            };
+                    ))
+                }
+            }
         }
         Ok(())
     }
-- 
2.43.0


From ca6dec5495489c58ecef9632e93c7e115a207670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 14/21] fix: failing to connect to Redis is an error of
 Redis::new, not a panic

---
 src/redis/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/redis/mod.rs b/src/redis/mod.rs
index 924dbe3..05cee35 100644
--- a/src/redis/mod.rs
+++ b/src/redis/mod.rs
@@ -37,18 +37,20 @@ pub enum RedisConfig {
 }
 
 impl RedisConfig {
-    /// Create Redis connection
+    /// Create Redis connection. Panics when that fails
     pub async fn connect(&self) -> RedisClient {
+        self.try_connect().await.unwrap()
+    }
+
+    async fn try_connect(&self) -> CaptchaResult<RedisClient> {
         match self {
             Self::Single(url) => {
-                let client = ConnectionManager::new(Client::open(url.as_str()).unwrap())
-                    .await
-                    .unwrap();
-                RedisClient::Single(client)
+                let client = ConnectionManager::new(Client::open(url.as_str())?).await?;
+                Ok(RedisClient::Single(client))
             }
             Self::Cluster(nodes) => {
-                let cluster_client = ClusterClient::new(nodes.to_owned()).unwrap();
-                RedisClient::Cluster(cluster_client)
+                let cluster_client = ClusterClient::new(nodes.to_owned())?;
+                Ok(RedisClient::Cluster(cluster_client))
             }
         }
     }
@@ -127,7 +129,7 @@ impl Redis {
     }
 
     async fn connect(redis: RedisConfig) -> CaptchaResult<(RedisClient, RedisConnection)> {
-        let redis = redis.connect().await;
+        let redis = redis.try_connect().await?;
         let client = match &redis {
             RedisClient::Single(c) => RedisConnection::Single(Rc::new(RefCell::new(c.clone()))),
             RedisClient::Cluster(c) => {
-- 
2.43.0


From d43e33eb3375c15f6a6cadefbe9d6db8bab8881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 15/21] fix: snapshot requests to the Redis manager are
 answered with an error instead of ending it

---
 src/master/redis/master.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/master/redis/master.rs b/src/master/redis/master.rs
index ca28950..792b8a8 100644
--- a/src/master/redis/master.rs
+++ b/src/master/redis/master.rs
@@ -112,19 +112,32 @@ impl Handler<RemoveCaptcha> for Master {
     }
 }
 
+/// The mCaptcha Redis module has no commands to get or set all of its data
+fn internal_data_unsupported() -> CaptchaError {
+    redis::RedisError::from((
+        redis::ErrorKind::Client,
+        "mCaptcha Redis module does not support getting or setting internal data",
+    ))
+    .into()
+}
+
 impl Handler<GetInternalData> for Master {
     type Result = MessageResult<GetInternalData>;
 
-    fn handle(&mut self, m: GetInternalData, ctx: &mut Self::Context) -> Self::Result {
-        todo!()
+    fn handle(&mut self, _m: GetInternalData, _ctx: &mut Self::Context) -> Self::Result {
+        let (tx, rx) = oneshot::channel();
+        let _ = tx.send(Err(internal_data_unsupported()));
+        MessageResult(rx)
     }
 }
 
 impl Handler<SetInternalData> for Master {
     type Result = MessageResult<SetInternalData>;
 
-    fn handle(&mut self, m: SetInternalData, ctx: &mut Self::Context) -> Self::Result {
-        todo!()
+    fn handle(&mut self, _m: SetInternalData, _ctx: &mut Self::Context) -> Self::Result {
+        let (tx, rx) = oneshot::channel();
+        let _ = tx.send(Err(internal_data_unsupported()));
+        MessageResult(rx)
     }
 }
 
-- 
2.43.0


From fe96922b7f3b3c8ca546d7ab95a7c36ab2c4c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 16/21] fix: an out of range reply to the deletion of a token
 is not truncated to a valid one

---
 src/redis/mcaptcha_redis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 5e0c7c9..7be477d 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -239,7 +239,7 @@ impl MCaptchaRedisConnection {
     pub async fn get_token(&self, msg: &VerifyCaptchaResult) -> CaptchaResult<bool> {
         //use redis::RedisResult;
         let key = token_key(&msg.key, &msg.token);
-        let res = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
+        let res: i64 = self.0.exec(redis::cmd("DEL").arg(&[&key])).await?;
         match res {
             1 => Ok(true),
             0 => Ok(false),
-- 
2.43.0


From 895c5fce39bd87d7c1b1d57b7868b5a1e5a470a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 17/21] fix: abandoning a request does not end the Redis cache

---
 src/cache/redis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cache/redis.rs b/src/cache/redis.rs
index c2c6fb8..568a2ec 100644
--- a/src/cache/redis.rs
+++ b/src/cache/redis.rs
@@ -57,7 +57,7 @@ impl Handler<CachePoW> for RedisCache {
             };
 
             let res = con.add_challenge(&msg.key, &payload).await;
-            tx.send(res).unwrap();
+            let _ = tx.send(res);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -86,7 +86,7 @@ impl Handler<RetrivePoW> for RedisCache {
                 }
             };
 
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -103,7 +103,7 @@ impl Handler<CacheResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.add_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
@@ -120,7 +120,7 @@ impl Handler<VerifyCaptchaResult> for RedisCache {
         let con = self.0.get_client();
         let fut = async move {
             let r = con.get_token(&msg).await;
-            tx.send(r).unwrap();
+            let _ = tx.send(r);
         }
         .into_actor(self);
         ctx.wait(fut);
-- 
2.43.0


From 48303df45897858c9ef717190809fe23772c8385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 18/21] fix: a piece of work has one verdict, so that an unread
 one does not block the worker

---
 src/pow.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pow.rs b/src/pow.rs
index bf4839d..ed51518 100644
--- a/src/pow.rs
+++ b/src/pow.rs
@@ -103,12 +103,14 @@ impl QueuedWork {
             if let Err(e) = self.tx.send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
+            return;
         }
 
         if !self.pow.is_valid_proof(&self.work, &self.string) {
             if let Err(e) = self.tx.send(false) {
                 debug!("[ERROR] unable to send work result: {e}");
             }
+            return;
         }
 
         if let Err(e) = self.tx.send(true) {
-- 
2.43.0


From 35261ef0902f5bfd8b2c14f5823f71a38f4f1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:31 +0000
Subject: [PATCH 19/21] fix: a requested clean up does not start another
 periodic one

---
 src/master/embedded/master.rs | 43 +++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/master/embedded/master.rs b/src/master/embedded/master.rs
index 4f773ac..ebc4079 100644
--- a/src/master/embedded/master.rs
+++ b/src/master/embedded/master.rs
@@ -17,6 +17,7 @@
  */
 //! Embedded [Master] actor module that manages [Counter] actors
 use std::collections::{BTreeMap, HashMap};
+use std::future::Future;
 use std::time::Duration;
 
 use actix::clock::sleep;
@@ -92,7 +93,7 @@ impl Actor for Master {
     fn started(&mut self, ctx: &mut Self::Context) {
         let addr = ctx.address();
         let task = async move {
-            addr.send(CleanUp).await.unwrap();
+            addr.send(PeriodicCleanUp).await.unwrap();
         }
         .into_actor(self);
         ctx.spawn(task);
@@ -163,15 +164,12 @@ impl Handler<GetSite> for Master {
 #[rtype(result = "()")]
 pub struct CleanUp;
 
-impl Handler<CleanUp> for Master {
-    type Result = ();
-
-    fn handle(&mut self, _: CleanUp, ctx: &mut Self::Context) -> Self::Result {
+impl Master {
+    /// stops and forgets the idle ones among the [Counter] actors there are now
+    fn clean_up(&self, master: Addr<Master>) -> impl Future<Output = ()> {
         let sites = self.sites.clone();
-        let gc = self.gc;
-        let master = ctx.address();
         info!("init master actor cleanup up");
-        let task = async move {
+        async move {
             for (new, addr) in sites.into_values() {
                 // a counter that was stopped by someone else can be forgotten too
                 if new.is_some() && addr.send(StopIfIdle).await.unwrap_or(true) {
@@ -179,11 +177,38 @@ impl Handler<CleanUp> for Master {
                     println!("cleaned up");
                 }
             }
+        }
+    }
+}
+
+impl Handler<CleanUp> for Master {
+    type Result = ();
+
+    fn handle(&mut self, _: CleanUp, ctx: &mut Self::Context) -> Self::Result {
+        let task = self.clean_up(ctx.address()).into_actor(self);
+        ctx.spawn(task);
+    }
+}
+
+/// Message to clean up now and after every garbage collection period
+#[derive(Message)]
+#[rtype(result = "()")]
+struct PeriodicCleanUp;
+
+impl Handler<PeriodicCleanUp> for Master {
+    type Result = ();
+
+    fn handle(&mut self, _: PeriodicCleanUp, ctx: &mut Self::Context) -> Self::Result {
+        let gc = self.gc;
+        let master = ctx.address();
+        let clean_up = self.clean_up(master.clone());
+        let task = async move {
+            clean_up.await;
 
             let duration = Duration::new(gc, 0);
             sleep(duration).await;
             //delay_for(duration).await;
-            let _ = master.send(CleanUp).await;
+            let _ = master.send(PeriodicCleanUp).await;
         }
         .into_actor(self);
         ctx.spawn(task);
-- 
2.43.0


From 0fa82b6c8efb15ec72271ffbd8afb167e73c3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:31 +0000
Subject: [PATCH 20/21] fix: only a module named mcaptcha_cache counts as
 mCaptcha's module

---
 src/redis/mcaptcha_redis.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/redis/mcaptcha_redis.rs b/src/redis/mcaptcha_redis.rs
index 7be477d..0c16c51 100644
--- a/src/redis/mcaptcha_redis.rs
+++ b/src/redis/mcaptcha_redis.rs
@@ -15,6 +15,8 @@
  * You should have received a copy of the GNU Affero General Public License
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
+use std::collections::HashMap;
+
 use redis::Value;
 
 use crate::cache::messages::CacheResult;
@@ -53,12 +55,17 @@ fn token_key(captcha: &str, token: &str) -> String {
     format!("mcaptcha:token:{}:{}:{}", captcha.len(), captcha, token)
 }
 
-/// Is this entry of MODULE LIST, a list of alternating field names and values, about mCaptcha's
-/// module?
+/// Is this entry of MODULE LIST, a list of alternating field names and values, mCaptcha's module?
 fn is_mcaptcha_module(module: &Value) -> bool {
-    match module {
-        Value::Array(fields) => fields.iter().any(|i| format!("{:?}", i).contains(MODULE_NAME)),
-        _ => false,
+    match redis::from_redis_value_ref::<HashMap<String, Value>>(module) {
+        Ok(fields) => match fields
+            .get("name")
+            .map(redis::from_redis_value_ref::<String>)
+        {
+            Some(Ok(name)) => name == MODULE_NAME,
+            _ => false,
+        },
+        Err(_) => false,
     }
 }
 
-- 
2.43.0


From d87824392e51a96360ec4caa9d3d1fde69ef216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:01 +0000
Subject: [PATCH 21/21] fix: a submission that waits for its verdict does not
 block its thread

---
 src/system.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/system.rs b/src/system.rs
index c5c27e9..a2568c1 100644
--- a/src/system.rs
+++ b/src/system.rs
@@ -161,7 +161,8 @@ where
         self.runners.add(ip, Box::new(queued_work)).await?;
         loop {
             match rx.try_recv() {
-                Err(TryRecvError::Empty) => continue,
+                // other requests on this thread go on meanwhile
+                Err(TryRecvError::Empty) => tokio::task::yield_now().await,
                 Err(TryRecvError::Disconnected) => {
                     return Err(CaptchaError::InsuffiencientDifficulty);
                 }
-- 
2.43.0

