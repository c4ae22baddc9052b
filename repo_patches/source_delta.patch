From 8c3118c083e6866a825479f5e2f895149abebe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 01/15] fix: buffer: fail calls made after the worker is gone
 instead of hanging

A clone that reserved capacity before the worker was dropped (or failed) could
still push its request into the closed channel, where nobody would ever receive
it, so the response future never resolved while any handle was alive.
---
 tower/src/buffer/service.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index 9493f10..c01b014 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -115,6 +115,14 @@ where
         // towards that span since the worker would have no way of entering it.
         let span = tracing::Span::current();
 
+        // The worker may have gone away (or failed) after the permit was acquired. A reserved permit
+        // can still be sent through, but nobody would ever receive the request, so fail it here.
+        if self.tx.get_ref().map_or(true, |tx| tx.is_closed()) {
+            tracing::trace!("buffer channel closed");
+            self.tx.abort_send();
+            return ResponseFuture::failed(self.get_worker_error());
+        }
+
         // If we've made it here, then a channel permit has already been
         // acquired, so we can freely allocate a oneshot.
         let (tx, rx) = oneshot::channel();
-- 
2.43.0


From 25f1504d6fa4c636f6aa7db7015a35aa67ca5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 02/15] fix: retry: expire budget slots after the time they
 stand for

---
 tower/src/retry/budget/tps_budget.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index d694998..182c5dd 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -124,16 +124,22 @@ impl TpsBudget {
         let to_commit = self.writer.swap(0, Ordering::SeqCst);
         self.slots[gen.index].store(to_commit, Ordering::SeqCst);
 
-        let mut diff = diff;
+        // The first window that passed belongs to the slot just committed, any
+        // further ones were skipped and leave empty slots behind.
+        let windows = diff.as_nanos() / self.window.as_nanos();
+        let skipped = (windows - 1).min(self.slots.len() as u128);
         let mut idx = (gen.index + 1) % self.slots.len();
-        while diff > self.window {
+        for _ in 0..skipped {
             self.slots[idx].store(0, Ordering::SeqCst);
-            diff -= self.window;
             idx = (idx + 1) % self.slots.len();
         }
 
+        // Carry over the part of the current window that already passed, so
+        // that the windows do not drift.
+        let elapsed = diff.as_nanos() % self.window.as_nanos();
+
         gen.index = idx;
-        gen.time = now;
+        gen.time = now - Duration::from_nanos(elapsed as u64);
     }
 
     fn sum(&self) -> isize {
-- 
2.43.0


From 62f271e84b61f93e1711518c7570a41990044ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 03/15] fix: retry: withdraw from the budget atomically

---
 tower/src/retry/budget/tps_budget.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/tower/src/retry/budget/tps_budget.rs b/tower/src/retry/budget/tps_budget.rs
index 182c5dd..3b78230 100644
--- a/tower/src/retry/budget/tps_budget.rs
+++ b/tower/src/retry/budget/tps_budget.rs
@@ -4,7 +4,7 @@ use std::{
     fmt,
     sync::{
         atomic::{AtomicIsize, Ordering},
-        Mutex,
+        Mutex, MutexGuard,
     },
     time::Duration,
 };
@@ -111,14 +111,15 @@ impl TpsBudget {
         }
     }
 
-    fn expire(&self) {
+    /// Locks the current generation, after moving on to the current slot.
+    fn expire(&self) -> MutexGuard<'_, Generation> {
         let mut gen = self.generation.lock().expect("generation lock");
 
         let now = Instant::now();
         let diff = now.saturating_duration_since(gen.time);
         if diff < self.window {
             // not expired yet
-            return;
+            return gen;
         }
 
         let to_commit = self.writer.swap(0, Ordering::SeqCst);
@@ -140,6 +141,8 @@ impl TpsBudget {
 
         gen.index = idx;
         gen.time = now - Duration::from_nanos(elapsed as u64);
+
+        gen
     }
 
     fn sum(&self) -> isize {
@@ -157,14 +160,16 @@ impl TpsBudget {
     }
 
     fn put(&self, amt: isize) {
-        self.expire();
+        let _gen = self.expire();
         self.writer.fetch_add(amt, Ordering::SeqCst);
     }
 
     fn try_get(&self, amt: isize) -> bool {
         debug_assert!(amt >= 0);
 
-        self.expire();
+        // Hold the generation until the balance that was found sufficient is
+        // withdrawn, so that concurrent withdrawals cannot spend it twice.
+        let _gen = self.expire();
 
         let sum = self.sum();
         if sum >= amt {
-- 
2.43.0


From ab3dbec5f74c30bbfa257db132bf106620e8893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 04/15] fix: retry: compute backoff jitter from the whole base
 duration

---
 tower/src/retry/backoff.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tower/src/retry/backoff.rs b/tower/src/retry/backoff.rs
index 38a5f69..0b9d64f 100644
--- a/tower/src/retry/backoff.rs
+++ b/tower/src/retry/backoff.rs
@@ -155,14 +155,17 @@ impl<R: Rng> ExponentialBackoff<R> {
         } else {
             let jitter_factor = self.rng.next_f64();
             debug_assert!(
-                jitter_factor > 0.0,
+                jitter_factor >= 0.0,
                 "rng returns values between 0.0 and 1.0"
             );
             let rand_jitter = jitter_factor * self.jitter;
-            let secs = (base.as_secs() as f64) * rand_jitter;
-            let nanos = (base.subsec_nanos() as f64) * rand_jitter;
+            let jitter = base.as_secs_f64() * rand_jitter;
             let remaining = self.max - base;
-            time::Duration::new(secs as u64, nanos as u32).min(remaining)
+            if jitter >= remaining.as_secs_f64() {
+                remaining
+            } else {
+                time::Duration::from_secs_f64(jitter).min(remaining)
+            }
         }
     }
 }
-- 
2.43.0


From bea65151922b2284c930bb7c85ae9ce6e0d21015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 05/15] fix: balance: do not poll discovery after it has ended

---
 tower/src/balance/p2c/service.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index 30572fc..f159855 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -32,6 +32,8 @@ where
     D::Key: Hash,
 {
     discover: D,
+    /// Whether `discover` has ended, after which it must not be polled again.
+    discover_ended: bool,
 
     services: ReadyCache<D::Key, D::Service, Req>,
     ready_index: Option<usize>,
@@ -73,6 +75,7 @@ where
         Self {
             rng,
             discover,
+            discover_ended: false,
             services: ReadyCache::default(),
             ready_index: None,
 
@@ -107,13 +110,20 @@ where
         &mut self,
         cx: &mut Context<'_>,
     ) -> Poll<Option<Result<(), error::Discover>>> {
+        if self.discover_ended {
+            return Poll::Ready(None);
+        }
+
         debug!("updating from discover");
         loop {
             match ready!(Pin::new(&mut self.discover).poll_discover(cx))
                 .transpose()
                 .map_err(|e| error::Discover(e.into()))?
             {
-                None => return Poll::Ready(None),
+                None => {
+                    self.discover_ended = true;
+                    return Poll::Ready(None);
+                }
                 Some(Change::Remove(key)) => {
                     trace!("remove");
                     self.services.evict(&key);
-- 
2.43.0


From 569810a549f82333c0041d5e4f57410460cbf724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 06/15] fix: balance: select again after an endpoint is removed

---
 tower/src/balance/p2c/service.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tower/src/balance/p2c/service.rs b/tower/src/balance/p2c/service.rs
index f159855..04242ff 100644
--- a/tower/src/balance/p2c/service.rs
+++ b/tower/src/balance/p2c/service.rs
@@ -126,7 +126,11 @@ where
                 }
                 Some(Change::Remove(key)) => {
                     trace!("remove");
-                    self.services.evict(&key);
+                    if self.services.evict(&key) {
+                        // This may have moved or removed the endpoint that was
+                        // selected, so select again.
+                        self.ready_index = None;
+                    }
                 }
                 Some(Change::Insert(key, svc)) => {
                     trace!("insert");
@@ -217,8 +221,9 @@ where
     >;
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        // `ready_index` may have already been set by a prior invocation. These
-        // updates cannot disturb the order of existing ready services.
+        // `ready_index` may have already been set by a prior invocation. Unless
+        // they clear it, these updates cannot disturb the order of existing
+        // ready services.
         let _ = self.update_pending_from_discover(cx)?;
         self.promote_pending_to_ready(cx);
 
-- 
2.43.0


From f4edc14038e8c9b3759767ab32b2950eda75b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:03 +0000
Subject: [PATCH 07/15] fix: load: release a failed request's completion handle
 when it fails

---
 tower/src/load/completion.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tower/src/load/completion.rs b/tower/src/load/completion.rs
index 857e055..1e107a3 100644
--- a/tower/src/load/completion.rs
+++ b/tower/src/load/completion.rs
@@ -77,9 +77,10 @@ where
 
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.project();
-        let rsp = ready!(this.future.poll(cx))?;
+        let rsp = ready!(this.future.poll(cx));
+        // A failed request is complete as well: its handle must not live on in this future.
         let h = this.handle.take().expect("handle");
-        Poll::Ready(Ok(this.completion.track_completion(h, rsp)))
+        Poll::Ready(Ok(this.completion.track_completion(h, rsp?)))
     }
 }
 
-- 
2.43.0


From 14abaccfc65f1fed5c76a195b4fddd3804816cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 08/15] fix: steer: a clone must wait for its own services to
 be ready

---
 tower/src/steer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tower/src/steer/mod.rs b/tower/src/steer/mod.rs
index d614196..a33ccb2 100644
--- a/tower/src/steer/mod.rs
+++ b/tower/src/steer/mod.rs
@@ -177,7 +177,8 @@ where
         Self {
             router: self.router.clone(),
             services: self.services.clone(),
-            not_ready: self.not_ready.clone(),
+            // Readiness is not carried over to the cloned services.
+            not_ready: (0..self.services.len()).collect(),
             _phantom: PhantomData,
         }
     }
-- 
2.43.0


From 5cd2be08ccba33d6eab655de7748a27166af2282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 09/15] fix: reconnect: stay ready until a connect failure is
 reported

---
 tower/src/reconnect/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tower/src/reconnect/mod.rs b/tower/src/reconnect/mod.rs
index 0062fe3..17ac325 100644
--- a/tower/src/reconnect/mod.rs
+++ b/tower/src/reconnect/mod.rs
@@ -82,6 +82,11 @@ where
     type Future = ResponseFuture<S::Future, M::Error>;
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        // The next call reports the failure to connect; until then there is nothing to do.
+        if self.error.is_some() {
+            return Poll::Ready(Ok(()));
+        }
+
         loop {
             match &mut self.state {
                 State::Idle => {
-- 
2.43.0


From 25463ceed48580d58471d7267ad3ed980cf49d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 10/15] fix: do not panic in a rate limit with a period too
 long for the clock

---
 tower/src/limit/rate/rate.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tower/src/limit/rate/rate.rs b/tower/src/limit/rate/rate.rs
index 66736de..0a0659a 100644
--- a/tower/src/limit/rate/rate.rs
+++ b/tower/src/limit/rate/rate.rs
@@ -25,6 +25,13 @@ impl Rate {
     }
 
     pub(crate) fn per(&self) -> Duration {
-        self.per
+        // A longer period may not be representable when it is added to an `Instant`.
+        const FAR_FUTURE: Duration = Duration::from_secs(86400 * 365 * 30);
+
+        if self.per > FAR_FUTURE {
+            FAR_FUTURE
+        } else {
+            self.per
+        }
     }
 }
-- 
2.43.0


From 94ce5bcf092427908e173c2dbd7af5fa1f4772f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:29 +0000
Subject: [PATCH 11/15] fix: hedge: the number of periods gone by was cut to 32
 bits, so that after very many idle periods stale latencies were used

---
 tower/src/hedge/rotating_histogram.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tower/src/hedge/rotating_histogram.rs b/tower/src/hedge/rotating_histogram.rs
index 4b07a15..233eda4 100644
--- a/tower/src/hedge/rotating_histogram.rs
+++ b/tower/src/hedge/rotating_histogram.rs
@@ -41,7 +41,7 @@ impl RotatingHistogram {
     fn maybe_rotate(&mut self) {
         let delta = Instant::now().saturating_duration_since(self.last_rotation);
         // TODO: replace with delta.duration_div when it becomes stable.
-        let rotations = (nanos(delta) / nanos(self.period)) as u32;
+        let rotations = nanos(delta) / nanos(self.period);
         if rotations >= 2 {
             trace!("Time since last rotation is {:?}.  clearing!", delta);
             self.clear();
@@ -49,7 +49,7 @@ impl RotatingHistogram {
             trace!("Time since last rotation is {:?}. rotating!", delta);
             self.rotate();
         }
-        self.last_rotation += self.period * rotations;
+        self.last_rotation += Duration::from_nanos(nanos(self.period) * rotations);
     }
 
     fn rotate(&mut self) {
-- 
2.43.0


From 676d0dba94746a201dc6a6d2865578457362ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:39 +0000
Subject: [PATCH 12/15] fix: CallAll::unordered panics instead of losing a
 request already taken from the stream

It is documented to panic once the stream was polled, but did so only with
responses outstanding: a request waiting for the service to become ready was
dropped without being sent.
---
 tower/src/util/call_all/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tower/src/util/call_all/common.rs b/tower/src/util/call_all/common.rs
index 9f2490b..8b88bbb 100644
--- a/tower/src/util/call_all/common.rs
+++ b/tower/src/util/call_all/common.rs
@@ -75,7 +75,7 @@ where
     }
 
     pub(crate) fn unordered(mut self) -> super::CallAllUnordered<Svc, S> {
-        assert!(self.queue.is_empty() && !self.eof);
+        assert!(self.queue.is_empty() && !self.eof && self.curr_req.is_none());
 
         super::CallAllUnordered::new(self.service.take().unwrap(), self.stream)
     }
-- 
2.43.0


From 93d5acf2238a8e0272c425add85774cab90247c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:49 +0000
Subject: [PATCH 13/15] fix: mock wakes and drops tasks without holding its
 lock

---
 tower-test/src/mock/mod.rs | 46 ++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/tower-test/src/mock/mod.rs b/tower-test/src/mock/mod.rs
index 6720c99..da4fa15 100644
--- a/tower-test/src/mock/mod.rs
+++ b/tower-test/src/mock/mod.rs
@@ -16,7 +16,7 @@ use tower_service::Service;
 use std::{
     collections::HashMap,
     future::Future,
-    sync::{Arc, Mutex},
+    sync::{Arc, Mutex, MutexGuard},
     task::{Context, Poll},
     u64,
 };
@@ -143,11 +143,10 @@ impl<T, U> Service<T> for Mock<T, U> {
 
             Poll::Ready(Ok(()))
         } else {
-            // Bit weird... but whatevz
-            *state
-                .tasks
-                .entry(self.id)
-                .or_insert_with(|| cx.waker().clone()) = cx.waker().clone();
+            // The waker this replaces must not be dropped with the lock held.
+            let replaced = state.tasks.insert(self.id, cx.waker().clone());
+            drop(state);
+            drop(replaced);
 
             Poll::Pending
         }
@@ -172,6 +171,9 @@ impl<T, U> Service<T> for Mock<T, U> {
             state.rem -= 1;
         }
 
+        // Sending wakes the handle's task.
+        drop(state);
+
         let (tx, rx) = oneshot::channel();
         let send_response = SendResponse { tx };
 
@@ -222,7 +224,10 @@ impl<T, U> Drop for Mock<T, U> {
             }
         };
 
-        state.tasks.remove(&self.id);
+        // The waker must not be dropped with the lock held.
+        let task = state.tasks.remove(&self.id);
+        drop(state);
+        drop(task);
     }
 }
 
@@ -245,20 +250,18 @@ impl<T, U> Handle<T, U> {
         state.rem = num;
 
         if num > 0 {
-            for (_, task) in state.tasks.drain() {
-                task.wake();
-            }
+            State::wake_all(state);
         }
     }
 
     /// Make the next poll_ method error with the given error.
     pub fn send_error<E: Into<Error>>(&mut self, e: E) {
+        let e = e.into();
         let mut state = self.state.lock().unwrap();
-        state.err_with = Some(e.into());
+        let replaced = state.err_with.replace(e);
 
-        for (_, task) in state.tasks.drain() {
-            task.wake();
-        }
+        State::wake_all(state);
+        drop(replaced);
     }
 }
 
@@ -277,9 +280,7 @@ impl<T, U> Drop for Handle<T, U> {
 
         state.is_closed = true;
 
-        for (_, task) in state.tasks.drain() {
-            task.wake();
-        }
+        State::wake_all(state);
     }
 }
 
@@ -302,6 +303,17 @@ impl<T> SendResponse<T> {
 // ===== impl State =====
 
 impl State {
+    /// Wakes all waiting tasks, releasing the lock first: a woken task may run, or be dropped,
+    /// within `wake`, and use the mock.
+    fn wake_all(mut state: MutexGuard<'_, State>) {
+        let tasks = std::mem::take(&mut state.tasks);
+        drop(state);
+
+        for (_, task) in tasks {
+            task.wake();
+        }
+    }
+
     fn new() -> State {
         State {
             rem: u64::MAX,
-- 
2.43.0


From b17b7d283869751262efe4b272ad73d2be9bd7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:02 +0000
Subject: [PATCH 14/15] Revert "fix: mock wakes and drops tasks without holding
 its lock"

This reverts commit 93d5acf2238a8e0272c425add85774cab90247c2.
---
 tower-test/src/mock/mod.rs | 46 ++++++++++++++------------------------
 1 file changed, 17 insertions(+), 29 deletions(-)

diff --git a/tower-test/src/mock/mod.rs b/tower-test/src/mock/mod.rs
index da4fa15..6720c99 100644
--- a/tower-test/src/mock/mod.rs
+++ b/tower-test/src/mock/mod.rs
@@ -16,7 +16,7 @@ use tower_service::Service;
 use std::{
     collections::HashMap,
     future::Future,
-    sync::{Arc, Mutex, MutexGuard},
+    sync::{Arc, Mutex},
     task::{Context, Poll},
     u64,
 };
@@ -143,10 +143,11 @@ impl<T, U> Service<T> for Mock<T, U> {
 
             Poll::Ready(Ok(()))
         } else {
-            // The waker this replaces must not be dropped with the lock held.
-            let replaced = state.tasks.insert(self.id, cx.waker().clone());
-            drop(state);
-            drop(replaced);
+            // Bit weird... but whatevz
+            *state
+                .tasks
+                .entry(self.id)
+                .or_insert_with(|| cx.waker().clone()) = cx.waker().clone();
 
             Poll::Pending
         }
@@ -171,9 +172,6 @@ impl<T, U> Service<T> for Mock<T, U> {
             state.rem -= 1;
         }
 
-        // Sending wakes the handle's task.
-        drop(state);
-
         let (tx, rx) = oneshot::channel();
         let send_response = SendResponse { tx };
 
@@ -224,10 +222,7 @@ impl<T, U> Drop for Mock<T, U> {
             }
         };
 
-        // The waker must not be dropped with the lock held.
-        let task = state.tasks.remove(&self.id);
-        drop(state);
-        drop(task);
+        state.tasks.remove(&self.id);
     }
 }
 
@@ -250,18 +245,20 @@ impl<T, U> Handle<T, U> {
         state.rem = num;
 
         if num > 0 {
-            State::wake_all(state);
+            for (_, task) in state.tasks.drain() {
+                task.wake();
+            }
         }
     }
 
     /// Make the next poll_ method error with the given error.
     pub fn send_error<E: Into<Error>>(&mut self, e: E) {
-        let e = e.into();
         let mut state = self.state.lock().unwrap();
-        let replaced = state.err_with.replace(e);
+        state.err_with = Some(e.into());
 
-        State::wake_all(state);
-        drop(replaced);
+        for (_, task) in state.tasks.drain() {
+            task.wake();
+        }
     }
 }
 
@@ -280,7 +277,9 @@ impl<T, U> Drop for Handle<T, U> {
 
         state.is_closed = true;
 
-        State::wake_all(state);
+        for (_, task) in state.tasks.drain() {
+            task.wake();
+        }
     }
 }
 
@@ -303,17 +302,6 @@ impl<T> SendResponse<T> {
 // ===== impl State =====
 
 impl State {
-    /// Wakes all waiting tasks, releasing the lock first: a woken task may run, or be dropped,
-    /// within `wake`, and use the mock.
-    fn wake_all(mut state: MutexGuard<'_, State>) {
-        let tasks = std::mem::take(&mut state.tasks);
-        drop(state);
-
-        for (_, task) in tasks {
-            task.wake();
-        }
-    }
-
     fn new() -> State {
         State {
             rem: u64::MAX,
-- 
2.43.0


From a70460307d07264a117d1de478ff03337e656e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:31 +0000
Subject: [PATCH 15/15] fix: buffer requests sent while the worker goes away
 are answered, not left in the queue

---
 tower/src/buffer/future.rs  |  6 ++++++
 tower/src/buffer/service.rs | 29 ++++++++++++++++++++++++++---
 tower/src/buffer/worker.rs  | 20 +++++++++++++++++++-
 3 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/tower/src/buffer/future.rs b/tower/src/buffer/future.rs
index 4117890..5f42516 100644
--- a/tower/src/buffer/future.rs
+++ b/tower/src/buffer/future.rs
@@ -45,6 +45,12 @@ impl<T> ResponseFuture<T> {
         }
     }
 
+    pub(crate) fn answered(fut: T) -> Self {
+        ResponseFuture {
+            state: ResponseState::Poll { fut },
+        }
+    }
+
     pub(crate) fn failed(err: crate::BoxError) -> Self {
         ResponseFuture {
             state: ResponseState::Failed { error: Some(err) },
diff --git a/tower/src/buffer/service.rs b/tower/src/buffer/service.rs
index c01b014..b5e644e 100644
--- a/tower/src/buffer/service.rs
+++ b/tower/src/buffer/service.rs
@@ -6,6 +6,7 @@ use super::{
 
 use std::{
     future::Future,
+    sync::atomic::{fence, Ordering},
     task::{Context, Poll},
 };
 use tokio::sync::{mpsc, oneshot};
@@ -84,6 +85,17 @@ where
     }
 }
 
+impl<Req, F> Buffer<Req, F>
+where
+    Req: Send + 'static,
+    F: Send + 'static,
+{
+    /// Whether the worker no longer takes requests, even those a permit was acquired for.
+    fn is_worker_gone(&self) -> bool {
+        self.tx.get_ref().map_or(true, |tx| tx.is_closed())
+    }
+}
+
 impl<Req, Rsp, F, E> Service<Req> for Buffer<Req, F>
 where
     F: Future<Output = Result<Rsp, E>> + Send + 'static,
@@ -117,7 +129,7 @@ where
 
         // The worker may have gone away (or failed) after the permit was acquired. A reserved permit
         // can still be sent through, but nobody would ever receive the request, so fail it here.
-        if self.tx.get_ref().map_or(true, |tx| tx.is_closed()) {
+        if self.is_worker_gone() {
             tracing::trace!("buffer channel closed");
             self.tx.abort_send();
             return ResponseFuture::failed(self.get_worker_error());
@@ -125,10 +137,21 @@ where
 
         // If we've made it here, then a channel permit has already been
         // acquired, so we can freely allocate a oneshot.
-        let (tx, rx) = oneshot::channel();
+        let (tx, mut rx) = oneshot::channel();
 
         match self.tx.send_item(Message { request, span, tx }) {
-            Ok(_) => ResponseFuture::new(rx),
+            Ok(_) => {
+                // If the worker went away while the request was being sent, the request may be
+                // left in the queue for good. Unless it was answered before that, fail it here.
+                fence(Ordering::SeqCst);
+                if self.is_worker_gone() {
+                    return match rx.try_recv() {
+                        Ok(Ok(future)) => ResponseFuture::answered(future),
+                        _ => ResponseFuture::failed(self.get_worker_error()),
+                    };
+                }
+                ResponseFuture::new(rx)
+            }
             // If the channel is closed, propagate the error from the worker.
             Err(_) => {
                 tracing::trace!("buffer channel closed");
diff --git a/tower/src/buffer/worker.rs b/tower/src/buffer/worker.rs
index 7f4416d..b7da7ba 100644
--- a/tower/src/buffer/worker.rs
+++ b/tower/src/buffer/worker.rs
@@ -3,7 +3,10 @@ use super::{
     message::Message,
 };
 use futures_core::ready;
-use std::sync::{Arc, Mutex};
+use std::sync::{
+    atomic::{fence, Ordering},
+    Arc, Mutex,
+};
 use std::{
     future::Future,
     pin::Pin,
@@ -32,6 +35,21 @@ pin_project_lite::pin_project! {
         failed: Option<ServiceError>,
         handle: Handle,
     }
+
+    impl<T, Request> PinnedDrop for Worker<T, Request>
+    where
+        T: Service<Request>,
+    {
+        fn drop(this: Pin<&mut Self>) {
+            // Nobody will serve what is still queued, so tell the callers. Unlike dropping the
+            // receiver this does not stop short of a request that is just being sent, nor of those
+            // queued behind it. Requests sent after this find the channel closed.
+            let this = this.project();
+            this.rx.close();
+            fence(Ordering::SeqCst);
+            while this.rx.try_recv().is_ok() {}
+        }
+    }
 }
 
 /// Get the error out
-- 
2.43.0

