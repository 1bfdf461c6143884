From 865e72e02ad4a4b0ec513a03fc6e29f31bf5b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 01/16] fix: do not pass setTimeout a delay longer than it
 supports

---
 src/timer/global.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 5e183de..69d8584 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -12,6 +12,10 @@ use crate::js::set_timeout;
 use crate::std::Instant;
 use crate::timer::{Timer, TimerHandle};
 
+/// The longest delay that `setTimeout` accepts. The host runs callbacks with a longer one
+/// immediately.
+const MAX_TIMEOUT: Duration = Duration::from_millis(i32::MAX as u64);
+
 /// Starts a background task, creates a `Timer`, and returns a handle to it.
 ///
 /// > **Note**: Contrary to the original `futures-timer` crate, we don't have
@@ -60,7 +64,8 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
                     Duration::new(0, 0)
                 }
             })
-            .unwrap_or(Duration::from_secs(5));
+            .unwrap_or(Duration::from_secs(5))
+            .min(MAX_TIMEOUT);
         drop(timer_lock);
 
         schedule_callback(timer, sleep_dur);
-- 
2.43.0


From 37644a9882a39b034ae480dd2801414115631bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 02/16] fix: schedule the next event even if many callbacks are
 pending

---
 src/timer/global.rs | 143 +++++++++++++++++++++++++++-----------------
 1 file changed, 89 insertions(+), 54 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 69d8584..c53183e 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -24,78 +24,113 @@ const MAX_TIMEOUT: Duration = Duration::from_millis(i32::MAX as u64);
 pub(crate) fn run() -> TimerHandle {
     let timer = Timer::new();
     let handle = timer.handle();
-    schedule_callback(Arc::new(Mutex::new(timer)), Duration::new(0, 0));
+    let driver = Arc::new(Driver {
+        timer: Mutex::new(timer),
+        callbacks: Mutex::new(Vec::new()),
+    });
+    schedule_callback(driver, Duration::new(0, 0));
     handle
 }
 
+/// A `Timer` and the host callbacks that are going to process it.
+struct Driver {
+    timer: Mutex<Timer>,
+
+    /// When each of the callbacks that have been requested from the host, and that it did not
+    /// run yet, is due. These are instants of the host's clock, also while the time is paused.
+    callbacks: Mutex<Vec<Instant>>,
+}
+
+impl Driver {
+    /// Returns `true` if the host is going to run a callback at `at` or before it. A callback
+    /// that the host should have run already doesn't count.
+    fn has_callback_until(&self, now: Instant, at: Instant) -> bool {
+        let callbacks = self.callbacks.lock();
+        callbacks.iter().any(|due| *due >= now && *due <= at)
+    }
+
+    fn add_callback(&self, due: Instant) {
+        self.callbacks.lock().push(due);
+    }
+
+    fn remove_callback(&self, due: Instant) {
+        let mut callbacks = self.callbacks.lock();
+        if let Some(pos) = callbacks.iter().position(|d| *d == due) {
+            callbacks.swap_remove(pos);
+        }
+    }
+}
+
 /// Calls `Window::setTimeout` with the given `Duration`. The callback wakes up the timer and
 /// processes everything.
-fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
-    let cb = move || {
-        let mut timer_lock = timer.lock();
-
-        // We start by polling the timer. If any new `Delay` is created, the waker will be used
-        // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
-        // `schedule_callback` with a delay of `0`.
-        let waker = task::waker(Arc::new(Waker {
-            timer: timer.clone(),
-        }));
-        let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
-
-        // Notify the timers that are ready.
-        let now = Instant::now();
-        timer_lock.advance_to(now);
-
-        // Each call to `schedule_callback` calls `schedule_callback` again, but also leaves
-        // the possibility for `schedule_callback` to be called in parallel. Since we don't
-        // want too many useless callbacks, we...
-        // TODO: ugh, that's a hack
-        if Arc::strong_count(&timer) > 20 {
-            return;
-        }
+fn schedule_callback(driver: Arc<Driver>, when: Duration) {
+    #[cfg(feature = "tokio-test-util")]
+    if super::clock::clock().paused() {
+        process(driver);
+        return;
+    }
+
+    let when = i32::try_from(when.as_millis()).unwrap_or(0);
+    let due = Instant::now_js() + Duration::from_millis(when as u64);
+    driver.add_callback(due);
 
-        // We call `schedule_callback` again for the next event.
-        let sleep_dur = timer_lock
-            .next_event()
-            .map(|next_event| {
-                if next_event > now {
-                    next_event - now
-                } else {
-                    Duration::new(0, 0)
-                }
-            })
-            .unwrap_or(Duration::from_secs(5))
-            .min(MAX_TIMEOUT);
-        drop(timer_lock);
-
-        schedule_callback(timer, sleep_dur);
+    let cb = move || {
+        driver.remove_callback(due);
+        process(driver);
     };
+    let _ = set_timeout(Closure::once_into_js(cb).unchecked_ref(), when).unwrap();
+}
+
+/// Fires the timers that are ready and makes sure that the host calls us again for the next one.
+fn process(driver: Arc<Driver>) {
+    let mut timer_lock = driver.timer.lock();
+
+    // We start by polling the timer. If any new `Delay` is created, the waker will be used
+    // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
+    // `schedule_callback` with a delay of `0`.
+    let waker = task::waker(Arc::new(Waker {
+        driver: driver.clone(),
+    }));
+    let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
 
+    // Notify the timers that are ready.
+    let now = Instant::now();
+    timer_lock.advance_to(now);
+
+    // While the time is paused it only moves when the waker is used.
     #[cfg(feature = "tokio-test-util")]
     if super::clock::clock().paused() {
-        cb();
-    } else {
-        let _ = set_timeout(
-            Closure::once_into_js(cb).unchecked_ref(),
-            i32::try_from(when.as_millis()).unwrap_or(0),
-        )
-        .unwrap();
+        return;
     }
 
-    #[cfg(not(feature = "tokio-test-util"))]
-    let _ = set_timeout(
-        Closure::once_into_js(cb).unchecked_ref(),
-        i32::try_from(when.as_millis()).unwrap_or(0),
-    )
-    .unwrap();
+    // We call `schedule_callback` again for the next event.
+    let sleep_dur = timer_lock
+        .next_event()
+        .map(|next_event| {
+            if next_event > now {
+                next_event - now
+            } else {
+                Duration::new(0, 0)
+            }
+        })
+        .unwrap_or(Duration::from_secs(5))
+        .min(MAX_TIMEOUT);
+    drop(timer_lock);
+
+    // The waker leaves the possibility for callbacks to be scheduled in parallel. Since we don't
+    // want too many useless callbacks, we rely on the ones that are on their way already.
+    let now = Instant::now_js();
+    if !driver.has_callback_until(now, now + sleep_dur) {
+        schedule_callback(driver, sleep_dur);
+    }
 }
 
 struct Waker {
-    timer: Arc<Mutex<Timer>>,
+    driver: Arc<Driver>,
 }
 
 impl ArcWake for Waker {
     fn wake_by_ref(arc_self: &Arc<Self>) {
-        schedule_callback(arc_self.timer.clone(), Duration::new(0, 0));
+        schedule_callback(arc_self.driver.clone(), Duration::new(0, 0));
     }
 }
-- 
2.43.0


From 8c52e33d23848ad5a109ccfd5a0ed624684c5878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 03/16] fix: do not panic in sleep and timeout if the deadline
 overflows

---
 src/tokio/sleep.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index a54a039..7559371 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -11,6 +11,12 @@ use std::sync::{Arc, Mutex};
 use std::task::{Context, Poll};
 use std::time::Duration;
 
+/// Roughly 30 years from `now`. It is used when a duration is so long that the deadline can't be
+/// represented, same as `tokio` does.
+fn far_future(now: Instant) -> Instant {
+    now + Duration::from_secs(86400 * 365 * 30)
+}
+
 pub struct Sleep {
     state: Option<Arc<Node<ScheduledTimer>>>,
     deadline: Instant,
@@ -23,7 +29,8 @@ impl Sleep {
     /// The default timer will be spun up in a helper thread on first use.
     #[inline]
     pub(crate) fn new(dur: Duration) -> Sleep {
-        Sleep::new_at(Instant::now() + dur)
+        let now = Instant::now();
+        Sleep::new_at(now.checked_add(dur).unwrap_or_else(|| far_future(now)))
     }
 
     /// Creates a new future which will fire at the time specified by `at`.
-- 
2.43.0


From f38f413012829b63f4f8f24642a668b451658b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 04/16] fix: wake the task of a DelayQueue when an entry is
 reset to the past

---
 src/tokio_util/delay_queue.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index cb680a5..1298dc7 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -398,10 +398,20 @@ impl<T> DelayQueue<T> {
 
         self.insert_idx(when, *key);
 
+        let inserted_expired = self.slab[*key].expired;
         let next_deadline = self.next_deadline();
-        if let (Some(ref mut delay), Some(deadline)) = (&mut self.delay, next_deadline) {
+        match (next_deadline, &mut self.delay) {
+            (None, _) => self.delay = None,
             // This should awaken us if necessary (ie, if already expired)
-            delay.as_mut().reset(deadline);
+            (Some(deadline), Some(delay)) => delay.as_mut().reset(deadline),
+            (Some(deadline), None) => self.delay = Some(Box::pin(sleep_until(deadline))),
+        }
+
+        // The delay doesn't cover the expired queue
+        if inserted_expired {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
         }
     }
 
-- 
2.43.0


From f2989b5c59e89fe9e8c7bb6adcc6d6d7bfe21010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 05/16] fix: wake the task of a DelayQueue when its last entry
 is removed

---
 src/tokio_util/delay_queue.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 1298dc7..b3494fc 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -371,6 +371,13 @@ impl<T> DelayQueue<T> {
             }
         }
 
+        // The stream ends when there are no more entries
+        if self.slab.is_empty() {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
+
         Expired {
             key: Key::new(key.index),
             data: data.inner,
-- 
2.43.0


From a196389b494d090d1da8e51e1e63686a5202aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 06/16] fix: wake the task of a DelayQueue when it is cleared

---
 src/tokio_util/delay_queue.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index b3494fc..c9ba667 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -442,10 +442,19 @@ impl<T> DelayQueue<T> {
     }
 
     pub fn clear(&mut self) {
+        let had_entries = !self.slab.is_empty();
+
         self.slab.clear();
         self.expired = Stack::default();
         self.wheel = Wheel::new();
         self.delay = None;
+
+        // The stream ends when there are no more entries
+        if had_entries {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
     }
 
     pub fn capacity(&self) -> usize {
-- 
2.43.0


From ad6dbcc4dbf5fb0a62b04f2204e89b288a14dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:58 +0000
Subject: [PATCH 07/16] fix: support DelayQueue deadlines across turns of the
 timer wheel

---
 src/tokio_util/wheel/level.rs | 8 +++++++-
 src/tokio_util/wheel/mod.rs   | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index 6427440..cc86be0 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -140,7 +140,13 @@ impl<T: Stack> Level<T> {
 
         // TODO: This can probably be simplified w/ power of 2 math
         let level_start = now - (now % level_range);
-        let deadline = level_start + slot as u64 * slot_range;
+        let mut deadline = level_start + slot as u64 * slot_range;
+        if deadline < now {
+            // The slots of the top level are a ring. An entry is never more than one turn away, so
+            // a slot prior to the current time belongs to the next turn.
+            debug_assert_eq!(self.level, super::NUM_LEVELS - 1);
+            deadline += level_range;
+        }
 
         debug_assert!(
             deadline >= now,
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index 82f59c4..79dbaa6 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -193,7 +193,11 @@ fn level_for(elapsed: u64, when: u64) -> usize {
 
     // Mask in the trailing bits ignored by the level calculation in order to cap
     // the possible leading zeros
-    let masked = elapsed ^ when | SLOT_MASK;
+    let mut masked = elapsed ^ when | SLOT_MASK;
+    if masked >= MAX_DURATION {
+        // The deadline is on the next turn of the top level
+        masked = MAX_DURATION - 1;
+    }
 
     let leading_zeros = masked.leading_zeros() as usize;
     let significant = 63 - leading_zeros;
-- 
2.43.0


From 575975546555f5fd3db9be96ce811aaca6c187bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 08/16] fix: do not yield DelayQueue entries early with the
 tokio-test-util feature

---
 src/tokio_util/delay_queue.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index c9ba667..30a04ce 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -495,18 +495,7 @@ impl<T> DelayQueue<T> {
 
                 let now = super::ms(delay.deadline() - self.start, super::Round::Down);
 
-                #[cfg(feature = "tokio-test-util")]
-                {
-                    // +1 here is a tricky way to avoid infinite loop
-                    // in tokio the auto advance feature will always advances time to next time
-                    // event and prevent the infinite loop. But this crate doesn't support auto
-                    // advancing and it will lead this loop to run till infinity.
-                    self.wheel_now = now + 1;
-                }
-                #[cfg(not(feature = "tokio-test-util"))]
-                {
-                    self.wheel_now = now;
-                }
+                self.wheel_now = now;
             }
 
             // We poll the wheel to get the next value out before finding the next deadline.
-- 
2.43.0


From 5525f1096e84afd27deb98048b9d0c50a5f79237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 09/16] fix: do not panic in Interval if the next tick
 overflows

---
 src/tokio/interval.rs | 15 +++++++++------
 src/tokio/sleep.rs    | 12 ++++++------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/tokio/interval.rs b/src/tokio/interval.rs
index d872e39..cec1d9c 100644
--- a/src/tokio/interval.rs
+++ b/src/tokio/interval.rs
@@ -7,6 +7,7 @@ use std::time::Duration;
 use futures::prelude::*;
 
 use crate::std::Instant;
+use crate::tokio::sleep::add_or_far_future;
 use crate::tokio::Sleep;
 
 /// A stream representing notifications at fixed interval
@@ -67,7 +68,7 @@ impl Interval {
             self.missed_tick_behavior
                 .next_timeout(timeout, now, self.interval)
         } else {
-            timeout + self.interval
+            add_or_far_future(timeout, self.interval)
         };
 
         Pin::new(&mut self.sleep).reset(next);
@@ -75,7 +76,8 @@ impl Interval {
     }
 
     pub fn reset(&mut self) {
-        Pin::new(&mut self.sleep).reset(Instant::now() + self.interval);
+        let next = add_or_far_future(Instant::now(), self.interval);
+        Pin::new(&mut self.sleep).reset(next);
     }
 
     /// Returns the [`MissedTickBehavior`] strategy currently being used.
@@ -106,10 +108,10 @@ impl MissedTickBehavior {
     /// If a tick is missed, this method is called to determine when the next tick should happen.
     fn next_timeout(&self, timeout: Instant, now: Instant, period: Duration) -> Instant {
         match self {
-            Self::Burst => timeout + period,
-            Self::Delay => now + period,
+            Self::Burst => add_or_far_future(timeout, period),
+            Self::Delay => add_or_far_future(now, period),
             Self::Skip => {
-                now + period
+                let remaining = period
                     - Duration::from_nanos(
                         ((now - timeout).as_nanos() % period.as_nanos())
                             .try_into()
@@ -123,7 +125,8 @@ impl MissedTickBehavior {
                             .expect(
                                 "too much time has elapsed since the interval was supposed to tick",
                             ),
-                    )
+                    );
+                add_or_far_future(now, remaining)
             }
         }
     }
diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index 7559371..1d9a273 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -11,10 +11,11 @@ use std::sync::{Arc, Mutex};
 use std::task::{Context, Poll};
 use std::time::Duration;
 
-/// Roughly 30 years from `now`. It is used when a duration is so long that the deadline can't be
-/// represented, same as `tokio` does.
-fn far_future(now: Instant) -> Instant {
-    now + Duration::from_secs(86400 * 365 * 30)
+/// Adds `dur` to `at`. If it is so long that the result can't be represented, it returns roughly
+/// 30 years from `at`, same as `tokio` does.
+pub(crate) fn add_or_far_future(at: Instant, dur: Duration) -> Instant {
+    at.checked_add(dur)
+        .unwrap_or_else(|| at + Duration::from_secs(86400 * 365 * 30))
 }
 
 pub struct Sleep {
@@ -29,8 +30,7 @@ impl Sleep {
     /// The default timer will be spun up in a helper thread on first use.
     #[inline]
     pub(crate) fn new(dur: Duration) -> Sleep {
-        let now = Instant::now();
-        Sleep::new_at(now.checked_add(dur).unwrap_or_else(|| far_future(now)))
+        Sleep::new_at(add_or_far_future(Instant::now(), dur))
     }
 
     /// Creates a new future which will fire at the time specified by `at`.
-- 
2.43.0


From 6221ce20ba862d570fa84101882fef67f3405cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 10/16] fix: keep the order of DelayQueue entries nearly a
 whole turn of the wheel ahead

---
 src/tokio_util/wheel/level.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index cc86be0..6fcdbfa 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -141,10 +141,9 @@ impl<T: Stack> Level<T> {
         // TODO: This can probably be simplified w/ power of 2 math
         let level_start = now - (now % level_range);
         let mut deadline = level_start + slot as u64 * slot_range;
-        if deadline < now {
+        if self.is_top() && deadline <= now {
             // The slots of the top level are a ring. An entry is never more than one turn away, so
-            // a slot prior to the current time belongs to the next turn.
-            debug_assert_eq!(self.level, super::NUM_LEVELS - 1);
+            // a slot that has been reached already belongs to the next turn.
             deadline += level_range;
         }
 
@@ -172,13 +171,23 @@ impl<T: Stack> Level<T> {
 
         // Get the slot for now using Maths
         let now_slot = (now / slot_range(self.level)) as usize;
-        let occupied = self.occupied.rotate_right(now_slot as u32);
+        // The current slot of the top level is the last one, its entries are a whole turn away
+        let first_slot = if self.is_top() {
+            now_slot + 1
+        } else {
+            now_slot
+        };
+        let occupied = self.occupied.rotate_right((first_slot % LEVEL_MULT) as u32);
         let zeros = occupied.trailing_zeros() as usize;
-        let slot = (zeros + now_slot) % 64;
+        let slot = (zeros + first_slot) % LEVEL_MULT;
 
         Some(slot)
     }
 
+    fn is_top(&self) -> bool {
+        self.level == super::NUM_LEVELS - 1
+    }
+
     pub(crate) fn add_entry(&mut self, when: u64, item: T::Owned, store: &mut T::Store) {
         let slot = slot_for(when, self.level);
 
-- 
2.43.0


From 2828b1e8b4c13ec93c457a724042cb642974ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 11/16] fix: wake the task of a DelayQueue when it is cleared
 after its last entry was yielded

---
 src/tokio_util/delay_queue.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 30a04ce..a95c1a0 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -442,18 +442,14 @@ impl<T> DelayQueue<T> {
     }
 
     pub fn clear(&mut self) {
-        let had_entries = !self.slab.is_empty();
-
         self.slab.clear();
         self.expired = Stack::default();
         self.wheel = Wheel::new();
         self.delay = None;
 
         // The stream ends when there are no more entries
-        if had_entries {
-            if let Some(waker) = self.waker.take() {
-                waker.wake();
-            }
+        if let Some(waker) = self.waker.take() {
+            waker.wake();
         }
     }
 
-- 
2.43.0


From dde531379d51122cab2347af9dc7dc0f848a9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:37 +0000
Subject: [PATCH 12/16] fix: let tasks use timers from within their waker while
 the time is paused

Tasks that are run by their wakers re-entered the lock of the timer, which panics
because wasm can't park.
---
 src/timer/global.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index c53183e..d06c452 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -3,6 +3,7 @@ use parking_lot::Mutex;
 use std::convert::TryFrom;
 use std::future::Future;
 use std::pin::Pin;
+use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
 use std::sync::Arc;
 use std::task::Context;
 use std::time::Duration;
@@ -27,6 +28,7 @@ pub(crate) fn run() -> TimerHandle {
     let driver = Arc::new(Driver {
         timer: Mutex::new(timer),
         callbacks: Mutex::new(Vec::new()),
+        process_again: AtomicBool::new(false),
     });
     schedule_callback(driver, Duration::new(0, 0));
     handle
@@ -39,6 +41,9 @@ struct Driver {
     /// When each of the callbacks that have been requested from the host, and that it did not
     /// run yet, is due. These are instants of the host's clock, also while the time is paused.
     callbacks: Mutex<Vec<Instant>>,
+
+    /// Whether the timer has to be processed once more by the one who is processing it already.
+    process_again: AtomicBool,
 }
 
 impl Driver {
@@ -83,7 +88,15 @@ fn schedule_callback(driver: Arc<Driver>, when: Duration) {
 
 /// Fires the timers that are ready and makes sure that the host calls us again for the next one.
 fn process(driver: Arc<Driver>) {
-    let mut timer_lock = driver.timer.lock();
+    let mut timer_lock = match driver.timer.try_lock() {
+        Some(timer_lock) => timer_lock,
+        None => {
+            // While the time is paused, a task that is run by its waker gets here if it uses a
+            // `Delay`, or moves the time.
+            driver.process_again.store(true, SeqCst);
+            return;
+        }
+    };
 
     // We start by polling the timer. If any new `Delay` is created, the waker will be used
     // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
@@ -91,11 +104,18 @@ fn process(driver: Arc<Driver>) {
     let waker = task::waker(Arc::new(Waker {
         driver: driver.clone(),
     }));
-    let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
+    let now = loop {
+        driver.process_again.store(false, SeqCst);
+        let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
 
-    // Notify the timers that are ready.
-    let now = Instant::now();
-    timer_lock.advance_to(now);
+        // Notify the timers that are ready.
+        let now = Instant::now();
+        timer_lock.advance_to(now);
+
+        if !driver.process_again.load(SeqCst) {
+            break now;
+        }
+    };
 
     // While the time is paused it only moves when the waker is used.
     #[cfg(feature = "tokio-test-util")]
-- 
2.43.0


From 1c03c1cab01077160ddabbb59902a1689860f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 13/16] fix: interval with a period of zero and
 MissedTickBehavior::Skip divided by zero

---
 src/tokio/interval.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tokio/interval.rs b/src/tokio/interval.rs
index cec1d9c..7c6ac14 100644
--- a/src/tokio/interval.rs
+++ b/src/tokio/interval.rs
@@ -110,6 +110,8 @@ impl MissedTickBehavior {
         match self {
             Self::Burst => add_or_far_future(timeout, period),
             Self::Delay => add_or_far_future(now, period),
+            // Every instant is a multiple of a period of zero.
+            Self::Skip if period.is_zero() => now,
             Self::Skip => {
                 let remaining = period
                     - Duration::from_nanos(
-- 
2.43.0


From ae417880e090cfe19e9d29067f0a9f8f6d23d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:20 +0000
Subject: [PATCH 14/16] fix: wake the task of a DelayQueue when an entry that
 is due already is inserted

A leftover delay made insert_at skip the wake, and resetting or removing
another entry then moved that delay away, so the entry was stuck.
---
 src/tokio_util/delay_queue.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index a95c1a0..165abc6 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -282,11 +282,14 @@ impl<T> DelayQueue<T> {
             true
         };
 
-        if should_set_delay {
+        // The delay doesn't cover the expired queue
+        if should_set_delay || self.slab[key].expired {
             if let Some(waker) = self.waker.take() {
                 waker.wake();
             }
+        }
 
+        if should_set_delay {
             let delay_time = self.start + Duration::from_millis(when);
             if let Some(ref mut delay) = &mut self.delay {
                 delay.as_mut().reset(delay_time);
-- 
2.43.0


From a69d48728d62baea2f3856838f2856b4362eafae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:12 +0000
Subject: [PATCH 15/16] fix: time spent in wakers doesn't delay the timers that
 come next

Tasks may be run by their wakers, from within `advance_to`. The delay of the
next callback was counted from before that, so that all timers were late by
as long as such a task computed.
---
 src/timer/global.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index d06c452..fda2f15 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -104,7 +104,7 @@ fn process(driver: Arc<Driver>) {
     let waker = task::waker(Arc::new(Waker {
         driver: driver.clone(),
     }));
-    let now = loop {
+    loop {
         driver.process_again.store(false, SeqCst);
         let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
 
@@ -113,9 +113,9 @@ fn process(driver: Arc<Driver>) {
         timer_lock.advance_to(now);
 
         if !driver.process_again.load(SeqCst) {
-            break now;
+            break;
         }
-    };
+    }
 
     // While the time is paused it only moves when the waker is used.
     #[cfg(feature = "tokio-test-util")]
@@ -123,7 +123,9 @@ fn process(driver: Arc<Driver>) {
         return;
     }
 
-    // We call `schedule_callback` again for the next event.
+    // We call `schedule_callback` again for the next event. Some time may have passed since the
+    // timers were fired, if tasks are run by their wakers.
+    let now = Instant::now();
     let sleep_dur = timer_lock
         .next_event()
         .map(|next_event| {
-- 
2.43.0


From a20b0da0b4dbf9ddbf46ff6aea2af396e4bbaf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:56 +0000
Subject: [PATCH 16/16] fix: DelayQueue that made no progress for two years
 refuses entries that are near

The range of the wheel was counted from the last entry it had turned to. A queue that was idle,
cleared, or waiting for an entry far ahead panicked with "invalid deadline" for entries less than
2^36 ms ahead.
---
 src/tokio_util/delay_queue.rs | 11 ++++++++++-
 src/tokio_util/wheel/mod.rs   | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 165abc6..19422bd 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -334,6 +334,13 @@ impl<T> DelayQueue<T> {
     fn insert_idx(&mut self, when: u64, key: Key) {
         use self::wheel::{InsertError, Stack};
 
+        // The wheel only turns when an entry is due. If that is long ago, or the queue was
+        // cleared, it has to catch up before it can take one that is far ahead.
+        if !self.wheel.reaches(when) {
+            let now = super::ms(Instant::now() - self.start, super::Round::Down);
+            self.wheel.skip_to(now);
+        }
+
         // Register the deadline with the timer wheel
         match self.wheel.insert(when, key, &mut self.slab) {
             Ok(_) => {}
@@ -498,7 +505,9 @@ impl<T> DelayQueue<T> {
             }
 
             // We poll the wheel to get the next value out before finding the next deadline.
-            let wheel_idx = self.wheel.poll(self.wheel_now, &mut self.slab);
+            // It may have been ahead of the delay already.
+            let now = cmp::max(self.wheel_now, self.wheel.elapsed());
+            let wheel_idx = self.wheel.poll(now, &mut self.slab);
 
             self.delay = self.next_deadline().map(|when| Box::pin(sleep_until(when)));
 
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index 79dbaa6..dfbcdab 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -65,6 +65,20 @@ where
         Ok(())
     }
 
+    /// Returns `true` if the wheel has a slot for an entry that is due at `when`.
+    pub(crate) fn reaches(&self, when: u64) -> bool {
+        when.saturating_sub(self.elapsed) <= MAX_DURATION
+    }
+
+    /// Turns the wheel up to `now`, but not to an entry that is due by then.
+    pub(crate) fn skip_to(&mut self, now: u64) {
+        let now = match self.next_expiration() {
+            Some(expiration) => now.min(expiration.deadline.saturating_sub(1)),
+            None => now,
+        };
+        self.elapsed = self.elapsed.max(now);
+    }
+
     #[track_caller]
     pub(crate) fn remove(&mut self, item: &T::Borrowed, store: &mut T::Store) {
         let when = T::when(item, store);
-- 
2.43.0

