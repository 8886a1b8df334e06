From 0f20f973e5b3c55122ad86919c7d516c0d03e30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:54 +0000
Subject: [PATCH 01/19] verif: add cfg(thingbuf_verif) hooks for contract
 verification

---
 src/lib.rs                  |  5 +++++
 src/loom.rs                 |  8 +++++++-
 src/mpsc.rs                 |  5 +++++
 src/mpsc/async_impl.rs      |  5 +++++
 src/mpsc/blocking.rs        | 11 ++++++++++-
 src/static_thingbuf.rs      |  5 +++++
 src/util.rs                 |  4 ++++
 src/util/mutex.rs           |  9 ++++++---
 src/util/mutex/spin_impl.rs |  5 +++++
 src/util/panic.rs           |  9 +++++++--
 src/wait/cell.rs            |  5 +++++
 src/wait/queue.rs           |  5 +++++
 12 files changed, 69 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 228ffe8..d225c19 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -582,3 +582,8 @@ impl<T> fmt::Display for Full<T> {
 
 #[cfg(feature = "std")]
 impl<T> std::error::Error for Full<T> {}
+
+#[cfg(thingbuf_verif)]
+mod verif {
+    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/core.rs"));
+}
diff --git a/src/loom.rs b/src/loom.rs
index 7b67828..ab63b43 100644
--- a/src/loom.rs
+++ b/src/loom.rs
@@ -200,7 +200,13 @@ mod inner {
     }
 }
 
-#[cfg(not(all(loom, test)))]
+// Verification builds (`--cfg thingbuf_verif`) swap in instrumented primitives.
+#[cfg(thingbuf_verif)]
+mod inner {
+    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/loom_inner.rs"));
+}
+
+#[cfg(not(any(all(loom, test), thingbuf_verif)))]
 mod inner {
     #![allow(dead_code)]
     pub(crate) mod sync {
diff --git a/src/mpsc.rs b/src/mpsc.rs
index a49d468..f4fd555 100644
--- a/src/mpsc.rs
+++ b/src/mpsc.rs
@@ -646,3 +646,8 @@ feature! {
 
 #[cfg(all(loom, test))]
 mod tests;
+
+#[cfg(thingbuf_verif)]
+mod verif {
+    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/mpsc.rs"));
+}
diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 9f3431b..a3e115f 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -1541,3 +1541,8 @@ mod tests {
         }
     }
 }
+
+#[cfg(thingbuf_verif)]
+mod verif {
+    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/async_impl.rs"));
+}
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index cb6f037..18f48b5 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -16,7 +16,11 @@ use crate::{
 };
 use core::{fmt, pin::Pin};
 use errors::*;
-use std::time::{Duration, Instant};
+use std::time::Duration;
+#[cfg(not(thingbuf_verif))]
+use std::time::Instant;
+#[cfg(thingbuf_verif)]
+use crate::loom::time::Instant;
 
 /// Returns a new synchronous multi-producer, single consumer (MPSC)
 /// channel with  the provided capacity.
@@ -1753,3 +1757,8 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
         }
     }
 }
+
+#[cfg(thingbuf_verif)]
+mod verif {
+    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/blocking.rs"));
+}
diff --git a/src/static_thingbuf.rs b/src/static_thingbuf.rs
index 2635bc6..8f4487c 100644
--- a/src/static_thingbuf.rs
+++ b/src/static_thingbuf.rs
@@ -528,3 +528,8 @@ impl<T, const CAP: usize, R> Drop for StaticThingBuf<T, CAP, R> {
         self.core.drop_slots(&mut self.slots[..]);
     }
 }
+
+#[cfg(thingbuf_verif)]
+mod verif {
+    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/static_thingbuf.rs"));
+}
diff --git a/src/util.rs b/src/util.rs
index b3b8417..e909a36 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -25,6 +25,10 @@ impl Backoff {
     const MAX_YIELDS: u8 = 6;
     #[inline]
     pub(crate) fn new() -> Self {
+        #[cfg(thingbuf_verif)]
+        return Self(loom::verif::initial_backoff());
+
+        #[cfg(not(thingbuf_verif))]
         Self(0)
     }
 
diff --git a/src/util/mutex.rs b/src/util/mutex.rs
index 944a4ca..1b8f13a 100644
--- a/src/util/mutex.rs
+++ b/src/util/mutex.rs
@@ -1,15 +1,18 @@
-#[cfg(not(any(feature = "std", all(loom, test))))]
+#[cfg(not(any(feature = "std", all(loom, test), thingbuf_verif)))]
 pub(crate) use self::spin_impl::*;
 
-#[cfg(any(not(feature = "std"), test))]
+#[cfg(any(not(feature = "std"), test, thingbuf_verif))]
 mod spin_impl;
 
 feature! {
-    #![all(feature = "std", not(all(loom, test)))]
+    #![all(feature = "std", not(any(all(loom, test), thingbuf_verif)))]
     #[allow(unused_imports)]
     pub(crate) use parking_lot::{Mutex, MutexGuard, const_mutex};
 }
 
+#[cfg(thingbuf_verif)]
+pub(crate) use crate::loom::verif::mutex::*;
+
 feature! {
     #![all(loom, test)]
     mod loom_impl;
diff --git a/src/util/mutex/spin_impl.rs b/src/util/mutex/spin_impl.rs
index 69f5a04..1dc1ed4 100644
--- a/src/util/mutex/spin_impl.rs
+++ b/src/util/mutex/spin_impl.rs
@@ -105,3 +105,8 @@ unsafe impl<T: Send> Send for Mutex<T> {}
 unsafe impl<T: Send> Sync for Mutex<T> {}
 unsafe impl<T: Send> Send for MutexGuard<'_, T> {}
 unsafe impl<T: Send> Sync for MutexGuard<'_, T> {}
+
+#[cfg(thingbuf_verif)]
+mod verif {
+    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/spin_mutex.rs"));
+}
diff --git a/src/util/panic.rs b/src/util/panic.rs
index 0a51a08..70efe27 100644
--- a/src/util/panic.rs
+++ b/src/util/panic.rs
@@ -1,7 +1,12 @@
 pub(crate) use self::inner::*;
 pub(crate) use core::panic::*;
 
-#[cfg(feature = "std")]
+#[cfg(thingbuf_verif)]
+mod inner {
+    pub(crate) use crate::loom::verif::panic::*;
+}
+
+#[cfg(all(feature = "std", not(thingbuf_verif)))]
 mod inner {
     pub(crate) fn panicking() -> bool {
         std::thread::panicking()
@@ -10,7 +15,7 @@ mod inner {
     pub use std::panic::{catch_unwind, resume_unwind};
 }
 
-#[cfg(not(feature = "std"))]
+#[cfg(not(any(feature = "std", thingbuf_verif)))]
 mod inner {
     use super::*;
     pub(crate) fn panicking() -> bool {
diff --git a/src/wait/cell.rs b/src/wait/cell.rs
index 19a1134..297a9b9 100644
--- a/src/wait/cell.rs
+++ b/src/wait/cell.rs
@@ -393,3 +393,8 @@ mod tests {
     //     });
     // }
 }
+
+#[cfg(thingbuf_verif)]
+mod verif {
+    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/cell.rs"));
+}
diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index f820a70..2caba19 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -861,3 +861,8 @@ mod tests {
         );
     }
 }
+
+#[cfg(thingbuf_verif)]
+mod verif {
+    include!(concat!(env!("THINGBUF_VERIF_HOOKS"), "/queue.rs"));
+}
-- 
2.43.0


From 93c2221ef7997636aed133dfb83b6c2d719f23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:04 +0000
Subject: [PATCH 02/19] fix: TrySendError/SendTimeoutError::is_closed match the
 Closed variant

---
 src/mpsc/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/errors.rs b/src/mpsc/errors.rs
index a41df34..b4b127c 100644
--- a/src/mpsc/errors.rs
+++ b/src/mpsc/errors.rs
@@ -141,7 +141,7 @@ impl<T> SendTimeoutError<T> {
     /// [`send`]: super::blocking::Sender::send
     /// [`Receiver`]: super::blocking::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Timeout(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
@@ -208,7 +208,7 @@ impl<T> TrySendError<T> {
     /// [`send`]: super::Sender::send
     /// [`Receiver`]: super::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Full(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
-- 
2.43.0


From 9790167b2136bb051469f2fc7cf124d345d15035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:10 +0000
Subject: [PATCH 03/19] fix: Receiver::is_closed is true only once every sender
 has been dropped

---
 src/mpsc/async_impl.rs | 4 ++--
 src/mpsc/blocking.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index a3e115f..7efa369 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -579,7 +579,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1284,7 +1284,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 18f48b5..10b0610 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -877,7 +877,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1563,7 +1563,7 @@ impl<T, R> Receiver<T, R> {
     /// If this method returns `true`, no new messages will become available
     /// on this channel. Previously sent messages may still be available.
     pub fn is_closed(&self) -> bool {
-        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
     }
 }
 
-- 
2.43.0


From 80d01ad388537c19c8a1332f9979d5ffceea9fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:38 +0000
Subject: [PATCH 04/19] fix: close the channel when the last peer is dropped
 during unwinding

---
 src/lib.rs        | 2 ++
 src/util/panic.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d225c19..f3358fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,6 +167,8 @@ impl Core {
 
     fn close(&self) -> bool {
         test_println!("Core::close");
+        // Don't touch loom's state again if the model is already panicking.
+        #[cfg(all(loom, test))]
         if crate::util::panic::panicking() {
             return false;
         }
diff --git a/src/util/panic.rs b/src/util/panic.rs
index 70efe27..85e1fdc 100644
--- a/src/util/panic.rs
+++ b/src/util/panic.rs
@@ -8,6 +8,7 @@ mod inner {
 
 #[cfg(all(feature = "std", not(thingbuf_verif)))]
 mod inner {
+    #[allow(dead_code)]
     pub(crate) fn panicking() -> bool {
         std::thread::panicking()
     }
@@ -18,6 +19,7 @@ mod inner {
 #[cfg(not(any(feature = "std", thingbuf_verif)))]
 mod inner {
     use super::*;
+    #[allow(dead_code)]
     pub(crate) fn panicking() -> bool {
         false
     }
-- 
2.43.0


From e0f64028001a9f9fc32646b9e02d870eea1cd183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:43 +0000
Subject: [PATCH 05/19] fix: WaitQueue::notify must not act on a state read
 before locking the list

---
 src/wait/queue.rs | 69 ++++++++++++++++++++++++-----------------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 2caba19..2ba8be0 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -388,54 +388,55 @@ impl<T: Notify + Unpin> WaitQueue<T> {
 
         // Slow path: there are waiters in the queue, so we must acquire the
         // lock and wake one of them.
-        self.notify_slow(state)
+        self.notify_slow()
     }
 
     /// Slow path for `notify`: acquire the lock on the linked list, dequeue a
     /// waiter, and notify it.
     #[cold]
     #[inline(never)]
-    fn notify_slow(&self, state: usize) -> bool {
+    fn notify_slow(&self) -> bool {
+        let mut list = self.list.lock();
+        // Reload the queue's state: while we were waiting to acquire the lock,
+        // the waiters we saw may have been removed, or the queue may have been
+        // closed.
+        let mut state = self.state.load(Acquire);
         test_println!("WaitQueue::notify_slow(state: {})", state);
 
-        let mut list = self.list.lock();
-        match state {
-            EMPTY | WAKING => {
-                if let Err(actual) = self.state.compare_exchange(state, WAKING, SeqCst, SeqCst) {
-                    debug_assert!(actual == EMPTY || actual == WAKING);
-                    self.state.store(WAKING, SeqCst);
-                }
+        while test_dbg!(state) == WAKING || state == EMPTY {
+            // There is no waiter to wake any more, so assign the notification
+            // to the queue.
+            match test_dbg!(self.state.compare_exchange(state, WAKING, SeqCst, SeqCst)) {
+                Ok(_) => return false,
+                Err(actual) => state = actual,
             }
-            WAITING => {
-                let waiter = list.dequeue(WAKING);
-                debug_assert!(
-                    waiter.is_some(),
-                    "if we were in the `WAITING` state, there must be a waiter in the queue!\nself={:#?}",
-                    self,
-                );
-
-                // If we popped the last node, transition back to the empty
-                // state.
-                if test_dbg!(list.is_empty()) {
-                    self.state.store(EMPTY, SeqCst);
-                }
+        }
 
-                // drop the lock
-                drop(list);
+        if test_dbg!(state) == WAITING {
+            let waiter = list.dequeue(WAKING);
+            debug_assert!(
+                waiter.is_some(),
+                "if we were in the `WAITING` state, there must be a waiter in the queue!\nself={:#?}",
+                self,
+            );
 
-                // wake the waiter
-                if let Some(waiter) = waiter {
-                    waiter.notify();
-                    return true;
-                }
+            // If we popped the last node, transition back to the empty state
+            // (unless the queue was closed in the meantime).
+            if test_dbg!(list.is_empty()) {
+                let _ = test_dbg!(self.state.compare_exchange(WAITING, EMPTY, SeqCst, SeqCst));
             }
-            _weird => {
-                // huh, if `notify_slow` was called, we *probably* shouldn't be
-                // in the `closed` state...
-                #[cfg(debug_assertions)]
-                unreachable!("notify_slow: unexpected state value {:?}", _weird);
+
+            // drop the lock
+            drop(list);
+
+            // wake the waiter
+            if let Some(waiter) = waiter {
+                waiter.notify();
+                return true;
             }
         }
+
+        // Otherwise, the queue is closed, and everyone will be woken by that.
         false
     }
 
-- 
2.43.0


From ba90dd1341e267e1b6af4f8092422f4ea8fead00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:49 +0000
Subject: [PATCH 06/19] fix: WaitQueue::close must not wake waiters while
 holding the list lock

---
 src/wait/queue.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 2ba8be0..3c029b2 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -445,9 +445,18 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         test_println!("WaitQueue::close()");
 
         test_dbg!(self.state.swap(CLOSED, SeqCst));
-        let mut list = self.list.lock();
-        while !list.is_empty() {
-            if let Some(waiter) = list.dequeue(CLOSED) {
+        loop {
+            let mut list = self.list.lock();
+            if list.is_empty() {
+                return;
+            }
+            let waiter = list.dequeue(CLOSED);
+
+            // Drop the lock before waking: a waker may run arbitrary code,
+            // including code that touches this queue.
+            drop(list);
+
+            if let Some(waiter) = waiter {
                 waiter.notify();
             }
         }
-- 
2.43.0


From 6750e62da70e45a99026e87a25777f2589413a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:54 +0000
Subject: [PATCH 07/19] fix: a cancelled send passes on the notification it was
 given

---
 src/mpsc/async_impl.rs |  2 +-
 src/wait/queue.rs      | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 7efa369..1d614a9 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -1495,7 +1495,7 @@ impl<T, R> PinnedDrop for SendRefFuture<'_, T, R> {
     fn drop(self: Pin<&mut Self>) {
         test_println!("SendRefFuture::drop({:p})", self);
         let this = self.project();
-        if test_dbg!(*this.state) == State::Waiting && test_dbg!(this.waiter.is_linked()) {
+        if test_dbg!(*this.state) == State::Waiting {
             this.waiter.remove(&this.core.tx_wait)
         }
     }
diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 3c029b2..41441db 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -478,10 +478,28 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    /// Stop waiting.
+    ///
+    /// If the waiter is still linked, it is unlinked. If it was already
+    /// notified, the notification is passed on, so that it is not lost.
     #[inline(never)]
-    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) {
+    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>)
+    where
+        T: Unpin,
+    {
         test_println!("Waiter::remove({:p})", self);
         let mut list = q.list.lock();
+        // The waiter can only be dequeued while the list is locked.
+        match test_dbg!(self.state.load(Acquire)) {
+            WAITING => {}
+            WAKING => {
+                drop(list);
+                q.notify();
+                return;
+            }
+            _ => return,
+        }
+
         unsafe {
             // Safety: removing a node is unsafe even when the list is locked,
             // because there's no way to guarantee that the node is part of
@@ -495,6 +513,7 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    #[cfg(all(test, not(loom)))]
     #[inline]
     pub(crate) fn is_linked(&self) -> bool {
         test_dbg!(self.state.load(Acquire)) == WAITING
-- 
2.43.0


From 5cabac50178a8f707281dd0a6f35c33f2fa60421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:59 +0000
Subject: [PATCH 08/19] fix: a blocking sender notified without capacity waits
 again instead of spinning

---
 src/mpsc/blocking.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 10b0610..da89e93 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1686,6 +1686,9 @@ fn send_ref<'a, T, R: Recycle<T>>(
         match wait {
             WaitResult::Closed => return Err(Closed(())),
             WaitResult::Notified => {
+                // the notification unlinked us, so if there's still no
+                // capacity, we must enqueue ourselves again.
+                unqueued = true;
                 boff.spin_yield();
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
@@ -1739,6 +1742,9 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
         match wait {
             WaitResult::Closed => return Err(SendTimeoutError::Closed(())),
             WaitResult::Notified => {
+                // the notification unlinked us, so if there's still no
+                // capacity, we must enqueue ourselves again.
+                unqueued = true;
                 boff.spin_yield();
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
-- 
2.43.0


From cdd45a9af8f19e529cbefd9208540890a1b44d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:04 +0000
Subject: [PATCH 09/19] fix: unlink the waiter of a timed-out blocking send

---
 src/mpsc/blocking.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index da89e93..9e09894 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1757,6 +1757,9 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                 thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
+                    // the waiter is about to go out of scope, so it must not
+                    // remain in the queue.
+                    unsafe { Pin::new_unchecked(&mut waiter) }.remove(&core.tx_wait);
                     return Err(SendTimeoutError::Timeout(()));
                 }
             }
-- 
2.43.0


From 0e4e1723e49367c8a0ca93d731fbd8860db161b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:09 +0000
Subject: [PATCH 10/19] fix: timed operations park only for the time left, and
 report closure first

---
 src/mpsc/blocking.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 9e09894..b95a441 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1641,11 +1641,11 @@ fn recv_ref_timeout<'a, T>(
             }
             Poll::Pending => {
                 test_println!("park_timeout ({:?})", thread::current());
-                thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     return Err(RecvTimeoutError::Timeout);
                 }
+                thread::park_timeout(timeout - elapsed);
             }
         }
     }
@@ -1754,7 +1754,6 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
             }
             WaitResult::Wait => {
                 unqueued = false;
-                thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     // the waiter is about to go out of scope, so it must not
@@ -1762,6 +1761,7 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
                     unsafe { Pin::new_unchecked(&mut waiter) }.remove(&core.tx_wait);
                     return Err(SendTimeoutError::Timeout(()));
                 }
+                thread::park_timeout(timeout - elapsed);
             }
         }
     }
-- 
2.43.0


From 1503016084370b19f0bebe70383dd14b14967200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:14 +0000
Subject: [PATCH 11/19] fix: push_ref and pop_ref return instead of spinning
 while a Ref is held

---
 src/lib.rs | 63 +++++++++++++++++++++++++++++-------------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f3358fd..005cdea 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -259,17 +259,23 @@ impl Core {
                 }
             }
 
+            // fake RMW op to placate loom. this should be equivalent to
+            // doing a relaxed load after a SeqCst fence (per Godbolt
+            // https://godbolt.org/z/zb15qfEa9), however, loom understands
+            // this correctly, while it does not understand an explicit
+            // SeqCst fence and a load.
+            // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
+            // load it gets reordered differently in the model checker lmao...
+            let head = test_dbg!(self.head.fetch_or(0, SeqCst));
+            if test_dbg!(head.wrapping_add(self.gen) == tail) {
+                test_println!("channel full");
+                return Err(TrySendError::Full(()));
+            }
+
             if test_dbg!(state.wrapping_add(self.gen) == tail + 1) {
-                // fake RMW op to placate loom. this should be equivalent to
-                // doing a relaxed load after a SeqCst fence (per Godbolt
-                // https://godbolt.org/z/zb15qfEa9), however, loom understands
-                // this correctly, while it does not understand an explicit
-                // SeqCst fence and a load.
-                // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
-                // load it gets reordered differently in the model checker lmao...
-                let head = test_dbg!(self.head.fetch_or(0, SeqCst));
-                if test_dbg!(head.wrapping_add(self.gen) == tail) {
-                    test_println!("channel full");
+                // The element has been popped, but the consumer still holds on
+                // to the slot. Don't wait for it forever.
+                if test_dbg!(backoff.done_spinning()) {
                     return Err(TrySendError::Full(()));
                 }
 
@@ -336,26 +342,25 @@ impl Core {
                 }
             }
 
-            if test_dbg!(state == head) {
-                // fake RMW op to placate loom. this should be equivalent to
-                // doing a relaxed load after a SeqCst fence (per Godbolt
-                // https://godbolt.org/z/zb15qfEa9), however, loom understands
-                // this correctly, while it does not understand an explicit
-                // SeqCst fence and a load.
-                // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
-                // load it gets reordered differently in the model checker lmao...
-
-                let tail = test_dbg!(self.tail.fetch_or(0, SeqCst));
-
-                if test_dbg!(tail & !self.closed == head) {
-                    return if test_dbg!(tail & self.closed != 0) {
-                        Err(TryRecvError::Closed)
-                    } else {
-                        test_println!("--> channel empty!");
-                        Err(TryRecvError::Empty)
-                    };
-                }
+            // fake RMW op to placate loom. this should be equivalent to
+            // doing a relaxed load after a SeqCst fence (per Godbolt
+            // https://godbolt.org/z/zb15qfEa9), however, loom understands
+            // this correctly, while it does not understand an explicit
+            // SeqCst fence and a load.
+            // XXX(eliza): this makes me DEEPLY UNCOMFORTABLE but if it's a
+            // load it gets reordered differently in the model checker lmao...
+            let tail = test_dbg!(self.tail.fetch_or(0, SeqCst));
+
+            if test_dbg!(tail & !self.closed == head) {
+                return if test_dbg!(tail & self.closed != 0) {
+                    Err(TryRecvError::Closed)
+                } else {
+                    test_println!("--> channel empty!");
+                    Err(TryRecvError::Empty)
+                };
+            }
 
+            if test_dbg!(state == head) {
                 if test_dbg!(backoff.done_spinning()) {
                     return Err(TryRecvError::Empty);
                 }
-- 
2.43.0


From 612bc8a069d8f1b852023eae518accbf0cafd58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:20 +0000
Subject: [PATCH 12/19] fix: reject zero-capacity static buffers and channels
 like heap-allocated ones

---
 src/mpsc/async_impl.rs | 1 +
 src/mpsc/blocking.rs   | 1 +
 src/static_thingbuf.rs | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 1d614a9..ff73fe4 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -705,6 +705,7 @@ feature! {
         /// [`split`]: StaticChannel::split
         #[must_use]
         pub const fn new() -> Self {
+            assert!(CAPACITY > 0);
             Self {
                 core: ChannelCore::new(CAPACITY),
                 slots: Slot::make_static_array::<CAPACITY>(),
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index b95a441..4525053 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -193,6 +193,7 @@ feature! {
         /// [`split`]: StaticChannel::split
         #[must_use]
         pub const fn new() -> Self {
+            assert!(CAPACITY > 0);
             Self {
                 core: ChannelCore::new(CAPACITY),
                 slots: Slot::make_static_array::<CAPACITY>(),
diff --git a/src/static_thingbuf.rs b/src/static_thingbuf.rs
index 8f4487c..cf85bc0 100644
--- a/src/static_thingbuf.rs
+++ b/src/static_thingbuf.rs
@@ -220,6 +220,7 @@ impl<T, const CAP: usize, R> StaticThingBuf<T, CAP, R> {
     /// [recycling policy]: crate::recycling::Recycle
     #[must_use]
     pub const fn with_recycle(recycle: R) -> Self {
+        assert!(CAP > 0);
         StaticThingBuf {
             core: Core::new(CAP),
             recycle,
-- 
2.43.0


From b2cb0e238c485ecde6cbffa4f938ee4facb2fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:26 +0000
Subject: [PATCH 13/19] fix: drop the elements of a StaticChannel that is not a
 static

---
 src/mpsc/async_impl.rs | 6 ++++++
 src/mpsc/blocking.rs   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index ff73fe4..ad4feed 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -757,6 +757,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..])
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 4525053..98b3219 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -245,6 +245,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..])
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
-- 
2.43.0


From 62a622ce18241fa42e9da9eca132cf3ce967a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:33 +0000
Subject: [PATCH 14/19] fix: do not drop a slot whose first element was never
 created

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 005cdea..d3eee00 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -405,7 +405,12 @@ impl Core {
         let tail = self.tail.load(SeqCst);
         let (idx, gen) = self.idx_gen(tail);
         let num_initialized = if gen > 0 { self.capacity() } else { idx };
-        for slot in &mut slots[..num_initialized] {
+        for (i, slot) in slots[..num_initialized].iter_mut().enumerate() {
+            // A slot that is still in its initial state was claimed, but never
+            // finished being initialized (because creating the element panicked).
+            if slot.state.load(Acquire) == i {
+                continue;
+            }
             unsafe {
                 slot.value
                     .with_mut(|value| ptr::drop_in_place((*value).as_mut_ptr()));
-- 
2.43.0


From 9aa9641f721f2bfcbcb24825e863b049224958fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:38 +0000
Subject: [PATCH 15/19] fix: Ref is Sync only for Sync elements, and slots are
 shareable for Send ones

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d3eee00..0e74a6d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -522,7 +522,7 @@ impl<T: fmt::Write> fmt::Write for Ref<'_, T> {
 }
 
 unsafe impl<T: Send> Send for Ref<'_, T> {}
-unsafe impl<T: Send> Sync for Ref<'_, T> {}
+unsafe impl<T: Sync> Sync for Ref<'_, T> {}
 
 // === impl Slot ===
 
@@ -566,7 +566,7 @@ impl<T> Slot<T> {
     }
 }
 
-unsafe impl<T: Sync> Sync for Slot<T> {}
+unsafe impl<T: Send> Sync for Slot<T> {}
 
 // === impl Full ===
 
-- 
2.43.0


From fd993120e0f530741c90c3a8f5f678b4b22594a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:18 +0000
Subject: [PATCH 16/19] fix: publish a waiter's new state only after the last
 access to its node

---
 src/wait/queue.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 41441db..5f07206 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -607,9 +607,6 @@ impl<T> List<T> {
         test_println!("List::dequeue({:?}) -> {:p}", new_state, last);
 
         let last = unsafe { last.as_mut() };
-        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
-        debug_assert_eq!(_prev_state, WAITING);
-
         let (prev, waiter) = last.with_node(self, |node| {
             node.next = None;
             (node.prev.take(), node.waiter.take())
@@ -624,6 +621,11 @@ impl<T> List<T> {
 
         self.tail = prev;
 
+        // This must be the last access to the node: its owner does not need the
+        // lock to observe the new state, and may deallocate the node after that.
+        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
+        debug_assert_eq!(_prev_state, WAITING);
+
         waiter
     }
 
-- 
2.43.0


From fe052890d267a824ca14da1dc4a1a09ad3046f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:08 +0000
Subject: [PATCH 17/19] fix: a panicking registration still wakes the waiter
 registered earlier

With a previous waiter in the cell and a notification arriving while the
new waiter's creation panics, the debug assertion replaced the panic and
lost the earlier waiter's wakeup.
---
 src/wait/cell.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/wait/cell.rs b/src/wait/cell.rs
index 297a9b9..dabfc6c 100644
--- a/src/wait/cell.rs
+++ b/src/wait/cell.rs
@@ -130,7 +130,6 @@ impl<T: Notify> WaitCell<T> {
                 }
 
                 if let Some(waiter) = waiter {
-                    debug_assert!(panicked.is_none());
                     waiter.notify();
                 }
 
-- 
2.43.0


From c185a42d207f4e41f8f39dcc2fc67f316562c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:56 +0000
Subject: [PATCH 18/19] fix: clone a sender's waker before changing the wait
 queue's state

If cloning panicked, the queue was left in the WAITING state without a
waiter: the next notification was lost, or panicked in debug builds.
---
 src/wait/queue.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 5f07206..0e870cc 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -211,6 +211,10 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // still open. Therefore, it's time to actually push the waiter to
         // the queue...finally lol :)
 
+        // Cloning the waiter may run arbitrary code, and may panic, so do it
+        // before locking the list or changing the queue's state.
+        let waiter = waiter.clone();
+
         // Grab the lock...
         let mut list = self.list.lock();
         // Reload the queue's state, as it may have changed while we were
@@ -270,7 +274,7 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // to Waiting, and add it to the queue.
 
         node.with_node(&mut *list, |node| {
-            let _prev = node.waiter.replace(waiter.clone());
+            let _prev = node.waiter.replace(waiter);
             debug_assert!(
                 _prev.is_none(),
                 "start_wait_slow: called with a node that already had a waiter!"
-- 
2.43.0


From 3fda5527b46a2acba81c684f2ad2a22521245664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:57 +0000
Subject: [PATCH 19/19] fix: do not drop a replaced waker while the wait queue
 is locked

Dropping a waker may drop a task that is itself waiting on the channel,
whose removal from the queue then deadlocks.
---
 src/wait/queue.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 0e870cc..cc1a5c0 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -351,17 +351,17 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // Okay, we were not woken and need to continue waiting. It may be
         // necessary to update the waiter with a new waiter (in practice, this
         // is only necessary in async).
-        node.with_node(&mut *list, |node| {
-            if let Some(ref mut waiter) = node.waiter {
-                if !waiter.same(my_waiter) {
-                    *waiter = my_waiter.clone();
-                }
-            } else {
-                // XXX(eliza): This branch should _probably_ never occur...
-                node.waiter = Some(my_waiter.clone());
-            }
+        let prev_waiter = node.with_node(&mut *list, |node| match node.waiter {
+            Some(ref waiter) if waiter.same(my_waiter) => None,
+            // XXX(eliza): The `None` case should _probably_ never occur...
+            _ => node.waiter.replace(my_waiter.clone()),
         });
 
+        // Unlock before dropping the replaced waiter: dropping a waker may run
+        // arbitrary code, including code that touches this queue.
+        drop(list);
+        drop(prev_waiter);
+
         WaitResult::Wait
     }
 
-- 
2.43.0

