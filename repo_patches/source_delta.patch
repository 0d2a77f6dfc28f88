From 5cf5a37b4d9be184835170ec5c47b323c717d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 01/10] fix: wake all collected tasks when re-arming a source
 fails in react()

---
 src/reactor.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 474c62a..b2a8edb 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -308,6 +308,8 @@ impl ReactorLock<'_> {
 
             // At least one I/O event occurred.
             Ok(_) => {
+                let mut res = Ok(());
+
                 // Iterate over sources in the event list.
                 let sources = self.reactor.sources.lock().unwrap();
 
@@ -337,12 +339,21 @@ impl ReactorLock<'_> {
                             };
 
                             // Register interest in this event.
-                            source.registration.modify(&self.reactor.poller, event)?;
+                            if let Err(err) =
+                                source.registration.modify(&self.reactor.poller, event)
+                            {
+                                // No more events will be delivered for this source, so wake the
+                                // remaining tasks too. They will get the error when they register
+                                // interest again.
+                                state[READ].drain_into(&mut wakers);
+                                state[WRITE].drain_into(&mut wakers);
+                                res = Err(err);
+                            }
                         }
                     }
                 }
 
-                Ok(())
+                res
             }
 
             // The syscall was interrupted.
-- 
2.43.0


From 4c3208d467cdba7bd4151e0667fef463b14e5e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 02/10] fix: wake the replaced waker in poll_ready() after
 unlocking the source

---
 src/reactor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index b2a8edb..803c20a 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -460,13 +460,12 @@ impl Source {
         let was_empty = state[dir].is_empty();
 
         // Register the current task's waker.
-        if let Some(w) = state[dir].waker.take() {
+        let replaced = state[dir].waker.take();
+        if let Some(w) = &replaced {
             if w.will_wake(cx.waker()) {
-                state[dir].waker = Some(w);
+                state[dir].waker = replaced;
                 return Poll::Pending;
             }
-            // Wake the previous waker because it's going to get replaced.
-            panic::catch_unwind(|| w.wake()).ok();
         }
         state[dir].waker = Some(cx.waker().clone());
         state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
@@ -485,6 +484,13 @@ impl Source {
             self.registration.modify(&Reactor::get().poller, event)?;
         }
 
+        // Wake the previous waker because it got replaced. Unlock the state first: the waker might
+        // poll this source again.
+        drop(state);
+        if let Some(w) = replaced {
+            panic::catch_unwind(|| w.wake()).ok();
+        }
+
         Poll::Pending
     }
 
-- 
2.43.0


From d56377c5b1b0e6ab1462dbe3f9198cfde4a0bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:55 +0000
Subject: [PATCH 03/10] fix: Timer::set_at()/set_after() make a periodic timer
 one-shot

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f771098..1fce607 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -369,8 +369,9 @@ impl Timer {
     pub fn set_at(&mut self, instant: Instant) {
         self.clear();
 
-        // Update the timeout.
+        // Update the timeout. The timer emits a single event, even if it was periodic before.
         self.when = Some(instant);
+        self.period = Duration::MAX;
 
         if let Some((id, waker)) = self.id_and_waker.as_mut() {
             // Re-register the timer with the new timeout.
-- 
2.43.0


From 4a1ecd339f2460e5c7a92fae2abe8a6fe91229da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 04/10] fix: remember the waker of a Timer polled without a
 deadline

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1fce607..acf8a4d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -514,6 +514,13 @@ impl Stream for Timer {
                     Some(_) => {}
                 }
             }
+        } else {
+            // Nothing to register in the reactor yet, but remember the waker so that it gets
+            // registered when the timer is set.
+            match &this.id_and_waker {
+                Some((_, w)) if w.will_wake(cx.waker()) => {}
+                _ => this.id_and_waker = Some((0, cx.waker().clone())),
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From d5b02e5195a7659d3c2f215ea6b4e0a71412362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 05/10] fix: don't leave a waker registered when arming the
 source fails

---
 src/reactor.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index 803c20a..e888153 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -481,7 +481,12 @@ impl Source {
             };
 
             // Register interest in it.
-            self.registration.modify(&Reactor::get().poller, event)?;
+            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
+                // Nothing will wake this waker, so don't leave it registered.
+                state[dir].waker = None;
+                state[dir].ticks = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         // Wake the previous waker because it got replaced. Unlock the state first: the waker might
@@ -664,11 +669,16 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             };
 
             // Indicate that we are interested in this event.
-            handle
+            if let Err(err) = handle
                 .borrow()
                 .source
                 .registration
-                .modify(&Reactor::get().poller, event)?;
+                .modify(&Reactor::get().poller, event)
+            {
+                // Nothing will wake this waker, so don't leave it registered.
+                state[*dir].wakers[i] = None;
+                return Poll::Ready(Err(err));
+            }
         }
 
         Poll::Pending
-- 
2.43.0


From 52e4c1c57c05b3d3765dfdb6681b714b48aebbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 06/10] fix: don't drop wakers while holding internal locks

Dropping the last waker of a task drops the task, and with it whatever
I/O waits and timers it owns, which acquire the same locks again.
---
 src/reactor.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/reactor.rs b/src/reactor.rs
index e888153..ee4b18e 100644
--- a/src/reactor.rs
+++ b/src/reactor.rs
@@ -160,8 +160,9 @@ impl Reactor {
             .is_err()
         {
             // If the queue is full, drain it and try again.
+            let mut removed = Vec::new();
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            self.process_timer_ops(&mut timers, &mut removed);
         }
 
         // Notify that a timer has been inserted.
@@ -175,8 +176,9 @@ impl Reactor {
         // Push a remove operation.
         while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
             // If the queue is full, drain it and try again.
+            let mut removed = Vec::new();
             let mut timers = self.timers.lock().unwrap();
-            self.process_timer_ops(&mut timers);
+            self.process_timer_ops(&mut timers, &mut removed);
         }
     }
 
@@ -207,8 +209,9 @@ impl Reactor {
         let span = tracing::trace_span!("process_timers");
         let _enter = span.enter();
 
+        let mut removed = Vec::new();
         let mut timers = self.timers.lock().unwrap();
-        self.process_timer_ops(&mut timers);
+        self.process_timer_ops(&mut timers, &mut removed);
 
         let now = Instant::now();
 
@@ -245,7 +248,14 @@ impl Reactor {
     }
 
     /// Processes queued timer operations.
-    fn process_timer_ops(&self, timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>) {
+    ///
+    /// The wakers of removed timers are moved into `removed`. They must be dropped only after
+    /// `timers` is unlocked because that might drop tasks and with them other timers.
+    fn process_timer_ops(
+        &self,
+        timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>,
+        removed: &mut Vec<Waker>,
+    ) {
         // Process only as much as fits into the queue, or else this loop could in theory run
         // forever.
         self.timer_ops
@@ -256,7 +266,7 @@ impl Reactor {
                     timers.insert((when, id), waker);
                 }
                 TimerOp::Remove(when, id) => {
-                    timers.remove(&(when, id));
+                    removed.extend(timers.remove(&(when, id)));
                 }
             });
     }
@@ -633,6 +643,8 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
             ..
         } = &mut *self;
 
+        // Dropping a waker might drop a task that uses this source, so this goes after `state`.
+        let _replaced;
         let mut state = handle.borrow().source.state.lock().unwrap();
 
         // Check if the reactor has delivered an event.
@@ -656,7 +668,7 @@ impl<H: Borrow<crate::Async<T>> + Clone, T> Future for Ready<H, T> {
                 i
             }
         };
-        state[*dir].wakers[i] = Some(cx.waker().clone());
+        _replaced = state[*dir].wakers[i].replace(cx.waker().clone());
 
         // Update interest in this I/O handle.
         if was_empty {
@@ -689,10 +701,12 @@ impl<H: Borrow<crate::Async<T>>, T> Drop for Ready<H, T> {
     fn drop(&mut self) {
         // Remove our waker when dropped.
         if let Some(key) = self.index {
+            // Dropping a waker might drop a task that uses this source, so this goes after `state`.
+            let _removed;
             let mut state = self.handle.borrow().source.state.lock().unwrap();
             let wakers = &mut state[self.dir].wakers;
             if wakers.contains(key) {
-                wakers.remove(key);
+                _removed = wakers.remove(key);
             }
         }
     }
-- 
2.43.0


From 1f62b70d0b79756430aca77d96662c26b9f95c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 07/10] fix: don't treat a connect() that failed with EAGAIN as
 in progress on Unix

Only EINPROGRESS means that the connection is being established. After
EAGAIN nothing is, so a TCP socket becomes writable at once without an
error and an unconnected stream was returned.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index acf8a4d..1197929 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2162,6 +2162,8 @@ fn connect(
         Ok(_) => {}
         #[cfg(unix)]
         Err(rio::Errno::INPROGRESS) => {}
+        // On Unix, the connection hasn't even been started in this case.
+        #[cfg(windows)]
         Err(rio::Errno::AGAIN) | Err(rio::Errno::WOULDBLOCK) => {}
         Err(err) => return Err(err.into()),
     }
-- 
2.43.0


From 871976e1b1deae534567ffa7c195b802a7fb15a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:27 +0000
Subject: [PATCH 08/10] fix: don't let child processes inherit connecting
 sockets on Windows

SetHandleInformation() was called with HANDLE_FLAG_INHERIT as both the mask and the new value, which makes the handle inheritable. Clear the flag instead, as the close-on-exec flag does on other platforms.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1197929..d0698a7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2144,13 +2144,13 @@ fn connect(
     ))]
     rn::sockopt::set_socket_nosigpipe(&socket, true)?;
 
-    // Set the handle information to HANDLE_FLAG_INHERIT.
+    // Clear HANDLE_FLAG_INHERIT, so that child processes don't inherit the socket.
     #[cfg(windows)]
     unsafe {
         if windows_sys::Win32::Foundation::SetHandleInformation(
             socket.as_raw_socket() as _,
             windows_sys::Win32::Foundation::HANDLE_FLAG_INHERIT,
-            windows_sys::Win32::Foundation::HANDLE_FLAG_INHERIT,
+            0,
         ) == 0
         {
             return Err(io::Error::last_os_error());
-- 
2.43.0


From 2c8e2cd5ddd321af23dedea1c566ee3097443a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:37 +0000
Subject: [PATCH 09/10] fix: don't give safe mutable access to descriptors
 registered through a kqueue Filter

Filter<T> can be made from an OwnedFd for any T that is a file descriptor, but
Filter::get_mut and AsMut were safe for every T, so safe code could replace and
thereby close a registered descriptor. They are for Queueable objects only, as
documented.
---
 src/os/kqueue.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/os/kqueue.rs b/src/os/kqueue.rs
index 8318363..500bbe9 100644
--- a/src/os/kqueue.rs
+++ b/src/os/kqueue.rs
@@ -29,7 +29,7 @@ impl<T> AsRef<T> for Filter<T> {
     }
 }
 
-impl<T> AsMut<T> for Filter<T> {
+impl<T: Queueable> AsMut<T> for Filter<T> {
     fn as_mut(&mut self) -> &mut T {
         self.get_mut()
     }
@@ -111,8 +111,8 @@ impl<T> Filter<T> {
 
     /// Gets a mutable reference to the underlying [`Queueable`] object.
     ///
-    /// Unlike in [`Async`], this method is safe to call, since dropping the [`Filter`] will
-    /// not cause any undefined behavior.
+    /// Unlike in [`Async`], this method is safe to call, since a [`Queueable`] object is not a file
+    /// descriptor that has to stay open while it is registered.
     ///
     /// # Examples
     ///
@@ -125,7 +125,10 @@ impl<T> Filter<T> {
     /// let inner = process.get_mut();
     /// # });
     /// ```
-    pub fn get_mut(&mut self) -> &mut T {
+    pub fn get_mut(&mut self) -> &mut T
+    where
+        T: Queueable,
+    {
         unsafe { self.0.get_mut() }
     }
 
-- 
2.43.0


From 253d90ce6a437ef00a1554e095da13356add3a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:17 +0000
Subject: [PATCH 10/10] fix: don't panic in block_on() called after the
 thread's cached parker is destroyed

block_on() in the destructor of a thread-local panicked, and so aborted the
process, if the cache had been destroyed before. Use a fresh parker then.
---
 src/driver.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/driver.rs b/src/driver.rs
index 834fc0d..5916438 100644
--- a/src/driver.rs
+++ b/src/driver.rs
@@ -172,26 +172,27 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
         }
     }
 
-    CACHE.with(|cache| {
+    pin!(future);
+
+    let mut run = |cache: Option<&RefCell<_>>| {
         // Try grabbing the cached parker and waker.
         let tmp_cached;
         let tmp_fresh;
-        let (p, waker, io_blocked) = match cache.try_borrow_mut() {
-            Ok(cache) => {
+        let (p, waker, io_blocked) = match cache.and_then(|cache| cache.try_borrow_mut().ok()) {
+            Some(cache) => {
                 // Use the cached parker and waker.
                 tmp_cached = cache;
                 &*tmp_cached
             }
-            Err(_) => {
-                // Looks like this is a recursive `block_on()` call.
+            None => {
+                // Looks like this is a recursive `block_on()` call, or one in the destructor of a
+                // thread-local that runs after the cache has been destroyed.
                 // Create a fresh parker and waker.
                 tmp_fresh = parker_and_waker();
                 &tmp_fresh
             }
         };
 
-        pin!(future);
-
         let cx = &mut Context::from_waker(waker);
 
         loop {
@@ -278,7 +279,12 @@ pub fn block_on<T>(future: impl Future<Output = T>) -> T {
                 p.park();
             }
         }
-    })
+    };
+
+    match CACHE.try_with(|cache| run(Some(cache))) {
+        Ok(t) => t,
+        Err(_) => run(None),
+    }
 }
 
 /// Runs a closure when dropped.
-- 
2.43.0

