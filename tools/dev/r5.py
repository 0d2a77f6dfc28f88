F='src/lib.rs';R='src/reactor.rs';D='src/driver.rs';U='src/reactor/unix.rs'
M=[
# reactor: I/O
('z-split-take',[(R,'''        let replaced = state[dir].waker.take();
        if let Some(w) = &replaced {
            if w.will_wake(cx.waker()) {
                state[dir].waker = replaced;
                return Poll::Pending;
            }
        }
        state[dir].waker = Some(cx.waker().clone());
''','''        if state[dir]
            .waker
            .as_ref()
            .map_or(false, |w| w.will_wake(cx.waker()))
        {
            return Poll::Pending;
        }
        let replaced = mem::replace(&mut state[dir].waker, Some(cx.waker().clone()));
''')]),
('z-free-fn',[(R,'''        // Check if the reactor has delivered an event.
        if let Some((a, b)) = state[dir].ticks {
            // If `state[dir].tick` has changed to a value other than the old reactor tick,
            // that means a newer reactor tick has delivered an event.
            if state[dir].tick != a && state[dir].tick != b {
                state[dir].ticks = None;
                return Poll::Ready(Ok(()));
            }
        }

        let was_empty = state[dir].is_empty();
''','''        if state[dir].take_delivered() {
            return Poll::Ready(Ok(()));
        }

        let was_empty = state[dir].is_empty();
'''),(R,'''impl Direction {
''','''impl Direction {
    /// Has an event been delivered since the waker was stored? If so, forget about the ticks.
    fn take_delivered(&mut self) -> bool {
        let tick = self.tick;
        match self.ticks {
            Some((a, b)) if a != tick && b != tick => {
                self.ticks = None;
                true
            }
            _ => false,
        }
    }

''')]),
('z-arm-helper',[(R,'''            // Create the event that we are interested in.
            let event = {
                let mut event = Event::none(self.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };

            // Register interest in it.
            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {''','''            if let Err(err) = self.rearm(&state, Reactor::get()) {'''),
(R,'''            // Create the event that we are interested in.
            let event = {
                let mut event = Event::none(handle.borrow().source.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };

            // Indicate that we are interested in this event.
            if let Err(err) = handle
                .borrow()
                .source
                .registration
                .modify(&Reactor::get().poller, event)
            {''','''            if let Err(err) = handle.borrow().source.rearm(&state, Reactor::get()) {'''),
(R,'''                            // Create the event that we are interested in.
                            let event = {
                                let mut event = Event::none(source.key);
                                event.readable = !state[READ].is_empty();
                                event.writable = !state[WRITE].is_empty();
                                event
                            };

                            // Register interest in this event.
                            if let Err(err) =
                                source.registration.modify(&self.reactor.poller, event)
                            {''','''                            if let Err(err) = source.rearm(&state, self.reactor) {'''),
(R,'''impl Source {
''','''impl Source {
    /// Asks the OS for the events that the recorded wakers wait for.
    fn rearm(&self, state: &[Direction; 2], reactor: &Reactor) -> io::Result<()> {
        let [read, write] = state;
        self.registration.modify(
            &reactor.poller,
            Event::new(self.key, !read.is_empty(), !write.is_empty()),
        )
    }

''')]),
('z-step-split',[(R,'''        // Wake up ready tasks.
        tracing::trace!("{} ready wakers", wakers.len());
        for waker in wakers {
            // Don't let a panicking waker blow everything up.
            panic::catch_unwind(|| waker.wake()).ok();
        }

        res
    }
}
''','''        wake_all(wakers);
        res
    }
}

/// Wakes up ready tasks.
fn wake_all(wakers: Vec<Waker>) {
    tracing::trace!("{} ready wakers", wakers.len());
    wakers.into_iter().for_each(|waker| {
        // Don't let a panicking waker blow everything up.
        let _ = panic::catch_unwind(panic::AssertUnwindSafe(move || waker.wake()));
    });
}
''')]),
('z-events-collect',[(R,'''                // Iterate over sources in the event list.
                let sources = self.reactor.sources.lock().unwrap();

                for ev in self.events.iter() {''','''                // Iterate over sources in the event list.
                let events: Vec<Event> = self.events.iter().collect();
                let sources = self.reactor.sources.lock().unwrap();

                for ev in events {''')]),
('z-events-while',[(R,'''                for ev in self.events.iter() {''','''                let mut events = self.events.iter();
                while let Some(ev) = events.next() {''')]),
('z-emitted-ifs',[(R,'''                        for &(dir, emitted) in &[(WRITE, ev.writable), (READ, ev.readable)] {
                            if emitted {
                                state[dir].tick = tick;
                                state[dir].drain_into(&mut wakers);
                            }
                        }
''','''                        let [read, write] = &mut *state;
                        if ev.writable {
                            write.tick = tick;
                            write.drain_into(&mut wakers);
                        }
                        if ev.readable {
                            read.drain_into(&mut wakers);
                            read.tick = tick;
                        }
''')]),
('z-emitted-zip',[(R,'''                        for &(dir, emitted) in &[(WRITE, ev.writable), (READ, ev.readable)] {
                            if emitted {
                                state[dir].tick = tick;
                                state[dir].drain_into(&mut wakers);
                            }
                        }
''','''                        for (dir, emitted) in state.iter_mut().zip([ev.readable, ev.writable]) {
                            if emitted {
                                dir.tick = tick;
                                dir.drain_into(&mut wakers);
                            }
                        }
''')]),
('z-drain-ret',[(R,'''        for (_, opt) in self.wakers.iter_mut() {
            if let Some(w) = opt.take() {
                dst.push(w);
            }
        }
    }''','''        dst.reserve(self.wakers.len());
        dst.extend(self.wakers.iter_mut().filter_map(|(_, opt)| opt.take()));
    }''')]),
('z-timeout-zip',[(R,'''        let timeout = match (next_timer, timeout) {
            (None, None) => None,
            (Some(t), None) | (None, Some(t)) => Some(t),
            (Some(a), Some(b)) => Some(a.min(b)),
        };''','''        let timeout = next_timer
            .zip(timeout)
            .map(|(a, b)| if b < a { b } else { a })
            .or(next_timer)
            .or(timeout);''')]),
('z-timeout-mapor',[(R,'''        let timeout = match (next_timer, timeout) {
            (None, None) => None,
            (Some(t), None) | (None, Some(t)) => Some(t),
            (Some(a), Some(b)) => Some(a.min(b)),
        };''','''        let timeout = match timeout {
            Some(max) => Some(next_timer.map_or(max, |t| t.min(max))),
            None => next_timer,
        };''')]),
('z-timeout-iter',[(R,'''        let timeout = match (next_timer, timeout) {
            (None, None) => None,
            (Some(t), None) | (None, Some(t)) => Some(t),
            (Some(a), Some(b)) => Some(a.min(b)),
        };''','''        let timeout = next_timer.into_iter().chain(timeout).min();''')]),
('z-wait-if',[(R,'''            // The syscall was interrupted.
            Err(err) if err.kind() == io::ErrorKind::Interrupted => Ok(()),

            // An actual error occureed.
            Err(err) => Err(err),
        };''','''            Err(err) => match err.kind() {
                // The syscall was interrupted.
                io::ErrorKind::Interrupted => Ok(()),
                // An actual error occureed.
                _ => Err(err),
            },
        };''')]),
('z-wait-let',[(R,'''        let res = match self.reactor.poller.wait(&mut self.events, timeout) {
            // No I/O events occurred.
            Ok(0) => {''','''        let waited = self.reactor.poller.wait(&mut self.events, timeout);
        let res = match waited {
            // No I/O events occurred.
            Ok(n) if n == 0 => {''')]),
('z-remove-entry',[(R,'''            if wakers.contains(key) {
                _removed = wakers.remove(key);
            }''','''            _removed = wakers.try_remove(key);''')]),
('z-newtype-key',[(R,'''    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let Self {
            ref handle,
            dir,
            ticks,
            index,
            ..
        } = &mut *self;
''','''    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = self.get_mut();
        let handle = &this.handle;
        let dir = &this.dir;
        let ticks = &mut this.ticks;
        let index = &mut this.index;
''')]),
('z-ready-source',[(R,'''        let mut state = handle.borrow().source.state.lock().unwrap();

        // Check''','''        let source: &Source = &handle.borrow().source;
        let mut state = source.state.lock().expect("poisoned");

        // Check''')]),
# timers
('z-pushop',[(R,'''        while self
            .timer_ops
            .push(TimerOp::Insert(when, id, waker.clone()))
            .is_err()
        {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }
''','''        self.push_op(TimerOp::Insert(when, id, waker.clone()));
'''),(R,'''        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }
    }
''','''        self.push_op(TimerOp::Remove(when, id));
    }

    fn push_op(&self, mut op: TimerOp) {
        loop {
            match self.timer_ops.push(op) {
                Ok(()) => return,
                Err(err) => op = err.into_inner(),
            }
            self.drain_ops();
        }
    }

    /// Makes room in the queue.
    fn drain_ops(&self) {
        let mut removed = Vec::new();
        {
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }
        drop(removed);
    }
''')]),
('z-ops-count',[(R,'''        self.timer_ops
            .try_iter()
            .take(self.timer_ops.capacity().unwrap())
            .for_each(|op| match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    removed.extend(timers.remove(&(when, id)));
                }
            });''','''        for _ in 0..TIMER_QUEUE_SIZE {
            let Ok(op) = self.timer_ops.pop() else { break };
            match op {
                TimerOp::Insert(when, id, waker) => {
                    let old = timers.insert((when, id), waker);
                    debug_assert!(old.is_none());
                }
                TimerOp::Remove(when, id) => {
                    if let Some(waker) = timers.remove(&(when, id)) {
                        removed.push(waker);
                    }
                }
            }
        }''')]),
('z-pt-intovalues',[(R,'''        for (_, waker) in ready {
            wakers.push(waker);
        }''','''        wakers.extend(ready.into_values());''')]),
('z-pt-append',[(R,'''        let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));
        let ready = mem::replace(&mut *timers, pending);
''','''        let mut ready = timers.split_off(&(now + Duration::from_nanos(1), 0));
        mem::swap(&mut *timers, &mut ready);
''')]),
('z-pt-bound',[(R,'''        let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));''','''        let pending = timers.split_off(&(now, usize::MAX));''')]),
('z-pt-first',[(R,'''            timers
                .keys()
                .next()
                .map(|(when, _)| when.saturating_duration_since(now))''','''            timers
                .first_key_value()
                .map(|(&(when, _), _)| when.saturating_duration_since(now))''')]),
('z-pt-struct',[(R,'''        // Calculate the duration until the next event.
        let dur = if ready.is_empty() {''','''        let next = timers.keys().next().map(|key| key.0);
        // Calculate the duration until the next event.
        let dur = if ready.is_empty() {'''),(R,'''            timers
                .keys()
                .next()
                .map(|(when, _)| when.saturating_duration_since(now))''','''            next.map(|when| when.saturating_duration_since(now))''')]),
# api
('z-timer-replace',[(F,'''                match &this.id_and_waker {
                    None => {
                        // Register the timer in the reactor.
                        let id = Reactor::get().insert_timer(*when, cx.waker());
                        this.id_and_waker = Some((id, cx.waker().clone()));
                    }
                    Some((id, w)) if !w.will_wake(cx.waker()) => {
                        // Deregister the timer from the reactor to remove the old waker.
                        Reactor::get().remove_timer(*when, *id);

                        // Register the timer in the reactor with the new waker.
                        let id = Reactor::get().insert_timer(*when, cx.waker());
                        this.id_and_waker = Some((id, cx.waker().clone()));
                    }
                    Some(_) => {}
                }''','''                let registered = match &this.id_and_waker {
                    None => false,
                    Some((_, w)) if w.will_wake(cx.waker()) => true,
                    Some((id, _)) => {
                        // Deregister the timer from the reactor to remove the old waker.
                        Reactor::get().remove_timer(*when, *id);
                        false
                    }
                };
                if !registered {
                    let id = Reactor::get().insert_timer(*when, cx.waker());
                    this.id_and_waker = Some((id, cx.waker().clone()));
                }''')]),
('z-timer-early',[(F,'''        let this = self.get_mut();

        if let Some(ref mut when) = this.when {''','''        let this = self.get_mut();
        let now = Instant::now();

        if let Some(ref mut when) = this.when {'''),(F,'''            if Instant::now() >= *when {
                if let''','''            if !(now < *when) {
                if let''')]),
('z-timer-clearinto',[(F,'''                if let Some((id, _)) = this.id_and_waker.take() {
                    // Deregister the timer from the reactor.
                    Reactor::get().remove_timer(*when, id);
                }
                let result_time = *when;
                if let Some(next) = (*when).checked_add(this.period) {
                    *when = next;
                    // Register the timer in the reactor.
                    let id = Reactor::get().insert_timer(next, cx.waker());
                    this.id_and_waker = Some((id, cx.waker().clone()));
                } else {
                    this.when = None;
                }
                return Poll::Ready(Some(result_time));''','''                let result_time = *when;
                let old = this.id_and_waker.take();
                if let Some((id, _)) = old {
                    Reactor::get().remove_timer(result_time, id);
                }
                this.when = result_time.checked_add(this.period);
                if let Some(next) = this.when {
                    let waker = cx.waker().clone();
                    this.id_and_waker = Some((Reactor::get().insert_timer(next, &waker), waker));
                }
                return Poll::Ready(Some(result_time));''')]),
('z-set-common',[(F,'''        self.clear();

        // Update the timeout. The timer emits a single event, even if it was periodic before.
        self.when = Some(instant);
        self.period = Duration::MAX;

        if let Some((id, waker)) = self.id_and_waker.as_mut() {
            // Re-register the timer with the new timeout.
            *id = Reactor::get().insert_timer(instant, waker);
        }''','''        // The timer emits a single event, even if it was periodic before.
        self.set_interval_at(instant, Duration::MAX);''')]),
('z-set-never',[(F,'''                // Overflow to never going off.
                self.clear();
                self.when = None;
            }
        }
    }

    pub fn set_at''','''                self.set_never();
            }
        }
    }

    fn set_never(&mut self) {
        // Overflow to never going off.
        self.clear();
        let _ = self.when.take();
    }

    pub fn set_at''')]),
('z-rw-macro',[(F,'''        let mut op = op;
        loop {
            match op(self.get_ref()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.readable()).await?;
        }''','''        let mut op = op;
        loop {
            let res = op(self.get_ref());
            if !is_would_block(&res) {
                return res;
            }
            optimistic(self.readable()).await?;
        }'''),(F,'''impl<T> AsRef<T> for Async<T> {''','''fn is_would_block<R>(res: &io::Result<R>) -> bool {
    matches!(res, Err(err) if err.kind() == io::ErrorKind::WouldBlock)
}

impl<T> AsRef<T> for Async<T> {''')]),
('z-poll-read-kind',[(F,'''            match (*self).get_ref().read(buf) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return Poll::Ready(res),
            }
            ready!(self.poll_readable(cx))?;''','''            let err = match self.get_ref().read(buf) {
                Ok(n) => return Poll::Ready(Ok(n)),
                Err(err) => err,
            };
            if err.kind() != io::ErrorKind::WouldBlock {
                return Poll::Ready(Err(err));
            }
            match self.poll_readable(cx) {
                Poll::Ready(Ok(())) => continue,
                Poll::Ready(Err(err)) => return Poll::Ready(Err(err)),
                Poll::Pending => return Poll::Pending,
            }''')]),
('z-delegate',[(F,'''impl<T: IoSafe + Write> AsyncWrite for Async<T> {
    fn poll_write(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        loop {
            match unsafe { (*self).get_mut() }.write(buf) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return Poll::Ready(res),
            }
            ready!(self.poll_writable(cx))?;
        }
    }''','''impl<T: IoSafe + Write> AsyncWrite for Async<T> {
    fn poll_write(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        // SAFETY: `T: IoSafe` does not drop the I/O handle.
        unsafe { self.retry_write(cx, |io| io.write(buf)) }
    }'''),(F,'''impl<T> AsRef<T> for Async<T> {''','''impl<T> Async<T> {
    /// Tries a write operation until it does not block any more.
    unsafe fn retry_write<R>(
        &mut self,
        cx: &mut Context<'_>,
        mut op: impl FnMut(&mut T) -> io::Result<R>,
    ) -> Poll<io::Result<R>> {
        loop {
            match op(self.get_mut()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return Poll::Ready(res),
            }
            ready!(self.poll_writable(cx))?;
        }
    }
}

impl<T> AsRef<T> for Async<T> {''')]),
('z-connect-inline',[(F,'''        // Check if there was an error while connecting.
        match stream.get_ref().take_error()? {
            None => Ok(stream),
            Some(err) => Err(err),
        }
    }

    pub async fn peek''','''        // Check if there was an error while connecting.
        if let Some(err) = stream.get_ref().take_error()? {
            return Err(err);
        }
        Ok(stream)
    }

    pub async fn peek''')]),
('z-remove-swap',[(R,'''        let mut sources = self.sources.lock().unwrap();
        sources.remove(source.key);
        source.registration.delete(&self.poller)''','''        let mut sources = self.sources.lock().unwrap();
        let result = source.registration.delete(&self.poller);
        drop(sources.remove(source.key));
        result''')]),
('z-insert-scope',[(R,'''        if let Err(err) = source.registration.add(&self.poller, source.key) {
            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);
        }

        Ok(source)''','''        match source.registration.add(&self.poller, source.key) {
            Ok(()) => Ok(source),
            Err(err) => {
                self.sources.lock().unwrap().remove(source.key);
                Err(err)
            }
        }''')]),
# driver
('z-bo-fn',[(D,'''            // Check if a notification was received.
            if p.park_timeout(Duration::from_secs(0)) {
                tracing::trace!("notified");

                // Try grabbing a lock on the reactor to process I/O events.
                if let Some(mut reactor_lock) = Reactor::get().try_lock() {
                    // First let wakers know this parker is processing I/O events.
                    IO_POLLING.with(|io| io.set(true));
                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                    });

                    // Process available I/O events.
                    reactor_lock.react(Some(Duration::from_secs(0))).ok();
                }
                continue;
            }
''','''            // Check if a notification was received.
            let notified = p.park_timeout(Duration::from_secs(0));
            let reactor_lock = Reactor::get().try_lock();
            if notified {
                if let Some(mut reactor_lock) = reactor_lock {
                    // First let wakers know this parker is processing I/O events.
                    IO_POLLING.with(|io| io.set(true));
                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                    });

                    // Process available I/O events.
                    reactor_lock.react(Some(Duration::from_secs(0))).ok();
                }
                continue;
            }
'''),(D,'''            // Try grabbing a lock on the reactor to wait on I/O.
            if let Some(mut reactor_lock) = Reactor::get().try_lock() {''','''            // Try grabbing a lock on the reactor to wait on I/O.
            if let Some(mut reactor_lock) = reactor_lock {''')]),
('z-bo-zero',[(D,'''                p.park_timeout(Duration::from_secs(0));
                tracing::trace!("completed");''','''                let _ = p.park_timeout(Duration::ZERO);
                tracing::trace!("completed");''')]),
('z-bo-loopval',[(D,'''        loop {
            // Poll the future.
            if let Poll::Ready(t) = future.as_mut().poll(cx) {
                // Ensure the cached parker is reset to the unnotified state for future block_on calls,
                // in case this future called wake and then immediately returned Poll::Ready.
                p.park_timeout(Duration::from_secs(0));
                tracing::trace!("completed");
                return t;
            }
''','''        loop {
            // Poll the future.
            let t = match future.as_mut().poll(cx) {
                Poll::Pending => None,
                Poll::Ready(t) => Some(t),
            };
            if t.is_some() {
                // Ensure the cached parker is reset to the unnotified state for future block_on calls,
                // in case this future called wake and then immediately returned Poll::Ready.
                p.park_timeout(Duration::from_secs(0));
                tracing::trace!("completed");
            }
            if let Some(t) = t {
                return t;
            }
''')]),
('z-bo-waiting-fn',[(D,'''                    // Check if this thread been handling I/O events for a long time.
                    if start.elapsed() > Duration::from_micros(500) {''','''                    // Check if this thread been handling I/O events for a long time.
                    let hogging = Instant::now().duration_since(start) > Duration::from_micros(500);
                    if hogging {''')]),
('z-ml-backoff',[(D,'''            let delay_us = [50, 75, 100, 250, 500, 750, 1000, 2500, 5000]
                .get(sleeps as usize)
                .unwrap_or(&10_000);

            tracing::trace!("sleeping for {} us", delay_us);
            if parker.park_timeout(Duration::from_micros(*delay_us)) {''','''            const DELAYS: [u64; 9] = [50, 75, 100, 250, 500, 750, 1000, 2500, 5000];
            let delay_us = if (sleeps as usize) < DELAYS.len() {
                DELAYS[sleeps as usize]
            } else {
                10_000
            };

            tracing::trace!("sleeping for {} us", delay_us);
            let delay = Duration::from_micros(delay_us);
            if parker.park_timeout(delay) {''')]),
('z-ml-fn',[(D,'''            let reactor_lock = if sleeps >= 10 {
                // If no new ticks have occurred for a while, stop sleeping and spinning in
                // this loop and just block on the reactor lock.
                Some(Reactor::get().lock())
            } else {
                Reactor::get().try_lock()
            };

            if let Some(mut reactor_lock) = reactor_lock {
                tracing::trace!("waiting on I/O");
                reactor_lock.react(None).ok();
                last_tick = Reactor::get().ticker();
                sleeps = 0;
            }''','''            if drive_once(sleeps >= 10) {
                last_tick = Reactor::get().ticker();
                sleeps = 0;
            }'''),(D,'''/// Blocks the current thread on a future, processing I/O events when idle.
''','''/// Drives the reactor if nobody else does, or always.
fn drive_once(always: bool) -> bool {
    let mut lock = match always {
        true => Reactor::get().lock(),
        false => match Reactor::get().try_lock() {
            Some(lock) => lock,
            None => return false,
        },
    };
    if let Err(err) = lock.react(None) {
        tracing::trace!("error: {}", err);
    }
    true
}

/// Blocks the current thread on a future, processing I/O events when idle.
''')]),
('z-waker-swap',[(D,'''                if !IO_POLLING.with(Cell::get) && self.io_blocked.load(Ordering::SeqCst) {
                    Reactor::get().notify();
                }''','''                let own = IO_POLLING.with(|polling| polling.get());
                let blocked = self.io_blocked.load(Ordering::SeqCst);
                match (own, blocked) {
                    (false, true) => Reactor::get().notify(),
                    _ => {}
                }''')]),
]
