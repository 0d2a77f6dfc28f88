R='src/reactor.rs'; D='src/driver.rs'; L='src/lib.rs'
M=[
('w-oncelock-std',[(R,"static REACTOR: OnceCell<Reactor> = OnceCell::new();","static REACTOR: std::sync::OnceLock<Reactor> = std::sync::OnceLock::new();"),(R,"REACTOR.get_or_init_blocking(","REACTOR.get_or_init("),(R,"use async_lock::OnceCell;\n","")]),
('w-unparker-lock',[(D,"static UNPARKER: OnceCell<parking::Unparker> = OnceCell::new();","static UNPARKER: std::sync::OnceLock<parking::Unparker> = std::sync::OnceLock::new();"),(D,"UNPARKER.get_or_init_blocking(","UNPARKER.get_or_init("),(D,"use async_lock::OnceCell;\n","")]),
('w-lazylock',[(R,"""        static REACTOR: OnceCell<Reactor> = OnceCell::new();

        REACTOR.get_or_init_blocking(|| {""","""        static REACTOR: std::sync::LazyLock<Reactor> = std::sync::LazyLock::new(|| {"""),
 (R,"""                timer_ops: ConcurrentQueue::bounded(TIMER_QUEUE_SIZE),
            }
        })
""","""                timer_ops: ConcurrentQueue::bounded(TIMER_QUEUE_SIZE),
            }
        });
        &REACTOR
"""),(R,"use async_lock::OnceCell;\n","")]),
('w-rearm-guard',[(R,"if !state[READ].is_empty() || !state[WRITE].is_empty() {\n                            // Create","if !(ev.readable && ev.writable) && (!state[READ].is_empty() || !state[WRITE].is_empty()) {\n                            // Create")]),
('w-period-option',[(L,"    period: Duration,\n}","    period: Option<Duration>,\n}"),
 (L,"            period: Duration::MAX,\n        }\n    }","            period: None,\n        }\n    }"),
 (L,"        Timer::interval_at(instant, Duration::MAX)","        Timer {\n            id_and_waker: None,\n            when: Some(instant),\n            period: None,\n        }"),
 (L,"            when: Some(start),\n            period,\n","            when: Some(start),\n            period: Some(period),\n"),
 (L,"        self.period = Duration::MAX;","        self.period = None;"),
 (L,"        self.period = period;","        self.period = Some(period);"),
 (L,"if let Some(next) = (*when).checked_add(this.period) {","if let Some(next) = this.period.and_then(|period| when.checked_add(period)) {")]),
('w-u64-id',[(R,"use std::sync::atomic::{AtomicUsize, Ordering};","use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};"),
 (R,"timers: Mutex<BTreeMap<(Instant, usize), Waker>>","timers: Mutex<BTreeMap<(Instant, u64), Waker>>"),
 (R,"insert_timer(&self, when: Instant, waker: &Waker) -> usize","insert_timer(&self, when: Instant, waker: &Waker) -> u64"),
 (R,"static ID_GENERATOR: AtomicUsize = AtomicUsize::new(1)","static ID_GENERATOR: AtomicU64 = AtomicU64::new(1)"),
 (R,"remove_timer(&self, when: Instant, id: usize)","remove_timer(&self, when: Instant, id: u64)"),
 (R,"MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>","MutexGuard<'_, BTreeMap<(Instant, u64), Waker>>"),
 (R,"Insert(Instant, usize, Waker)","Insert(Instant, u64, Waker)"),(R,"Remove(Instant, usize)","Remove(Instant, u64)"),
 (L,"id_and_waker: Option<(usize, Waker)>","id_and_waker: Option<(u64, Waker)>")]),
('w-timer-key',[(R,"timers: Mutex<BTreeMap<(Instant, usize), Waker>>","timers: Mutex<BTreeMap<TimerKey, Waker>>"),
 (R,"MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>","MutexGuard<'_, BTreeMap<TimerKey, Waker>>"),
 (R,"timers.split_off(&(now + Duration::from_nanos(1), 0))","timers.split_off(&TimerKey { when: now + Duration::from_nanos(1), id: 0 })"),
 (R,".map(|(when, _)| when.saturating_duration_since(now))",".map(|key| key.when.saturating_duration_since(now))"),
 (R,"timers.insert((when, id), waker);","timers.insert(TimerKey { when, id }, waker);"),
 (R,"timers.remove(&(when, id))","timers.remove(&TimerKey { when, id })"),
 (R,"/// A single timer operation.","#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]\nstruct TimerKey {\n    when: Instant,\n    id: usize,\n}\n\n/// A single timer operation.")]),
('w-poll-next-fns',[(L,"""            if Instant::now() >= *when {
                if let Some((id, _)) = this.id_and_waker.take() {""","""            if is_due(*when) {
                if let Some((id, _)) = this.id_and_waker.take() {""")
 ,(L,"impl Stream for Timer {","fn is_due(when: Instant) -> bool {\n    when <= Instant::now()\n}\n\nimpl Stream for Timer {")] if False else [(L,"impl Stream for Timer {","fn is_due(when: Instant) -> bool {\n    when <= Instant::now()\n}\n\nimpl Stream for Timer {"),(L,"if Instant::now() >= *when {","if is_due(*when) {")]),
('w-state-scope',[(R,"                        let mut state = source.state.lock().unwrap();\n\n                        // Collect","                        let state = &mut *source.state.lock().unwrap();\n\n                        // Collect")]),
('w-destructure',[(R,"state[dir].tick = tick;\n                                state[dir].drain_into(&mut wakers);","let direction = &mut state[dir];\n                                direction.drain_into(&mut wakers);\n                                direction.tick = tick;")]),
('w-emptiness-bools',[(R,"                        if !state[READ].is_empty() || !state[WRITE].is_empty() {\n                            // Create the event that we are interested in.\n                            let event = {\n                                let mut event = Event::none(source.key);\n                                event.readable = !state[READ].is_empty();\n                                event.writable = !state[WRITE].is_empty();\n                                event\n                            };\n","                        let [wants_read, wants_write] =\n                            [READ, WRITE].map(|dir| !state[dir].is_empty());\n                        if wants_read | wants_write {\n                            let event = Event::new(source.key, wants_read, wants_write);\n")]),
('w-timeout-or',[(R,"""        let timeout = match (next_timer, timeout) {
            (None, None) => None,
            (Some(t), None) | (None, Some(t)) => Some(t),
            (Some(a), Some(b)) => Some(a.min(b)),
        };""","""        let timeout = match timeout {
            Some(limit) => Some(next_timer.map_or(limit, |next| cmp_min(next, limit))),
            None => next_timer,
        };"""),(R,"/// A lock on the reactor.","fn cmp_min(a: Duration, b: Duration) -> Duration {\n    std::cmp::min(a, b)\n}\n\n/// A lock on the reactor.")]),
('w-timeout-reduce',[(R,"""        let timeout = match (next_timer, timeout) {
            (None, None) => None,
            (Some(t), None) | (None, Some(t)) => Some(t),
            (Some(a), Some(b)) => Some(a.min(b)),
        };""","""        let timeout = [next_timer, timeout].into_iter().flatten().min();""")]),
('w-timeout-reduce2',[(R,"""        let timeout = match (next_timer, timeout) {
            (None, None) => None,
            (Some(t), None) | (None, Some(t)) => Some(t),
            (Some(a), Some(b)) => Some(a.min(b)),
        };""","""        let timeout = next_timer.into_iter().chain(timeout).reduce(Duration::min);""")]),
('w-res-then',[(R,"        let res = match self.reactor.poller.wait(&mut self.events, timeout) {\n            // No","        let waited = self.reactor.poller.wait(&mut self.events, timeout);\n        let res = match waited {\n            // No")]),
('w-map-interrupted',[(R,"            Err(err) if err.kind() == io::ErrorKind::Interrupted => Ok(()),\n\n            // An actual error occureed.\n            Err(err) => Err(err),","            Err(err) => match err.kind() {\n                io::ErrorKind::Interrupted => Ok(()),\n                _ => Err(err),\n            },")]),
('w-wake-all-fn',[(R,"        for waker in wakers {\n            // Don't let a panicking waker blow everything up.\n            panic::catch_unwind(|| waker.wake()).ok();\n        }\n\n        res","        wake_all(wakers);\n\n        res"),(R,"/// A single timer operation.","fn wake_all(wakers: impl IntoIterator<Item = Waker>) {\n    wakers.into_iter().for_each(|waker| {\n        let _ = panic::catch_unwind(move || waker.wake());\n    });\n}\n\n/// A single timer operation.")]),
('w-poll-ready-split',[(R,"""        // Check if the reactor has delivered an event.
        if let Some((a, b)) = state[dir].ticks {
            // If `state[dir].tick` has changed to a value other than the old reactor tick,
            // that means a newer reactor tick has delivered an event.
            if state[dir].tick != a && state[dir].tick != b {
                state[dir].ticks = None;
                return Poll::Ready(Ok(()));
            }
        }
""","""        if state[dir].take_progress() {
            return Poll::Ready(Ok(()));
        }
"""),(R,"    /// Moves all wakers into a `Vec`.","""    fn take_progress(&mut self) -> bool {
        let fresh = matches!(self.ticks, Some((a, b)) if ![a, b].contains(&self.tick));
        if fresh {
            self.ticks.take();
        }
        fresh
    }

    /// Moves all wakers into a `Vec`.""")]),
('w-ready-chain',[(R,"""        if let Some(w) = self.waker.take() {
            dst.push(w);
        }
        for (_, opt) in self.wakers.iter_mut() {
            if let Some(w) = opt.take() {
                dst.push(w);
            }
        }""","""        let slots = self.wakers.iter_mut().map(|(_, slot)| slot);
        for slot in std::iter::once(&mut self.waker).chain(slots) {
            dst.extend(slot.take());
        }""")]),
('w-drain-self',[(R,"""        if let Some(w) = self.waker.take() {
            dst.push(w);
        }
        for (_, opt) in self.wakers.iter_mut() {
            if let Some(w) = opt.take() {
                dst.push(w);
            }
        }""","""        let Direction { waker, wakers, .. } = self;
        dst.extend(
            wakers
                .iter_mut()
                .filter_map(|(_, slot)| slot.take())
                .chain(waker.take()),
        );""")]),
('w-insert-closure',[(R,"""        if let Err(err) = source.registration.add(&self.poller, source.key) {
            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);
        }

        Ok(source)""","""        match source.registration.add(&self.poller, source.key) {
            Ok(()) => Ok(source),
            Err(err) => {
                self.sources.lock().unwrap().remove(source.key);
                Err(err)
            }
        }""")]),
('w-insert-inspect',[(R,"""        if let Err(err) = source.registration.add(&self.poller, source.key) {
            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);
        }

        Ok(source)""","""        let key = source.key;
        source
            .registration
            .add(&self.poller, key)
            .inspect_err(|_| drop(self.sources.lock().unwrap().remove(key)))?;
        Ok(source)""")]),
('w-ops-pop',[(R,"""        self.timer_ops
            .try_iter()
            .take(self.timer_ops.capacity().unwrap())
            .for_each(|op| match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    removed.extend(timers.remove(&(when, id)));
                }
            });""","""        let mut budget = self.timer_ops.capacity().unwrap();
        while budget != 0 {
            match self.timer_ops.pop() {
                Ok(TimerOp::Insert(when, id, waker)) => drop(timers.insert((when, id), waker)),
                Ok(TimerOp::Remove(when, id)) => {
                    if let Some(waker) = timers.remove(&(when, id)) {
                        removed.push(waker);
                    }
                }
                Err(_) => return,
            }
            budget -= 1;
        }""")]),
('w-mainloop-blocking',[(D,"""            let reactor_lock = if sleeps >= 10 {
                // If no new ticks have occurred for a while, stop sleeping and spinning in
                // this loop and just block on the reactor lock.
                Some(Reactor::get().lock())
            } else {
                Reactor::get().try_lock()
            };
""","""            let reactor = Reactor::get();
            let reactor_lock = match sleeps {
                0..=9 => reactor.try_lock(),
                _ => Some(reactor.lock()),
            };
""")]),
('w-mainloop-flat',[(D,"        if BLOCK_ON_COUNT.load(Ordering::SeqCst) > 0 {\n            // Exponential","        if BLOCK_ON_COUNT.load(Ordering::SeqCst) == 0 {\n            continue;\n        }\n        {\n            // Exponential")]),
('w-backoff-fn',[(D,"""            let delay_us = [50, 75, 100, 250, 500, 750, 1000, 2500, 5000]
                .get(sleeps as usize)
                .unwrap_or(&10_000);
""","""            let delay_us = &backoff(sleeps);
"""),(D,"/// Blocks the current thread on","fn backoff(sleeps: u64) -> u64 {\n    match sleeps {\n        0 => 50,\n        1 => 75,\n        2 => 100,\n        3 => 250,\n        4 => 500,\n        5 => 750,\n        6 => 1000,\n        7 => 2500,\n        8 => 5000,\n        _ => 10_000,\n    }\n}\n\n/// Blocks the current thread on")]),
('w-take-notif',[(D,"    pin!(future);\n","    fn take_notification(p: &Parker) -> bool {\n        let notified = p.park_timeout(Duration::ZERO);\n        if notified {\n            tracing::trace!(\"notified\");\n        }\n        notified\n    }\n\n    pin!(future);\n"),
 (D,"                    if p.park_timeout(Duration::from_secs(0)) {\n                        tracing::trace!(\"notified\");\n                        break;\n                    }\n\n                    // Wait","                    if take_notification(p) {\n                        break;\n                    }\n\n                    // Wait"),
 (D,"                    if p.park_timeout(Duration::from_secs(0)) {\n                        tracing::trace!(\"notified\");\n                        break;\n                    }\n\n                    // Check if this","                    if take_notification(p) {\n                        break;\n                    }\n\n                    // Check if this")]),
('w-into-inner',[(L,"        let io = self.io.take().unwrap();\n        Reactor::get().remove_io(&self.source)?;\n        Ok(io)","        let io = self.io.take().unwrap();\n        Reactor::get().remove_io(&self.source).map(|()| io)")]),
('w-async-drop',[(L,"        if self.io.is_some() {\n            // Deregister and ignore errors because destructors should not panic.\n            Reactor::get().remove_io(&self.source).ok();\n\n            // Drop the I/O handle to close it.\n            self.io.take();\n        }","        if let Some(io) = self.io.take() {\n            let _ = Reactor::get().remove_io(&self.source);\n            drop(io);\n        }")]),
('w-would-block',[(L,"""            match op(self.get_ref()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.readable()).await?;""","""            let res = op(self.get_ref());
            if !would_block(&res) {
                return res;
            }
            optimistic(self.readable()).await?;"""),(L,"/// Runs a future","fn would_block<R>(res: &io::Result<R>) -> bool {\n    matches!(res, Err(err) if err.kind() == io::ErrorKind::WouldBlock)\n}\n\n/// Runs a future") if False else (L,"impl<T> AsRef<T> for Async<T> {","fn would_block<R>(res: &io::Result<R>) -> bool {\n    matches!(res, Err(err) if err.kind() == io::ErrorKind::WouldBlock)\n}\n\nimpl<T> AsRef<T> for Async<T> {")]),
('w-accept-map',[(L,"        let (stream, addr) = self.read_with(|io| io.accept()).await?;\n        Ok((Async::new(stream)?, addr))\n    }\n\n    /// Returns a stream of incoming TCP","        let (stream, addr) = self.read_with(TcpListener::accept).await?;\n        Async::new(stream).map(|stream| (stream, addr))\n    }\n\n    /// Returns a stream of incoming TCP")]),
('w-unit-if-let-timer-poll',[(L,"        match self.poll_next(cx) {\n            Poll::Ready(Some(when)) => Poll::Ready(when),\n            Poll::Pending => Poll::Pending,\n            Poll::Ready(None) => unreachable!(),\n        }","        self.poll_next(cx)\n            .map(|when| when.expect(\"timers never end\"))")]),
]
M+=[
('w-from-fn',[(R,"                        if !state[READ].is_empty() || !state[WRITE].is_empty() {\n                            // Create the event that we are interested in.\n                            let event = {\n                                let mut event = Event::none(source.key);\n                                event.readable = !state[READ].is_empty();\n                                event.writable = !state[WRITE].is_empty();\n                                event\n                            };\n","                        let wants: [bool; 2] = std::array::from_fn(|dir| !state[dir].is_empty());\n                        if wants != [false, false] {\n                            let event = Event::new(source.key, wants[READ], wants[WRITE]);\n")]),
('b-timer-key',[(R,"timers: Mutex<BTreeMap<(Instant, usize), Waker>>","timers: Mutex<BTreeMap<TimerKey, Waker>>"),
 (R,"MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>","MutexGuard<'_, BTreeMap<TimerKey, Waker>>"),
 (R,"timers.split_off(&(now + Duration::from_nanos(1), 0))","timers.split_off(&TimerKey { when: now + Duration::from_nanos(1), id: 0 })"),
 (R,".map(|(when, _)| when.saturating_duration_since(now))",".map(|key| key.when.saturating_duration_since(now))"),
 (R,"timers.insert((when, id), waker);","timers.insert(TimerKey { when, id }, waker);"),
 (R,"timers.remove(&(when, id))","timers.remove(&TimerKey { when, id })"),
 (R,"/// A single timer operation.","#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]\nstruct TimerKey {\n    id: usize,\n    when: Instant,\n}\n\n/// A single timer operation.")]),
('w-op-key',[(R,"timers: Mutex<BTreeMap<(Instant, usize), Waker>>","timers: Mutex<BTreeMap<TimerKey, Waker>>"),
 (R,"MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>","MutexGuard<'_, BTreeMap<TimerKey, Waker>>"),
 (R,"timers.split_off(&(now + Duration::from_nanos(1), 0))","timers.split_off(&TimerKey(now + Duration::from_nanos(1), 0))"),
 (R,".map(|(when, _)| when.saturating_duration_since(now))",".map(|key| key.0.saturating_duration_since(now))"),
 (R,"TimerOp::Insert(when, id, waker) => {\n                    timers.insert((when, id), waker);","TimerOp::Insert(key, waker) => {\n                    timers.insert(key, waker);"),
 (R,"TimerOp::Remove(when, id) => {\n                    removed.extend(timers.remove(&(when, id)));","TimerOp::Remove(key) => {\n                    removed.extend(timers.remove(&key));"),
 (R,"TimerOp::Insert(when, id, waker.clone())","TimerOp::Insert(TimerKey(when, id), waker.clone())"),
 (R,"TimerOp::Remove(when, id)).is_err()","TimerOp::Remove(TimerKey(when, id))).is_err()"),
 (R,"Insert(Instant, usize, Waker)","Insert(TimerKey, Waker)"),(R,"Remove(Instant, usize)","Remove(TimerKey)"),
 (R,"/// A single timer operation.","#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]\nstruct TimerKey(Instant, usize);\n\n/// A single timer operation.")]),
('w-timer-id',[(R,"timers: Mutex<BTreeMap<(Instant, usize), Waker>>","timers: Mutex<BTreeMap<(Instant, TimerId), Waker>>"),
 (R,"MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>","MutexGuard<'_, BTreeMap<(Instant, TimerId), Waker>>"),
 (R,"now + Duration::from_nanos(1), 0)","now + Duration::from_nanos(1), TimerId(0))"),
 (R,"insert_timer(&self, when: Instant, waker: &Waker) -> usize","insert_timer(&self, when: Instant, waker: &Waker) -> TimerId"),
 (R,"let id = ID_GENERATOR.fetch_add(1, Ordering::Relaxed);","let id = TimerId(ID_GENERATOR.fetch_add(1, Ordering::Relaxed));"),
 (R,"remove_timer(&self, when: Instant, id: usize)","remove_timer(&self, when: Instant, id: TimerId)"),
 (R,"Insert(Instant, usize, Waker)","Insert(Instant, TimerId, Waker)"),(R,"Remove(Instant, usize)","Remove(Instant, TimerId)"),
 (R,"/// A single timer operation.","#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]\npub(crate) struct TimerId(usize);\n\n/// A single timer operation."),
 (L,"id_and_waker: Option<(usize, Waker)>","id_and_waker: Option<(reactor::TimerId, Waker)>"),
 (L,"this.id_and_waker = Some((0, cx.waker().clone()))","this.id_and_waker = Some((reactor::TimerId::default(), cx.waker().clone()))")]),
('b-ops-pop',[(R,"""        self.timer_ops
            .try_iter()
            .take(self.timer_ops.capacity().unwrap())
            .for_each(|op| match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    removed.extend(timers.remove(&(when, id)));
                }
            });""","""        let budget = self.timer_ops.capacity().unwrap();
        while budget != 0 {
            match self.timer_ops.pop() {
                Ok(TimerOp::Insert(when, id, waker)) => drop(timers.insert((when, id), waker)),
                Ok(TimerOp::Remove(when, id)) => {
                    if let Some(waker) = timers.remove(&(when, id)) {
                        removed.push(waker);
                    }
                }
                Err(_) => return,
            }
        }""")]),
]
M+=[('w-unparker-lazy',[(D,"    static UNPARKER: OnceCell<parking::Unparker> = OnceCell::new();\n\n    UNPARKER.get_or_init_blocking(|| {","    static UNPARKER: std::sync::LazyLock<parking::Unparker> = std::sync::LazyLock::new(|| {"),(D,"            .expect(\"cannot spawn async-io thread\");\n\n        unparker\n    })\n","            .expect(\"cannot spawn async-io thread\");\n\n        unparker\n    });\n    &UNPARKER\n"),(D,"use async_lock::OnceCell;\n","")])]
