R='src/reactor.rs'; D='src/driver.rs'; L='src/lib.rs'
RETRY_I="""        while self
            .timer_ops
            .push(TimerOp::Insert(when, id, waker.clone()))
            .is_err()
        {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }
"""
RETRY_R="""        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }
"""
PT="""        let now = Instant::now();

        // Split timers into ready and pending timers.
        //
        // Careful to split just *after* `now`, so that a timer set for exactly `now` is considered
        // ready.
        let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));
        let ready = mem::replace(&mut *timers, pending);

        // Calculate the duration until the next event.
        let dur = if ready.is_empty() {
            // Duration until the next timer.
            timers
                .keys()
                .next()
                .map(|(when, _)| when.saturating_duration_since(now))
        } else {
            // Timers are about to fire right now.
            Some(Duration::from_secs(0))
        };

        // Drop the lock before waking.
        drop(timers);

        // Add wakers to the list.
        tracing::trace!("{} ready wakers", ready.len());

        for (_, waker) in ready {
            wakers.push(waker);
        }

        dur
"""
OPS="""        self.timer_ops
            .try_iter()
            .take(self.timer_ops.capacity().unwrap())
            .for_each(|op| match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    removed.extend(timers.remove(&(when, id)));
                }
            });
"""
INS="""        let source = {
            let mut sources = self.sources.lock().unwrap();
            let key = sources.vacant_entry().key();
            let source = Arc::new(Source {
                registration: raw,
                key,
                state: Default::default(),
            });
            sources.insert(source.clone());
            source
        };

        // Register the file descriptor.
        if let Err(err) = source.registration.add(&self.poller, source.key) {
            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);
        }

        Ok(source)
"""
REM="""        let mut sources = self.sources.lock().unwrap();
        sources.remove(source.key);
        source.registration.delete(&self.poller)
"""
M=[
('t-retry-drop',R,RETRY_I,RETRY_I.replace("            self.process_timer_ops(&mut timers, &mut removed);\n","            self.process_timer_ops(&mut timers, &mut removed);\n            drop(timers);\n            drop(removed);\n")),
('t-retry-helper',[(R,RETRY_I,"""        self.push_op(TimerOp::Insert(when, id, waker.clone()));
"""),(R,RETRY_R,"""        self.push_op(TimerOp::Remove(when, id));
"""),(R,"""    /// Notifies the thread blocked on the reactor.
""","""    fn push_op(&self, op: TimerOp) {
        let mut op = op;
        while let Err(err) = self.timer_ops.push(op) {
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
            op = err.into_inner();
        }
    }

    /// Notifies the thread blocked on the reactor.
""")]),
('t-retry-loop',R,RETRY_R,"""        loop {
            match self.timer_ops.push(TimerOp::Remove(when, id)) {
                Ok(()) => return,
                Err(_) => {
                    let mut removed = Vec::new();
                    let mut timers = self.timers.lock().unwrap();
                    self.process_timer_ops(&mut timers, &mut removed);
                }
            }
        }
"""),
('t-retry-closure',R,RETRY_R,"""        let drain = || {
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        };
        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            drain();
        }
"""),
('t-retry-op-outside',R,RETRY_I,"""        let mut op = TimerOp::Insert(when, id, waker.clone());
        loop {
            op = match self.timer_ops.push(op) {
                Ok(()) => break,
                Err(e) => e.into_inner(),
            };
            let mut removed = Vec::new();
            self.process_timer_ops(&mut self.timers.lock().unwrap(), &mut removed);
        }
"""),
('t-ops-loop',R,OPS,"""        for _ in 0..self.timer_ops.capacity().unwrap() {
            match self.timer_ops.pop() {
                Ok(TimerOp::Insert(when, id, waker)) => {
                    timers.insert((when, id), waker);
                }
                Ok(TimerOp::Remove(when, id)) => {
                    removed.extend(timers.remove(&(when, id)));
                }
                Err(_) => break,
            }
        }
"""),
('t-ops-for',R,OPS,"""        let n = self.timer_ops.capacity().unwrap();
        for op in self.timer_ops.try_iter().take(n) {
            match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    if let Some(w) = timers.remove(&(when, id)) {
                        removed.push(w);
                    }
                }
            }
        }
"""),
('t-ops-while',R,OPS,"""        let mut left = self.timer_ops.capacity().unwrap();
        while left > 0 {
            let op = match self.timer_ops.pop() {
                Ok(op) => op,
                Err(_) => return,
            };
            left -= 1;
            match op {
                TimerOp::Insert(when, id, waker) => drop(timers.insert((when, id), waker)),
                TimerOp::Remove(when, id) => removed.extend(timers.remove(&(when, id))),
            }
        }
"""),
('t-ops-const',R,".take(self.timer_ops.capacity().unwrap())",".take(TIMER_QUEUE_SIZE)"),
('t-ops-method',[(R,OPS,"""        self.timer_ops
            .try_iter()
            .take(self.timer_ops.capacity().unwrap())
            .for_each(|op| removed.extend(op.apply(timers)));
"""),(R,"""/// A lock on the reactor.
pub(crate) struct""","""impl TimerOp {
    fn apply(self, timers: &mut BTreeMap<(Instant, usize), Waker>) -> Option<Waker> {
        match self {
            TimerOp::Insert(when, id, waker) => timers.insert((when, id), waker),
            TimerOp::Remove(when, id) => timers.remove(&(when, id)),
        }
    }
}

/// A lock on the reactor.
pub(crate) struct""")]),
('t-pt-swap',R,"""        let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));
        let ready = mem::replace(&mut *timers, pending);
""","""        let mut ready = timers.split_off(&(now + Duration::from_nanos(1), 0));
        mem::swap(&mut *timers, &mut ready);
"""),
('t-pt-popfirst',R,PT,"""        let now = Instant::now();
        let mut any = false;
        while let Some(entry) = timers.first_entry() {
            if entry.key().0 > now {
                break;
            }
            wakers.push(entry.remove());
            any = true;
        }
        let dur = if any {
            Some(Duration::from_secs(0))
        } else {
            timers
                .keys()
                .next()
                .map(|(when, _)| when.saturating_duration_since(now))
        };
        drop(timers);
        dur
"""),
('t-pt-firstkv',R,"""            timers
                .keys()
                .next()
                .map(|(when, _)| when.saturating_duration_since(now))
""","""            match timers.first_key_value() {
                Some(((when, _), _)) => Some(when.saturating_duration_since(now)),
                None => None,
            }
"""),
('t-pt-iternext',R,"""            timers
                .keys()
                .next()
                .map(|(when, _)| when.saturating_duration_since(now))
""","""            timers
                .iter()
                .next()
                .map(|(key, _)| key.0.saturating_duration_since(now))
"""),
('t-pt-extend',R,"""        for (_, waker) in ready {
            wakers.push(waker);
        }
""","""        wakers.extend(ready.into_values());
"""),
('t-pt-extend2',R,"""        for (_, waker) in ready {
            wakers.push(waker);
        }
""","""        wakers.extend(ready.into_iter().map(|(_, waker)| waker));
"""),
('t-pt-scope',R,PT,"""        let now = Instant::now();
        let (ready, next) = {
            let mut timers = timers;
            let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));
            let ready = mem::replace(&mut *timers, pending);
            let next = timers.keys().next().map(|(when, _)| *when);
            (ready, next)
        };
        let dur = if !ready.is_empty() {
            Some(Duration::ZERO)
        } else if let Some(when) = next {
            Some(when.saturating_duration_since(now))
        } else {
            None
        };
        wakers.reserve(ready.len());
        for (_, waker) in ready {
            wakers.push(waker);
        }
        dur
"""),
('t-pt-dursub',R,"when.saturating_duration_since(now))","when.checked_duration_since(now).unwrap_or_default())"),
('t-pt-len',R,"let dur = if ready.is_empty() {","let dur = if ready.len() == 0 {"),
('t-pt-nowearly',[(R,"""        let mut removed = Vec::new();
        let mut timers = self.timers.lock().unwrap();
        self.process_timer_ops(&mut timers, &mut removed);

        let now = Instant::now();
""","""        let mut removed = Vec::new();
        let mut timers = self.timers.lock().unwrap();
        let now = Instant::now();
        self.process_timer_ops(&mut timers, &mut removed);
""")]),
('t-pt-splitfn',[(R,"""        let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));
        let ready = mem::replace(&mut *timers, pending);
""","""        let ready = take_ready(&mut timers, now);
"""),(R,"""/// A lock on the reactor.
pub(crate) struct""","""fn take_ready(
    timers: &mut BTreeMap<(Instant, usize), Waker>,
    now: Instant,
) -> BTreeMap<(Instant, usize), Waker> {
    let later = timers.split_off(&(now + Duration::from_nanos(1), 0));
    mem::replace(timers, later)
}

/// A lock on the reactor.
pub(crate) struct""")]),
('t-id-helper',[(R,"""        static ID_GENERATOR: AtomicUsize = AtomicUsize::new(1);
        let id = ID_GENERATOR.fetch_add(1, Ordering::Relaxed);
""","""        let id = next_timer_id();
"""),(R,"""/// A lock on the reactor.
pub(crate) struct""","""fn next_timer_id() -> usize {
    static ID_GENERATOR: AtomicUsize = AtomicUsize::new(1);
    ID_GENERATOR.fetch_add(1, Ordering::Relaxed)
}

/// A lock on the reactor.
pub(crate) struct""")]),
('t-id-seqcst',R,"ID_GENERATOR.fetch_add(1, Ordering::Relaxed)","ID_GENERATOR.fetch_add(1, Ordering::SeqCst)"),
('t-notify-match',R,"""        self.poller.notify().expect("failed to notify reactor");
""","""        if let Err(err) = self.poller.notify() {
            panic!("failed to notify reactor: {}", err);
        }
"""),
('t-trylock-match',R,"""        self.events.try_lock().ok().map(|events| {
            let reactor = self;
            ReactorLock { reactor, events }
        })
""","""        match self.events.try_lock() {
            Ok(events) => Some(ReactorLock {
                reactor: self,
                events,
            }),
            Err(_) => None,
        }
"""),
('t-trylock-q',R,"""        self.events.try_lock().ok().map(|events| {
            let reactor = self;
            ReactorLock { reactor, events }
        })
""","""        let events = self.events.try_lock().ok()?;
        Some(ReactorLock { reactor: self, events })
"""),
('g-ins-entry',R,INS,"""        let mut sources = self.sources.lock().unwrap();
        let entry = sources.vacant_entry();
        let key = entry.key();
        let source = Arc::new(Source {
            registration: raw,
            key,
            state: Default::default(),
        });
        entry.insert(source.clone());
        drop(sources);

        match source.registration.add(&self.poller, source.key) {
            Ok(()) => Ok(source),
            Err(err) => {
                self.sources.lock().unwrap().remove(source.key);
                Err(err)
            }
        }
"""),
('g-ins-locked',R,INS,"""        let mut sources = self.sources.lock().unwrap();
        let key = sources.vacant_key();
        let source = Arc::new(Source {
            registration: raw,
            key,
            state: Default::default(),
        });
        let at = sources.insert(Arc::clone(&source));
        debug_assert_eq!(at, key);
        if let Err(err) = source.registration.add(&self.poller, source.key) {
            sources.remove(source.key);
            return Err(err);
        }
        drop(sources);
        Ok(source)
"""),
('g-ins-maperr',R,"""        if let Err(err) = source.registration.add(&self.poller, source.key) {
            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);
        }

        Ok(source)
""","""        source
            .registration
            .add(&self.poller, source.key)
            .map_err(|err| {
                let mut sources = self.sources.lock().unwrap();
                sources.remove(source.key);
                err
            })?;
        Ok(source)
"""),
('g-ins-newfn',[(R,"""            let source = Arc::new(Source {
                registration: raw,
                key,
                state: Default::default(),
            });
""","""            let source = Source::new(raw, key);
"""),(R,"""impl Source {
""","""impl Source {
    fn new(registration: Registration, key: usize) -> Arc<Source> {
        Arc::new(Source {
            registration,
            key,
            state: Mutex::new(Default::default()),
        })
    }

""")]),
('g-ins-addfirst',R,INS,"""        let mut sources = self.sources.lock().unwrap();
        let entry = sources.vacant_entry();
        let key = entry.key();
        raw.add(&self.poller, key)?;
        let source = Arc::new(Source {
            registration: raw,
            key,
            state: Default::default(),
        });
        entry.insert(source.clone());
        Ok(source)
"""),
('g-rem-order',R,REM,"""        let mut sources = self.sources.lock().unwrap();
        let res = source.registration.delete(&self.poller);
        sources.remove(source.key);
        res
"""),
('g-rem-drop',R,REM,"""        let mut sources = self.sources.lock().unwrap();
        let removed = sources.remove(source.key);
        let res = removed.registration.delete(&self.poller);
        drop(sources);
        res
"""),
('g-rem-try',R,REM,"""        let mut sources = self.sources.lock().unwrap();
        if sources.contains(source.key) {
            sources.remove(source.key);
        }
        source.registration.delete(&self.poller)
"""),
('g-get-new',[(R,"""            crate::driver::init();
            Reactor {
                poller: Poller::new().expect("cannot initialize I/O event notification"),
                ticker: AtomicUsize::new(0),
                sources: Mutex::new(Slab::new()),
                events: Mutex::new(Events::new()),
                timers: Mutex::new(BTreeMap::new()),
                timer_ops: ConcurrentQueue::bounded(TIMER_QUEUE_SIZE),
            }
""","""            crate::driver::init();
            Reactor::new()
"""),(R,"""    /// Returns the current ticker.
""","""    fn new() -> Reactor {
        Reactor {
            poller: Poller::new().expect("cannot initialize I/O event notification"),
            ticker: AtomicUsize::new(0),
            sources: Mutex::default(),
            events: Mutex::new(Events::new()),
            timers: Mutex::default(),
            timer_ops: ConcurrentQueue::bounded(TIMER_QUEUE_SIZE),
        }
    }

    /// Returns the current ticker.
""")]),
('g-mutexguard-fn',[(R,"""    fn process_timer_ops(
        &self,
        timers: &mut MutexGuard<'_, BTreeMap<(Instant, usize), Waker>>,
""","""    fn process_timer_ops(
        &self,
        timers: &mut BTreeMap<(Instant, usize), Waker>,
""")]),
]
