R='src/reactor.rs'; D='src/driver.rs'; L='src/lib.rs'
DELAY="""            let delay_us = [50, 75, 100, 250, 500, 750, 1000, 2500, 5000]
                .get(sleeps as usize)
                .unwrap_or(&10_000);
"""
LOCK="""            let reactor_lock = if sleeps >= 10 {
                // If no new ticks have occurred for a while, stop sleeping and spinning in
                // this loop and just block on the reactor lock.
                Some(Reactor::get().lock())
            } else {
                Reactor::get().try_lock()
            };

            if let Some(mut reactor_lock) = reactor_lock {
                tracing::trace!("waiting on I/O");
                reactor_lock.react(None).ok();
                last_tick = Reactor::get().ticker();
                sleeps = 0;
            }
"""
PARK="""            if parker.park_timeout(Duration::from_micros(*delay_us)) {
                tracing::trace!("notified");

                // If notified before timeout, reset the last tick and the sleep counter.
                last_tick = Reactor::get().ticker();
                sleeps = 0;
            } else {
                sleeps += 1;
            }
"""
POLL1="""            // Check if a notification was received.
            if p.park_timeout(Duration::from_secs(0)) {
                tracing::trace!("notified");

                // Try grabbing a lock on the reactor to process I/O events.
                if let Some(mut reactor_lock) = Reactor::get().try_lock() {
                    // First let wakers know this parker is processing I/O events.
                    IO_POLLING.with(|io| io.set(true));
                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                    });

                    // Process available I/O events.
                    reactor_lock.react(Some(Duration::from_secs(0))).ok();
                }
                continue;
            }
"""
POLL0="""            if let Poll::Ready(t) = future.as_mut().poll(cx) {
                // Ensure the cached parker is reset to the unnotified state for future block_on calls,
                // in case this future called wake and then immediately returned Poll::Ready.
                p.park_timeout(Duration::from_secs(0));
                tracing::trace!("completed");
                return t;
            }
"""
INNER="""                loop {
                    // First let wakers know this parker is blocked on I/O.
                    IO_POLLING.with(|io| io.set(true));
                    io_blocked.store(true, Ordering::SeqCst);
                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                        io_blocked.store(false, Ordering::SeqCst);
                    });

                    // Check if a notification has been received before `io_blocked` was updated
                    // because in that case the reactor won't receive a wakeup.
                    if p.park_timeout(Duration::from_secs(0)) {
                        tracing::trace!("notified");
                        break;
                    }

                    // Wait for I/O events.
                    tracing::trace!("waiting on I/O");
                    reactor_lock.react(None).ok();

                    // Check if a notification has been received.
                    if p.park_timeout(Duration::from_secs(0)) {
                        tracing::trace!("notified");
                        break;
                    }
"""
CACHE="""        let tmp_cached;
        let tmp_fresh;
        let (p, waker, io_blocked) = match cache.try_borrow_mut() {
            Ok(cache) => {
                // Use the cached parker and waker.
                tmp_cached = cache;
                &*tmp_cached
            }
            Err(_) => {
                // Looks like this is a recursive `block_on()` call.
                // Create a fresh parker and waker.
                tmp_fresh = parker_and_waker();
                &tmp_fresh
            }
        };
"""
M=[
('d-delay-match',D,DELAY,"""            let delay_us = &match sleeps {
                0 => 50,
                1 => 75,
                2 => 100,
                3 => 250,
                4 => 500,
                5 => 750,
                6 => 1000,
                7 => 2500,
                8 => 5000,
                _ => 10_000,
            };
"""),
('d-delay-const',[(D,DELAY,"""            let delay_us = &backoff(sleeps);
"""),(D,"""/// The main loop for the""","""const BACKOFF: [u64; 9] = [50, 75, 100, 250, 500, 750, 1000, 2500, 5000];

fn backoff(sleeps: u64) -> u64 {
    BACKOFF.get(sleeps as usize).copied().unwrap_or(10_000)
}

/// The main loop for the""")]),
('d-delay-idx',[(D,DELAY,"""            let delays = [50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 10_000];
            let delay_us = &delays[std::cmp::min(sleeps as usize, delays.len() - 1)];
""")]),
('d-lock-match',D,LOCK,"""            let reactor_lock = match sleeps {
                0..=9 => Reactor::get().try_lock(),
                _ => Some(Reactor::get().lock()),
            };

            match reactor_lock {
                Some(mut lock) => {
                    let _ = lock.react(None);
                    last_tick = Reactor::get().ticker();
                    sleeps = 0;
                }
                None => {}
            }
"""),
('d-lock-or',D,LOCK,"""            let mut reactor_lock = Reactor::get().try_lock();
            if reactor_lock.is_none() && sleeps >= 10 {
                reactor_lock = Some(Reactor::get().lock());
            }

            if let Some(mut reactor_lock) = reactor_lock {
                if let Err(err) = reactor_lock.react(None) {
                    tracing::trace!("error: {}", err);
                }
                last_tick = Reactor::get().ticker();
                sleeps = 0;
            }
"""),
('d-lock-drop',D,"""                reactor_lock.react(None).ok();
                last_tick = Reactor::get().ticker();
                sleeps = 0;
""","""                reactor_lock.react(None).ok();
                drop(reactor_lock);
                sleeps = 0;
                last_tick = Reactor::get().ticker();
"""),
('d-loop-invert',D,"""        if last_tick == tick {
""","""        if last_tick != tick {
            last_tick = tick;
        } else {
"""),
('d-park-bool',D,PARK,"""            let notified = parker.park_timeout(Duration::from_micros(*delay_us));
            if !notified {
                sleeps += 1;
            } else {
                last_tick = Reactor::get().ticker();
                sleeps = 0;
            }
"""),
('d-park-sat',D,"sleeps += 1;","sleeps = sleeps.saturating_add(1);"),
('d-count-continue',[(D,"""        if BLOCK_ON_COUNT.load(Ordering::SeqCst) > 0 {
            // Exp""","""        if BLOCK_ON_COUNT.load(Ordering::SeqCst) == 0 {
            continue;
        }
        {
            // Exp""")]),
('d-reactor-var',D,"""    loop {
        let tick = Reactor::get().ticker();
""","""    let reactor = Reactor::get();
    loop {
        let tick = reactor.ticker();
"""),
('d-while-true',D,"""    loop {
        let tick = Reactor::get().ticker();
""","""    #[allow(while_true)]
    while true {
        let tick = Reactor::get().ticker();
"""),
('d-state-struct',[(D,"""    // The last observed reactor tick.
    let mut last_tick = 0;
    // Number of sleeps since this thread has called `react()`.
    let mut sleeps = 0u64;
""","""    let (mut last_tick, mut sleeps) = (0usize, 0u64);
""")]),
('d-unparker-spawn',D,"""        thread::Builder::new()
            .name("async-io".to_string())
            .spawn(move || main_loop(parker))
            .expect("cannot spawn async-io thread");
""","""        let builder = thread::Builder::new().name(String::from("async-io"));
        if let Err(err) = builder.spawn(move || main_loop(parker)) {
            panic!("cannot spawn async-io thread: {}", err);
        }
"""),
('d-init-drop',D,"    let _ = unparker();\n","    drop(unparker());\n"),
('b-guard-struct',[(D,"""    BLOCK_ON_COUNT.fetch_add(1, Ordering::SeqCst);

    // Make sure to decrement `BLOCK_ON_COUNT` at the end and wake the "async-io" thread.
    let _guard = CallOnDrop(|| {
        BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);
        unparker().unpark();
    });
""","""    let _guard = Counted::new();
"""),(D,"""/// Runs a closure when dropped.
""","""struct Counted;

impl Counted {
    fn new() -> Counted {
        BLOCK_ON_COUNT.fetch_add(1, Ordering::SeqCst);
        Counted
    }
}

impl Drop for Counted {
    fn drop(&mut self) {
        BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);
        unparker().unpark();
    }
}

/// Runs a closure when dropped.
""")]),
('b-guard-first',D,"""    // Increment `BLOCK_ON_COUNT` so that the "async-io" thread becomes less aggressive.
    BLOCK_ON_COUNT.fetch_add(1, Ordering::SeqCst);

    // Make sure to decrement `BLOCK_ON_COUNT` at the end and wake the "async-io" thread.
    let _guard = CallOnDrop(|| {
        BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);
        unparker().unpark();
    });
""","""    let _guard = CallOnDrop(|| {
        BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);
        unparker().unpark();
    });
    BLOCK_ON_COUNT.fetch_add(1, Ordering::SeqCst);
"""),
('b-cache-if',D,CACHE,"""        let tmp_cached;
        let tmp_fresh;
        let (p, waker, io_blocked) = if let Ok(cache) = cache.try_borrow_mut() {
            tmp_cached = cache;
            &*tmp_cached
        } else {
            tmp_fresh = parker_and_waker();
            &tmp_fresh
        };
"""),
('b-cache-fields',D,CACHE,"""        let cached = cache.try_borrow_mut().ok();
        let fresh = if cached.is_some() {
            None
        } else {
            Some(parker_and_waker())
        };
        let entry: &(Parker, Waker, Arc<AtomicBool>) = match (&cached, &fresh) {
            (Some(c), _) => c,
            (None, Some(f)) => f,
            (None, None) => unreachable!(),
        };
        let (p, waker, io_blocked) = (&entry.0, &entry.1, &entry.2);
"""),
('b-poll-match',D,POLL0,"""            match future.as_mut().poll(cx) {
                Poll::Pending => {}
                Poll::Ready(t) => {
                    p.park_timeout(Duration::from_secs(0));
                    return t;
                }
            }
"""),
('b-poll-break',[(D,POLL0,"""            if let Poll::Ready(t) = future.as_mut().poll(cx) {
                p.park_timeout(Duration::from_secs(0));
                break t;
            }
""")]),
('b-notified-fn',[(D,"""        pin!(future);
""","""        let notified = || p.park_timeout(Duration::from_secs(0));
        pin!(future);
"""),(D,"""            if p.park_timeout(Duration::from_secs(0)) {
                tracing::trace!("notified");

                // Try""","""            if notified() {
                // Try"""),(D,"""                    // because in that case the reactor won't receive a wakeup.
                    if p.park_timeout(Duration::from_secs(0)) {""","""                    if notified() {"""),(D,"""                    // Check if a notification has been received.
                    if p.park_timeout(Duration::from_secs(0)) {""","""                    if notified() {""")]),
('b-notified-macro',[(D,"""            // Check if a notification was received.
            if p.park_timeout(Duration::from_secs(0)) {""","""            let notified = p.park_timeout(Duration::ZERO);
            if notified {""")]),
('b-else',D,"""                    reactor_lock.react(Some(Duration::from_secs(0))).ok();
                }
                continue;
            }

            // Try grabbing a lock on the reactor to wait on I/O.
            if let Some(mut reactor_lock)""","""                    let _ = reactor_lock.react(Some(Duration::from_millis(0)));
                }
            } else if let Some(mut reactor_lock)"""),
('b-lock-match',D,"""            if let Some(mut reactor_lock) = Reactor::get().try_lock() {
                // Record the instant""","""            let lock = Reactor::get().try_lock();
            if let Some(mut reactor_lock) = lock {
                // Record the instant"""),
('b-guard-type',[(D,"""                    IO_POLLING.with(|io| io.set(true));
                    io_blocked.store(true, Ordering::SeqCst);
                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                        io_blocked.store(false, Ordering::SeqCst);
                    });
""","""                    let _guard = Blocked::enter(io_blocked);
"""),(D,"""    struct BlockOnWaker {""","""    struct Blocked<'a>(&'a AtomicBool);

    impl<'a> Blocked<'a> {
        fn enter(flag: &'a AtomicBool) -> Blocked<'a> {
            IO_POLLING.with(|io| io.set(true));
            flag.store(true, Ordering::SeqCst);
            Blocked(flag)
        }
    }

    impl Drop for Blocked<'_> {
        fn drop(&mut self) {
            IO_POLLING.with(|io| io.set(false));
            self.0.store(false, Ordering::SeqCst);
        }
    }

    struct BlockOnWaker {""")]),
('b-guard-order',D,"""                    IO_POLLING.with(|io| io.set(true));
                    io_blocked.store(true, Ordering::SeqCst);
""","""                    io_blocked.store(true, Ordering::SeqCst);
                    IO_POLLING.with(|io| io.set(true));
"""),
('b-guard-two',D,"""                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                        io_blocked.store(false, Ordering::SeqCst);
                    });
""","""                    let _guard = CallOnDrop(|| IO_POLLING.with(|io| io.set(false)));
                    let _guard2 = CallOnDrop(|| io_blocked.store(false, Ordering::SeqCst));
"""),
('b-set-fn',[(D,"""                    IO_POLLING.with(|io| io.set(true));
                    io_blocked.store(true, Ordering::SeqCst);
                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                        io_blocked.store(false, Ordering::SeqCst);
                    });
""","""                    let mark = |on: bool| {
                        IO_POLLING.with(|io| io.set(on));
                        io_blocked.store(on, Ordering::SeqCst);
                    };
                    mark(true);
                    let _guard = CallOnDrop(|| mark(false));
""")]),
('b-swap',D,"io_blocked.store(true, Ordering::SeqCst);","io_blocked.swap(true, Ordering::SeqCst);"),
('b-elapsed',D,"if start.elapsed() > Duration::from_micros(500) {","if Instant::now().duration_since(start) > Duration::from_micros(500) {"),
('b-waker-flat',D,"""            if self.unparker.unpark() {
                // Check if waking from another thread and if currently blocked on I/O.
                if !IO_POLLING.with(Cell::get) && self.io_blocked.load(Ordering::SeqCst) {
                    Reactor::get().notify();
                }
            }
""","""            if self.unparker.unpark()
                && !IO_POLLING.with(|io| io.get())
                && self.io_blocked.load(Ordering::SeqCst)
            {
                Reactor::get().notify();
            }
"""),
('b-waker-early',D,"""            if self.unparker.unpark() {
                // Check if waking from another thread and if currently blocked on I/O.
                if !IO_POLLING.with(Cell::get) && self.io_blocked.load(Ordering::SeqCst) {
                    Reactor::get().notify();
                }
            }
""","""            if !self.unparker.unpark() {
                return;
            }
            let polling_here = IO_POLLING.with(Cell::get);
            if polling_here || !self.io_blocked.load(Ordering::SeqCst) {
                return;
            }
            Reactor::get().notify();
"""),
('b-waker-always',D,"""            if self.unparker.unpark() {
                // Check if waking from another thread and if currently blocked on I/O.
                if !IO""","""            self.unparker.unpark();
            {
                if !IO"""),
('b-waker-wake',D,"            self.wake_by_ref()\n","            Self::wake_by_ref(&self);\n"),
('b-waker-from',D,"""            Waker::from(Arc::new(BlockOnWaker {
                io_blocked,
                unparker,
            }))
""","""            let inner = Arc::new(BlockOnWaker {
                io_blocked,
                unparker,
            });
            inner.into()
"""),
('b-cond-flag',[(D,"""                    // Check if a notification has been received.
                    if p.park_timeout(Duration::from_secs(0)) {
                        tracing::trace!("notified");
                        break;
                    }

                    // Check if this thread""","""                    let woken = p.park_timeout(Duration::from_secs(0));
                    if woken {
                        break;
                    }

                    // Check if this thread""")]),
('b-inner-fn',[(D,POLL1,"""            if p.park_timeout(Duration::from_secs(0)) {
                drive_once();
                continue;
            }
"""),(D,"""    struct BlockOnWaker {""","""    fn drive_once() {
        let mut reactor_lock = match Reactor::get().try_lock() {
            Some(lock) => lock,
            None => return,
        };
        IO_POLLING.with(|io| io.set(true));
        let _guard = CallOnDrop(|| {
            IO_POLLING.with(|io| io.set(false));
        });
        reactor_lock.react(Some(Duration::from_secs(0))).ok();
    }

    struct BlockOnWaker {""")]),
('b-labels',[(D,"""                        // Wait for a notification.
                        p.park();
                        break;
                    }
                }
            } else {
                // Wait for an actual notification.
                tracing::trace!("sleep until notification");
                p.park();
            }
""","""                        // Wait for a notification.
                        p.park();
                        continue 'outer;
                    }
                }
                continue 'outer;
            }
            tracing::trace!("sleep until notification");
            p.park();
"""),(D,"""        loop {
            // Poll the future.""","""        'outer: loop {
            // Poll the future.""")]),
]
