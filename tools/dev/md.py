exec(open('/tmp/mut.py').read())
D='src/driver.rs'
M=[
('relaxed-store',D,'io_blocked.store(true, Ordering::SeqCst)','io_blocked.store(true, Ordering::Relaxed)'),
('relaxed-load',D,'self.io_blocked.load(Ordering::SeqCst)','self.io_blocked.load(Ordering::Relaxed)'),
('no-notify',D,'Reactor::get().notify();',''),
('inverted',D,'!IO_POLLING.with(Cell::get) &&','IO_POLLING.with(Cell::get) ||'),
('no-check',D,"""                    // Check if a notification has been received before `io_blocked` was updated
                    // because in that case the reactor won't receive a wakeup.
                    if p.park_timeout(Duration::from_secs(0)) {
                        tracing::trace!("notified");
                        break;
                    }
""",''),
('store-late',D,"""                    io_blocked.store(true, Ordering::SeqCst);
                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                        io_blocked.store(false, Ordering::SeqCst);
                    });
""","""                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                        io_blocked.store(false, Ordering::SeqCst);
                    });
""",),
('polling-not-reset',D,"""                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                    });
""",""),
('no-continue',D,"                continue;\n",""),
('no-drain',D,"""                p.park_timeout(Duration::from_secs(0));
                tracing::trace!("completed");""",'tracing::trace!("completed");'),
('no-handover',D,"""                        unparker().unpark();

                        // Wait for""","// Wait for"),
('no-drop-lock',D,"drop(reactor_lock);","let _r = reactor_lock;"),
('early-unpark',D,"""                        drop(reactor_lock);
""","""                        unparker().unpark();drop(reactor_lock);if false {
""".replace("if false {","#[cfg(any())]")),
('exit-no-unpark',D,"BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);\n        unparker().unpark();","BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);"),
('cache-shared',D,"""        let (p, waker, io_blocked) = match cache.try_borrow_mut() {""","""        let (p, waker, io_blocked) = match cache.try_borrow() {"""),
('lock',D,"if let Some(mut reactor_lock) = Reactor::get().try_lock() {\n                // Record","if let Some(mut reactor_lock) = Some(Reactor::get().lock()) {\n                // Record"),
('count-guard',D,"let _guard = CallOnDrop(|| {\n        BLOCK_ON_COUNT","let _ = CallOnDrop(|| {\n        BLOCK_ON_COUNT"),
('sleeps-never-lock',D,"let reactor_lock = if sleeps >= 10 {","let reactor_lock = if sleeps >= 10 && tick == 0 {"),
('main-park-forever',D,"if parker.park_timeout(Duration::from_micros(*delay_us)) {","if { parker.park(); true } {"),
('last-tick-bug',D,"            last_tick = tick;\n        }","            last_tick = tick; \n        }\n        if sleeps > 3 { last_tick = tick.wrapping_add(1); }"),
('react-unwrap',D,"reactor_lock.react(None).ok();\n                last_tick","reactor_lock.react(None).unwrap();\n                last_tick"),
('second-park-ignored',D,"""                    // Check if a notification has been received.
                    if p.park_timeout(Duration::from_secs(0)) {
                        tracing::trace!("notified");
                        break;
                    }
""","p.park_timeout(Duration::from_secs(0));"),
('park-react-0',D,"reactor_lock.react(Some(Duration::from_secs(0))).ok();","reactor_lock.react(None).ok();"),
('park-zero-timeout',D,"                // Wait for an actual notification.\n                tracing::trace!(\"sleep until notification\");\n                p.park();","p.park_timeout(Duration::from_millis(10));"),
('get_mut-default-index',D,".unwrap_or(&10_000)",".unwrap()"),
('no-thread','src/reactor.rs',"crate::driver::init();",""),
]
run(M,[('rules_driver','analyse_driver'),('rules_driver','analyse_thread')])
