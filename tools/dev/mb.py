exec(open('/tmp/mut.py').read())
F='src/lib.rs'; R='src/reactor.rs'; D='src/driver.rs'; U='src/os/unix.rs'
TAKE='''            .try_iter()
            .take(self.timer_ops.capacity().unwrap())
            .for_each('''
M=[
# --- C28
('b-drain-unlimited',R,TAKE,'''            .try_iter()
            .for_each('''),
('b-drain-while',R,'''        self.timer_ops
            .try_iter()
            .take(self.timer_ops.capacity().unwrap())
            .for_each(|op| match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    removed.extend(timers.remove(&(when, id)));
                }
            });''','''        while let Ok(op) = self.timer_ops.pop() {
            match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    removed.extend(timers.remove(&(when, id)));
                }
            }
        }'''),
('b-drain-isempty',R,'''        self.process_timer_ops(&mut timers, &mut removed);

        let now''','''        while !self.timer_ops.is_empty() {
            self.process_timer_ops(&mut timers, &mut removed);
        }

        let now'''),
('b-skip-missed',F,'''                if let Some(next) = (*when).checked_add(this.period) {
''','''                let mut due = (*when).checked_add(this.period);
                while let Some(d) = due.filter(|d| *d <= Instant::now()) {
                    due = d.checked_add(this.period);
                }
                if let Some(next) = due {
'''),
('b-timers-again',R,'''        let next_timer = self.reactor.process_timers(&mut wakers);
''','''        let mut next_timer = self.reactor.process_timers(&mut wakers);
        while next_timer == Some(Duration::from_secs(0)) && wakers.len() % 2 == 1 {
            next_timer = self.reactor.process_timers(&mut wakers);
        }
'''),
('b-spin-full',R,'''            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }

        // Notify''','''            // If the queue is full, let the reactor drain it and try again.
            self.notify();
            std::thread::yield_now();
        }

        // Notify'''),
('b-spin-lock',R,'''        let mut timers = self.timers.lock().unwrap();
        self.process_timer_ops(&mut timers, &mut removed);

        let now''','''        let mut timers = loop {
            if let Ok(t) = self.timers.try_lock() {
                break t;
            }
            std::thread::yield_now();
        };
        self.process_timer_ops(&mut timers, &mut removed);

        let now'''),
('b-wait-more',R,'''        // Wake up ready tasks.
        tracing''','''        if res.is_ok() && wakers.is_empty() && timeout.is_none() {
            self.reactor.poller.wait(&mut self.events, Some(Duration::from_secs(0))).ok();
        }
        // Wake up ready tasks.
        tracing'''),
('b-sleep',F,'''                    // Deregister the timer from the reactor.
                    Reactor::get().remove_timer(*when, id);
                }
                let''','''                    // Deregister the timer from the reactor.
                    Reactor::get().remove_timer(*when, id);
                    std::thread::sleep(Duration::from_nanos(1));
                }
                let'''),
('b-due-loop',R,'''        let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));
        let ready = mem::replace(&mut *timers, pending);
''','''        let mut ready = BTreeMap::new();
        loop {
            let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));
            let mut r = mem::replace(&mut *timers, pending);
            ready.append(&mut r);
            self.process_timer_ops(&mut timers, &mut removed);
            if timers.keys().next().map_or(true, |(when, _)| *when > now) {
                break;
            }
        }
'''),
('b-now-due',R,'''        let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));
        let ready = mem::replace(&mut *timers, pending);
''','''        let mut ready = BTreeMap::new();
        while let Some(e) = timers.first_entry() {
            if e.key().0 > Instant::now() {
                break;
            }
            let (k, w) = e.remove_entry();
            ready.insert(k, w);
        }
'''),
('b-ready-wait',R,'''    pub(crate) fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_ready(READ, cx)
''','''    pub(crate) fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        while let Poll::Ready(Err(e)) = self.poll_ready(READ, cx) {
            if e.raw_os_error() == Some(22) {
                return Poll::Ready(Err(e));
            }
        }
        self.poll_ready(READ, cx)
'''),
('b-remove-first',R,'''        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }''','''        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it and try again.
            if let Ok(mut timers) = self.timers.try_lock() {
                let mut removed = Vec::new();
                self.process_timer_ops(&mut timers, &mut removed);
                drop(timers);
            }
        }'''),
# --- C27
('b-two-reactors',R,'''        static REACTOR: OnceCell<Reactor> = OnceCell::new();
''','''        static REACTORS: [OnceCell<Reactor>; 2] = [OnceCell::new(), OnceCell::new()];
        let REACTOR = &REACTORS[std::thread::panicking() as usize];
'''),
('b-tls-reactor',R,'''        static REACTOR: OnceCell<Reactor> = OnceCell::new();

        REACTOR''','''        thread_local!(static REACTOR: &'static OnceCell<Reactor> = Box::leak(Box::new(OnceCell::new())));

        REACTOR.with(|r| *r)'''),
]
M+=[('b-ready-eintr-ok',R,"""    pub(crate) fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_ready(READ, cx)
""","""    pub(crate) fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        while let Poll::Ready(Err(e)) = self.poll_ready(READ, cx) {
            if e.kind() != io::ErrorKind::Interrupted {
                return Poll::Ready(Err(e));
            }
        }
        self.poll_ready(READ, cx)
"""),
]
