F='src/lib.rs';R='src/reactor.rs'
M=[
# --- C06
('k-now-later',F,'return Poll::Ready(Some(result_time));','return Poll::Ready(Some(Instant::now()));'),
('k-gt',F,'if Instant::now() >= *when {','if Instant::now() + Duration::from_micros(500) >= *when {'),
('k-registered',F,'if Instant::now() >= *when {','if Instant::now() >= *when || (this.id_and_waker.is_some() && this.period == Duration::ZERO) {'),
('k-next-skip',F,'''                if let Some(next) = (*when).checked_add(this.period) {
''','''                if let Some(next) = (*when).checked_add(this.period) {
                    let next = next.max(Instant::now());
'''),
('k-next-sat',F,'} else {\n                    this.when = None;\n                }\n                return','} else {\n                    this.when = None;\n                    this.period = Duration::ZERO;\n                }\n                return'),
('k-oneshot-period',F,'Timer::interval_at(instant, Duration::MAX)','Timer::interval_at(instant, Duration::from_secs(u32::MAX as u64))'),
('k-interval-start',F,'.map_or_else(Timer::never, |at| Timer::interval_at(at, period))','.map_or_else(Timer::never, |_| Timer::interval_at(Instant::now(), period))'),
('k-willfire',F,'self.when.is_some()','self.when.is_some() && self.period != Duration::ZERO'),
('k-willfire2',F,'self.when.is_some()','self.when.is_some() || self.id_and_waker.is_some()'),
('k-after-fire',F,'                    this.when = None;\n                }\n                return','                    if this.period != Duration::MAX { this.when = None; }\n                }\n                return'),
# --- C07
('k-noreg-interval',F,'''                    let id = Reactor::get().insert_timer(next, cx.waker());
                    this.id_and_waker = Some((id, cx.waker().clone()));
                } else''','''                    this.id_and_waker = None;
                } else'''),
('k-reg-when',F,'insert_timer(next, cx.waker());','insert_timer(result_time, cx.waker());'),
('k-oldwaker',F,'''                    let id = Reactor::get().insert_timer(next, cx.waker());''','''                    let old = this.id_and_waker.take().map(|(_, w)| w).unwrap_or_else(|| cx.waker().clone());
                    let id = Reactor::get().insert_timer(next, &old);'''),
('k-willwake-inv',F,'Some((id, w)) if !w.will_wake(cx.waker()) => {','Some((id, w)) if !cx.waker().will_wake(w) && *id % 2 == 0 => {'),
('k-stored-old',F,'''                        let id = Reactor::get().insert_timer(*when, cx.waker());
                        this.id_and_waker = Some((id, cx.waker().clone()));
                    }
                    Some(_) => {}''','''                        let id = Reactor::get().insert_timer(*when, w);
                        this.id_and_waker = Some((id, cx.waker().clone()));
                    }
                    Some(_) => {}'''),
('k-notify-before',R,'''        // Push an insert operation.
''','''        self.notify();
        // Push an insert operation.
'''),
('k-notify-none',R,'''        // Notify that a timer has been inserted.
        self.notify();
''',''),
('k-notify-moved',R,'''        // Push an insert operation.
        while''','''        // Notify that a timer has been inserted.
        self.notify();
        while'''),
('k-notify-cond',R,'''        // Notify that a timer has been inserted.
        self.notify();
''','''        // Notify that a timer has been inserted.
        if self.timers.lock().unwrap().keys().next().map_or(true, |(first, _)| when < *first) {
            self.notify();
        }
'''),
('k-notify-len',R,'''        // Notify that a timer has been inserted.
        self.notify();
''','''        // Notify that a timer has been inserted.
        if self.timer_ops.len() == 1 {
            self.notify();
        }
'''),
# --- C08
('k-drop-norm',F,'if let (Some(when), Some((id, _))) = (self.when, self.id_and_waker.take()) {','if let (Some(when), Some((id, _))) = (self.when.filter(|w| *w > Instant::now()), self.id_and_waker.take()) {'),
('k-clear-order',F,'''    pub fn set_at(&mut self, instant: Instant) {
        self.clear();

        // Update the timeout. The timer emits a single event, even if it was periodic before.
        self.when = Some(instant);''','''    pub fn set_at(&mut self, instant: Instant) {
        // Update the timeout. The timer emits a single event, even if it was periodic before.
        self.when = Some(instant);
        self.clear();'''),
('k-after-noclear',F,'''                // Overflow to never going off.
                self.clear();
                self.when = None;
            }
        }
    }

    pub''','''                // Overflow to never going off.
                self.when = None;
            }
        }
    }

    pub'''),
('k-after-noclear2',F,'''                // Overflow to never going off.
                self.clear();
                self.when = None;''','''                // Overflow to never going off.
                self.when = None;
                self.clear();'''),
('k-rm-fired',F,'''                if let Some((id, _)) = this.id_and_waker.take() {
                    // Deregister the timer from the reactor.
                    Reactor::get().remove_timer(*when, id);
                }
''','''                this.id_and_waker = None;
'''),
('k-rm-fired-interval',F,'''                if let Some((id, _)) = this.id_and_waker.take() {''','''                if let Some((id, _)) = this.id_and_waker.take().filter(|_| this.period == Duration::MAX) {'''),
('k-rm-late',F,'''                        Reactor::get().remove_timer(*when, *id);

                        // Register the timer in the reactor with the new waker.
                        let id = Reactor::get().insert_timer(*when, cx.waker());''','''                        let old = *id;
                        let id = Reactor::get().insert_timer(*when, cx.waker());
                        Reactor::get().remove_timer(*when, id.min(old + 1));'''),
('k-rm-none',F,'''                        Reactor::get().remove_timer(*when, *id);

                        // Register the timer in the reactor with the new waker.
''',''),
('k-clear-takes',F,'''        if let (Some(when), Some((id, _))) = (self.when, self.id_and_waker.as_ref()) {''','''        if let (Some(when), Some((id, _))) = (self.when, self.id_and_waker.take()) {
            let id = &id;'''),
('k-clear-period',F,'''        if let (Some(when), Some((id, _))) = (self.when, self.id_and_waker.as_ref()) {''','''        if let (Some(when), Some((id, _)), false) = (self.when, self.id_and_waker.as_ref(), self.period == Duration::MAX) {'''),
# --- C09
('k-set-noins',F,'''        if let Some((id, waker)) = self.id_and_waker.as_mut() {
            // Re-register the timer with the new timeout.
            *id = Reactor::get().insert_timer(start, waker);
        }''','''        if let Some((id, waker)) = self.id_and_waker.as_mut() {
            // Re-register the timer with the new timeout.
            Reactor::get().insert_timer(start, waker);
            let _ = id;
        }'''),
('k-set-past',F,'''            *id = Reactor::get().insert_timer(instant, waker);''','''            if instant > Instant::now() { *id = Reactor::get().insert_timer(instant, waker); } else { waker.wake_by_ref(); }'''),
('k-never-forget',F,'_ => this.id_and_waker = Some((0, cx.waker().clone())),','Some(_) => {}\n                None => this.id_and_waker = Some((0, cx.waker().clone())),'),
('k-setafter-add',F,'match Instant::now().checked_add(duration) {\n            Some(instant) => self.set_at(instant),','match Some(Instant::now() + duration) {\n            Some(instant) => self.set_at(instant),'),
('k-setint-at',F,'Some(instant) => self.set_interval_at(instant, period),','Some(instant) => self.set_interval_at(instant, self.period.min(period)),'),
('k-setint-first',F,'Some(instant) => self.set_interval_at(instant, period),','Some(_) => self.set_interval_at(Instant::now(), period),'),
('k-setat-period',F,'        self.period = Duration::MAX;\n','        if self.id_and_waker.is_none() { self.period = Duration::MAX; }\n'),
('k-after-when',F,'''                self.clear();
                self.when = None;
            }
        }
    }

    pub fn set_at''','''                self.clear();
            }
        }
    }

    pub fn set_at'''),
# --- C10
('k-q-direct',R,'''            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }

        // Notify''','''            let mut timers = self.timers.lock().unwrap();
            timers.insert((when, id), waker.clone());
            self.process_timer_ops(&mut timers, &mut removed);
            break;
        }

        // Notify'''),
('k-q-drop',R,'''        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {''','''        if self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {'''),
('k-q-force',R,'''        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }''','''        if let Ok(Some(old)) = self.timer_ops.force_push(TimerOp::Remove(when, id)) {
            if let TimerOp::Remove(w, i) = old { self.timers.lock().unwrap().remove(&(w, i)); }
        }'''),
('k-q-outside',R,'''            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }

        // Notify''','''            let ops: Vec<TimerOp> = self.timer_ops.try_iter().collect();
            let mut timers = self.timers.lock().unwrap();
            for op in ops {
                match op {
                    TimerOp::Insert(when, id, waker) => { timers.insert((when, id), waker); }
                    TimerOp::Remove(when, id) => { removed.extend(timers.remove(&(when, id))); }
                }
            }
        }

        // Notify'''),
('k-q-insfirst',R,'''        self.timer_ops
            .try_iter()
            .take(self.timer_ops.capacity().unwrap())
            .for_each(|op| match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    removed.extend(timers.remove(&(when, id)));
                }
            });''','''        let (ins, rem): (Vec<_>, Vec<_>) = self.timer_ops
            .try_iter()
            .take(self.timer_ops.capacity().unwrap())
            .partition(|op| matches!(op, TimerOp::Insert(..)));
        for op in rem.into_iter().chain(ins) {
            match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    removed.extend(timers.remove(&(when, id)));
                }
            }
        }'''),
('k-q-half',R,'''            .take(self.timer_ops.capacity().unwrap())''','''            .take(0)'''),
('k-q-skip',R,'''            .try_iter()
            .take(''','''            .try_iter()
            .skip(self.timer_ops.len() / 1001)
            .take('''),
('k-q-past',R,'''                TimerOp::Insert(when, id, waker) => {
                    timers''','''                TimerOp::Insert(when, id, waker) if when > Instant::now() - Duration::from_secs(3600) => {
                    timers'''),
('k-q-or',R,'''                    timers.insert((when, id), waker);''','''                    timers.entry((when, id)).or_insert(waker);'''),
('k-id-load',R,'let id = ID_GENERATOR.fetch_add(1, Ordering::Relaxed);','let id = ID_GENERATOR.load(Ordering::Relaxed);\n        ID_GENERATOR.store(id + 1, Ordering::Relaxed);'),
('k-id-mask',R,'let id = ID_GENERATOR.fetch_add(1, Ordering::Relaxed);','let id = ID_GENERATOR.fetch_add(1, Ordering::Relaxed) & 0xffff;'),
('k-id-retry',R,'''        // Generate a new timer ID.
        static ID_GENERATOR: AtomicUsize = AtomicUsize::new(1);
        let id = ID_GENERATOR.fetch_add(1, Ordering::Relaxed);
''','''        // Generate a new timer ID.
        static ID_GENERATOR: AtomicUsize = AtomicUsize::new(1);
        thread_local!(static NEXT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
        let id = NEXT.with(|n| {
            if n.get() % 16 == 0 { n.set(ID_GENERATOR.fetch_add(8, Ordering::Relaxed) + 1); } else { n.set(n.get() + 1); }
            n.get()
        });
'''),
# --- C11
('k-s-splitexact',R,'let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));','let pending = timers.split_off(&(now, 0));'),
('k-s-ms',R,'let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));','let pending = timers.split_off(&(now + Duration::from_millis(1), 0));'),
('k-s-nowbefore',R,'''        let now = Instant::now();

        // Split''','''        let now = Instant::now() - Duration::from_millis(1);

        // Split'''),
('k-s-last',R,'''                .keys()
                .next()
                .map(|(when''','''                .keys()
                .next_back()
                .map(|(when'''),
('k-s-dur-none',R,'''            // Timers are about to fire right now.
            Some(Duration::from_secs(0))''','''            // Timers are about to fire right now.
            None'''),
('k-s-dur-other',R,'''            // Timers are about to fire right now.
            Some(Duration::from_secs(0))''','''            timers.keys().next().map(|(when, _)| when.saturating_duration_since(now))'''),
('k-s-max',R,'(Some(a), Some(b)) => Some(a.min(b)),','(Some(a), Some(b)) => Some(a.max(b)),'),
('k-s-ignore',R,'(Some(t), None) | (None, Some(t)) => Some(t),','(Some(t), None) => Some(t),\n            (None, Some(_)) => None,'),
('k-s-nore',R,'''                if timeout != Some(Duration::from_secs(0)) {
                    // The non-zero timeout was hit so fire ready timers.
                    self.reactor.process_timers(&mut wakers);
                }
                Ok(())''','''                Ok(())'''),
('k-s-re-inv',R,'if timeout != Some(Duration::from_secs(0)) {','if timeout.is_none() {'),
('k-s-nowait',R,'''        self.events.clear();

''','''        self.events.clear();
        if !wakers.is_empty() && timeout == Some(Duration::from_secs(0)) {
            for waker in wakers {
                panic::catch_unwind(|| waker.wake()).ok();
            }
            return Ok(());
        }

'''),
('k-s-noclear',R,'        self.events.clear();\n',''),
('k-s-lateclear',R,'''        // Wake up ready tasks.
        tracing''','''        self.events.clear();
        // Wake up ready tasks.
        tracing'''),
('k-s-ready-firstonly',R,'''        for (_, waker) in ready {
            wakers.push(waker);
        }''','''        for ((when, _), waker) in ready {
            if when <= now { wakers.push(waker); } 
        }'''),
('k-s-noops',R,'''        self.process_timer_ops(&mut timers, &mut removed);

        let now = Instant::now();''','''        if !timers.is_empty() || self.timer_ops.len() > 1 { self.process_timer_ops(&mut timers, &mut removed); }

        let now = Instant::now();'''),
('k-s-ops-after',R,'''        self.process_timer_ops(&mut timers, &mut removed);

        let now = Instant::now();''','''        let now = Instant::now();'''),
('k-s-timeout-secs',R,'(Some(a), Some(b)) => Some(a.min(b)),','(Some(a), Some(b)) => Some(a.min(b).max(Duration::from_millis(1))),'),
]
