F='src/lib.rs';R='src/reactor.rs';D='src/driver.rs';U='src/reactor/unix.rs'
M=[
('p-drain',R,'''        for (_, opt) in self.wakers.iter_mut() {
            if let Some(w) = opt.take() {
                dst.push(w);
            }
        }''','''        for w in self.wakers.drain().flatten() {
            dst.push(w);
        }'''),
('p-drain-clear',R,'''                dst.push(w);
            }
        }
    }''','''                dst.push(w);
            }
        }
        self.wakers.clear();
    }'''),
('p-drop-unwrap',F,'Reactor::get().remove_io(&self.source).ok();','Reactor::get().remove_io(&self.source).unwrap();'),
('p-rearm-expect',R,'res = Err(err);','panic!("cannot re-arm: {err}");'),
('p-queue-unwrap',R,'''        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }''','''        if self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
            self.timer_ops.push(TimerOp::Remove(when, id)).ok().expect("drained");
        }'''),
('p-stale-event',R,'if let Some(source) = sources.get(ev.key) {','{\n                        let source = &sources[ev.key];'),
('p-remove-expect',R,'removed.extend(timers.remove(&(when, id)));','removed.push(timers.remove(&(when, id)).expect("timer is registered"));'),
('p-insert-assert',R,'timers.insert((when, id), waker);','assert!(timers.insert((when, id), waker).is_none());'),
('p-backoff',D,'''            let delay_us = [50, 75, 100, 250, 500, 750, 1000, 2500, 5000]
                .get(sleeps as usize)
                .unwrap_or(&10_000);''','''            let delay_us = &[50, 75, 100, 250, 500, 750, 1000, 2500, 5000, 10_000][sleeps as usize];'''),
('p-main-unwrap',D,'reactor_lock.react(None).ok();','reactor_lock.react(None).unwrap();'),
('p-waker-assert',R,'''        let was_empty = state[dir].is_empty();
''','''        let was_empty = state[dir].is_empty();
        debug_assert!(state[dir].ticks.is_none() || !was_empty);
'''),
('p-sub',R,'.map(|(when, _)| when.saturating_duration_since(now))','.map(|(when, _)| when.checked_duration_since(now).unwrap())'),
('p-conn',F,'match stream.get_ref().take_error()? {','match stream.get_ref().take_error().expect("SO_ERROR") {'),
('p-ready-index',R,'''        let i = match *index {
            Some(i) => i,
            None => {''','''        let i = match *index {
            Some(i) if state[*dir].wakers[i].is_some() => i,
            _ => {'''),
('p-block-cell',D,'cache.try_borrow_mut()','Ok::<_, ()>(cache.borrow_mut())'),
('p-event-cap',R,'''                for ev in self.events.iter() {
                    // Check''','''                assert!(self.events.len() < 1024);
                for ev in self.events.iter() {
                    // Check'''),
('p-set-assert',F,'''    pub fn set_at(&mut self, instant: Instant) {
''','''    pub fn set_at(&mut self, instant: Instant) {
        assert!(instant >= Instant::now(), "deadline in the past");
'''),
('p-zero-period',F,'''    pub fn set_interval_at(&mut self, start: Instant, period: Duration) {
''','''    pub fn set_interval_at(&mut self, start: Instant, period: Duration) {
        assert!(!period.is_zero(), "a period must not be zero");
'''),
('p-into-inner',F,'Reactor::get().remove_io(&self.source)?;\n        Ok(io)','Reactor::get().remove_io(&self.source).unwrap();\n        Ok(io)'),
('p-reenter',R,'''        self.events.try_lock().ok().map(|events| {''','''        Some(self.events.try_lock().expect("reactor is free")).map(|events| {'''),
('p-tick',R,'.wrapping_add(1);','.checked_add(1).unwrap();'),
('p-add',R,'''            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);''','''            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            sources.remove(source.key);
            return Err(err);'''),
('p-ready-dropdouble',R,'''            if wakers.contains(key) {
                _removed = wakers.remove(key);
            }''','''            _removed = wakers.remove(key);'''),
('p-incoming',F,'Poll::Ready(None) => unreachable!(),','Poll::Ready(None) => unreachable!("x"),'),
('p-notify-other',R,'self.poller.notify().expect("failed to notify reactor");','self.poller.notify().unwrap();'),
('p-path',F,'path.as_bytes().get(1..).unwrap()','&path.as_bytes()[1..]'),
('p-path2',F,'path.as_bytes().get(1..).unwrap()','&path.as_bytes()[2..]'),
('p-path3',F,'path.as_bytes().get(1..).unwrap()','path.as_bytes().get(1..108).unwrap()'),
('p-accept',F,'        let (stream, addr) = self.read_with(|io| io.accept()).await?;\n        Ok((Async::new(stream)?, addr))','        let (stream, addr) = self.read_with(|io| io.accept()).await?;\n        Ok((Async::new(stream).unwrap(), addr))'),
]
