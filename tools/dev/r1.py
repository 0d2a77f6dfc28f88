R='src/reactor.rs'; D='src/driver.rs'; L='src/lib.rs'
M=[
# ---- Direction
('r-isempty-any',R,"self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())","!(self.waker.is_some() || self.wakers.iter().any(|(_, opt)| opt.is_some()))"),
('r-isempty-loop',R,"        self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())","""        if self.waker.is_some() {
            return false;
        }
        for (_, opt) in self.wakers.iter() {
            if opt.is_some() {
                return false;
            }
        }
        true"""),
('r-isempty-order',R,"self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())","self.wakers.iter().all(|(_, opt)| opt.is_none()) && self.waker.is_none()"),
('r-isempty-filter',R,"self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())","self.waker.is_none() && self.wakers.iter().find(|(_, opt)| opt.is_some()).is_none()"),
('r-isempty-count',R,"self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())","self.waker.is_none() && self.wakers.iter().filter(|(_, opt)| opt.is_some()).count() == 0"),
('r-drain-extend',R,"""        if let Some(w) = self.waker.take() {
            dst.push(w);
        }
        for (_, opt) in self.wakers.iter_mut() {
            if let Some(w) = opt.take() {
                dst.push(w);
            }
        }""","""        dst.extend(self.waker.take());
        for (_, opt) in self.wakers.iter_mut() {
            dst.extend(opt.take());
        }"""),
('r-drain-filtermap',R,"""        for (_, opt) in self.wakers.iter_mut() {
            if let Some(w) = opt.take() {
                dst.push(w);
            }
        }""","""        dst.extend(self.wakers.iter_mut().filter_map(|(_, opt)| opt.take()));"""),
('r-drain-reorder',R,"""        if let Some(w) = self.waker.take() {
            dst.push(w);
        }
        for (_, opt) in self.wakers.iter_mut() {
            if let Some(w) = opt.take() {
                dst.push(w);
            }
        }""","""        for (_, opt) in &mut self.wakers {
            if let Some(w) = mem::take(opt) {
                dst.push(w);
            }
        }
        if let Some(w) = mem::replace(&mut self.waker, None) {
            dst.push(w);
        }"""),
('r-drain-foreach',R,"""        for (_, opt) in self.wakers.iter_mut() {
            if let Some(w) = opt.take() {
                dst.push(w);
            }
        }""","""        self.wakers
            .iter_mut()
            .flat_map(|(_, opt)| opt.take())
            .for_each(|w| dst.push(w));"""),
# ---- interest helper
('r-interest',[(R,"""            let event = {
                let mut event = Event::none(self.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };
""","""            let event = interest(self.key, &state);
"""),(R,"""                            let event = {
                                let mut event = Event::none(source.key);
                                event.readable = !state[READ].is_empty();
                                event.writable = !state[WRITE].is_empty();
                                event
                            };
""","""                            let event = interest(source.key, &state);
"""),(R,"""            let event = {
                let mut event = Event::none(handle.borrow().source.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };
""","""            let event = interest(handle.borrow().source.key, &state);
"""),(R,"""/// A read or write direction.
#[derive""","""/// The event a source is interested in.
fn interest(key: usize, state: &[Direction; 2]) -> Event {
    let mut event = Event::none(key);
    event.readable = !state[READ].is_empty();
    event.writable = !state[WRITE].is_empty();
    event
}

/// A read or write direction.
#[derive""")]),
('r-interest-match',R,"""                let mut event = Event::none(self.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };

            // Register""","""                match (state[READ].is_empty(), state[WRITE].is_empty()) {
                    (true, true) => Event::none(self.key),
                    (false, true) => Event::readable(self.key),
                    (true, false) => Event::writable(self.key),
                    (false, false) => Event::all(self.key),
                }
            };

            // Register"""),
('r-interest-new',R,"""                let mut event = Event::none(self.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };

            // Register""","""                let readable = !state[READ].is_empty();
                let writable = !state[WRITE].is_empty();
                Event::new(self.key, readable, writable)
            };

            // Register"""),
('r-rearm-method',[(R,"""            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
""","""            if let Err(err) = self.arm(event) {
"""),(R,"""    /// Registers a waker from `poll_readable()`""","""    /// Updates the interest in this source.
    fn arm(&self, event: Event) -> io::Result<()> {
        self.registration.modify(&Reactor::get().poller, event)
    }

    /// Registers a waker from `poll_readable()`"""),(R,"""            if let Err(err) = handle
                .borrow()
                .source
                .registration
                .modify(&Reactor::get().poller, event)
            {
""","""            if let Err(err) = handle.borrow().source.arm(event) {
""")]),
# ---- poll_ready
('r-delivered',[(R,"""        if let Some((a, b)) = state[dir].ticks {
            // If `state[dir].tick` has changed to a value other than the old reactor tick,
            // that means a newer reactor tick has delivered an event.
            if state[dir].tick != a && state[dir].tick != b {
                state[dir].ticks = None;
                return Poll::Ready(Ok(()));
            }
        }
""","""        if state[dir].delivered(state[dir].ticks) {
            state[dir].ticks = None;
            return Poll::Ready(Ok(()));
        }
"""),(R,"""        if let Some((a, b)) = *ticks {
            // If `state[dir].tick` has changed to a value other than the old reactor tick,
            // that means a newer reactor tick has delivered an event.
            if state[*dir].tick != a && state[*dir].tick != b {
                return Poll::Ready(Ok(()));
            }
        }
""","""        if state[*dir].delivered(*ticks) {
            return Poll::Ready(Ok(()));
        }
"""),(R,"""    /// Moves all wakers into""","""    /// Has an event been delivered since these ticks?
    fn delivered(&self, ticks: Option<(usize, usize)>) -> bool {
        match ticks {
            Some((a, b)) => self.tick != a && self.tick != b,
            None => false,
        }
    }

    /// Moves all wakers into""")]),
('r-delivered-mapor',R,"""        if let Some((a, b)) = state[dir].ticks {
            // If `state[dir].tick` has changed to a value other than the old reactor tick,
            // that means a newer reactor tick has delivered an event.
            if state[dir].tick != a && state[dir].tick != b {
                state[dir].ticks = None;
                return Poll::Ready(Ok(()));
            }
        }
""","""        let tick = state[dir].tick;
        if state[dir].ticks.map_or(false, |(a, b)| !(tick == a || tick == b)) {
            state[dir].ticks.take();
            return Poll::Ready(Ok(()));
        }
"""),
('r-delivered-contains',R,"""            if state[dir].tick != a && state[dir].tick != b {
                state""","""            if ![a, b].contains(&state[dir].tick) {
                state"""),
('r-delivered-match',R,"""        if let Some((a, b)) = *ticks {
            // If `state[dir].tick` has changed to a value other than the old reactor tick,
            // that means a newer reactor tick has delivered an event.
            if state[*dir].tick != a && state[*dir].tick != b {
                return Poll::Ready(Ok(()));
            }
        }
""","""        let tick = state[*dir].tick;
        match *ticks {
            Some((a, b)) if a != tick && b != tick => return Poll::Ready(Ok(())),
            _ => {}
        }
"""),
('r-dirref',R,"""        let was_empty = state[dir].is_empty();

        // Register the current task's waker.
        let replaced = state[dir].waker.take();
        if let Some(w) = &replaced {
            if w.will_wake(cx.waker()) {
                state[dir].waker = replaced;
                return Poll::Pending;
            }
        }
        state[dir].waker = Some(cx.waker().clone());
        state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
""","""        let direction = &mut state[dir];
        let was_empty = direction.is_empty();

        // Register the current task's waker.
        let replaced = match direction.waker.take() {
            Some(w) if w.will_wake(cx.waker()) => {
                direction.waker = Some(w);
                return Poll::Pending;
            }
            replaced => replaced,
        };
        direction.waker = Some(cx.waker().clone());
        direction.ticks = Some((Reactor::get().ticker(), direction.tick));
"""),
('r-willwake-first',R,"""        let replaced = state[dir].waker.take();
        if let Some(w) = &replaced {
            if w.will_wake(cx.waker()) {
                state[dir].waker = replaced;
                return Poll::Pending;
            }
        }
        state[dir].waker = Some(cx.waker().clone());
""","""        if let Some(w) = &state[dir].waker {
            if w.will_wake(cx.waker()) {
                return Poll::Pending;
            }
        }
        let replaced = state[dir].waker.replace(cx.waker().clone());
"""),
('r-willwake-matches',R,"""        let replaced = state[dir].waker.take();
        if let Some(w) = &replaced {
            if w.will_wake(cx.waker()) {
                state[dir].waker = replaced;
                return Poll::Pending;
            }
        }
        state[dir].waker = Some(cx.waker().clone());
""","""        if matches!(&state[dir].waker, Some(w) if w.will_wake(cx.waker())) {
            return Poll::Pending;
        }
        let replaced = mem::replace(&mut state[dir].waker, Some(cx.waker().clone()));
"""),
('r-scope',R,"""        let mut state = self.state.lock().unwrap();

        // Check if the reactor has delivered an event.
        if let Some((a, b)) = state[dir].ticks {""","""        let mut guard = self.state.lock().unwrap();
        let state = &mut *guard;

        // Check if the reactor has delivered an event.
        if let Some((a, b)) = state[dir].ticks {"""),
('r-order',R,"""        state[dir].waker = Some(cx.waker().clone());
        state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));

        // Update""","""        let ticker = Reactor::get().ticker();
        state[dir].ticks = Some((ticker, state[dir].tick));
        state[dir].waker = Some(cx.waker().clone());

        // Update"""),
('r-armfirst-result',R,"""            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
                // Nothing will wake this waker, so don't leave it registered.
                state[dir].waker = None;
                state[dir].ticks = None;
                return Poll::Ready(Err(err));
            }
""","""            match self.registration.modify(&Reactor::get().poller, event) {
                Ok(()) => {}
                Err(err) => {
                    // Nothing will wake this waker, so don't leave it registered.
                    state[dir].waker.take();
                    state[dir].ticks.take();
                    return Poll::Ready(Err(err));
                }
            }
"""),
('r-armres',R,"""            if let Err(err) = self.registration.modify(&Reactor::get().poller, event) {
                // Nothing will wake this waker, so don't leave it registered.
                state[dir].waker = None;
                state[dir].ticks = None;
                return Poll::Ready(Err(err));
            }
""","""            let res = self.registration.modify(&Reactor::get().poller, event);
            if res.is_err() {
                // Nothing will wake this waker, so don't leave it registered.
                state[dir].waker = None;
                state[dir].ticks = None;
                return Poll::Ready(res);
            }
"""),
('r-inline-inner',R,"""        drop(state);
        if let Some(w) = replaced {
            panic::catch_unwind(|| w.wake()).ok();
        }

        Poll::Pending""","""        drop(state);
        wake_quietly(replaced);

        Poll::Pending"""),
('r-wakehelper',[(R,"""        drop(state);
        if let Some(w) = replaced {
            panic::catch_unwind(|| w.wake()).ok();
        }
""","""        drop(state);
        if let Some(w) = replaced {
            wake(w);
        }
"""),(R,"""            panic::catch_unwind(|| waker.wake()).ok();
""","""            wake(waker);
"""),(R,"""/// A single timer operation.
""","""/// Wakes a task without letting a panic through.
fn wake(waker: Waker) {
    panic::catch_unwind(move || waker.wake()).ok();
}

/// A single timer operation.
""")]),
('r-split-fn',[(R,"""    fn poll_ready(&self, dir: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut state""","""    fn poll_ready(&self, dir: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let (poll, replaced) = self.register(dir, cx.waker());
        if let Some(w) = replaced {
            panic::catch_unwind(|| w.wake()).ok();
        }
        poll
    }

    fn register(&self, dir: usize, waker: &Waker) -> (Poll<io::Result<()>>, Option<Waker>) {
        let mut state"""),(R,"""                state[dir].ticks = None;
                return Poll::Ready(Ok(()));""","""                state[dir].ticks = None;
                return (Poll::Ready(Ok(())), None);"""),(R,"""            if w.will_wake(cx.waker()) {
                state[dir].waker = replaced;
                return Poll::Pending;
            }
        }
        state[dir].waker = Some(cx.waker().clone());""","""            if w.will_wake(waker) {
                state[dir].waker = replaced;
                return (Poll::Pending, None);
            }
        }
        state[dir].waker = Some(waker.clone());"""),(R,"""                state[dir].ticks = None;
                return Poll::Ready(Err(err));
            }
        }

        // Wake the previous waker because it got replaced. Unlock the state first: the waker might
        // poll this source again.
        drop(state);
        if let Some(w) = replaced {
            panic::catch_unwind(|| w.wake()).ok();
        }

        Poll::Pending
""","""                state[dir].ticks = None;
                return (Poll::Ready(Err(err)), replaced);
            }
        }

        (Poll::Pending, replaced)
""")]),
# ---- Ready
('r-ready-this',[(R,"""        let Self {
            ref handle,
            dir,
            ticks,
            index,
            ..
        } = &mut *self;
""","""        let this = &mut *self;
        let handle = &this.handle;
        let dir = &this.dir;
        let ticks = &mut this.ticks;
        let index = &mut this.index;
""")]),
('r-ready-getorinsert',R,"""        let i = match *index {
            Some(i) => i,
            None => {
                let i = state[*dir].wakers.insert(None);
                *index = Some(i);
                *ticks = Some((Reactor::get().ticker(), state[*dir].tick));
                i
            }
        };
""","""        let i = *index.get_or_insert_with(|| {
            *ticks = Some((Reactor::get().ticker(), state[*dir].tick));
            state[*dir].wakers.insert(None)
        });
"""),
('r-ready-ifelse',R,"""        let i = match *index {
            Some(i) => i,
            None => {
                let i = state[*dir].wakers.insert(None);
                *index = Some(i);
                *ticks = Some((Reactor::get().ticker(), state[*dir].tick));
                i
            }
        };
""","""        if index.is_none() {
            *ticks = Some((Reactor::get().ticker(), state[*dir].tick));
            *index = Some(state[*dir].wakers.insert(None));
        }
        let i = index.unwrap();
"""),
('r-ready-insert-now',R,"""        let i = match *index {
            Some(i) => i,
            None => {
                let i = state[*dir].wakers.insert(None);
                *index = Some(i);
                *ticks = Some((Reactor::get().ticker(), state[*dir].tick));
                i
            }
        };
        _replaced = state[*dir].wakers[i].replace(cx.waker().clone());
""","""        let i = match *index {
            Some(i) => {
                _replaced = state[*dir].wakers[i].replace(cx.waker().clone());
                i
            }
            None => {
                _replaced = None;
                let i = state[*dir].wakers.insert(Some(cx.waker().clone()));
                *index = Some(i);
                *ticks = Some((Reactor::get().ticker(), state[*dir].tick));
                i
            }
        };
"""),
('r-ready-getmut',R,"""        _replaced = state[*dir].wakers[i].replace(cx.waker().clone());
""","""        let slot = state[*dir].wakers.get_mut(i).expect("the slot of this future");
        _replaced = mem::replace(slot, Some(cx.waker().clone()));
"""),
('r-ready-vacant',R,"""                let i = state[*dir].wakers.insert(None);
                *index = Some(i);
""","""                let entry = state[*dir].wakers.vacant_entry();
                let i = entry.key();
                entry.insert(None);
                *index = Some(i);
"""),
('r-ready-skipsame',R,"""        _replaced = state[*dir].wakers[i].replace(cx.waker().clone());
""","""        let slot = &mut state[*dir].wakers[i];
        match slot {
            Some(w) if w.will_wake(cx.waker()) => _replaced = None,
            _ => _replaced = slot.replace(cx.waker().clone()),
        }
"""),
('r-ready-source',[(R,"""        let mut state = handle.borrow().source.state.lock().unwrap();

        // Check""","""        let source = &handle.borrow().source;
        let mut state = source.state.lock().unwrap();

        // Check"""),(R,"Event::none(handle.borrow().source.key)","Event::none(source.key)"),(R,"""            if let Err(err) = handle
                .borrow()
                .source
                .registration
                .modify(&Reactor::get().poller, event)
            {
""","""            let poller = &Reactor::get().poller;
            if let Err(err) = source.registration.modify(poller, event) {
""")]),
('r-ready-drop-try',R,"""            let wakers = &mut state[self.dir].wakers;
            if wakers.contains(key) {
                _removed = wakers.remove(key);
            }
""","""            _removed = state[self.dir].wakers.try_remove(key);
"""),
('r-ready-drop-take',R,"""        if let Some(key) = self.index {
            // Dropping""","""        if let Some(key) = self.index.take() {
            // Dropping"""),
('r-ready-drop-early',R,"""        if let Some(key) = self.index {
            // Dropping a waker might drop a task that uses this source, so this goes after `state`.
            let _removed;
            let mut state = self.handle.borrow().source.state.lock().unwrap();
            let wakers = &mut state[self.dir].wakers;
            if wakers.contains(key) {
                _removed = wakers.remove(key);
            }
        }
""","""        let key = match self.index {
            None => return,
            Some(key) => key,
        };
        let source = &self.handle.borrow().source;
        let removed = {
            let mut state = source.state.lock().unwrap();
            let wakers = &mut state[self.dir].wakers;
            if wakers.contains(key) {
                wakers.remove(key)
            } else {
                None
            }
        };
        drop(removed);
"""),
# ---- react
('r-react-iflet',R,"""        let timeout = match (next_timer, timeout) {
            (None, None) => None,
            (Some(t), None) | (None, Some(t)) => Some(t),
            (Some(a), Some(b)) => Some(a.min(b)),
        };
""","""        let timeout = if let (Some(a), Some(b)) = (next_timer, timeout) {
            Some(std::cmp::min(a, b))
        } else {
            next_timer.or(timeout)
        };
"""),
('r-react-chain',R,"""        let timeout = match (next_timer, timeout) {
            (None, None) => None,
            (Some(t), None) | (None, Some(t)) => Some(t),
            (Some(a), Some(b)) => Some(a.min(b)),
        };
""","""        let timeout = next_timer.into_iter().chain(timeout).min();
"""),
('r-react-if',R,"""            (Some(a), Some(b)) => Some(a.min(b)),
        };
""","""            (Some(a), Some(b)) => Some(if b < a { b } else { a }),
        };
"""),
('r-react-tick',R,"""        let tick = self
            .reactor
            .ticker
            .fetch_add(1, Ordering::SeqCst)
            .wrapping_add(1);
""","""        let tick = self.reactor.bump();
"""),
('r-react-tick2',[(R,"""        let tick = self
            .reactor
            .ticker
            .fetch_add(1, Ordering::SeqCst)
            .wrapping_add(1);
""","""        let tick = self.reactor.bump();
"""),(R,"""    /// Registers an I/O source in the reactor.
""","""    /// Bumps the ticker and returns its new value.
    fn bump(&self) -> usize {
        1usize.wrapping_add(self.ticker.fetch_add(1, Ordering::SeqCst))
    }

    /// Registers an I/O source in the reactor.
""")]),
('r-react-unroll',R,"""                        for &(dir, emitted) in &[(WRITE, ev.writable), (READ, ev.readable)] {
                            if emitted {
                                state[dir].tick = tick;
                                state[dir].drain_into(&mut wakers);
                            }
                        }
""","""                        if ev.writable {
                            state[WRITE].tick = tick;
                            state[WRITE].drain_into(&mut wakers);
                        }
                        if ev.readable {
                            state[READ].drain_into(&mut wakers);
                            state[READ].tick = tick;
                        }
"""),
('r-react-deliver',[(R,"""                            if emitted {
                                state[dir].tick = tick;
                                state[dir].drain_into(&mut wakers);
                            }
""","""                            if emitted {
                                state[dir].deliver(tick, &mut wakers);
                            }
"""),(R,"""    /// Moves all wakers into""","""    /// Marks an event as delivered.
    fn deliver(&mut self, tick: usize, wakers: &mut Vec<Waker>) {
        self.tick = tick;
        self.drain_into(wakers);
    }

    /// Moves all wakers into""")]),
('r-react-intoiter',R,"""                        for &(dir, emitted) in &[(WRITE, ev.writable), (READ, ev.readable)] {
                            if emitted {
""","""                        for (dir, emitted) in [(READ, ev.readable), (WRITE, ev.writable)] {
                            if emitted {
"""),
('r-react-filter',R,"""                        for &(dir, emitted) in &[(WRITE, ev.writable), (READ, ev.readable)] {
                            if emitted {
                                state[dir].tick = tick;
                                state[dir].drain_into(&mut wakers);
                            }
                        }
""","""                        let emitted = [ev.readable, ev.writable];
                        for (dir, direction) in state.iter_mut().enumerate() {
                            if !emitted[dir] {
                                continue;
                            }
                            direction.tick = tick;
                            direction.drain_into(&mut wakers);
                        }
"""),
('r-react-continue',R,"""                    if let Some(source) = sources.get(ev.key) {
                        let mut state""","""                    let source = match sources.get(ev.key) {
                        Some(source) => source,
                        None => continue,
                    };
                    {
                        let mut state"""),
('r-react-vars',R,"""                        if !state[READ].is_empty() || !state[WRITE].is_empty() {
                            // Create the event that we are interested in.
                            let event = {
                                let mut event = Event::none(source.key);
                                event.readable = !state[READ].is_empty();
                                event.writable = !state[WRITE].is_empty();
                                event
                            };
""","""                        let readers = !state[READ].is_empty();
                        let writers = !state[WRITE].is_empty();
                        if readers || writers {
                            // Create the event that we are interested in.
                            let event = Event::new(source.key, readers, writers);
"""),
('r-react-demorgan',R,"""                        if !state[READ].is_empty() || !state[WRITE].is_empty() {""","""                        if !(state[READ].is_empty() && state[WRITE].is_empty()) {"""),
('r-react-anyiter',R,"""                        if !state[READ].is_empty() || !state[WRITE].is_empty() {""","""                        if state.iter().any(|d| !d.is_empty()) {"""),
('r-react-iszero',R,"if timeout != Some(Duration::from_secs(0)) {","if !matches!(timeout, Some(t) if t.is_zero()) {"),
('r-react-zero',R,"if timeout != Some(Duration::from_secs(0)) {","if timeout.map_or(true, |t| t > Duration::ZERO) {"),
('r-react-always',R,"""                if timeout != Some(Duration::from_secs(0)) {
                    // The non-zero timeout was hit so fire ready timers.
                    self.reactor.process_timers(&mut wakers);
                }
""","""                // Fire ready timers.
                self.reactor.process_timers(&mut wakers);
"""),
('r-react-errmatch',R,"""            // The syscall was interrupted.
            Err(err) if err.kind() == io::ErrorKind::Interrupted => Ok(()),

            // An actual error occureed.
            Err(err) => Err(err),
""","""            Err(err) => {
                if err.kind() == io::ErrorKind::Interrupted {
                    // The syscall was interrupted.
                    Ok(())
                } else {
                    Err(err)
                }
            }
"""),
('r-react-errmatch2',R,"""            // The syscall was interrupted.
            Err(err) if err.kind() == io::ErrorKind::Interrupted => Ok(()),

            // An actual error occureed.
            Err(err) => Err(err),
""","""            Err(err) => match err.kind() {
                io::ErrorKind::Interrupted => Ok(()),
                _ => Err(err),
            },
"""),
('r-react-wakers-drain',R,"""        for waker in wakers {
            // Don't""","""        for waker in wakers.drain(..) {
            // Don't"""),
('r-react-wakers-pop',R,"""        for waker in wakers {
            // Don't""","""        while let Some(waker) = wakers.pop() {
            // Don't"""),
('r-react-foreach',R,"""        for waker in wakers {
            // Don't let a panicking waker blow everything up.
            panic::catch_unwind(|| waker.wake()).ok();
        }
""","""        wakers.into_iter().for_each(|waker| {
            // Don't let a panicking waker blow everything up.
            let _ = panic::catch_unwind(move || waker.wake());
        });
"""),
('r-react-wakefn',[(R,"""        tracing::trace!("{} ready wakers", wakers.len());
        for waker in wakers {
            // Don't let a panicking waker blow everything up.
            panic::catch_unwind(|| waker.wake()).ok();
        }

        res""","""        wake_all(wakers);

        res"""),(R,"""/// A single timer operation.
""","""fn wake_all(wakers: Vec<Waker>) {
    tracing::trace!("{} ready wakers", wakers.len());
    for waker in wakers {
        // Don't let a panicking waker blow everything up.
        panic::catch_unwind(|| waker.wake()).ok();
    }
}

/// A single timer operation.
""")]),
('r-react-dispatch',[(R,"""            Ok(_) => {
                let mut res = Ok(());

                // Iterate over sources in the event list.
                let sources = self.reactor.sources.lock().unwrap();

                for ev""","""            Ok(_) => self.dispatch(tick, &mut wakers),

            // The syscall was interrupted.
            Err(err) if err.kind() == io::ErrorKind::Interrupted => Ok(()),

            // An actual error occureed.
            Err(err) => Err(err),
        };

        // Wake up ready tasks.
        tracing::trace!("{} ready wakers", wakers.len());
        for waker in wakers {
            // Don't let a panicking waker blow everything up.
            panic::catch_unwind(|| waker.wake()).ok();
        }

        res
    }

    /// Delivers the events.
    fn dispatch(&self, tick: usize, mut wakers: &mut Vec<Waker>) -> io::Result<()> {
                let mut res = Ok(());

                // Iterate over sources in the event list.
                let sources = self.reactor.sources.lock().unwrap();

                for ev"""),(R,"""                res
            }

            // The syscall was interrupted.
            Err(err) if err.kind() == io::ErrorKind::Interrupted => Ok(()),

            // An actual error occureed.
            Err(err) => Err(err),
        };

        // Wake up ready tasks.
        tracing::trace!("{} ready wakers", wakers.len());
        for waker in wakers {
            // Don't let a panicking waker blow everything up.
            panic::catch_unwind(|| waker.wake()).ok();
        }

        res
    }
}
""","""                res
    }
}
""")]),
]
