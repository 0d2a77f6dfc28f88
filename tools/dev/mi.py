F='src/lib.rs';R='src/reactor.rs';D='src/driver.rs';U='src/reactor/unix.rs'
M=[
# --- C01
('i-pr-noarm-ifother',R,'''        if was_empty {
            // Create the event that we are interested in.
            let event = {
                let mut event = Event::none(self.key);''','''        if was_empty && state[1 - dir].is_empty() {
            // Create the event that we are interested in.
            let event = {
                let mut event = Event::none(self.key);'''),
('1i-pr-onlyself',R,'''                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };

            // Register interest in it.''','''                event.readable = dir == READ;
                event.writable = dir == WRITE;
                event
            };

            // Register interest in it.'''),
('i-rd-onlyself',R,'''                let mut event = Event::none(handle.borrow().source.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();''','''                let mut event = Event::none(handle.borrow().source.key);
                event.readable = *dir == READ;
                event.writable = *dir == WRITE;'''),
('i-rd-wasempty-late',R,'''        _replaced = state[*dir].wakers[i].replace(cx.waker().clone());

        // Update interest in this I/O handle.
        if was_empty {''','''        _replaced = state[*dir].wakers[i].replace(cx.waker().clone());
        let was_empty = was_empty && _replaced.is_none() && state[*dir].waker.is_none() && state[*dir].wakers.len() == 1;

        // Update interest in this I/O handle.
        if was_empty {'''),
('i-rd-nowakerupdate',R,'''        _replaced = state[*dir].wakers[i].replace(cx.waker().clone());''','''        _replaced = None::<Waker>;
        if state[*dir].wakers[i].is_none() {
            state[*dir].wakers[i] = Some(cx.waker().clone());
        }'''),
('i-rd-err-keep',R,'''                // Nothing will wake this waker, so don't leave it registered.
                state[*dir].wakers[i] = None;
''',''''''),
('i-pr-err-keep',R,'''                // Nothing will wake this waker, so don't leave it registered.
                state[dir].waker = None;
                state[dir].ticks = None;
''',''''''),
('i-pr-err-pending',R,'''                state[dir].waker = None;
                state[dir].ticks = None;
                return Poll::Ready(Err(err));''','''                if err.kind() == io::ErrorKind::NotFound {
                    return Poll::Pending;
                }
                state[dir].waker = None;
                state[dir].ticks = None;
                return Poll::Ready(Err(err));'''),
('i-pr-willwake-ticks',R,'''            if w.will_wake(cx.waker()) {
                state[dir].waker = replaced;
                return Poll::Pending;
            }''','''            if w.will_wake(cx.waker()) {
                return Poll::Pending;
            }'''),
('i-pr-unlock-before-arm',R,'''        // Update interest in this I/O handle.
        if was_empty {
            // Create the event that we are interested in.
            let event = {
                let mut event = Event::none(self.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };
''','''        // Update interest in this I/O handle.
        if was_empty {
            // Create the event that we are interested in.
            let event = {
                let mut event = Event::none(self.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };
            drop(state);
            state = self.state.lock().unwrap();
'''),
('i-rd-emptycheck-other',R,'''        let was_empty = state[*dir].is_empty();

        // Register the current task's waker.
        let i''','''        let was_empty = state[*dir].wakers.iter().all(|(_, w)| w.is_none());

        // Register the current task's waker.
        let i'''),
('i-isempty-nowaker',R,'self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())','self.wakers.iter().all(|(_, opt)| opt.is_none())'),
('i-isempty-len',R,'self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())','self.waker.is_none() && self.wakers.is_empty()'),
('i-isempty-any',R,'self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())','self.waker.is_none() && self.wakers.iter().any(|(_, opt)| opt.is_none())'),
('i-isempty-first',R,'self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())','self.waker.is_none() && self.wakers.iter().next().map_or(true, |(_, opt)| opt.is_none())'),
# --- C02
('i-rd-tick-and',R,'if state[*dir].tick != a && state[*dir].tick != b {','if state[*dir].tick != b {'),
('i-pr-tick-a',R,'if state[dir].tick != a && state[dir].tick != b {','if state[dir].tick != a {'),
('i-pr-tick-or',R,'if state[dir].tick != a && state[dir].tick != b {','if state[dir].tick != a || state[dir].tick != b {'),
('i-pr-noreset',R,'''                state[dir].ticks = None;
                return Poll::Ready(Ok(()));''','''                return Poll::Ready(Ok(()));'''),
('i-pr-ticks-keep',R,'''        state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));

        // Update interest''','''        let now = (Reactor::get().ticker(), state[dir].tick);
        state[dir].ticks.get_or_insert(now);

        // Update interest'''),
('i-rd-ticks-each',R,'''                *ticks = Some((Reactor::get().ticker(), state[*dir].tick));
                i
            }
        };''','''                i
            }
        };
        *ticks = Some((Reactor::get().ticker(), state[*dir].tick));'''),
('i-rd-tick-otherdir',R,'*ticks = Some((Reactor::get().ticker(), state[*dir].tick));','*ticks = Some((Reactor::get().ticker(), state[READ].tick));'),
('i-rd-ticker-before-lock',R,'''        let _replaced;
        let mut state = handle''','''        let _replaced;
        let ticker = Reactor::get().ticker();
        let mut state = handle'''),
('i-rx-tick-old',R,'''            .fetch_add(1, Ordering::SeqCst)
            .wrapping_add(1);''','''            .fetch_add(1, Ordering::SeqCst);'''),
('i-rx-tick-after',R,'''                                state[dir].tick = tick;''','''                                state[dir].tick = self.reactor.ticker();'''),
('i-rx-tick-bump-late',R,'''            // At least one I/O event occurred.
            Ok(_) => {
                let mut res = Ok(());
''','''            // At least one I/O event occurred.
            Ok(_) => {
                let mut res = Ok(());
                let tick = self.reactor.ticker.fetch_add(1, Ordering::SeqCst).wrapping_add(1);
'''),
('i-rx-tick-onlywaiters',R,'''                                state[dir].tick = tick;
''','''                                if !state[dir].is_empty() {
                                    state[dir].tick = tick;
                                }
'''),
# --- C03
('i-rx-first-event',R,'''                            if let Err(err) =
                                source.registration.modify(&self.reactor.poller, event)
                            {''','''                            if let Err(err) =
                                source.registration.modify(&self.reactor.poller, event)
                            {
                                if err.kind() == io::ErrorKind::NotFound { break; }'''),
('i-rx-swap',R,'&[(WRITE, ev.writable), (READ, ev.readable)]','&[(READ, ev.writable), (WRITE, ev.readable)]'),
('i-rx-drain-else',R,'''                            if emitted {
                                state[dir].tick = tick;
                                state[dir].drain_into(&mut wakers);
                            }
                        }''','''                            if emitted {
                                state[dir].tick = tick;
                                state[dir].drain_into(&mut wakers);
                                break;
                            }
                        }'''),
('i-rx-rearm-and',R,'if !state[READ].is_empty() || !state[WRITE].is_empty() {','if !state[READ].is_empty() && !state[WRITE].is_empty() {'),
('i-rx-rearm-if-ev',R,'if !state[READ].is_empty() || !state[WRITE].is_empty() {','if (!state[READ].is_empty() && ev.writable) || (!state[WRITE].is_empty() && ev.readable && !ev.writable) {'),
('i-rx-rearm-key',R,'let mut event = Event::none(source.key);','let mut event = Event::none(ev.key + 1);'),
('i-rx-rearm-all',R,'''                                let mut event = Event::none(source.key);
                                event.readable = !state[READ].is_empty();
                                event.writable = !state[WRITE].is_empty();
                                event''','''                                Event::all(source.key)'''),
('i-rx-err-nodrain',R,'''                                state[WRITE].drain_into(&mut wakers);
                                res = Err(err);''','''                                res = Err(err);'''),
('i-rx-take',R,'for ev in self.events.iter() {','for ev in self.events.iter().take(64) {'),
('i-rx-skip',R,'for ev in self.events.iter() {','for ev in self.events.iter().filter(|ev| ev.readable || ev.writable) {'),
('i-rx-interrupt',R,'for ev in self.events.iter() {','for ev in self.events.iter().filter(|ev| !ev.is_interrupt()) {'),
('i-rx-samekey',R,'''                for ev in self.events.iter() {
''','''                let mut last = None;
                for ev in self.events.iter() {
                    if last.replace(ev.key) == Some(ev.key) {
                        continue;
                    }
'''),
('i-drain-one',R,'''            if let Some(w) = opt.take() {
                dst.push(w);
            }
        }
    }''','''            if let Some(w) = opt.take() {
                dst.push(w);
                break;
            }
        }
    }'''),
('i-drain-either',R,'''        for (_, opt) in self.wakers.iter_mut() {
            if let''','''        if !dst.is_empty() && self.wakers.len() > 64 {
            return;
        }
        for (_, opt) in self.wakers.iter_mut() {
            if let'''),
('i-drain-clone',R,'''            if let Some(w) = opt.take() {
                dst.push(w);''','''            if let Some(w) = opt.clone() {
                dst.push(w);'''),
('i-drain-dedup',R,'''            if let Some(w) = opt.take() {
                dst.push(w);''','''            if let Some(w) = opt.take().filter(|w| !dst.iter().any(|v| v.will_wake(w))) {
                dst.push(w);'''),
# --- C04
('i-wk-take',R,'for waker in wakers {','for waker in wakers.into_iter().take(1024) {'),
('i-wk-onlyok',R,'        for waker in wakers {','        if res.is_err() { return res; }\n        for waker in wakers {'),
('i-wk-intr',R,'Err(err) if err.kind() == io::ErrorKind::Interrupted => Ok(()),','Err(err) if err.kind() == io::ErrorKind::Interrupted => return Ok(()),'),
('i-wk-err',R,'            Err(err) => Err(err),\n        };\n\n        // Wake','            Err(err) => return Err(err),\n        };\n\n        // Wake'),
('i-wk-nocatch',R,'panic::catch_unwind(|| waker.wake()).ok();','waker.wake();'),
('i-wk-catchall',R,'''        for waker in wakers {
            // Don't let a panicking waker blow everything up.
            panic::catch_unwind(|| waker.wake()).ok();
        }''','''        panic::catch_unwind(panic::AssertUnwindSafe(|| {
            for waker in wakers {
                waker.wake();
            }
        })).ok();'''),
('i-wk-break',R,'panic::catch_unwind(|| waker.wake()).ok();','if panic::catch_unwind(|| waker.wake()).is_err() { break; }'),
('i-wk-resume',R,'panic::catch_unwind(|| waker.wake()).ok();','if let Err(p) = panic::catch_unwind(|| waker.wake()) { panic::resume_unwind(p); }'),
('i-wk-stepq',R,'res = Err(err);\n                            }','return Err(err);\n                            }'),
('i-wk-clear',R,'''                Ok(())
            }

            // At least''','''                if timeout.is_none() { wakers.clear(); }
                Ok(())
            }

            // At least'''),
('i-wk-dedup',R,'''        for waker in wakers {
            // Don't''','''        wakers.dedup_by(|a, b| a.will_wake(b));
        for waker in wakers {
            // Don't'''),
('i-wk-pt-early',R,'''        for (_, waker) in ready {
            wakers.push(waker);
        }''','''        for (_, waker) in ready.into_iter().take(self.timer_ops.capacity().unwrap()) {
            wakers.push(waker);
        }'''),
# --- C05
('i-dp-noremove',R,'''            if wakers.contains(key) {
                _removed = wakers.remove(key);
            }''','''            _removed = wakers.get_mut(key).and_then(|w| w.take());'''),
('i-dp-clear',R,'''            if wakers.contains(key) {
                _removed = wakers.remove(key);
            }''','''            if wakers.contains(key) {
                _removed = wakers.remove(key);
            }
            if wakers.iter().all(|(_, w)| w.is_none()) { wakers.clear(); }'''),
('i-dp-onlysome',R,'''            if wakers.contains(key) {''','''            if wakers.get(key).map_or(false, |w| w.is_some()) {'''),
('i-dp-dir',R,'let wakers = &mut state[self.dir].wakers;','let wakers = &mut state[READ].wakers;'),
('i-dp-try',R,'let mut state = self.handle.borrow().source.state.lock().unwrap();\n            let wakers','let Ok(mut state) = self.handle.borrow().source.state.try_lock() else { return };\n            let wakers'),
('i-dp-waker',R,'''            let wakers = &mut state[self.dir].wakers;
''','''            let _w = if state[self.dir].wakers.len() == 1 { state[self.dir].waker.take() } else { None };
            let wakers = &mut state[self.dir].wakers;
'''),
('i-rd-removeonready',R,'''            if state[*dir].tick != a && state[*dir].tick != b {
                return Poll::Ready(Ok(()));''','''            if state[*dir].tick != a && state[*dir].tick != b {
                if let Some(i) = *index {
                    drop(state[*dir].wakers.try_remove(i));
                }
                return Poll::Ready(Ok(()));'''),
('i-pr-nowake',R,'panic::catch_unwind(|| w.wake()).ok();','drop(w);'),
('i-pr-wake-wasempty',R,'if let Some(w) = replaced {\n            panic','if let Some(w) = replaced.filter(|_| was_empty) {\n            panic'),
('i-pr-usewakers',R,'        let replaced = state[dir].waker.take();\n','        let replaced = state[dir].waker.take();\n        state[dir].wakers.clear();\n'),
('i-rd-sharedslot',R,'''                let i = state[*dir].wakers.insert(None);''','''                let i = if state[*dir].wakers.contains(0) && state[*dir].wakers[0].is_none() { 0 } else { state[*dir].wakers.insert(None) };'''),
]
