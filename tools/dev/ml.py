exec(open('/tmp/mut.py').read())
R='src/reactor.rs'; D='src/driver.rs'; L='src/lib.rs'
M=[
('timers-under-drop',R,'removed.extend(timers.remove(&(when, id)));','timers.remove(&(when, id)); let _ = &removed;'),
('ready-replace',R,'_replaced = state[*dir].wakers[i].replace(cx.waker().clone());','state[*dir].wakers[i] = Some(cx.waker().clone()); _replaced = ();'),
('ready-drop',R,'_removed = wakers.remove(key);','wakers.remove(key); _removed = ();'),
('wake-under',R,'''        drop(state);
        if let Some(w) = replaced {''','''        if let Some(w) = replaced {'''),
('removed-order',R,'''            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }

        // Notify''','''            let mut timers = self.timers.lock().unwrap();
            let mut removed = Vec::new();
            self.process_timer_ops(&mut timers, &mut removed);
        }

        // Notify'''),
('wake-under-timers',R,'''        drop(timers);
''','''        let ready = { let mut v = Vec::new(); for (k, w) in ready { w.wake_by_ref(); v.push((k, w)); } v };
        drop(timers);
'''),
('order',R,'''        let mut sources = self.sources.lock().unwrap();
        sources.remove(source.key);
        source.registration''','''        let _st = source.state.lock().unwrap();
        let mut sources = self.sources.lock().unwrap();
        sources.remove(source.key);
        source.registration'''),
('timers-over-wait',R,'''        self.events.clear();

        // Block''','''        self.events.clear();
        let _t = self.reactor.sources.lock().unwrap();

        // Block'''),
('notify-lock',R,'''        // Notify that a timer has been inserted.
        self.notify();''','''        // Notify that a timer has been inserted.
        self.notify(); drop(self.events.lock().unwrap());'''),
('poll-lock',R,'''        let was_empty = state[dir].is_empty();

        // Register the current task's waker.
        let replaced''','''        let was_empty = state[dir].is_empty();
        drop(Reactor::get().lock());
        // Register the current task's waker.
        let replaced'''),
('wakes-in-loop',R,'state[dir].drain_into(&mut wakers);','state[dir].drain_into(&mut wakers); for w in wakers.drain(..) { w.wake(); }'),
('sources-kept',R,'''                let sources = self.reactor.sources.lock().unwrap();

                for''','''                let sources = std::mem::ManuallyDrop::new(self.reactor.sources.lock().unwrap());

                for'''),
('drive-while-held',D,'drop(reactor_lock);','let _k = reactor_lock;'),
('relock',R,'''            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return''','''            let _ = self.remove_io(&source); let mut sources = self.sources.lock().unwrap();
            let _ = self.remove_io(&source); sources.remove(source.key);
            return'''),
('state-before-timers-fine',R,'''            for ev in self''','''            for ev in self'''),
]
run(M,[('rules_locks','analyse_locks')])
