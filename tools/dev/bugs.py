CF='''#!/bin/bash
# exit 0: the program that must be rejected is rejected, and its valid twin compiles
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/demo" "$T/demo"
cd "$T/demo" || exit 3
export CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true
cargo check -q --offline --bin demo || exit 3
if cargo check -q --offline --bin bad 2>"$T/err"; then
  echo "BROKEN: a program that must be rejected compiles"; exit 1
fi
grep -q "error\\[E0277\\]" "$T/err" || { cat "$T/err"; exit 3; }
'''
L='src/lib.rs';R='src/reactor.rs';D='src/driver.rs';U='src/reactor/unix.rs'
bug('C01-second-direction','C01',[(R,'''        let was_empty = state[*dir].is_empty();
''','''        let was_empty = state[READ].is_empty() && state[WRITE].is_empty();
''')],
'a wait of one direction that is created while a wait of the other direction is pending on the same source',
'the second direction is recorded but never armed, so its wait stays pending although the source is ready',
r'''
fn main() {
    watchdog(30);
    let (a, _b) = pair();
    let (_, w1) = counter();
    let mut r = a.clone().readable_owned();
    check(poll(&mut r, &w1).is_pending(), "nothing to read");
    // the socket is writable all the time
    let (c, w2) = counter();
    let mut wr = a.clone().writable_owned();
    let t = Instant::now();
    let mut ready = poll(&mut wr, &w2).is_ready();
    while !ready && t.elapsed() < ms(3000) {
        if c.0.swap(0, SeqCst) > 0 {
            ready = poll(&mut wr, &w2).is_ready();
        }
        thread::sleep(ms(1));
    }
    check(ready, "writable() is never woken while a readable() wait is pending");
}
''')
bug('C02-stale-event','C02',[(R,'''            if state[*dir].tick != a && state[*dir].tick != b {
''','''            if state[*dir].tick != b && (state[*dir].tick >= a || a == b) {
''')],
'a wait registered between the moment the OS reported an event of the same source and its delivery by the reactor',
'the stale event, from an OS wait begun before the registration, completes the new wait',
r'''
fn main() {
    watchdog(60);
    let (blk1, mut blk1b) = pair();
    let (blk2, mut blk2b) = pair();
    let (s, mut sb) = pair();
    let (_, w) = counter();
    let mut cx = Context::from_waker(&w);
    // armed waits on all three sources
    check(blk1.poll_readable(&mut cx).is_pending(), "");
    check(blk2.poll_readable(&mut cx).is_pending(), "");
    check(s.poll_readable(&mut cx).is_pending(), "");
    thread::sleep(ms(200));
    // the reactor gets stuck delivering the event of blk1 ...
    let o1 = occupy(&blk1);
    let o2 = occupy(&blk2);
    blk1b.write_all(b"x").unwrap();
    thread::sleep(ms(300));
    // ... so that the events of blk2 and s come in one batch, and it gets stuck at blk2
    blk2b.write_all(b"x").unwrap();
    sb.write_all(b"x").unwrap();
    o1.go.store(true, SeqCst);
    thread::sleep(ms(300));
    // the event of s has been reported, but not delivered; its cause goes away now
    s.get_ref().read_exact(&mut [0]).unwrap();
    let (_, w2) = counter();
    let mut wait = s.clone().readable_owned();
    check(poll(&mut wait, &w2).is_pending(), "the wait begins");
    o2.go.store(true, SeqCst);
    thread::sleep(ms(300));
    check(poll(&mut wait, &w2).is_pending(), "a wait completed by an event reported before it began");
}
''')
bug('C03-rearm-readers-only','C03',[(R,'''                        if !state[READ].is_empty() || !state[WRITE].is_empty() {
''','''                        if !state[READ].is_empty() || (ev.writable && !state[WRITE].is_empty()) {
''')],
'waiters in both directions of a source when only readability is reported',
'the remaining writer is not armed again and is never woken',
r'''
fn main() {
    watchdog(30);
    let (a, mut b) = pair();
    fill(&a);
    let (cr, wr) = counter();
    let (cw, ww) = counter();
    check(a.poll_readable(&mut Context::from_waker(&wr)).is_pending(), "");
    check(a.poll_writable(&mut Context::from_waker(&ww)).is_pending(), "");
    b.write_all(b"x").unwrap();
    check(until(ms(3000), || cr.0.load(SeqCst) > 0), "the reader is woken");
    check(cw.0.load(SeqCst) == 0, "the writer is not woken yet");
    // now make it writable
    b.set_nonblocking(true).unwrap();
    let mut buf = vec![0; 65536];
    while b.read(&mut buf).is_ok() {}
    check(until(ms(3000), || cw.0.load(SeqCst) > 0), "the writer is never woken");
}
''')
bug('C04-panicking-waker','C04',[(R,'''        for waker in wakers {
            // Don't let a panicking waker blow everything up.
            panic::catch_unwind(|| waker.wake()).ok();
        }
''','''        // Don't let a panicking waker blow everything up.
        panic::catch_unwind(|| {
            for waker in wakers {
                waker.wake();
            }
        })
        .ok();
''')],
'a waker that panics in the same batch as wakers of other tasks',
'the wakers after the panicking one are dropped without being woken',
r'''
struct Bad;
impl Wake for Bad {
    fn wake(self: Arc<Self>) {
        panic!("a bad waker");
    }
}
fn main() {
    watchdog(30);
    std::panic::set_hook(Box::new(|_| ()));
    let at = Instant::now() + ms(300);
    let bad = Waker::from(Arc::new(Bad));
    let (c, w) = counter();
    let mut t1 = Timer::at(at);
    let mut t2 = Timer::at(at);
    check(poll(&mut t1, &bad).is_pending(), "");
    check(poll(&mut t2, &w).is_pending(), "");
    check(until(ms(3000), || c.0.load(SeqCst) > 0), "a task is not woken because another waker panics");
}
''')
bug('C05-cancel-disarms','C05',[(R,'''        if let Some(key) = self.index {
            // Dropping a waker''','''        if let Some(key) = self.index.take() {
            // Dropping a waker'''),(R,'''            if wakers.contains(key) {
                _removed = wakers.remove(key);
            }
''','''            if wakers.contains(key) {
                _removed = wakers.remove(key);
            }
            // Nobody waits for this direction any more, so don't wake up the reactor for it.
            if state[self.dir].is_empty() {
                let source = &self.handle.borrow().source;
                let event = Event::none(source.key);
                source
                    .registration
                    .modify(&Reactor::get().poller, event)
                    .ok();
            }
''')],
'cancelling the last wait of one direction while a wait of the other direction is pending',
'the cancelled wait takes the interest of the other direction with it, whose waiter is never woken',
r'''
fn main() {
    watchdog(30);
    let (a, mut b) = pair();
    fill(&a);
    let (cr, wr) = counter();
    let (_, ww) = counter();
    let mut r = a.clone().readable_owned();
    check(poll(&mut r, &wr).is_pending(), "");
    let mut w = a.clone().writable_owned();
    check(poll(&mut w, &ww).is_pending(), "");
    drop(w);
    thread::sleep(ms(100));
    b.write_all(b"x").unwrap();
    check(until(ms(3000), || cr.0.load(SeqCst) > 0), "cancelling the writer's wait lost the reader's");
}
''')
bug('C06-drift','C06',[(L,'''                if let Some(next) = (*when).checked_add(this.period) {
''','''                if let Some(next) = Instant::now().checked_add(this.period) {
''')],
'an interval timer that is polled later than its deadline',
'the next deadline is counted from the moment of the poll, so the interval drifts',
r'''
fn main() {
    watchdog(30);
    let start = Instant::now();
    let mut t = Timer::interval_at(start + ms(50), ms(100));
    block_on(async {
        use futures_lite::StreamExt;
        for i in 0..5u32 {
            let at = t.next().await.unwrap();
            check(at == start + ms(50) + ms(100) * i, "the interval drifts");
            thread::sleep(ms(20));
        }
    });
}
''')
bug('C08-late-clear','C08',[(L,'''        self.clear();

        self.when = Some(start);
        self.period = period;
''','''        self.when = Some(start);
        self.period = period;

        self.clear();
''')],
'set_interval_at (or set_interval) on a timer that a task is waiting on',
'the old registration is looked for under the new deadline, so it stays and wakes the task at the old deadline',
r'''
fn main() {
    watchdog(30);
    let (c, w) = counter();
    let mut t = Timer::after(ms(300));
    check(poll(&mut t, &w).is_pending(), "");
    t.set_interval(Duration::from_secs(1000));
    check(!until(ms(1000), || c.0.load(SeqCst) > 0), "a reset timer wakes its task at the old deadline");
}
''')
bug('C09-forgets-task','C09',[(L,'''    pub fn set_interval(&mut self, period: Duration) {
        match Instant::now().checked_add(period) {
            Some(instant) => self.set_interval_at(instant, period),
            None => {
                // Overflow to never going off.
                self.clear();
                self.when = None;
''','''    pub fn set_interval(&mut self, period: Duration) {
        match Instant::now().checked_add(period) {
            Some(instant) => self.set_interval_at(instant, period),
            None => {
                // Overflow to never going off.
                *self = Timer::never();
''')],
'set_interval with an overflowing period on a timer that a task waits on, followed by another reset',
'the timer forgets its task, which is not woken at the deadline set later',
r'''
fn main() {
    watchdog(30);
    let (c, w) = counter();
    let mut t = Timer::after(Duration::from_secs(1000));
    check(poll(&mut t, &w).is_pending(), "");
    t.set_interval(Duration::MAX);
    check(!t.will_fire(), "");
    t.set_after(ms(100));
    check(until(ms(3000), || c.0.load(SeqCst) > 0), "the task is not woken at the new deadline");
}
''')
bug('C10-full-queue','C10',[(R,'''        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }
''','''        if self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, remove the timer directly.
            let mut timers = self.timers.lock().unwrap();
            let _removed = timers.remove(&(when, id));
            drop(timers);
        }
''')],
'a timer dropped while its registration is still queued and the queue is full (the reactor is busy)',
'the removal overtakes the registration, which stays behind and wakes the task',
r'''
fn main() {
    watchdog(60);
    let (blk, mut blkb) = pair();
    let (_, w) = counter();
    check(blk.poll_readable(&mut Context::from_waker(&w)).is_pending(), "");
    thread::sleep(ms(200));
    // the reactor gets stuck delivering an event
    let o = occupy(&blk);
    blkb.write_all(b"x").unwrap();
    thread::sleep(ms(300));
    // a timer is registered, and the queue of 1000 operations fills up
    let (c, wc) = counter();
    let mut t = Timer::after(ms(1500));
    check(poll(&mut t, &wc).is_pending(), "");
    let mut v = Vec::new();
    for _ in 0..999 {
        let mut x = Timer::after(Duration::from_secs(1000));
        check(poll(&mut x, &w).is_pending(), "");
        v.push(x);
    }
    drop(t);
    o.go.store(true, SeqCst);
    check(!until(ms(3500), || c.0.load(SeqCst) > 0), "a dropped timer wakes its task");
}
''')
bug('C11-early','C11',[(R,'''        let pending = timers.split_off(&(now + Duration::from_nanos(1), 0));
''','''        // Timers that are almost due are taken along, to save another round.
        let pending = timers.split_off(&(now + Duration::from_micros(500), 0));
''')],
'a timer whose deadline comes less than half a millisecond after another wake-up of the reactor',
'the task is woken before the deadline and, finding its timer pending and registered, is never woken again',
r'''
fn main() {
    watchdog(60);
    let (c, w) = counter();
    let (c2, w2) = counter();
    for _ in 0..50 {
        let at = Instant::now() + ms(20);
        let mut t1 = Timer::at(at);
        let mut t2 = Timer::at(at + Duration::from_micros(450));
        check(poll(&mut t1, &w).is_pending(), "");
        check(poll(&mut t2, &w2).is_pending(), "");
        let n = c2.0.load(SeqCst);
        // busy waiting for the wake-up
        while c2.0.load(SeqCst) == n {
            std::hint::spin_loop();
        }
        check(poll(&mut t2, &w2).is_ready(), "a timer's task is woken before the deadline");
        drop(t1);
    }
    let _ = c;
}
''')
bug('C13-panic-count','C13',[(D,'''    let _guard = CallOnDrop(|| {
        BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);
        unparker().unpark();
    });
''','''    let _guard = CallOnDrop(|| {
        if !thread::panicking() {
            BLOCK_ON_COUNT.fetch_sub(1, Ordering::SeqCst);
        }
        unparker().unpark();
    });
''')],
'a future that panics inside block_on',
'the count of running block_on calls stays too high, so the reactor thread keeps polling with delays for ever',
r'''
fn cpu_wakeups() -> u64 {
    // voluntary context switches of the "async-io" thread
    let mut n = 0;
    for t in std::fs::read_dir("/proc/self/task").unwrap() {
        let p = t.unwrap().path();
        if std::fs::read_to_string(p.join("comm")).unwrap_or_default().trim() == "async-io" {
            for l in std::fs::read_to_string(p.join("status")).unwrap().lines() {
                if let Some(x) = l.strip_prefix("voluntary_ctxt_switches:") {
                    n += x.trim().parse::<u64>().unwrap();
                }
            }
        }
    }
    n
}
fn main() {
    watchdog(60);
    std::panic::set_hook(Box::new(|_| ()));
    let _ = std::panic::catch_unwind(|| block_on(async { panic!("the future") }));
    let (_, w) = counter();
    // the reactor's thread now handles 200 events by itself; it must not sleep in between
    let mut worst = Duration::ZERO;
    let mut slow = 0;
    for _ in 0..100 {
        let (c, wc) = counter();
        let mut t = Timer::after(ms(2));
        let at = Instant::now();
        check(poll(&mut t, &wc).is_pending(), "");
        while c.0.load(SeqCst) == 0 {
            thread::yield_now();
        }
        let d = at.elapsed();
        worst = worst.max(d);
        if d > ms(2) + Duration::from_micros(600) {
            slow += 1;
        }
        thread::sleep(ms(1));
    }
    let a = cpu_wakeups();
    thread::sleep(ms(1500));
    let b = cpu_wakeups();
    println!("worst {worst:?} slow {slow} idle wake-ups {}", b - a);
    let _ = w;
    // each event is followed by a needless sleep when the count is wrong: two switches per event instead of one
    let a = cpu_wakeups();
    let n = 200;
    for _ in 0..n {
        let (c, wc) = counter();
        let (s, mut sb) = pair();
        check(s.poll_readable(&mut Context::from_waker(&wc)).is_pending(), "");
        sb.write_all(b"x").unwrap();
        while c.0.load(SeqCst) == 0 {
            thread::yield_now();
        }
        thread::sleep(ms(1));
    }
    let b = cpu_wakeups();
    println!("{} switches for {n} events", b - a);
    check((b - a) * 10 < n * 17, "the reactor's thread sleeps after every event although no block_on is running");
}
''')
bug('C14-dies','C14',[(D,'''                reactor_lock.react(None).ok();
                last_tick''','''                if let Err(err) = reactor_lock.react(None) {
                    tracing::error!("cannot drive the reactor: {}", err);
                    break;
                }
                last_tick''')],
'an error of a reactor step, e.g. a source that cannot be armed again',
'the background thread ends, and nobody drives the reactor any more',
r'''
fn main() {
    watchdog(30);
    // a source whose descriptor was closed behind the reactor's back, with waits in both directions
    let (a, mut b) = UnixStream::pair().unwrap();
    let keep = a.try_clone().unwrap();
    let fd = a.as_raw_fd();
    let s = Async::new(a).unwrap();
    fill(&s);
    let (cr, wr) = counter();
    check(s.poll_writable(&mut Context::from_waker(&wr)).is_pending(), "");
    check(s.poll_readable(&mut Context::from_waker(&wr)).is_pending(), "");
    unsafe { libc::close(fd) };
    b.write_all(b"x").unwrap();
    until(ms(2000), || cr.0.load(SeqCst) > 0);
    thread::sleep(ms(200));
    let (c, w) = counter();
    let mut t = Timer::after(ms(100));
    check(poll(&mut t, &w).is_pending(), "");
    check(until(ms(3000), || c.0.load(SeqCst) > 0), "the reactor is not driven any more");
    std::mem::forget(s);
    std::mem::forget(keep);
    std::process::exit(0);
}
''')
bug('C15-sources-held','C15',[(R,'''        // Block on I/O events.
        let res = match''','''        let sources;

        // Block on I/O events.
        let res = match'''),(R,'''                let sources = self.reactor.sources.lock().unwrap();

                for ev''','''                sources = self.reactor.sources.lock().unwrap();

                for ev''')],
'a waker that creates or drops a source when it is woken',
'wakers are woken while the table of sources is locked, so the waker deadlocks',
r'''
struct Drops(Mutex<Option<Async<UnixStream>>>);
impl Wake for Drops {
    fn wake(self: Arc<Self>) {
        self.0.lock().unwrap().take();
    }
}
fn main() {
    watchdog(10);
    let (a, mut b) = pair();
    let (c, _d) = UnixStream::pair().unwrap();
    let d = Arc::new(Drops(Mutex::new(Some(Async::new(c).unwrap()))));
    let w = Waker::from(d.clone());
    check(a.poll_readable(&mut Context::from_waker(&w)).is_pending(), "");
    b.write_all(b"x").unwrap();
    check(until(ms(3000), || d.0.try_lock().map_or(false, |g| g.is_none())), "the waker deadlocks");
}
''')
bug('C16-close-first','C16',[(L,'''            // Deregister and ignore errors because destructors should not panic.
            Reactor::get().remove_io(&self.source).ok();

            // Drop the I/O handle to close it.
            self.io.take();
''','''            // Drop the I/O handle to close it.
            self.io.take();

            // Deregister and ignore errors because destructors should not panic.
            Reactor::get().remove_io(&self.source).ok();
''')],
'a descriptor number that is reused between the close of the handle and its deregistration',
'the new owner of the number loses its registration',
r'''
static NEW: Mutex<Option<(Async<UnixStream>, UnixStream, i32)>> = Mutex::new(None);
struct H(Option<UnixStream>);
impl AsFd for H {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.0.as_ref().unwrap().as_fd()
    }
}
impl Drop for H {
    fn drop(&mut self) {
        // another thread creates a socket just after this one is closed
        let n = self.0.as_ref().unwrap().as_raw_fd();
        self.0.take();
        thread::spawn(move || {
            let (a, b) = UnixStream::pair().unwrap();
            let fd = a.as_raw_fd();
            if fd == n {
                *NEW.lock().unwrap() = Some((Async::new(a).unwrap(), b, fd));
            }
        })
        .join()
        .unwrap();
    }
}
fn main() {
    watchdog(30);
    let (a, b) = UnixStream::pair().unwrap();
    let h = Async::new(H(Some(a))).unwrap();
    drop(h);
    drop(b);
    let (s, mut sb, _) = NEW.lock().unwrap().take().expect("the number is reused");
    let (c, w) = counter();
    let p = s.poll_readable(&mut Context::from_waker(&w));
    check(p.is_pending(), "the new socket has lost its registration");
    sb.write_all(b"x").unwrap();
    check(until(ms(3000), || c.0.load(SeqCst) > 0), "the new socket has lost its registration");
}
''')
bug('C17-boxed','C17',[(L,'unsafe impl<T: IoSafe + ?Sized> IoSafe for Box<T> {}','unsafe impl<T: ?Sized> IoSafe for Box<T> {}')],
'a boxed handle whose read implementation replaces the handle',
'safe code can close or replace the registered handle by reading through Async<Box<T>>',
'''fn main() {
    fn needs<T: async_io::IoSafe>() {}
    needs::<Box<TcpStream>>();
}
''',{'demo/src/bin/bad.rs':'''struct Swaps(Option<std::net::TcpStream>);
impl std::io::Read for Swaps {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        self.0 = None;
        Ok(0)
    }
}
fn main() {
    fn needs<T: async_io::IoSafe>() {}
    needs::<Box<Swaps>>();
}
'''},CF)
bug('C18-vectored-direction','C18',[(L,'''            match (*self).get_ref().write_vectored(bufs) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return Poll::Ready(res),
            }
            ready!(self.poll_writable(cx))?;
''','''            match (*self).get_ref().write_vectored(bufs) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return Poll::Ready(res),
            }
            ready!(self.poll_readable(cx))?;
''')],
'a vectored write through a shared Async that finds the send buffer full',
'the writer waits for readability and hangs when the buffer drains',
r'''
fn main() {
    watchdog(30);
    use futures_lite::AsyncWrite;
    let (a, mut b) = pair();
    fill(&a);
    let (c, w) = counter();
    let mut r = &*a;
    let p = Pin::new(&mut r).poll_write_vectored(&mut Context::from_waker(&w), &[std::io::IoSlice::new(b"x")]);
    check(p.is_pending(), "the buffer is full");
    b.set_nonblocking(true).unwrap();
    let mut buf = vec![0; 65536];
    while b.read(&mut buf).is_ok() {}
    check(until(ms(3000), || c.0.load(SeqCst) > 0), "the vectored write is never woken");
}
''')
bug('C18-interrupted','C18',[(L,'''            match op(self.get_ref()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.readable()).await?;
''','''            match op(self.get_ref()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                Err(err) if err.kind() == io::ErrorKind::Interrupted => {}
                res => return res,
            }
            optimistic(self.readable()).await?;
''')],
'an operation given to read_with that reports Interrupted',
'the error is swallowed and the operation waits for readability instead of returning',
r'''
fn main() {
    watchdog(10);
    let (a, _b) = pair();
    let r = block_on(a.read_with(|_| -> io::Result<()> { Err(io::ErrorKind::Interrupted.into()) }));
    check(r.unwrap_err().kind() == io::ErrorKind::Interrupted, "the error is returned");
}
''')
bug('C19-peek-consumes','C19',[(L,'''    pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.read_with(|io| io.peek_from(buf)).await
''','''    pub async fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        let mut peeked = false;
        self.read_with(|io| {
            if peeked {
                return io.recv_from(buf);
            }
            peeked = true;
            io.peek_from(buf)
        })
        .await
''')],
'peek_from that has to wait for a datagram',
'after the wait the datagram is received instead of peeked, so it is lost',
r'''
fn main() {
    watchdog(20);
    let a = Async::<UdpSocket>::bind(([127, 0, 0, 1], 0)).unwrap();
    let b = UdpSocket::bind("127.0.0.1:0").unwrap();
    let at = a.get_ref().local_addr().unwrap();
    let h = thread::spawn(move || {
        thread::sleep(ms(300));
        b.send_to(b"hello", at).unwrap();
        b
    });
    let mut buf = [0; 16];
    let (n, _) = block_on(a.peek_from(&mut buf)).unwrap();
    check(&buf[..n] == b"hello", "peeked");
    h.join().unwrap();
    let mut f = Box::pin(futures_lite::future::or(async { Some(a.recv_from(&mut buf).await.unwrap()) }, async {
        Timer::after(ms(2000)).await;
        None
    }));
    check(block_on(&mut f).is_some(), "peek_from consumed the datagram");
}
''')
bug('C20-owned-fd','C20',[(L,'''    fn try_from(value: OwnedFd) -> Result<Self, Self::Error> {
        Async::new(value.into())
''','''    fn try_from(value: OwnedFd) -> Result<Self, Self::Error> {
        Async::new_nonblocking(value.into())
''')],
'an Async made from an OwnedFd in blocking mode',
'operations on it block the executor thread',
r'''
fn main() {
    watchdog(10);
    let (a, _b) = UnixStream::pair().unwrap();
    let fd: OwnedFd = a.into();
    let s: Async<UnixStream> = Async::try_from(fd).unwrap();
    let fl = unsafe { libc::fcntl(s.as_raw_fd(), libc::F_GETFL) };
    check(fl & libc::O_NONBLOCK != 0, "the handle is in blocking mode");
}
''')
bug('C21-cloexec','C21',[(L,'''        rn::SocketFlags::CLOEXEC | rn::SocketFlags::NONBLOCK,
        protocol,
    )?;

    #[cfg(not''','''        if protocol.is_some() {
            rn::SocketFlags::CLOEXEC | rn::SocketFlags::NONBLOCK
        } else {
            rn::SocketFlags::NONBLOCK
        },
        protocol,
    )?;

    #[cfg(not''')],
'a connected Unix socket and a child process',
'the socket leaks into child processes',
r'''
fn main() {
    watchdog(10);
    let p = std::env::temp_dir().join(format!("demo-sock-{}", std::process::id()));
    let _ = std::fs::remove_file(&p);
    let _l = UnixListener::bind(&p).unwrap();
    let s = block_on(Async::<UnixStream>::connect(&p)).unwrap();
    let _ = std::fs::remove_file(&p);
    let fl = unsafe { libc::fcntl(s.as_raw_fd(), libc::F_GETFD) };
    check(fl & libc::FD_CLOEXEC != 0, "the connected socket is not close-on-exec");
}
''')
bug('C21-deferred-error','C21',[(L,'''        match stream.get_ref().take_error()? {
            None => Ok(stream),
            Some(err) => Err(err),
        }''','''        match stream.get_ref().take_error()? {
            Some(err) if err.kind() == io::ErrorKind::ConnectionRefused => Err(err),
            _ => Ok(stream),
        }''')],
'a connection attempt that fails later with an error other than a refusal',
'connect returns a stream that is not connected',
r'''
fn main() {
    watchdog(30);
    // a listener whose backlog is full does not answer; TCP_USER_TIMEOUT cannot be set from here, so the failure is a
    // reset after the handshake: the peer closes with unread state while the client still waits for its first poll
    let l = unsafe {
        let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0);
        assert!(fd >= 0);
        TcpListener::from_raw_fd(fd)
    };
    unsafe {
        let a = libc::sockaddr_in {
            sin_family: libc::AF_INET as u16,
            sin_port: 0,
            sin_addr: libc::in_addr { s_addr: u32::from_ne_bytes([127, 0, 0, 1]) },
            sin_zero: [0; 8],
        };
        assert_eq!(libc::bind(l.as_raw_fd(), &a as *const _ as *const _, 16), 0);
        assert_eq!(libc::listen(l.as_raw_fd(), 8), 0);
    }
    let at = l.local_addr().unwrap();
    let (_, w) = counter();
    let mut f = Box::pin(Async::<TcpStream>::connect(at));
    check(poll(&mut f, &w).is_pending(), "the wait begins");
    let (s, _) = l.accept().unwrap();
    // an abortive close
    let lg = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const _, 8) };
    drop(s);
    thread::sleep(ms(200));
    let r = block_on(&mut f);
    check(r.is_err(), "connect returns a stream although the connection failed");
}
''')

bug('C05-same-data','C05',[(R,'''            if w.will_wake(cx.waker()) {
                state[dir].waker = replaced;''','''            if w.data() == cx.waker().data() {
                state[dir].waker = replaced;''')],
'two tasks whose wakers share the data pointer but have different vtables poll the same source',
'the second task is neither recorded nor is the first one woken',
r'''
static N: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
fn w0() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { w0() }
    fn w(_: *const ()) { N[0].fetch_add(1, SeqCst); }
    fn d(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, w, w, d);
    RawWaker::new(std::ptr::null(), &VT)
}
fn w1() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { w1() }
    fn w(_: *const ()) { N[1].fetch_add(10, SeqCst); }
    fn d(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, w, w, d);
    RawWaker::new(std::ptr::null(), &VT)
}
fn main() {
    watchdog(30);
    let (a, mut b) = pair();
    let x = unsafe { Waker::from_raw(w0()) };
    let y = unsafe { Waker::from_raw(w1()) };
    check(!x.will_wake(&y), "");
    check(a.poll_readable(&mut Context::from_waker(&x)).is_pending(), "");
    check(a.poll_readable(&mut Context::from_waker(&y)).is_pending(), "");
    check(until(ms(2000), || N[0].load(SeqCst) > 0), "the displaced task is not woken");
    b.write_all(b"x").unwrap();
    check(until(ms(2000), || N[1].load(SeqCst) > 0), "the task that polled last is not woken");
}
''')
bug('C09-past-start','C09',[(L,'''        if let Some((id, waker)) = self.id_and_waker.as_mut() {
            // Re-register the timer with the new timeout.
            *id = Reactor::get().insert_timer(start, waker);
        }
''','''        if let Some((id, waker)) = self.id_and_waker.as_mut() {
            // Re-register the timer with the new timeout. If that is over already, the next poll
            // sees it without the help of the reactor.
            if start > Instant::now() {
                *id = Reactor::get().insert_timer(start, waker);
            }
        }
''')],
'set_interval_at with a start that is not in the future, on a timer that a task is waiting on',
'nothing wakes the waiting task',
r'''
fn main() {
    watchdog(30);
    let (c, w) = counter();
    let mut t = Timer::after(Duration::from_secs(1000));
    check(poll(&mut t, &w).is_pending(), "");
    let start = Instant::now();
    thread::sleep(ms(20));
    t.set_interval_at(start, Duration::from_secs(1000));
    check(until(ms(3000), || c.0.load(SeqCst) > 0), "the waiting task is not woken for the new deadline");
}
''')
bug('C07-full-queue-silent','C07',[(R,'''        while self
            .timer_ops
            .push(TimerOp::Insert(when, id, waker.clone()))
            .is_err()
        {
''','''        let mut drained = false;
        while self
            .timer_ops
            .push(TimerOp::Insert(when, id, waker.clone()))
            .is_err()
        {
            drained = true;
'''),(R,'''        // Notify that a timer has been inserted.
        self.notify();
''','''        // Notify that a timer has been inserted, unless the queue has just been looked after.
        if !drained {
            self.notify();
        }
''')],
'a timer registered while the queue of timer operations is full (of removals) and the reactor is blocked',
'the blocked reactor does not learn of the timer, which fires late or never',
r'''
fn main() {
    watchdog(60);
    let (_, w) = counter();
    let mut v: Vec<Timer> = (0..3000).map(|_| Timer::after(Duration::from_secs(1000))).collect();
    for t in v.iter_mut() {
        check(poll(t, &w).is_pending(), "");
    }
    // block_on elsewhere would help the reactor along; here its own thread blocks for 1000 s
    thread::sleep(ms(500));
    // fills the queue with removals, for which nobody needs to be notified; one of the insertions
    // that follow each removal comes upon a full queue, the last thing that happens
    let (c, w) = counter();
    for n in 0..3 {
        // find the capacity: the queue holds 1000 operations
        let k = 1000;
        for t in v.drain(..k) {
            drop(t);
        }
        let before = c.0.load(SeqCst);
        let mut t = Timer::after(ms(100));
        check(poll(&mut t, &w).is_pending(), "");
        check(until(ms(3000), || c.0.load(SeqCst) > before), "the timer does not fire");
        drop(t);
        let _ = n;
        thread::sleep(ms(300));
    }
}
''')
bug('C16-failed-add','C16',[(R,'''            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);
''','''            let mut sources = self.sources.lock().unwrap();
            if sources.len() > source.key {
                sources.remove(source.key);
            }
            return Err(err);
''')],
'a failed registration (a regular file, a descriptor registered twice) while an earlier slot of the table is free',
'the failed source stays in the table for ever: its key is never given back',
r'''
fn main() {
    watchdog(200);
    let path = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    let f = std::fs::File::create(&path).unwrap();
    std::fs::remove_file(&path).unwrap();
    let mut before = 0;
    for i in 0..120_000 {
        if i == 1000 {
            before = rss();
        }
        let s: Vec<_> = (0..2).map(|_| UnixDatagram::unbound().unwrap()).collect();
        let mut s: Vec<_> = s.into_iter().map(|s| Async::new(s).unwrap()).collect();
        // frees the slot of the first one, then that of the last one, which is the next to be used
        s.remove(0);
        let (x, _y) = UnixDatagram::pair().unwrap();
        let x = Async::new(x).unwrap();
        drop(x);
        let z = Async::new(_y).unwrap();
        let last = s.pop().unwrap();
        drop(z);
        drop(last);
        check(Async::new_nonblocking(f.as_fd()).is_err(), "a regular file cannot be registered");
    }
    let after = rss();
    println!("{before} -> {after} kB");
    check(after < before + 8_000, "failed registrations pile up");
}
fn rss() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap();
    s.lines().find_map(|l| l.strip_prefix("VmRSS:")).unwrap().trim().split(' ').next().unwrap().parse().unwrap()
}
''')
bug('C22-send','C22',[(L,'impl<T> Unpin for Async<T> {}','// The handle is only ever accessed through the reactor.\nunsafe impl<T> Send for Async<T> {}\nimpl<T: ?Sized> Unpin for Async<T> where T: Sized {}')],
'a handle type that must not be sent to another thread',
'wrapping the handle in Async makes it Send',
'''fn main() {
    fn needs<T: Send>() {}
    needs::<Async<TcpStream>>();
}
''',{'demo/src/bin/bad.rs':'''fn main() {
    fn needs<T: Send>() {}
    needs::<async_io::Async<std::rc::Rc<std::net::TcpStream>>>();
}
'''},CF)

bug('C11-oversleep','C11',[(R,'''            (Some(a), Some(b)) => Some(a.min(b)),
''','''            (Some(a), Some(b)) => Some(if a.is_zero() { a } else { a.max(b) }),
''')],
'a step with a caller timeout while a timer is registered: block_on of a future that wakes itself',
'the step oversleeps the caller timeout',
r'''
fn main() {
    watchdog(60);
    let (_, w) = counter();
    let mut far = Timer::after(Duration::from_secs(1000));
    check(poll(&mut far, &w).is_pending(), "");
    let (tx, rx) = std::sync::mpsc::channel();
    thread::spawn(move || {
        block_on(async {
            for i in 0..3000u64 {
                // registering a timer makes whoever drives the reactor let go of it for a moment
                let (_, w) = counter();
                let mut t = Timer::after(Duration::from_secs(1000));
                let _ = poll(&mut t, &w);
                let s = Instant::now();
                while s.elapsed() < Duration::from_micros(i % 200) {
                    std::hint::spin_loop();
                }
                // wake-ups of its own: block_on makes steps with a zero timeout
                for _ in 0..3 {
                    futures_lite::future::yield_now().await;
                }
            }
        });
        tx.send(()).unwrap();
    });
    check(rx.recv_timeout(Duration::from_secs(20)).is_ok(), "block_on hangs while a timer is far away");
}
''')
bug('C12-stuck-flag','C12',[(D,'''                    IO_POLLING.with(|io| io.set(true));
                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                    });

                    // Process available I/O events.
''','''                    IO_POLLING.with(|io| io.set(true));

                    // Process available I/O events.
''')],
'a thread that has processed I/O events between polls in block_on later wakes a block_on call of another thread that is blocked in the OS wait',
'the waker takes its own thread for one that is polling I/O and does not interrupt the OS wait of the other',
r'''
/// makes the thread that drives the reactor let go of it for a moment
fn nudge(us: u64) {
    let (_, w) = counter();
    let mut t = Timer::after(Duration::from_secs(1000));
    let _ = poll(&mut t, &w);
    let s = Instant::now();
    while s.elapsed() < Duration::from_micros(us) {
        std::hint::spin_loop();
    }
}
fn main() {
    watchdog(60);
    // the thread that wakes: gets through the branch that handles a notification
    let (tx, rx) = std::sync::mpsc::channel::<Waker>();
    let (ready, go) = std::sync::mpsc::channel::<()>();
    thread::spawn(move || {
        block_on(async {
            for i in 0..2000u64 {
                nudge(i % 200);
                futures_lite::future::yield_now().await;
            }
        });
        ready.send(()).unwrap();
        while let Ok(w) = rx.recv() {
            thread::sleep(ms(2));
            w.wake();
        }
    });
    go.recv().unwrap();
    let (done, fin) = std::sync::mpsc::channel::<()>();
    let progress = Arc::new(AtomicUsize::new(0));
    let p2 = progress.clone();
    thread::spawn(move || {
        let mut n = 0;
        block_on(futures_lite::future::poll_fn(|cx| {
            n += 1;
            p2.store(n, SeqCst);
            if n == 2000 {
                return Poll::Ready(());
            }
            nudge(n as u64 % 200);
            tx.send(cx.waker().clone()).unwrap();
            Poll::Pending
        }));
        done.send(()).unwrap();
    });
    let mut last = usize::MAX;
    loop {
        if fin.recv_timeout(Duration::from_secs(4)).is_ok() {
            return;
        }
        let p = progress.load(SeqCst);
        check(p != last, "block_on missed a wake-up");
        last = p;
    }
}
''')

K='src/reactor/kqueue.rs'
KQ_SH='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
# (the kqueue backend's source, compiled here against a stand-in for the poller that records the calls)
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp "$D"/demo/src/*.rs "$T/" && cd "$T" || exit 3
mkdir reactor && cp "$PWD/main.rs" "$T/demo.rs"
cp /repo/src/reactor/kqueue.rs "$T/reactor/kqueue.rs" || exit 3
rustc --edition 2021 --crate-type rlib --crate-name polling -o "$T/libpolling.rlib" polling.rs || exit 3
rustc --edition 2021 -A warnings --extern polling="$T/libpolling.rlib" -o "$T/demo" demo.rs || exit 3
timeout 60 "$T/demo"
'''
KQ_POLLING=r'''// stand-in for the polling crate as it is on kqueue platforms
use std::cell::{Cell, RefCell};
use std::io;
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Event {
    pub key: usize,
    pub readable: bool,
    pub writable: bool,
}
impl Event {
    pub const fn new(key: usize, readable: bool, writable: bool) -> Event {
        Event { key, readable, writable }
    }
    pub const fn all(key: usize) -> Event {
        Event::new(key, true, true)
    }
    pub const fn readable(key: usize) -> Event {
        Event::new(key, true, false)
    }
    pub const fn writable(key: usize) -> Event {
        Event::new(key, false, true)
    }
    pub const fn none(key: usize) -> Event {
        Event::new(key, false, false)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PollMode {
    Oneshot,
    Level,
    Edge,
    EdgeOneshot,
}
pub trait AsRawSource {
    fn raw(&self) -> RawFd;
}
impl AsRawSource for RawFd {
    fn raw(&self) -> RawFd {
        *self
    }
}
impl AsRawSource for BorrowedFd<'_> {
    fn raw(&self) -> RawFd {
        self.as_raw_fd()
    }
}
impl AsRawSource for &BorrowedFd<'_> {
    fn raw(&self) -> RawFd {
        self.as_raw_fd()
    }
}
/// answers every call with what `fail` says and writes it down
pub struct Poller {
    pub log: RefCell<Vec<String>>,
    pub fail: Cell<Option<io::ErrorKind>>,
}
impl Poller {
    pub fn say(&self, s: String) -> io::Result<()> {
        self.log.borrow_mut().push(s);
        match self.fail.get() {
            None => Ok(()),
            Some(k) => Err(io::Error::new(k, "the poller failed")),
        }
    }
    pub unsafe fn add(&self, s: impl AsRawSource, e: Event) -> io::Result<()> {
        self.add_with_mode(s, e, PollMode::Oneshot)
    }
    pub unsafe fn add_with_mode(&self, s: impl AsRawSource, e: Event, m: PollMode) -> io::Result<()> {
        self.say(format!("add fd {} {:?} {:?}", s.raw(), e, m))
    }
    pub fn modify(&self, s: impl AsFd, e: Event) -> io::Result<()> {
        self.modify_with_mode(s, e, PollMode::Oneshot)
    }
    pub fn modify_with_mode(&self, s: impl AsFd, e: Event, m: PollMode) -> io::Result<()> {
        self.say(format!("modify fd {} {:?} {:?}", s.as_fd().as_raw_fd(), e, m))
    }
    pub fn delete(&self, s: impl AsFd) -> io::Result<()> {
        self.say(format!("delete fd {}", s.as_fd().as_raw_fd()))
    }
}
pub mod os {
    pub mod kqueue {
        use crate::{PollMode, Poller};
        use std::io;
        use std::num::NonZeroI32;
        #[derive(Debug, Clone, Copy)]
        pub struct Signal(pub std::os::raw::c_int);
        #[derive(Debug, Clone, Copy)]
        #[non_exhaustive]
        pub enum ProcessOps {
            Exit,
            Fork,
            Exec,
        }
        #[derive(Debug)]
        pub struct Process<'a> {
            pid: NonZeroI32,
            ops: ProcessOps,
            _m: std::marker::PhantomData<&'a ()>,
        }
        impl<'a> Process<'a> {
            pub unsafe fn from_pid(pid: NonZeroI32, ops: ProcessOps) -> Self {
                Process { pid, ops, _m: std::marker::PhantomData }
            }
        }
        pub trait Filter {
            fn name(&self) -> String;
        }
        impl Filter for Signal {
            fn name(&self) -> String {
                format!("signal {}", self.0)
            }
        }
        impl Filter for Process<'_> {
            fn name(&self) -> String {
                format!("process {} {:?}", self.pid, self.ops)
            }
        }
        impl<T: Filter> Filter for &T {
            fn name(&self) -> String {
                (**self).name()
            }
        }
        pub trait PollerKqueueExt<F: Filter> {
            fn add_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()>;
            fn modify_filter(&self, filter: F, key: usize, mode: PollMode) -> io::Result<()>;
            fn delete_filter(&self, filter: F) -> io::Result<()>;
        }
        impl<F: Filter> PollerKqueueExt<F> for Poller {
            fn add_filter(&self, f: F, key: usize, m: PollMode) -> io::Result<()> {
                self.say(format!("add {} {} {:?}", f.name(), key, m))
            }
            fn modify_filter(&self, f: F, key: usize, m: PollMode) -> io::Result<()> {
                self.say(format!("modify {} {} {:?}", f.name(), key, m))
            }
            fn delete_filter(&self, f: F) -> io::Result<()> {
                self.say(format!("delete {}", f.name()))
            }
        }
    }
}
'''
KQ_MAIN=r'''mod os {
    pub mod kqueue {
        #[derive(Debug, Copy, Clone, Eq, PartialEq, PartialOrd, Ord, Hash)]
        pub struct Signal(pub i32);
    }
}
#[path = "reactor/kqueue.rs"]
mod kqueue;
use kqueue::Registration;
use polling::{Event, Poller};
use std::io::{ErrorKind, Result};
use std::num::NonZeroI32;

fn check(p: &Poller, what: &str, want: &str, r: Result<()>, fail: Option<ErrorKind>) {
    let log = p.log.replace(vec![]);
    if log != [want] {
        eprintln!("BROKEN: {what}: the poller was told {log:?} instead of {want:?}");
        std::process::exit(1);
    }
    let got = r.err().map(|e| e.kind());
    if got != fail {
        eprintln!("BROKEN: {what}: the poller reported {fail:?} but {got:?} was returned");
        std::process::exit(1);
    }
}

fn main() {
    let p = Poller { log: Default::default(), fail: Default::default() };
    for fail in [None, Some(ErrorKind::NotFound), Some(ErrorKind::AlreadyExists), Some(ErrorKind::Interrupted), Some(ErrorKind::OutOfMemory), Some(ErrorKind::Other)] {
        p.fail.set(fail);
        for n in [1i32, 2, 15, 20] {
            let key = 7 + n as usize;
            let regs = [
                (Registration::Fd(n), format!("fd {n}")),
                (Registration::Signal(os::kqueue::Signal(n)), format!("signal {n}")),
                (Registration::Process(NonZeroI32::new(n).unwrap()), format!("process {n} Exit")),
            ];
            for (r, name) in &regs {
                let fd = name.starts_with("fd");
                let want = if fd { format!("add {name} {:?} Oneshot", Event::none(key)) } else { format!("add {name} {key} Oneshot") };
                check(&p, "add", &want, r.add(&p, key), fail);
                for (a, b) in [(false, false), (false, true), (true, false), (true, true)] {
                    let e = Event::new(key, a, b);
                    let want = if fd { format!("modify {name} {e:?} Oneshot") } else { format!("modify {name} {key} Oneshot") };
                    check(&p, "modify", &want, r.modify(&p, e), fail);
                }
                check(&p, "delete", &format!("delete {name}"), r.delete(&p), fail);
            }
        }
    }
}
'''
KQ={'demo/src/polling.rs':KQ_POLLING,'demo/src/main.rs':KQ_MAIN}

bug('C23-gone-filter','C23',[(K,'Self::Signal(signal) => poller.delete_filter(PollSignal(signal.0)),','Self::Signal(signal) => match poller.delete_filter(PollSignal(signal.0)) {\n                // The filter is one-shot: it is gone once it was delivered.\n                Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(()),\n                res => res,\n            },')],
'deregistering a signal source on a kqueue platform when the poller reports that the filter is not registered',
'the error of the deregistration is not reported', '',extra=KQ,sh=KQ_SH)
bug('C23-skipped-disarm','C23',[(K,'''                // SAFETY: self.raw is a valid file descriptor
                let fd = unsafe { BorrowedFd::borrow_raw(*raw) };
                poller.modify(fd, interest)''','''                if !interest.readable && !interest.writable {
                    // Nothing to wait for, and registrations are one-shot.
                    return Ok(());
                }
                // SAFETY: self.raw is a valid file descriptor
                let fd = unsafe { BorrowedFd::borrow_raw(*raw) };
                poller.modify(fd, interest)''')],
'modifying a registration on a kqueue platform so that no direction is asked for any more',
'the poller is not told: the directions stay armed, and errors of the call are not seen', '',extra=KQ,sh=KQ_SH)
F='src/lib.rs'
bug('C28-spin-full','C28',[(R,'''        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
        }''','''        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, get the reactor to drain it and try again.
            self.notify();
            std::thread::yield_now();
        }''')],
'more timers than fit the request queue are dropped by a task that the reactor step itself wakes and runs (a waker that runs its task in place)',
'the step waits for itself to empty the queue: it spins for ever, and with it the reactor',
r'''
struct DropAll(Mutex<Vec<Timer>>, AtomicBool);
impl Wake for DropAll {
    fn wake(self: Arc<Self>) {
        let v = std::mem::take(&mut *self.0.lock().unwrap());
        drop(v);
        self.1.store(true, SeqCst);
    }
}
fn main() {
    watchdog(60);
    let (_, noop) = counter();
    let mut v = vec![];
    for _ in 0..2500 {
        let mut t = Timer::after(Duration::from_secs(1000));
        let _ = poll(&mut t, &noop);
        v.push(t);
    }
    let d = Arc::new(DropAll(Mutex::new(v), AtomicBool::new(false)));
    let mut t = Timer::after(ms(100));
    let _ = poll(&mut t, &Waker::from(d.clone()));
    check(until(Duration::from_secs(10), || d.1.load(SeqCst)), "the reactor step does not come to an end");
    let (c, w) = counter();
    let mut t = Timer::after(ms(10));
    let _ = poll(&mut t, &w);
    check(until(Duration::from_secs(10), || c.0.load(SeqCst) > 0), "the reactor is stuck");
}
''')
bug('C28-skip-missed','C28',[(F,'''                if let Some(next) = (*when).checked_add(this.period) {
''','''                // Don't fire a burst of events for the periods that were missed.
                let now = Instant::now();
                let mut next = (*when).checked_add(this.period);
                while let Some(missed) = next.filter(|next| *next < now) {
                    next = missed.checked_add(this.period);
                }
                if let Some(next) = next {
''')],
'an interval timer with a zero period (or a tiny one, polled long after its deadline)',
'the poll goes round without getting anywhere and never returns',
r'''
use futures_lite::Stream;
fn main() {
    watchdog(60);
    let done = Arc::new(AtomicUsize::new(0));
    let d = done.clone();
    thread::spawn(move || {
        let (_, w) = counter();
        for start in [Instant::now(), Instant::now() - ms(10), Instant::now() + ms(20)] {
            let mut t = Timer::interval_at(start, Duration::ZERO);
            for _ in 0..3 {
                while Pin::new(&mut t).poll_next(&mut Context::from_waker(&w)).is_pending() {
                    thread::sleep(ms(1));
                }
            }
        }
        d.store(1, SeqCst);
    });
    check(until(Duration::from_secs(10), || done.load(SeqCst) == 1), "polling an interval timer with a zero period does not come to an end");
}
''')
bug('C26-gone-source','C26',[(R,'''                    if let Some(source) = sources.get(ev.key) {
''','''                    {
                        let source = &sources[ev.key];
''')],
'a source is deregistered between the OS wait that reported it and the delivery of its event',
'the reactor step panics, with the source table and the event list locked: the thread that drives the reactor is gone and the locks are poisoned',
r'''
fn main() {
    watchdog(250);
    static PANICS: AtomicUsize = AtomicUsize::new(0);
    std::panic::set_hook(Box::new(|i| {
        PANICS.fetch_add(1, SeqCst);
        eprintln!("{i}");
    }));
    let end = Instant::now() + Duration::from_secs(15);
    let mut hs = vec![];
    for _ in 0..8 {
        hs.push(thread::spawn(move || {
            let (_, w) = counter();
            let mut n = 0u32;
            while Instant::now() < end && PANICS.load(SeqCst) == 0 {
                let (a, mut b) = pair();
                let _ = a.poll_readable(&mut Context::from_waker(&w));
                let _ = b.write(&[1]);
                n = n.wrapping_mul(1664525).wrapping_add(1013904223);
                for _ in 0..(n >> 20) {
                    std::hint::spin_loop();
                }
                drop(a);
            }
        }));
    }
    let bad = hs.into_iter().map(|h| h.join().is_err()).fold(false, |a, b| a | b);
    check(!bad && PANICS.load(SeqCst) == 0, "a thread panicked");
}
''')
bug('C27-racy-init','C27',[(R,'''        static REACTOR: OnceCell<Reactor> = OnceCell::new();

        REACTOR.get_or_init_blocking(|| {
            crate::driver::init();
            Reactor {
                poller: Poller::new().expect("cannot initialize I/O event notification"),
                ticker: AtomicUsize::new(0),
                sources: Mutex::new(Slab::new()),
                events: Mutex::new(Events::new()),
                timers: Mutex::new(BTreeMap::new()),
                timer_ops: ConcurrentQueue::bounded(TIMER_QUEUE_SIZE),
            }
        })''','''        static REACTOR: OnceCell<&'static Reactor> = OnceCell::new();

        // Fast path: the reactor is running.
        if let Some(reactor) = REACTOR.get() {
            return reactor;
        }

        crate::driver::init();
        let reactor: &'static Reactor = Box::leak(Box::new(Reactor {
            poller: Poller::new().expect("cannot initialize I/O event notification"),
            ticker: AtomicUsize::new(0),
            sources: Mutex::new(Slab::new()),
            events: Mutex::new(Events::new()),
            timers: Mutex::new(BTreeMap::new()),
            timer_ops: ConcurrentQueue::bounded(TIMER_QUEUE_SIZE),
        }));
        REACTOR.set_blocking(reactor).ok();
        reactor''')],
'several threads use the crate for the first time at the same moment',
'each of them makes a reactor of its own; what they register there is never served',
r'''
fn main() {
    // one process can try only once
    if std::env::args().nth(1).is_none() {
        for _ in 0..150 {
            let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap();
            if !s.success() {
                std::process::exit(1);
            }
        }
        return;
    }
    watchdog(30);
    let ready = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for _ in 0..8 {
        let ready = ready.clone();
        hs.push(thread::spawn(move || {
            ready.fetch_add(1, SeqCst);
            while ready.load(SeqCst) < 8 {
                std::hint::spin_loop();
            }
            let mut t = Timer::after(ms(1));
            let (c, w) = counter();
            if poll(&mut t, &w).is_ready() {
                w.wake_by_ref();
            }
            (t, c)
        }));
    }
    let v: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    check(until(Duration::from_secs(10), || v.iter().all(|(_, c)| c.0.load(SeqCst) > 0)), "a timer registered by one of the first threads never fires");
}
''')
bug('C02-old-events','C02',[(R,'''        self.events.clear();

''','')],
'a source becomes ready, is waited for again, and a later step has an event of any other source',
'the later step delivers the old event again: the wait completes although nothing happened',
r'''
fn main() {
    watchdog(60);
    let (a, mut pa) = pair();
    let (b, mut pb) = pair();
    let (_, w) = counter();
    let (ca, wa) = counter();
    let (cb, wb) = counter();
    let mut f = a.readable();
    check(poll(&mut f, &w).is_pending(), "readable at the start");
    pa.write_all(&[1]).unwrap();
    check(until(Duration::from_secs(5), || poll(&mut f, &w).is_ready()), "the event was not delivered");
    drop(f);
    let mut x = [0; 8];
    check(a.get_ref().read(&mut x).unwrap() == 1, "read");
    // now there is nothing to read any more
    let mut f = a.readable();
    check(poll(&mut f, &wa).is_pending(), "stale before the second wait");
    thread::sleep(ms(50));
    check(poll(&mut f, &wa).is_pending(), "stale after the registration");
    let mut g = b.readable();
    check(poll(&mut g, &wb).is_pending(), "b is readable");
    pb.write_all(&[1]).unwrap();
    check(until(Duration::from_secs(5), || cb.0.load(SeqCst) > 0), "b's event was not delivered");
    thread::sleep(ms(100));
    check(ca.0.load(SeqCst) == 0 && poll(&mut f, &wa).is_pending(), "an old event completed a new wait");
}
''')
bug('C05-armed-already','C05',[(R,'''        // Update interest in this I/O handle.
        if was_empty {
            // Create the event that we are interested in.
            let event = {
                let mut event = Event::none(self.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };

            // Register interest in it.
            if let''','''        if !was_empty {
            // The interest in this I/O handle is up to date.
            return Poll::Pending;
        }

        // Update interest in this I/O handle.
        {
            // Create the event that we are interested in.
            let event = {
                let mut event = Event::none(self.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };

            // Register interest in it.
            if let''')],
'a second task polls the same direction through poll_readable or poll_writable while the first one waits there',
'the first task is neither recorded any more nor woken: it sleeps for ever',
r'''
fn main() {
    watchdog(60);
    let (a, mut p) = pair();
    let (c1, w1) = counter();
    let (c2, w2) = counter();
    check(a.poll_readable(&mut Context::from_waker(&w1)).is_pending(), "readable at the start");
    check(a.poll_readable(&mut Context::from_waker(&w2)).is_pending(), "readable at the start");
    check(c1.0.load(SeqCst) > 0, "the task that was replaced is not woken");
    p.write_all(&[1]).unwrap();
    check(until(Duration::from_secs(5), || c2.0.load(SeqCst) > 0), "the second task is not woken");
}
''')
bug('C29-accept-yields','C29',[(L,'''        let (stream, addr) = self.read_with(|io| io.accept()).await?;
        Ok((Async::new(stream)?, addr))
    }

    /// Returns a stream of incoming UDS connections.''','''        let (stream, addr) = self.read_with(|io| io.accept()).await?;
        let stream = Async::new(stream)?;

        // Arm the new stream before it is handed out.
        optimistic(stream.writable()).await?;
        Ok((stream, addr))
    }

    /// Returns a stream of incoming UDS connections.''')],
'accept() is dropped (a race, a timeout) at its second suspension, right after the connection was taken from the queue',
'the connection that was accepted is thrown away with the future: the client sees it closed and nobody ever serves it',
r'''
fn main() {
    watchdog(60);
    let path = std::env::current_dir().unwrap().join("sock");
    let l = Async::<UnixListener>::bind(&path).unwrap();
    let (_, w) = counter();
    let mut c = UnixStream::connect(&path).unwrap();
    // a task that gives up as soon as accept() is not ready at once
    let mut f = Box::pin(l.accept());
    let mut got = None;
    match poll(&mut f, &w) {
        Poll::Ready(r) => got = Some(r.unwrap().0),
        Poll::Pending => {}
    }
    drop(f);
    // and one that tries again later
    if got.is_none() {
        let mut f = Box::pin(l.accept());
        until(Duration::from_secs(5), || match poll(&mut f, &w) {
            Poll::Ready(r) => {
                got = Some(r.unwrap().0);
                true
            }
            Poll::Pending => false,
        });
    }
    check(got.is_some(), "the connection is lost");
    let s = got.unwrap();
    s.get_ref().write_all(b"x").unwrap();
    let mut x = [0; 1];
    c.read_exact(&mut x).unwrap();
}
''')
bug('C30-fresh-descriptor','C30',[(L,'''impl<T: Into<OwnedFd>> TryFrom<Async<T>> for OwnedFd {
    type Error = io::Error;

    fn try_from(value: Async<T>) -> Result<Self, Self::Error> {
        value.into_inner().map(Into::into)
    }''','''impl<T: Into<OwnedFd>> TryFrom<Async<T>> for OwnedFd {
    type Error = io::Error;

    fn try_from(value: Async<T>) -> Result<Self, Self::Error> {
        let fd: OwnedFd = value.into_inner()?.into();

        // The descriptor may still be known to the poller: hand out a fresh one.
        fd.try_clone()
    }''')],
'an Async is converted into an OwnedFd whose number is recorded elsewhere (a table, another poller), or which has no close-on-exec flag',
'OwnedFd::try_from returns a duplicate and closes the handle itself: its number is free for other files and its flags are lost',
r'''
fn main() {
    watchdog(60);
    let (a, _p) = UnixStream::pair().unwrap();
    let raw = a.as_raw_fd();
    // this descriptor is to be inherited
    unsafe { libc::fcntl(raw, libc::F_SETFD, 0) };
    let a = Async::new(a).unwrap();
    check(a.as_raw_fd() == raw, "another descriptor in the Async");
    let fd = OwnedFd::try_from(a).unwrap();
    check(fd.as_raw_fd() == raw, "another descriptor than the one that was wrapped");
    check(unsafe { libc::fcntl(raw, libc::F_GETFD) } == 0, "the flags of the descriptor changed");
}
''')
bug('C30-spare-registration','C30',[(U,'''        Self { raw: f.as_raw_fd() }''','''        let raw = f.as_raw_fd();
        if raw > 2 {
            return Self { raw };
        }

        // The standard streams are shared with the rest of the process, which may have them in
        // pollers of its own.
        match f.try_clone_to_owned() {
            Ok(fd) => Self {
                raw: fd.into_raw_fd(),
            },
            Err(_) => Self { raw },
        }'''),(U,'use std::os::unix::io::{AsRawFd, BorrowedFd, RawFd};','use std::os::unix::io::{AsRawFd, BorrowedFd, IntoRawFd, RawFd};')],
'one of the standard streams is wrapped',
'the Async is registered with a duplicate that is never closed: the pipe behind the stream stays open after the Async is gone, and its peer never sees the end',
r'''
fn main() {
    watchdog(60);
    // a pipe as the standard output
    let (mut r, w) = pipe();
    let keep = unsafe { libc::dup(1) };
    check(unsafe { libc::dup2(w.as_raw_fd(), 1) } == 1, "dup2");
    drop(w);
    let a = Async::new(unsafe { std::fs::File::from_raw_fd(1) }).unwrap();
    a.get_ref().write_all(b"x").unwrap();
    drop(a);
    let mut v = vec![];
    let t = thread::spawn(move || {
        r.read_to_end(&mut v).unwrap();
        v
    });
    check(until(Duration::from_secs(5), || t.is_finished()), "the pipe is still open");
    check(t.join().unwrap() == b"x", "what was written");
    unsafe { libc::dup2(keep, 1) };
}
fn pipe() -> (std::fs::File, std::fs::File) {
    let mut f = [0; 2];
    check(unsafe { libc::pipe2(f.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "pipe2");
    unsafe { (std::fs::File::from_raw_fd(f[0]), std::fs::File::from_raw_fd(f[1])) }
}
''')
bug('C10-narrow-identity','C10',[('src/reactor.rs','static ID_GENERATOR: AtomicUsize = AtomicUsize::new(1);\n        let id = ID_GENERATOR.fetch_add(1, Ordering::Relaxed);','// Only tells timers with the same deadline apart, which are few.\n        static ID_GENERATOR: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(1);\n        let id = ID_GENERATOR.fetch_add(1, Ordering::Relaxed) as usize;')],
'two timers with the same deadline of which the second is registered exactly 65536 registrations after the first',
'the second registration takes the place of the first: the task of the first timer is never woken','''
fn main() {
    watchdog(100);
    let when = Instant::now() + Duration::from_secs(4);
    let far = Instant::now() + Duration::from_secs(3600);
    let (c1, w1) = counter();
    let (_, w2) = counter();
    let mut a = Timer::at(when);
    check(poll(&mut a, &w1).is_pending(), "not due yet");
    for _ in 0..65535 {
        // another registration
        let mut t = Timer::at(far);
        let _ = poll(&mut t, &w2);
    }
    let mut b = Timer::at(when);
    if poll(&mut b, &w2).is_ready() {
        return; // a very slow machine
    }
    drop(b);
    check(until(Duration::from_secs(12), || c1.0.load(SeqCst) > 0), "a timer's task was not woken");
}
''')
bug('C12-marked-threads','C12',[('src/driver.rs','const { Cell::new(false) }','const { Cell::new(true) }')],
'a wake-up from a thread that has never been in block_on, while block_on is blocked in the OS wait',
'the wait is not interrupted: the task is not polled until something else happens','''
fn main() {
    watchdog(60);
    let mut n = 0;
    for _ in 0..10 {
        let done = Arc::new(AtomicBool::new(false));
        let d2 = done.clone();
        let mut started = false;
        let t0 = Instant::now();
        block_on(futures_lite::future::poll_fn(|cx| {
            if done.load(SeqCst) {
                return Poll::Ready(());
            }
            if !started {
                started = true;
                let (w, d3) = (cx.waker().clone(), d2.clone());
                thread::spawn(move || {
                    thread::sleep(ms(100));
                    d3.store(true, SeqCst);
                    w.wake();
                });
            }
            Poll::Pending
        }));
        if t0.elapsed() > Duration::from_secs(3) { n += 1; }
    }
    check(n == 0, "a wake-up was noticed late");
}
''')
bug('C14-spins','C14',[('src/driver.rs','if BLOCK_ON_COUNT.load(Ordering::SeqCst) > 0 {','// A single block_on() call may be idling without parking, so only relax if there are more.\n        if BLOCK_ON_COUNT.load(Ordering::SeqCst) > 1 {')],
'exactly one block_on call running, blocked in the reactor',
'the background thread tries to take the reactor again and again without a pause','''
fn main() {
    watchdog(60);
    fn cpu() -> Duration {
        let mut t: libc::timespec = unsafe { std::mem::zeroed() };
        unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
        Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
    }
    // The thread that is in block_on first must win the reactor: it does so now and then.
    block_on(Timer::after(ms(10)));
    let mut most = Duration::ZERO;
    for _ in 0..6 {
        let c0 = cpu();
        // polled all the time, so that this thread drives the reactor most of the time
        block_on(async {
            for _ in 0..20 {
                Timer::after(ms(25)).await;
            }
        });
        most = most.max(cpu() - c0);
    }
    check(most < ms(200), &format!("waiting for half a second takes {most:?} of processor time"));
}
''')
bug('C26-far-period','C26',[('src/lib.rs','if let Some(next) = (*when).checked_add(this.period) {\n                    *when = next;','// Only intervals go on; `Duration::MAX` stands for no period.\n                if this.period != Duration::MAX {\n                    let next = *when + this.period;\n                    *when = next;')],
'an interval whose period takes its next deadline out of the range of Instant',
'polling it panics when it fires','''
fn main() {
    watchdog(60);
    for p in [Duration::from_secs(u64::MAX), Duration::from_secs(u64::MAX / 2 + 7), Duration::from_secs(i64::MAX as u64), Duration::MAX - ms(1)] {
        let r = std::panic::catch_unwind(|| {
            use futures_lite::StreamExt;
            block_on(Timer::interval_at(Instant::now(), p).next()).is_some()
        });
        check(matches!(r, Ok(true)), "polling an interval panics");
    }
}
''')
bug('C29-due-left','C29',[('src/lib.rs','''            // Deregister the timer from the reactor.
            Reactor::get().remove_timer(when, id);
        }
    }
}

impl Future for Timer''','''            // The registration of a timer that is due is being consumed by the reactor.
            if when > Instant::now() {
                // Deregister the timer from the reactor.
                Reactor::get().remove_timer(when, id);
            }
        }
    }
}

impl Future for Timer''')],
'a pending timer that is dropped when its deadline has passed but before the reactor has looked at its registration',
'the registration stays: the task is woken for a timer that no longer exists','''
fn main() {
    watchdog(60);
    // Keep the reactor away from the timers: a waker that takes its time in a reactor step.
    struct Block(AtomicBool, AtomicBool);
    impl Wake for Block {
        fn wake(self: Arc<Self>) {
            self.0.store(true, SeqCst);
            let t = Instant::now();
            while !self.1.load(SeqCst) && t.elapsed() < Duration::from_secs(20) {
                thread::sleep(ms(1));
            }
        }
    }
    let b = Arc::new(Block(AtomicBool::new(false), AtomicBool::new(false)));
    let bw = Waker::from(b.clone());
    let mut t = Timer::after(ms(20));
    let _ = poll(&mut t, &bw);
    check(until(Duration::from_secs(5), || b.0.load(SeqCst)), "the first timer's task is woken");
    let (c, w) = counter();
    let mut x = Timer::after(ms(50));
    check(poll(&mut x, &w).is_pending(), "not due");
    thread::sleep(ms(100));
    drop(x);
    drop(w);
    b.1.store(true, SeqCst);
    // let the reactor work
    block_on(Timer::after(ms(100)));
    block_on(Timer::after(ms(100)));
    check(c.0.load(SeqCst) == 0, "a dropped timer wakes its task");
    check(Arc::strong_count(&c) == 1, "a dropped timer leaves its registration behind");
}
''')
bug('C05-wakes-itself','C05',[(R,'''        let replaced = state[dir].waker.take();
        if let Some(w) = &replaced {
            if w.will_wake(cx.waker()) {
                state[dir].waker = replaced;
                return Poll::Pending;
            }
        }
        state[dir].waker''','''        let replaced = state[dir].waker.take();
        state[dir].waker''')],
'a task that waits through poll_readable or poll_writable is polled again before the event, for whatever other reason',
'it wakes itself with every poll and so is polled over and over until the event comes','''
fn main() {
    watchdog(60);
    let (a, _b) = pair();
    let (c, w) = counter();
    for _ in 0..3 {
        check(a.poll_readable(&mut Context::from_waker(&w)).is_pending(), "not readable");
    }
    thread::sleep(ms(100));
    check(c.0.load(SeqCst) == 0, "polling again wakes the polling task");
}
''')
bug('C02-forgets-progress','C02',[(R,'''        if let Some((a, b)) = state[dir].ticks {
            // If''','''        if let Some((a, b)) = state[dir].ticks.take() {
            // If'''),(R,'''                state[dir].ticks = None;
                return Poll::Ready(Ok(()));
            }
        }

        let was_empty = state[dir].is_empty();''','''                return Poll::Ready(Ok(()));
            }
        }

        let was_empty = state[dir].is_empty();''')],
'a task that waits through poll_readable or poll_writable is polled again with the same waker before the event',
'what was remembered for recognising the event is gone: the task is woken by the event, polls, and gets Pending','''
fn main() {
    watchdog(60);
    let (a, mut b) = pair();
    let (c, w) = counter();
    for _ in 0..2 {
        check(a.poll_readable(&mut Context::from_waker(&w)).is_pending(), "not readable");
    }
    b.write_all(&[1]).unwrap();
    check(until(Duration::from_secs(10), || c.0.load(SeqCst) > 0), "the task is woken");
    check(a.poll_readable(&mut Context::from_waker(&w)).is_ready(), "the wait does not complete although its event was delivered");
}
''')
