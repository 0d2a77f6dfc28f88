F='src/lib.rs';R='src/reactor.rs';D='src/driver.rs';U='src/reactor/unix.rs'
STATE_IDX=[]
M=[
('y-state-type',[(R,'''    state: Mutex<[Direction; 2]>,
}
''','''    state: Mutex<State>,
}

/// Both directions of a source.
#[derive(Debug, Default)]
struct State {
    read: Direction,
    write: Direction,
}

impl State {
    /// The events somebody waits for.
    fn interest(&self, key: usize) -> Event {
        let mut event = Event::none(key);
        event.readable = !self.read.is_empty();
        event.writable = !self.write.is_empty();
        event
    }

    fn is_empty(&self) -> bool {
        self.read.is_empty() && self.write.is_empty()
    }
}

impl std::ops::Index<usize> for State {
    type Output = Direction;

    fn index(&self, dir: usize) -> &Direction {
        match dir {
            READ => &self.read,
            _ => &self.write,
        }
    }
}

impl std::ops::IndexMut<usize> for State {
    fn index_mut(&mut self, dir: usize) -> &mut Direction {
        match dir {
            READ => &mut self.read,
            _ => &mut self.write,
        }
    }
}
'''),(R,'''                        if !state[READ].is_empty() || !state[WRITE].is_empty() {
                            // Create the event that we are interested in.
                            let event = {
                                let mut event = Event::none(source.key);
                                event.readable = !state[READ].is_empty();
                                event.writable = !state[WRITE].is_empty();
                                event
                            };
''','''                        if !state.is_empty() {
                            // Create the event that we are interested in.
                            let event = state.interest(source.key);
'''),(R,'''            let event = {
                let mut event = Event::none(self.key);
                event.readable = !state[READ].is_empty();
                event.writable = !state[WRITE].is_empty();
                event
            };
''','''            let event = state.interest(self.key);
''')]),
('y-newtype-state',[(R,'''    state: Mutex<[Direction; 2]>,
}
''','''    state: Mutex<State>,
}

/// Both directions of a source.
#[derive(Debug, Default)]
struct State([Direction; 2]);

impl std::ops::Deref for State {
    type Target = [Direction; 2];

    fn deref(&self) -> &Self::Target {
        &self.0
    }
}

impl std::ops::DerefMut for State {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
''')]),
('y-mod-direction',[(R,'''/// A read or write direction.
#[derive(Debug, Default)]
struct Direction {''','''use direction::Direction;

mod direction {
use slab::Slab;
use std::task::Waker;

/// A read or write direction.
#[derive(Debug, Default)]
pub(super) struct Direction {'''),(R,'''    tick: usize,

    /// Ticks remembered by `Async::poll_readable()` or `Async::poll_writable()`.
    ticks: Option<(usize, usize)>,

    /// Waker stored by `Async::poll_readable()` or `Async::poll_writable()`.
    waker: Option<Waker>,''','''    pub(super) tick: usize,

    /// Ticks remembered by `Async::poll_readable()` or `Async::poll_writable()`.
    pub(super) ticks: Option<(usize, usize)>,

    /// Waker stored by `Async::poll_readable()` or `Async::poll_writable()`.
    pub(super) waker: Option<Waker>,'''),(R,'''    wakers: Slab<Option<Waker>>,
}
''','''    pub(super) wakers: Slab<Option<Waker>>,
}
'''),(R,'''    fn is_empty(&self) -> bool {
        self.waker''','''    pub(super) fn is_empty(&self) -> bool {
        self.waker'''),(R,'''    fn drain_into(&mut self, dst: &mut Vec<Waker>) {''','''    pub(super) fn drain_into(&mut self, dst: &mut Vec<Waker>) {'''),(R,'''                dst.push(w);
            }
        }
    }
}
''','''                dst.push(w);
            }
        }
    }
}
}
''')]),
('y-enum-dir',[(R,'''const READ: usize = 0;
const WRITE: usize = 1;
''','''#[derive(Clone, Copy, PartialEq, Eq)]
enum Dir {
    Read = 0,
    Write = 1,
}

const READ: usize = Dir::Read as usize;
const WRITE: usize = Dir::Write as usize;
'''),(R,'''    pub(crate) fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_ready(READ, cx)''','''    pub(crate) fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_ready(Dir::Read, cx)'''),(R,'''        self.poll_ready(WRITE, cx)''','''        self.poll_ready(Dir::Write, cx)'''),(R,'''    fn poll_ready(&self, dir: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
''','''    fn poll_ready(&self, dir: Dir, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let dir = dir as usize;
''')]),
('y-wakelist',[(R,'''/// A single timer operation.
enum TimerOp {''','''/// The tasks that a reactor step has to wake.
#[derive(Default)]
struct WakeList {
    wakers: Vec<Waker>,
}

impl WakeList {
    /// Wakes all of them.
    fn wake_all(self) {
        tracing::trace!("{} ready wakers", self.wakers.len());
        self.wakers.into_iter().for_each(|waker| {
            // Don't let a panicking waker blow everything up.
            panic::catch_unwind(|| waker.wake()).ok();
        });
    }
}

/// A single timer operation.
enum TimerOp {'''),(R,'''        let mut wakers = Vec::new();

        // Process ready timers.
        let next_timer = self.reactor.process_timers(&mut wakers);''','''        let mut list = WakeList::default();
        let wakers = &mut list.wakers;

        // Process ready timers.
        let next_timer = self.reactor.process_timers(wakers);'''),(R,'''                    self.reactor.process_timers(&mut wakers);
                }
                Ok(())''','''                    self.reactor.process_timers(wakers);
                }
                Ok(())'''),(R,'''                                state[dir].drain_into(&mut wakers);''','''                                state[dir].drain_into(wakers);'''),(R,'''                                state[READ].drain_into(&mut wakers);
                                state[WRITE].drain_into(&mut wakers);''','''                                state[READ].drain_into(wakers);
                                state[WRITE].drain_into(wakers);'''),(R,'''        tracing::trace!("{} ready wakers", wakers.len());
        for waker in wakers {
            // Don't let a panicking waker blow everything up.
            panic::catch_unwind(|| waker.wake()).ok();
        }
''','''        list.wake_all();
''')]),
('y-bump',[(R,'''        let tick = self
            .reactor
            .ticker
            .fetch_add(1, Ordering::SeqCst)
            .wrapping_add(1);
''','''        let tick = self.reactor.bump_ticker();
'''),(R,'''    /// Registers an I/O source in the reactor.
''','''    /// Begins a new round and returns its number.
    #[inline]
    fn bump_ticker(&self) -> usize {
        let previous = self.ticker.fetch_add(1, Ordering::SeqCst);
        previous.wrapping_add(1)
    }

    /// Registers an I/O source in the reactor.
''')]),
('y-mintimeout',[(R,'''        let timeout = match (next_timer, timeout) {
            (None, None) => None,
            (Some(t), None) | (None, Some(t)) => Some(t),
            (Some(a), Some(b)) => Some(a.min(b)),
        };
''','''        let timeout = earlier(next_timer, timeout);
'''),(R,'''/// A single timer operation.
enum TimerOp {''','''/// The shorter one of two optional durations.
fn earlier(a: Option<Duration>, b: Option<Duration>) -> Option<Duration> {
    match (a, b) {
        (Some(a), Some(b)) if b < a => Some(b),
        (Some(a), _) => Some(a),
        (None, b) => b,
    }
}

/// A single timer operation.
enum TimerOp {''')]),
('y-rollback-guard',[(R,'''        if let Err(err) = source.registration.add(&self.poller, source.key) {
            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);
        }

        Ok(source)
''','''        let res = source.registration.add(&self.poller, source.key);
        match res {
            Ok(()) => Ok(source),
            Err(err) => {
                self.forget(&source);
                Err(err)
            }
        }
'''),(R,'''    /// Deregisters an I/O source from the reactor.
''','''    /// Removes an I/O source from the table.
    fn forget(&self, source: &Source) {
        let mut sources = self.sources.lock().unwrap();
        sources.remove(source.key);
    }

    /// Deregisters an I/O source from the reactor.
''')]),
('y-op-apply',[(R,'''            .for_each(|op| match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    removed.extend(timers.remove(&(when, id)));
                }
            });''','''            .for_each(|op| op.apply(timers, removed));'''),(R,'''    Remove(Instant, usize),
}
''','''    Remove(Instant, usize),
}

impl TimerOp {
    /// Applies the operation.
    fn apply(self, timers: &mut BTreeMap<(Instant, usize), Waker>, removed: &mut Vec<Waker>) {
        match self {
            TimerOp::Insert(when, id, waker) => {
                timers.insert((when, id), waker);
            }
            TimerOp::Remove(when, id) => removed.extend(timers.remove(&(when, id))),
        }
    }
}
''')]),
('y-op-struct',[(R,'''enum TimerOp {
    Insert(Instant, usize, Waker),
    Remove(Instant, usize),
}
''','''struct TimerOp {
    when: Instant,
    id: usize,
    /// The task of the timer, or `None` to remove the timer.
    waker: Option<Waker>,
}
'''),(R,'''            .push(TimerOp::Insert(when, id, waker.clone()))
''','''            .push(TimerOp {
                when,
                id,
                waker: Some(waker.clone()),
            })
'''),(R,'''        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {''','''        while self
            .timer_ops
            .push(TimerOp {
                when,
                id,
                waker: None,
            })
            .is_err()
        {'''),(R,'''            .for_each(|op| match op {
                TimerOp::Insert(when, id, waker) => {
                    timers.insert((when, id), waker);
                }
                TimerOp::Remove(when, id) => {
                    removed.extend(timers.remove(&(when, id)));
                }
            });''','''            .for_each(|TimerOp { when, id, waker }| {
                if let Some(waker) = waker {
                    timers.insert((when, id), waker);
                } else {
                    removed.extend(timers.remove(&(when, id)));
                }
            });''')]),
('y-slot-and-ticks',[(R,'''    ticks: Option<(usize, usize)>,
    index: Option<usize>,
    _capture''','''    /// The slot of our waker and the ticks when we took it.
    slot: Option<(usize, (usize, usize))>,
    _capture'''),(R,'''            ticks: None,
            index: None,
            _capture''','''            slot: None,
            _capture'''),(R,'''            dir,
            ticks,
            index,
            ..
        } = &mut *self;''','''            dir,
            slot,
            ..
        } = &mut *self;'''),(R,'''        if let Some((a, b)) = *ticks {
            // If `state[dir].tick` has changed to a value other than the old reactor tick,
            // that means a newer reactor tick has delivered an event.
            if state[*dir].tick''','''        if let Some((_, (a, b))) = *slot {
            // If `state[dir].tick` has changed to a value other than the old reactor tick,
            // that means a newer reactor tick has delivered an event.
            if state[*dir].tick'''),(R,'''        let i = match *index {
            Some(i) => i,
            None => {
                let i = state[*dir].wakers.insert(None);
                *index = Some(i);
                *ticks = Some((Reactor::get().ticker(), state[*dir].tick));
                i
            }
        };''','''        let i = match *slot {
            Some((i, _)) => i,
            None => {
                let ticks = (Reactor::get().ticker(), state[*dir].tick);
                let i = state[*dir].wakers.insert(None);
                *slot = Some((i, ticks));
                i
            }
        };'''),(R,'''        if let Some(key) = self.index {''','''        if let Some((key, _)) = self.slot {''')]),
('y-lock-fn',[(R,'''/// A single timer operation.
enum TimerOp {''','''/// Locks a mutex. Nothing panics while it holds one of ours.
fn locked<T>(mutex: &Mutex<T>) -> MutexGuard<'_, T> {
    mutex.lock().unwrap_or_else(|err| err.into_inner())
}

/// A single timer operation.
enum TimerOp {'''),(R,'''        let mut state = handle.borrow().source.state.lock().unwrap();''','''        let mut state = locked(&handle.borrow().source.state);'''),(R,'''            let mut state = self.handle.borrow().source.state.lock().unwrap();''','''            let mut state = locked(&self.handle.borrow().source.state);'''),(R,'''        let mut state = self.state.lock().unwrap();''','''        let mut state = locked(&self.state);'''),(R,'''                        let mut state = source.state.lock().unwrap();''','''                        let mut state = locked(&source.state);''')]),
('y-waker-ops',[(R,'''    fn drain_into(&mut self, dst: &mut Vec<Waker>) {
        if let Some(w) = self.waker.take() {
            dst.push(w);
        }
        for (_, opt) in self.wakers.iter_mut() {
            if let Some(w) = opt.take() {
                dst.push(w);
            }
        }
    }
''','''    fn drain_into(&mut self, dst: &mut Vec<Waker>) {
        let Direction { waker, wakers, .. } = self;
        let slots = wakers.iter_mut().map(|(_, slot)| slot);
        dst.extend(std::iter::once(waker).chain(slots).filter_map(Option::take));
    }
''')]),
('y-deliver-method',[(R,'''                        for &(dir, emitted) in &[(WRITE, ev.writable), (READ, ev.readable)] {
                            if emitted {
                                state[dir].tick = tick;
                                state[dir].drain_into(&mut wakers);
                            }
                        }
''','''                        if ev.writable {
                            state[WRITE].deliver(tick, &mut wakers);
                        }
                        if ev.readable {
                            state[READ].deliver(tick, &mut wakers);
                        }
'''),(R,'''    /// Moves all wakers into a `Vec`.
''','''    /// Takes note of an event and moves all wakers into a `Vec`.
    fn deliver(&mut self, tick: usize, dst: &mut Vec<Waker>) {
        self.drain_into(dst);
        self.tick = tick;
    }

    /// Moves all wakers into a `Vec`.
''')]),
('y-has-news',[(R,'''        if let Some((a, b)) = state[dir].ticks {
            // If `state[dir].tick` has changed to a value other than the old reactor tick,
            // that means a newer reactor tick has delivered an event.
            if state[dir].tick != a && state[dir].tick != b {
                state[dir].ticks = None;
                return Poll::Ready(Ok(()));
            }
        }
''','''        if state[dir].ticks.is_some_and(|ticks| state[dir].delivered_since(ticks)) {
            state[dir].ticks = None;
            return Poll::Ready(Ok(()));
        }
'''),(R,'''        if let Some((a, b)) = *ticks {
            // If `state[dir].tick` has changed to a value other than the old reactor tick,
            // that means a newer reactor tick has delivered an event.
            if state[*dir].tick != a && state[*dir].tick != b {
                return Poll::Ready(Ok(()));
            }
        }
''','''        if ticks.is_some_and(|ticks| state[*dir].delivered_since(ticks)) {
            return Poll::Ready(Ok(()));
        }
'''),(R,'''    /// Moves all wakers into a `Vec`.
''','''    /// Whether an event of a newer round than the remembered one was delivered.
    fn delivered_since(&self, (reactor, source): (usize, usize)) -> bool {
        ![reactor, source].contains(&self.tick)
    }

    /// Moves all wakers into a `Vec`.
''')]),
('y-pn-letelse',[(F,'''        let this = self.get_mut();

        if let Some(ref mut when) = this.when {
            // Check if the timer has already fired.
            if Instant::now() >= *when {
                if let Some((id, _)) = this.id_and_waker.take() {
                    // Deregister the timer from the reactor.
                    Reactor::get().remove_timer(*when, id);
                }
                let result_time = *when;
                if let Some(next) = (*when).checked_add(this.period) {
                    *when = next;
                    // Register the timer in the reactor.
                    let id = Reactor::get().insert_timer(next, cx.waker());
                    this.id_and_waker = Some((id, cx.waker().clone()));
                } else {
                    this.when = None;
                }
                return Poll::Ready(Some(result_time));
            } else {
                match &this.id_and_waker {
                    None => {
                        // Register the timer in the reactor.
                        let id = Reactor::get().insert_timer(*when, cx.waker());
                        this.id_and_waker = Some((id, cx.waker().clone()));
                    }
                    Some((id, w)) if !w.will_wake(cx.waker()) => {
                        // Deregister the timer from the reactor to remove the old waker.
                        Reactor::get().remove_timer(*when, *id);

                        // Register the timer in the reactor with the new waker.
                        let id = Reactor::get().insert_timer(*when, cx.waker());
                        this.id_and_waker = Some((id, cx.waker().clone()));
                    }
                    Some(_) => {}
                }
            }
        } else {
            // Nothing to register in the reactor yet, but remember the waker so that it gets
            // registered when the timer is set.
            match &this.id_and_waker {
                Some((_, w)) if w.will_wake(cx.waker()) => {}
                _ => this.id_and_waker = Some((0, cx.waker().clone())),
            }
        }

        Poll::Pending
    }
''','''        let this = self.get_mut();
        let known = this
            .id_and_waker
            .as_ref()
            .is_some_and(|(_, w)| w.will_wake(cx.waker()));

        let Some(when) = this.when else {
            // Nothing to register in the reactor yet, but remember the waker so that it gets
            // registered when the timer is set.
            if !known {
                this.id_and_waker = Some((0, cx.waker().clone()));
            }
            return Poll::Pending;
        };

        if Instant::now() < when {
            if !known {
                this.register(when, cx.waker());
            }
            return Poll::Pending;
        }

        this.when = when.checked_add(this.period);
        match this.when {
            Some(next) => {
                if let Some((id, _)) = this.id_and_waker.take() {
                    Reactor::get().remove_timer(when, id);
                }
                let id = Reactor::get().insert_timer(next, cx.waker());
                this.id_and_waker = Some((id, cx.waker().clone()));
            }
            None => {
                if let Some((id, _)) = this.id_and_waker.take() {
                    Reactor::get().remove_timer(when, id);
                }
            }
        }
        Poll::Ready(Some(when))
    }
'''),(F,'''    /// Helper function to clear the current timer.
''','''    /// Registers the timer for another task.
    fn register(&mut self, when: Instant, waker: &Waker) {
        if let Some((id, _)) = self.id_and_waker.take() {
            // Deregister the timer from the reactor to remove the old waker.
            Reactor::get().remove_timer(when, id);
        }
        let id = Reactor::get().insert_timer(when, waker);
        self.id_and_waker = Some((id, waker.clone()));
    }

    /// Helper function to clear the current timer.
''')]),
('y-drive-fn',[(D,'''                // Try grabbing a lock on the reactor to process I/O events.
                if let Some(mut reactor_lock) = Reactor::get().try_lock() {
                    // First let wakers know this parker is processing I/O events.
                    IO_POLLING.with(|io| io.set(true));
                    let _guard = CallOnDrop(|| {
                        IO_POLLING.with(|io| io.set(false));
                    });

                    // Process available I/O events.
                    reactor_lock.react(Some(Duration::from_secs(0))).ok();
                }
                continue;
''','''                process_available();
                continue;
'''),(D,'''    struct BlockOnWaker {''','''    // Processes available I/O events if no other thread does.
    fn process_available() {
        // Try grabbing a lock on the reactor to process I/O events.
        let Some(mut reactor_lock) = Reactor::get().try_lock() else {
            return;
        };

        // First let wakers know this parker is processing I/O events.
        IO_POLLING.with(|io| io.set(true));
        let _guard = CallOnDrop(|| {
            IO_POLLING.with(|io| io.set(false));
        });

        // Process available I/O events.
        reactor_lock.react(Some(Duration::from_secs(0))).ok();
    }

    struct BlockOnWaker {''')]),
('y-notified-fn',[(D,'''                    if p.park_timeout(Duration::from_secs(0)) {
                        tracing::trace!("notified");
                        break;
                    }

                    // Wait for I/O events.''','''                    if take_token(p) {
                        break;
                    }

                    // Wait for I/O events.'''),(D,'''                    // Check if a notification has been received.
                    if p.park_timeout(Duration::from_secs(0)) {
                        tracing::trace!("notified");
                        break;
                    }
''','''                    // Check if a notification has been received.
                    if take_token(p) {
                        break;
                    }
'''),(D,'''/// Runs a closure when dropped.
''','''/// Checks for a notification without sleeping.
fn take_token(p: &Parker) -> bool {
    let notified = p.park_timeout(Duration::from_secs(0));
    if notified {
        tracing::trace!("notified");
    }
    notified
}

/// Runs a closure when dropped.
''')]),
('y-ml-body',[(D,'''        if last_tick == tick {
            let reactor_lock = if sleeps >= 10 {
                // If no new ticks have occurred for a while, stop sleeping and spinning in
                // this loop and just block on the reactor lock.
                Some(Reactor::get().lock())
            } else {
                Reactor::get().try_lock()
            };

            if let Some(mut reactor_lock) = reactor_lock {
                tracing::trace!("waiting on I/O");
                reactor_lock.react(None).ok();
                last_tick = Reactor::get().ticker();
                sleeps = 0;
            }
        } else {
            last_tick = tick;
        }
''','''        if last_tick != tick {
            last_tick = tick;
        } else if let Some(seen) = drive(sleeps >= 10) {
            last_tick = seen;
            sleeps = 0;
        }
'''),(D,'''/// The main loop for the "async-io" thread.
''','''/// Drives the reactor for one round. Returns the tick afterwards.
fn drive(insist: bool) -> Option<usize> {
    let reactor = Reactor::get();
    // If no new ticks have occurred for a while, stop sleeping and spinning and just block on the
    // reactor lock.
    let mut reactor_lock = if insist {
        reactor.lock()
    } else {
        reactor.try_lock()?
    };
    tracing::trace!("waiting on I/O");
    let _ = reactor_lock.react(None);
    Some(reactor.ticker())
}

/// The main loop for the "async-io" thread.
''')]),
('y-connect-socket',[(F,'''    #[allow(unreachable_patterns)]
    match rn::connect_any(&socket, &addr) {
        Ok(_) => {}
        #[cfg(unix)]
        Err(rio::Errno::INPROGRESS) => {}
        // On Unix, the connection hasn't even been started in this case.
        #[cfg(windows)]
        Err(rio::Errno::AGAIN) | Err(rio::Errno::WOULDBLOCK) => {}
        Err(err) => return Err(err.into()),
    }
    Ok(socket)
}
''','''    start_connect(&socket, &addr)?;
    Ok(socket)
}

fn start_connect(socket: &rustix::fd::OwnedFd, addr: &rn::SocketAddrAny) -> io::Result<()> {
    let res = rn::connect_any(socket, addr);
    #[cfg(unix)]
    let underway = res == Err(rio::Errno::INPROGRESS);
    // On Unix, the connection hasn't even been started in this case.
    #[cfg(windows)]
    let underway = matches!(res, Err(rio::Errno::AGAIN) | Err(rio::Errno::WOULDBLOCK));
    if underway {
        return Ok(());
    }
    res.map_err(Into::into)
}
''')]),
('y-accept-helper',[(F,'''        let (stream, addr) = self.read_with(|io| io.accept()).await?;
        Ok((Async::new(stream)?, addr))
    }

    /// Returns a stream of incoming TCP connections.''','''        let accepted = self.read_with(TcpListener::accept).await;
        accepted.and_then(|(stream, addr)| Async::new(stream).map(|stream| (stream, addr)))
    }

    /// Returns a stream of incoming TCP connections.''')]),
('y-poll-macro',[(R,'''impl<T> Future for Readable<'_, T> {
    type Output = io::Result<()>;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        ready!(Pin::new(&mut self.0).poll(cx))?;
        tracing::trace!(fd = ?self.0.handle.source.registration, "readable");
        Poll::Ready(Ok(()))
    }
}
''','''macro_rules! wait_future {
    ($name:ident, $msg:literal, $($l:lifetime)?) => {
        impl<T> Future for $name<$($l,)? T> {
            type Output = io::Result<()>;

            fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
                let res = ready!(Pin::new(&mut self.0).poll(cx));
                if res.is_ok() {
                    tracing::trace!(fd = ?self.0.handle.source.registration, $msg);
                }
                Poll::Ready(res)
            }
        }
    };
}

wait_future!(Readable, "readable", '_);
''')]),
('y-drop-registered',[(F,'''impl Drop for Timer {
    fn drop(&mut self) {
        if let (Some(when), Some((id, _))) = (self.when, self.id_and_waker.take()) {
            // Deregister the timer from the reactor.
            Reactor::get().remove_timer(when, id);
        }
    }
}''','''impl Drop for Timer {
    fn drop(&mut self) {
        let registered = self.when.zip(self.id_and_waker.as_ref().map(|&(id, _)| id));
        if let Some((when, id)) = registered {
            // Deregister the timer from the reactor.
            Reactor::get().remove_timer(when, id);
        }
    }
}''')]),
('y-into-inner',[(F,'''impl<T> Drop for Async<T> {
    fn drop(&mut self) {''','''impl<T> Drop for Async<T> {
    #[inline]
    fn drop(&mut self) {
        let _span = tracing::trace_span!("drop");''')]),
('y-getref-field',[(F,'''        self.io.as_ref().unwrap()
''','''        match &self.io {
            Some(io) => io,
            None => unreachable!("the handle is taken out only when the Async goes away"),
        }
''')]),
('y-write-order',[(R,'''        state[dir].waker = Some(cx.waker().clone());
        state[dir].ticks = Some((Reactor::get().ticker(), state[dir].tick));
''','''        let direction = &mut state[dir];
        let ticks = (Reactor::get().ticker(), direction.tick);
        direction.ticks = Some(ticks);
        direction.waker = Some(cx.waker().clone());
''')]),
('y-react-sources-early',[(R,'''                    if let Some(source) = sources.get(ev.key) {
                        let mut state''','''                    let Some(source) = sources.get(ev.key).cloned() else {
                        continue;
                    };
                    {
                        let mut state''')]),
]
