#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so the long strings stay editable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))
R, D, L, U = "src/reactor.rs", "src/driver.rs", "src/lib.rs", "src/reactor/unix.rs"

p("C01", "A pending I/O wait is recorded and armed before Pending is returned",
  "Whenever a readiness wait on a source (readable/writable futures, borrowed or owned, poll_readable, poll_writable) returns Pending, the polling task's current waker is recorded for exactly the requested direction of that source, and the OS notification of that source covers every direction that has a recorded waiter. Recording and arming happen as one step with respect to event delivery, so no event can fall in between. If arming fails, the wait returns that error instead of Pending.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of tasks polling either direction of a source (repeatedly, with changing wakers), the reactor delivering events, and poller failures",
  "Tests poll one or two waits on mostly idle sockets; they cannot sample the interleavings of a second direction being armed, a waker changing between polls or the reactor delivering in between.",
  [R, U], [("Direction.waker / Direction.wakers", "recorded waiters of one direction", R), ("Source.state", "lock making record+arm atomic", R)],
  [("Source::poll_ready", R), ("<Ready as Future>::poll", R), ("Direction::is_empty", R), ("Registration::modify", U)], ["Poll result of the wait", "interest passed to Poller::modify"])

p("C02", "Readiness is reported only for, and always for, events after the wait began",
  "A readiness wait that has returned Pending completes successfully only when the reactor has since processed an event for that source and that direction that came from an OS wait started after the waiter registered; stale events never complete it. Once such an event has been processed, the next poll of the wait completes. A wait that completed through poll_readable/poll_writable starts afresh at its next use.",
  ["schedules", "histories"], "every ordering of registration, reactor tick advance, OS wait, event delivery and re-poll, in both directions",
  "The stale-event window is a few instructions between a tick advance and the event delivery; tests practically never hit it, and a stale completion looks like a harmless spurious wake-up to most tests.",
  [R], [("Reactor.ticker", "number of OS waits begun", R), ("Direction.tick / ticks", "last delivery tick and the registration snapshot", R)],
  [("ReactorLock::react tick handling", R), ("tick comparison in Source::poll_ready and Ready::poll", R)], ["Ready/Pending result of the wait"])

p("C03", "Every delivered I/O event reaches all waiters and remaining interest is re-armed",
  "For every event the OS reports, and for each direction the event reports on a source that is still registered, all waiters recorded for that direction are taken and woken and the direction is marked as delivered; waiters of a direction not reported are left in place. As notifications are one-shot, if any waiter remains recorded on that source after delivery, the source is armed again for exactly the directions that still have waiters.",
  ["schedules", "histories", "inputs"], "every batch of events, every combination of readable/writable bits and of waiters in the two directions",
  "Losing one waiter in the case where both directions have waiters, or one of several events in a batch, needs a combination the tests do not construct.",
  [R], [("Direction.waker / wakers", "waiters", R)], [("event loop in ReactorLock::react", R), ("Direction::drain_into", R)], ["wakers woken per OS event", "Poller::modify calls"])

p("C04", "Wakers the reactor has collected are always woken",
  "Every waker that the reactor takes out of its storage, because its I/O event arrived or its timer expired, is woken before the reactor step ends, on every exit: success, timeout, interruption by a signal, OS wait failure, and failure to re-arm a source. A waker that panics neither prevents the remaining wakers from being woken nor unwinds into the thread driving the reactor.",
  ["schedules", "fault_sequences"], "every exit path of a reactor step, every position of a failing re-arm or panicking waker in a batch",
  "Tests do not inject poller failures or panicking wakers; the loss appears only when a failure and another task's event fall in the same batch.",
  [R], [("local waker batch", "wakers taken but not yet woken", R)], [("ReactorLock::react", R), ("Reactor::process_timers", R)], ["Waker::wake calls at the end of a step"])

p("C05", "Waiters sharing a source do not lose each other's wake-ups",
  "Dropping or cancelling a readiness wait removes only that wait's own registration and leaves no registration of it behind; any number of readable()/writable() waits can coexist on a source, each keeping its own waker slot that is updated with its latest waker. When poll_readable/poll_writable is called by a different task than the one recorded for that direction, the displaced task is woken; when it is called again by the recorded task, nobody is.",
  ["schedules", "histories"], "every interleaving of creating, polling, cancelling and re-polling concurrent waits on one source",
  "Tests use at most a few concurrent waits with fixed drop orders.",
  [R], [("Ready.index", "slot of a wait", R), ("Direction.waker", "the single poll_* slot", R)], [("<Ready as Drop>::drop", R), ("<Ready as Future>::poll", R), ("Source::poll_ready", R)], ["wakers present after a cancel", "wake of the replaced waker"])

p("C06", "Timers fire never early, with their deadline, once or at the documented period",
  "A timer yields only when its current deadline has been reached and the value yielded is exactly that deadline. A one-shot timer then will not fire again, while an interval timer's next deadline is the yielded deadline plus its period, without drift. will_fire() tells exactly whether a deadline is set.",
  ["inputs", "histories"], "every deadline and period (including ones that overflow) and every sequence of polls and resets",
  "Tests check a few durations with generous tolerances; early firing by scheduling luck, drift and overflow cases are outside them.",
  [L], [("Timer.when", "current deadline", L), ("Timer.period", "interval", L)], [("<Timer as Stream>::poll_next", L), ("Timer constructors", L)], ["value and moment of Poll::Ready", "will_fire()"])

p("C07", "A pending timer is registered with the reactor for its deadline and waker",
  "Whenever polling a timer with a deadline returns Pending, the reactor holds a registration for exactly that deadline carrying a waker of the polling task, and after an interval timer fires its next deadline is registered likewise. The reactor is notified after each new registration is visible to it, so a reactor already blocked waits no longer than the new deadline.",
  ["schedules", "histories"], "every interleaving of a registration with a reactor that is about to block or blocked; every change of waker between polls",
  "A lost notification only shows when the reactor blocks in the window between registration and notification and nothing else wakes it.",
  [L, R], [("Timer.id_and_waker", "current registration", L), ("Reactor.timer_ops / timers", "registrations", R)], [("<Timer as Stream>::poll_next", L), ("Reactor::insert_timer", R)], ["Pending results", "Poller::notify after registration"])

p("C08", "A timer's registration is removed before it is replaced or forgotten",
  "Before a timer changes its deadline, registers with another waker, fires, or is dropped, its previous registration is removed from the reactor under the same deadline and identity with which it was inserted. So a dropped or reset timer never wakes a task for an old deadline and leaves no entry behind.",
  ["histories"], "every sequence of poll, set_after, set_at, set_interval, set_interval_at, fire and drop",
  "A leaked registration only causes spurious wakes and memory growth, which no test observes.",
  [L, R], [("Timer.when + Timer.id_and_waker", "key of the registration", L)], [("Timer::clear", L), ("<Timer as Drop>::drop", L), ("<Timer as Stream>::poll_next", L)], ["registrations present after reset or drop"])

p("C09", "Resetting a timer keeps its task, applies the new schedule, and never panics",
  "set_after, set_at, set_interval and set_interval_at re-register a timer that a task is waiting on with the new deadline and the same waker, so the waiting task is woken at the new deadline without polling again, also if the timer had no deadline when it was polled. After set_after/set_at the timer is one-shot and after set_interval/set_interval_at it repeats with the new period. Durations that overflow the clock turn the timer into one that never fires and never panic.",
  ["inputs", "histories"], "every duration and instant, and every sequence of resets and polls",
  "Tests exercise one reset on one kind of timer and no overflow after a poll.",
  [L], [("Timer.when / period / id_and_waker", "schedule and registration", L)], [("Timer::set_after/set_at/set_interval/set_interval_at", L), ("Timer constructors", L)], ["wake-ups after a reset", "number of events after a reset"])

p("C10", "No timer registration or removal is lost or reordered",
  "Every timer registration and removal that is requested is eventually applied to the reactor's set of timers exactly once, in the order in which it was requested, with the deadline, identity and waker it was requested with, even when the bounded request queue is full. Identities are never reused, so a removal never hits another timer.",
  ["schedules", "histories"], "every interleaving of registrations and removals from many threads with the reactor applying them, including a full queue",
  "Filling the queue of 1000 entries at the moment of another operation needs a load that the tests do not produce.",
  [R], [("Reactor.timer_ops", "bounded queue", R), ("Reactor.timers", "ordered map", R)], [("Reactor::insert_timer", R), ("Reactor::remove_timer", R), ("Reactor::process_timer_ops", R)], ["contents of the timer map"])

p("C11", "The reactor wakes exactly the expired timers and never oversleeps one",
  "Each reactor step applies the requested registrations, wakes the timers whose deadline has been reached and only those, and keeps the others. The OS wait of the step is bounded by the time to the earliest remaining deadline and by the caller's timeout, whichever is less, is zero when a timer is already due, and is unbounded only when neither exists. A wait that ends without events makes the step look at the timers again.",
  ["inputs", "schedules"], "every set of registered deadlines, every clock reading and caller timeout",
  "Tests use a handful of timers with wide tolerance; boundary instants and combined timeouts are not sampled.",
  [R], [("Reactor.timers", "ordered map keyed by deadline", R)], [("Reactor::process_timers", R), ("ReactorLock::react", R)], ["timers woken per step", "timeout passed to Poller::wait"])

p("C12", "block_on never misses a wake-up, also while blocked on I/O",
  "If the future given to block_on is woken at any moment from any thread, block_on polls it again: the thread never goes to sleep in its parker with a notification unseen, and when it is (or is about to be) blocked in the OS wait on behalf of the reactor, the waker interrupts that wait. It polls the future again only after a notification, and never sleeps while holding the reactor.",
  ["schedules"], "every interleaving of wake-ups with the steps of the block_on loop and with reactor ownership changing hands",
  "The lost wake-up needs the waker to run between two adjacent instructions of the loop; tests do not control the schedule.",
  [D], [("io_blocked", "set while blocked in the OS wait", D), ("IO_POLLING", "this thread is polling I/O", D)], [("block_on loop", D), ("<BlockOnWaker as Wake>::wake_by_ref", D)], ["return of block_on", "Poller::notify from the waker"])

p("C13", "block_on returns the future's output and isolates nested and successive calls",
  "block_on returns exactly the value of the first Ready the future yields and never polls the future after that. A wake-up left over from one call does not leak a stale state into a later one, and a nested block_on call on the same thread uses its own parker and waker. The count of running block_on calls and the per-thread polling flags are restored on every exit, including a panic of the future.",
  ["schedules", "programs"], "every future, including ones that panic, nest block_on or are woken after completion",
  "Tests run one or two simple futures per thread.",
  [D], [("BLOCK_ON_COUNT", "running calls", D), ("CACHE", "per-thread parker", D)], [("block_on", D), ("CallOnDrop", D)], ["return value", "polls of the future", "state after exit"])

p("C14", "The reactor is always driven by some thread",
  "The reactor's background thread is started no later than the reactor itself and never terminates, whatever errors the reactor reports, and it takes over the reactor, if need be by waiting for it, when no other thread drives it. Threads in block_on only ever try to take the reactor, release it before sleeping, do not go on driving it for others without looking at the time, and when they stop driving it (return, panic, or hogging it too long) wake the background thread so that it takes over. A call that takes the reactor drives it, and the background thread does not spin meanwhile: while block_on calls run, it sleeps or waits between its attempts.",
  ["schedules", "fault_sequences"], "every number of block_on threads, entering and leaving at any moment, and every reactor error",
  "A reactor that nobody drives shows only under particular timing of block_on threads leaving; tests mostly have one such thread.",
  [D, R], [("BLOCK_ON_COUNT", "running block_on calls", D), ("Reactor.events", "ownership of the reactor", R)], [("main_loop", D), ("unparker", D), ("block_on", D), ("Reactor::get", R)], ["timers and I/O progress without any block_on thread"])

p("C15", "No internal deadlock: lock order, re-entrancy and user code under locks",
  "Internal locks are acquired in one global order and never re-acquired by the thread that holds them, and the reactor never blocks in the OS wait or sleeps while holding a lock that registering, cancelling or polling needs. No waker is woken or given up (which may drop its task), and no future or user closure is run, while one of those internal locks is held, so waking or dropping a task may call back into the crate (poll, register, cancel, reset a timer) without deadlock.",
  ["schedules", "programs"], "every call path through the crate and every waker implementation",
  "Deadlocks need two threads at specific points, or a re-entrant waker; neither occurs in the tests.",
  [R, L, D], [("Reactor.{events,sources,timers}, Source.state", "the locks", R)], [("all functions acquiring them", R)], ["progress of any API call made from a waker"])

p("C16", "Registration lifecycle: registered once, deregistered before close, never leaked",
  "Creating an Async registers its handle exactly once under a key unique among live sources; if the OS registration fails, the error is returned and nothing stays registered. Dropping an Async, or taking the handle out of it, deregisters the handle exactly once and before it is closed or handed out; a failed deregistration is reported by into_inner, and dropping closes the handle all the same.",
  ["histories", "fault_sequences"], "every lifecycle of an Async: creation, failure, drop, into_inner, conversions",
  "Tests do not check the poller's content after failures, nor the order of deregistration and close.",
  [R, L, U], [("Reactor.sources", "live sources by key", R), ("Async.io", "the handle", L)], [("Reactor::insert_io", R), ("Reactor::remove_io", R), ("Async::into_inner", L), ("<Async as Drop>::drop", L)], ["Poller::add/delete calls relative to close"])

p("C17", "Safe code cannot invalidate the registered handle (I/O safety)",
  "Through safe code a user can never obtain a mutable reference to, replace, move out or drop the handle inside a live Async while it is registered: mutable access exists only through unsafe functions, and reading or writing through an owned Async requires the inner type to be marked I/O-safe through an unsafe trait. Types whose Read/Write implementation may drop or replace the handle, or that only give out a handle, are not so marked. Waits and borrowed handles cannot outlive the Async they came from.",
  ["programs"], "every safe program using the public API",
  "This is a statement about programs that must not compile; run-time tests contain only programs that do.",
  [L], [("IoSafe", "marker trait", L)], [("Async::get_mut, read_with_mut, write_with_mut (unsafe)", L), ("impl IoSafe for ...", L)], ["acceptance or rejection by the compiler"])

p("C18", "I/O retries only on WouldBlock, waits in the right direction, results intact",
  "An asynchronous read or write operation performs the underlying non-blocking operation before waiting, and waits only if it reported WouldBlock: reads and accepts for readability, writes and flushes for writability. Any other result, success or error (including Interrupted), is returned unchanged at once. After a wait the operation is tried again, an error of the wait itself is returned, and a wait inside read_with/write_with is always followed by a retry when the task is polled again.",
  ["inputs", "histories"], "every sequence of results of the underlying operation and of the wait, and all operations of the API",
  "Tests see only the few results that loopback sockets produce; errors other than WouldBlock and the wrong-direction hang need particular kernel states.",
  [L], [], [("Async::read_with/read_with_mut/write_with/write_with_mut", L), ("AsyncRead/AsyncWrite for Async<T> and &Async<T>", L), ("optimistic", L)], ["result of the operation", "direction waited for"])

p("C19", "Each operation performs the same-named operation with the caller's arguments",
  "Each asynchronous operation (read, write, vectored forms, flush, accept, incoming, peek, recv, recv_from, peek_from, send, send_to on each socket type) performs exactly the operation its name promises on the wrapped handle, with the caller's buffer and address, and returns its result. Closing only flushes: it does not shut down or close the handle. Accepted and created sockets returned to the user are the ones the operation produced.",
  ["inputs", "programs"], "all operations, buffers and addresses",
  "Each operation is tested on one input; e.g. a peek that consumes, or vectored I/O that uses only the first buffer, passes many tests.",
  [L], [], [("operations of Async<TcpListener/TcpStream/UdpSocket/UnixListener/UnixStream/UnixDatagram>", L), ("AsyncRead/AsyncWrite impls", L)], ["the system-level operation performed"])

p("C20", "Handles the reactor drives are non-blocking",
  "Every handle that gets into an Async, other than through the constructor documented to skip it, has been put into non-blocking mode before it is registered, by every constructor, conversion, accept and connect; failure to do so is returned as an error. So no operation of the crate blocks the executor thread.",
  ["programs", "inputs"], "every way of obtaining an Async",
  "Blocking mode shows only when the operation would block; tests of accepted or converted sockets that are immediately ready pass.",
  [L], [], [("Async::new", L), ("Async::new_nonblocking callers", L), ("set_nonblocking", L), ("connect", L)], ["O_NONBLOCK on the registered handle"])

p("C21", "connect tells the truth about the outcome and configures the socket correctly",
  "Asynchronous connect returns a stream only if the connection is established: an immediate failure other than in-progress is returned, otherwise it waits for writability and then checks the socket's outcome, returning its error. The socket is created for the address's family, is non-blocking and close-on-exec, and a Unix path starting with a NUL byte means the abstract name that follows it.",
  ["inputs", "fault_sequences"], "every address, every immediate or deferred outcome",
  "Loopback connects nearly always succeed at once; deferred failure is seen in few tests.",
  [L], [], [("Async<TcpStream>::connect", L), ("Async<UnixStream>::connect", L), ("connect", L), ("convert_path_to_socket_address", L)], ["result of connect", "flags of the socket"])

p("C22", "Thread-safety and pinning surface of the public types",
  "Async<T>, its readiness futures and Timer are Send/Sync whenever the wrapped handle is, all of them are Unpin, and the futures of the asynchronous operations are Send for Send+Sync handles, so they can be spawned on multi-threaded executors. Conversely a handle type that is not thread-safe does not become so by being wrapped.",
  ["programs"], "every program that moves these types between threads",
  "Auto-trait regressions are silent: no test requires the bounds for all types.",
  [L, R], [], [("struct definitions and unsafe impls", L), ("Ready._capture", R)], ["acceptance or rejection by the compiler"])

p("C23", "The kqueue and Windows backends keep the same registration contract",
  "On the kqueue and Windows backends, registering, re-arming and deregistering a source reach the OS poller for the same handle, key and requested directions, and report its errors, as on Linux, including process, signal and waitable-handle sources.",
  ["configurations"], "every platform configuration",
  "The tests run only on the platform at hand.",
  ["src/reactor/kqueue.rs", "src/reactor/windows.rs", "src/os/kqueue.rs", "src/os/windows.rs"], [], [("Registration::add/modify/delete", "src/reactor/kqueue.rs"), ("Registration::add/modify/delete", "src/reactor/windows.rs")], ["calls to the poller"])

p("C24", "Timers and I/O events are served with bounded latency and fairness",
  "A timer's task is woken within a bounded time after its deadline and no block_on thread starves others of reactor progress for more than a bounded time.",
  ["schedules"], "every load and schedule", "Depends on real time and the OS scheduler.",
  [R, D], [], [("500us hogging limit and back-off table", D)], ["wall-clock latency"])

p("C25", "Bytes pass through unchanged and in order",
  "The bytes written to one end of a stream are read at the other end in order, without loss or duplication, across any sequence of partial reads, writes and WouldBlock results.",
  ["inputs", "histories"], "every byte sequence and split", "Every content and split cannot be sampled.",
  [L], [], [("AsyncRead/AsyncWrite impls", L)], ["bytes received"])

p("C26", "The crate does not panic on its own",
  "No operation of the crate panics or leaves a lock poisoned by itself, whatever its input, the errors the operating system reports and the history: creating, waiting on, cancelling, reading, writing, closing and dropping Async handles, all timer operations, the reactor step and its background thread, and block_on. Panics come only from user code (futures, wakers, closures), or where the operating system refuses what the crate cannot work without: a poller, its notification, or the background thread.",
  ["inputs", "histories", "fault_sequences"], "every input, every error of the operating system, every interleaving",
  "A panic on a rare path (a stale event, a full queue, a failed deregistration, a key another party removed) needs that path to be taken; in the reactor's thread it ends all I/O of the process.",
  [L, R, D], [], [("unwrap/expect/index/arithmetic sites reached from the public operations", L), ("Reactor and ReactorLock", R), ("block_on and main_loop", D)], ["absence of panics"])

p("C27", "There is one reactor, with one poller",
  "The whole process uses one reactor, created once however many threads ask for it at the same time. It owns the only OS poller: the one that every source is registered with, that every reactor step waits on and that every notification interrupts. os::unix::reactor_fd returns the descriptor of exactly that poller on every platform where the poller has one.",
  ["schedules", "configurations"], "every order of first uses by any threads; every platform",
  "A second poller or a per-thread reactor shows only when a handle, timer or waker is used on another thread than the one that drives it, which small tests do not arrange; reactor_fd has no test that compares the descriptor.",
  [R, "src/os/unix.rs"], [], [("Reactor::get", R), ("reactor_fd", "src/os/unix.rs")], ["pollers created", "descriptor returned"])

p("C28", "Steps and operations do a bounded amount of work",
  "Every reactor step, every poll of a wait or timer, and every timer, registration and closing operation comes to an end without waiting for anything but locks and the one OS wait of a step. Its loops go over what was there when they began: the delivered events, the waiters of a source, the timers due at one reading of the clock, at most as many requests as fit the request queue. What other threads add in the meantime, timers with a zero period, or a wake-up storm cannot prolong them, and an operation that finds the request queue full makes room itself before it tries again; nothing spins.",
  ["schedules", "inputs", "histories"], "every load by other threads, every timer period, every state of the queue",
  "A loop without a bound ends in every small test; it runs on only while other threads keep feeding it, or for a period of zero.",
  [R, L], [], [("ReactorLock::react", R), ("Reactor::process_timers / process_timer_ops / insert_timer / remove_timer", R), ("Timer", L)], ["termination of each step"])

p("C29", "Dropping a pending operation loses nothing",
  "An operation that is dropped while it is pending has had no effect on the handle: no byte consumed or sent, no datagram taken, no connection accepted and thrown away, no result lost. It suspends only after its latest attempt reported that it would block; dropping it performs no operation on the handle, removes its own waiter and nothing else, and leaves the waits of other tasks armed. Dropping a pending connect closes and deregisters its socket, and dropping a pending Timer leaves no registration behind.",
  ["schedules", "histories", "inputs"], "every operation, every point at which it can be dropped, every result its attempts had before",
  "Cancellation happens at every suspension point, in races and timeouts; a result lost in one needs data arriving between an attempt and the drop.",
  [L, R], [], [("Async::read_with / write_with / readable / writable / accept / recv / send / connect", L), ("Drop for RemoveOnDrop, Timer, Async", R)], ["operations performed", "waiters", "registrations"])

p("C30", "An Async stands for the handle it wraps",
  "Every Async that a constructor, conversion, accept or connect returns wraps exactly the handle it was given or created, and is registered with that handle's own descriptor. get_ref, get_mut, AsRef, AsFd, AsRawFd, AsSocket and AsRawSocket show exactly that handle; into_inner and the conversions to owned descriptors give back that handle itself, still open.",
  ["inputs", "configurations", "histories"], "every wrapped type, every accessor and conversion, every platform",
  "A descriptor taken from another handle, or a clone in place of the original, behaves alike in small tests; the difference shows when one of them is closed, reused or changed.",
  [L], [], [("Async::new / new_nonblocking / into_inner / get_ref / get_mut", L), ("AsRef/AsFd/AsRawFd/AsSocket/TryFrom impls", L)], ["descriptors", "handles returned"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
