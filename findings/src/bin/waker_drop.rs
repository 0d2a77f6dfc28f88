// C15: giving up the last reference to a task while a lock is held must not deadlock when dropping the task
// uses the crate.  usage: waker_drop [cancel|repoll|timer]
use findings::*;
use async_io::{Async, Timer};
use std::future::Future;
use std::os::unix::net::UnixStream;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Wake, Waker};
use std::time::Duration;

/// a task that owns things; it is dropped with its last waker
struct Task(#[allow(dead_code)] Mutex<Vec<Box<dyn std::any::Any + Send>>>);
impl Wake for Task {
    fn wake(self: Arc<Self>) {}
}
fn poll<F: Future + Unpin>(f: &mut F, w: &Waker) -> bool {
    Pin::new(f).poll(&mut Context::from_waker(w)).is_pending()
}
fn main() {
    watchdog(5);
    let what = std::env::args().nth(1).unwrap_or("all".into());
    let (_, noop) = counter();
    for (name, repoll) in [("cancel", false), ("repoll", true)] {
        if what != name && what != "all" {
            continue;
        }
        let (a, _b) = UnixStream::pair().unwrap();
        let a = Arc::new(Async::new(a).unwrap());
        // the task owns a wait on the same source
        let mut r2 = a.clone().readable_owned();
        assert!(poll(&mut r2, &noop));
        let w = Waker::from(Arc::new(Task(Mutex::new(vec![Box::new(r2)]))));
        let mut r1 = a.clone().readable_owned();
        assert!(poll(&mut r1, &w));
        drop(w);
        if repoll {
            assert!(poll(&mut r1, &noop));
        } else {
            drop(r1);
        }
        println!("{name}: no deadlock");
    }
    if what == "timer" || what == "all" {
        let mut owned: Vec<Box<dyn std::any::Any + Send>> = vec![];
        for _ in 0..3000 {
            let mut t = Timer::after(Duration::from_secs(1000));
            assert!(poll(&mut t, &noop));
            owned.push(Box::new(t));
        }
        let w = Waker::from(Arc::new(Task(Mutex::new(owned))));
        let mut t1 = Timer::after(Duration::from_secs(1000));
        assert!(poll(&mut t1, &w));
        drop(w);
        // let the reactor see the timer before it is removed
        async_io::block_on(Timer::after(Duration::from_millis(50)));
        drop(t1);
        async_io::block_on(Timer::after(Duration::from_millis(50)));
        println!("timer: no deadlock");
    }
    std::process::exit(0);
}
