// C09: a timer that was polled while it had no deadline wakes its task once it gets one.
use findings::*;
use async_io::Timer;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::Ordering::SeqCst;
use std::task::Context;
use std::time::Duration;

fn main() {
    watchdog(20);
    let mut t = Timer::never();
    let (c, w) = counter();
    assert!(Pin::new(&mut t).poll(&mut Context::from_waker(&w)).is_pending());
    t.set_after(Duration::from_millis(10));
    std::thread::sleep(Duration::from_millis(500));
    println!("woken {}", c.0.load(SeqCst));
    std::process::exit(if c.0.load(SeqCst) > 0 { 0 } else { 1 });
}
