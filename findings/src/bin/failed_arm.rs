// C01: a wait whose arming fails returns the error every time it is polled, not Pending the second time.
use findings::*;
use async_io::Async;
use std::future::Future;
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::pin::pin;
use std::task::{Context, Poll};

fn main() {
    watchdog(20);
    let (a, _b) = UnixStream::pair().unwrap();
    let fd = a.as_raw_fd();
    let s = Async::new(a).unwrap();
    extern "C" { fn close(fd: i32) -> i32; }
    unsafe { close(fd) };
    let (_, w) = counter();
    let mut cx = Context::from_waker(&w);
    let mut bad = 0;
    let p1 = s.poll_readable(&mut cx);
    let p2 = s.poll_readable(&mut cx);
    println!("poll_readable {p1:?} {p2:?}");
    assert!(matches!(p1, Poll::Ready(Err(_))));
    bad += p2.is_pending() as i32;
    {
        let mut f = pin!(s.writable());
        let p1 = f.as_mut().poll(&mut cx);
        let p2 = f.as_mut().poll(&mut cx);
        println!("writable {p1:?} {p2:?}");
        assert!(matches!(p1, Poll::Ready(Err(_))));
        bad += p2.is_pending() as i32;
    }
    std::mem::forget(s);
    std::process::exit((bad != 0) as i32);
}
