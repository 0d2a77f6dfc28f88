// C03/C04: a failure to re-arm one source must not lose the wakers already collected.
use findings::*;
use std::os::unix::net::UnixStream;
use std::sync::atomic::Ordering::SeqCst;
use std::task::Context;
use std::time::{Duration, Instant};
use std::io::Write;

fn main() {
    watchdog(20);
    let (a, mut b) = UnixStream::pair().unwrap();
    // a second file descriptor of the same socket keeps it registered in epoll
    let keep = a.try_clone().unwrap();
    a.set_nonblocking(true).unwrap();
    // fill the buffer so that writability is not reported
    { let mut a2 = &a; while a2.write(&[0; 4096]).is_ok() {} }
    let fd = { use std::os::fd::AsRawFd; a.as_raw_fd() };
    let s = async_io::Async::new(a).unwrap();
    let (cr, wr) = counter();
    let (cw, ww) = counter();
    assert!(s.poll_writable(&mut Context::from_waker(&ww)).is_pending());
    assert!(s.poll_readable(&mut Context::from_waker(&wr)).is_pending());
    // close the descriptor behind the reactor's back (what an unsafe new_nonblocking/get_mut caller or dup games do)
    extern "C" { fn close(fd: i32) -> i32; }
    unsafe { close(fd) };
    b.write_all(b"x").unwrap();
    let t = Instant::now();
    while cr.0.load(SeqCst) == 0 && t.elapsed() < Duration::from_secs(3) {
        std::thread::sleep(Duration::from_millis(10));
    }
    println!("reader woken {} writer woken {}", cr.0.load(SeqCst), cw.0.load(SeqCst));
    let ok = cr.0.load(SeqCst) > 0;
    std::mem::forget(s);
    drop(keep);
    std::process::exit(if ok { 0 } else { 1 });
}
