// C15: a replaced waker that polls the same source must not deadlock.
use findings::*;
use std::os::unix::net::UnixStream;
use std::sync::Arc;
use std::task::{Context, Wake, Waker};
use async_io::Async;

struct Re(Arc<Async<UnixStream>>);
impl Wake for Re {
    fn wake(self: Arc<Self>) {
        let (_, w) = counter();
        let _ = self.0.poll_writable(&mut Context::from_waker(&w));
    }
}
fn main() {
    watchdog(5);
    let (a, _b) = UnixStream::pair().unwrap();
    let s = Arc::new(Async::new(a).unwrap());
    let w = Waker::from(Arc::new(Re(s.clone())));
    assert!(s.poll_readable(&mut Context::from_waker(&w)).is_pending());
    let (_, w2) = counter();
    assert!(s.poll_readable(&mut Context::from_waker(&w2)).is_pending());
    println!("no deadlock");
    std::process::exit(0);
}
