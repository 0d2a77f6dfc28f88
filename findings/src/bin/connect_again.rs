// C21: a connect() that fails with EAGAIN has not been started; a stream must not be returned.  The failure is injected
// for this thread only, by a seccomp filter that makes connect() fail with EAGAIN.
use async_io::{block_on, Async};
use findings::*;
use std::net::{TcpListener, TcpStream};

fn main() {
    watchdog(10);
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let addr = l.local_addr().unwrap();
    // start the reactor first: its thread is not restricted
    drop(Async::new(l.try_clone().unwrap()).unwrap());
    // if (nr == connect) errno EAGAIN else allow
    let f = |code: u16, jt: u8, jf: u8, k: u32| libc::sock_filter { code, jt, jf, k };
    let prog = [
        f(0x20, 0, 0, 0),
        f(0x15, 0, 1, libc::SYS_connect as u32),
        f(0x06, 0, 0, 0x0005_0000 | libc::EAGAIN as u32),
        f(0x06, 0, 0, 0x7fff_0000),
    ];
    let p = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_ptr() as *mut _ };
    unsafe {
        assert_eq!(libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0), 0);
        assert_eq!(libc::prctl(libc::PR_SET_SECCOMP, 2, &p as *const _, 0, 0), 0);
    }
    match block_on(Async::<TcpStream>::connect(addr)) {
        Ok(s) => {
            println!("connect() failed with EAGAIN, yet a stream is returned; its peer: {:?}", s.get_ref().peer_addr());
            std::process::exit(1)
        }
        Err(e) => println!("connect reports: {e}"),
    }
    std::process::exit(0)
}
