import os,subprocess,json,sys,shutil
OUT='/verif/seeded'
SH='''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/demo" "$T/demo"
cd "$T/demo" && CARGO_TARGET_DIR="$T/target" CARGO_NET_OFFLINE=true cargo build -q --offline || exit 3
cd "$T" && timeout 120 "$T/target/debug/demo"
'''
TOML='''[package]
name = "demo"
version = "0.0.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
async-io = { path = "/repo" }
futures-lite = { version = "2.0.0", default-features = false, features = ["std"] }
libc = "0.2"
'''
COMMON=r'''#![allow(unused_imports, dead_code)]
use async_io::{block_on, Async, Timer};
use std::future::Future;
use std::io::{self, Read, Write};
use std::net::*;
use std::os::fd::*;
use std::os::unix::net::{UnixDatagram, UnixListener, UnixStream};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker};
use std::thread;
use std::time::{Duration, Instant};

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
fn counter() -> (Arc<Count>, Waker) {
    let c = Arc::new(Count(AtomicUsize::new(0)));
    (c.clone(), Waker::from(c))
}
/// ends the process with a failure if it takes too long
fn watchdog(secs: u64) {
    thread::spawn(move || {
        thread::sleep(Duration::from_secs(secs));
        eprintln!("timeout");
        std::process::exit(2);
    });
}
fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
/// waits until f() or until the time is over
fn until(limit: Duration, mut f: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed() < limit {
        if f() {
            return true;
        }
        thread::sleep(ms(5));
    }
    f()
}
fn poll<F: Future + Unpin>(f: &mut F, w: &Waker) -> Poll<F::Output> {
    Pin::new(f).poll(&mut Context::from_waker(w))
}
/// a waker whose clone() blocks until `go` is set
struct Slow {
    entered: AtomicBool,
    go: AtomicBool,
}
fn slow_waker(s: Arc<Slow>) -> Waker {
    fn clone(p: *const ()) -> RawWaker {
        let s = unsafe { &*(p as *const Slow) };
        s.entered.store(true, SeqCst);
        while !s.go.load(SeqCst) {
            thread::sleep(Duration::from_millis(1));
        }
        RawWaker::new(p, &VT)
    }
    fn nop(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(clone, nop, nop, nop);
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(s) as *const (), &VT)) }
}
/// holds the lock of a source (someone is just registering a wait on it) until the returned flag is set
fn occupy(s: &Arc<Async<UnixStream>>) -> Arc<Slow> {
    let sl = Arc::new(Slow { entered: AtomicBool::new(false), go: AtomicBool::new(false) });
    let (s2, sl2) = (s.clone(), sl.clone());
    thread::spawn(move || {
        let w = slow_waker(sl2);
        let _ = s2.poll_writable(&mut Context::from_waker(&w));
    });
    while !sl.entered.load(SeqCst) {
        thread::sleep(ms(1));
    }
    sl
}
fn pair() -> (Arc<Async<UnixStream>>, UnixStream) {
    let (a, b) = UnixStream::pair().unwrap();
    (Arc::new(Async::new(a).unwrap()), b)
}
/// fills the send buffer
fn fill(a: &Async<UnixStream>) {
    let mut s = a.get_ref();
    while s.write(&[0; 4096]).is_ok() {}
    while s.write(&[0; 1]).is_ok() {}
}
fn check(ok: bool, what: &str) {
    if !ok {
        eprintln!("BROKEN: {what}");
        std::process::exit(1);
    }
}
'''
BUGS=[]
def bug(id,prop,edits,needs,breaks,main,extra=None,sh=None): BUGS.append((id,prop,edits,needs,breaks,main,extra,sh))
exec(open('/tmp/seed/bugs.py').read())
sel=sys.argv[1:]
for id,prop,edits,needs,breaks,main,extra,sh in BUGS:
    if sel and id not in sel: continue
    d=f'{OUT}/{id}'; os.makedirs(d+'/demo/src',exist_ok=True)
    w='/tmp/seed/wt'
    if not os.path.exists(w): subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',w]) if False else subprocess.check_call(['git','clone','-q','/repo',w])
    subprocess.check_call('git fetch -q && git reset -q --hard origin/HEAD',shell=True,cwd=w)
    for f,old,new,*k in edits:
        s=open(f'{w}/{f}').read()
        n=s.count(old)
        if n==0 or (n>1 and not k): print(id,'MATCHES',n,repr(old[:60])); break
        s=s.replace(old,new,k[0]) if k else s.replace(old,new)
        open(f'{w}/{f}','w').write(s)
    else:
        p=subprocess.run(['git','diff'],cwd=w,capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(p)
        open(d+'/demo.sh','w').write(sh or SH); os.chmod(d+'/demo.sh',0o755)
        open(d+'/demo/Cargo.toml','w').write(TOML)
        open(d+'/demo/src/main.rs','w').write((COMMON+main) if main else '')
        for n,t in (extra or {}).items():
            os.makedirs(os.path.dirname(d+'/'+n),exist_ok=True)
            open(d+'/'+n,'w').write(t)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1); open(d+'/meta.json','a').write('\n')
        print(id,'written')
