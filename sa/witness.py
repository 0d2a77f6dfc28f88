"""Programs the type checker has to accept or reject (C17, C22).

Each witness is a program that must not compile, with a twin that differs only in the forbidden step and must compile
(so that the rejection is for the stated reason), or a program that must compile.  All of them are written against the
public API; type parameters quantify over every handle type."""

PRE = """#![allow(unused)]
use async_io::*;
use std::io::{self, Read, Write};
use std::net::*;
use std::os::unix::io::{AsFd, AsRawFd, BorrowedFd, OwnedFd};
use std::os::unix::net as un;
use std::sync::Arc;
use std::task::{Context, Poll};
use futures_io::{AsyncRead, AsyncWrite};
fn send<X: Send>() {}
fn sync<X: Sync>() {}
fn unpin<X: Unpin>() {}
fn vsend<X: Send>(_: X) {}
fn ar<X: AsyncRead>() {}
fn aw<X: AsyncWrite>() {}
"""

# (property, name, what it shows, must-not-compile, accepted error codes, twin that must compile)
BAD = [
    # ---- mutable access to the handle only through unsafe
    ("C17", "get_mut", "Async::get_mut needs unsafe",
     "fn f<T>(a: &mut Async<T>) { let _ = a.get_mut(); }", "E0133",
     "fn f<T>(a: &mut Async<T>) { let _ = unsafe { a.get_mut() }; }"),
    ("C17", "read_with_mut", "Async::read_with_mut needs unsafe",
     "fn f<T>(a: &mut Async<T>) { let _ = a.read_with_mut(|_: &mut T| Ok(())); }", "E0133",
     "fn f<T>(a: &mut Async<T>) { let _ = unsafe { a.read_with_mut(|_: &mut T| Ok(())) }; }"),
    ("C17", "write_with_mut", "Async::write_with_mut needs unsafe",
     "fn f<T>(a: &mut Async<T>) { let _ = a.write_with_mut(|_: &mut T| Ok(())); }", "E0133",
     "fn f<T>(a: &mut Async<T>) { let _ = unsafe { a.write_with_mut(|_: &mut T| Ok(())) }; }"),
    ("C17", "read_with-mut", "read_with gives its closure no mutable access",
     "fn f<T>(a: &Async<T>) { let _ = a.read_with(|_: &mut T| Ok(())); }", "E0631 E0277",
     "fn f<T>(a: &Async<T>) { let _ = a.read_with(|_: &T| Ok(())); }"),
    ("C17", "write_with-mut", "write_with gives its closure no mutable access",
     "fn f<T>(a: &Async<T>) { let _ = a.write_with(|_: &mut T| Ok(())); }", "E0631 E0277",
     "fn f<T>(a: &Async<T>) { let _ = a.write_with(|_: &T| Ok(())); }"),
    ("C17", "get_ref-assign", "the handle cannot be replaced through get_ref",
     "fn f<T>(a: &mut Async<T>, t: T) { *a.get_ref() = t; }", "E0594",
     "fn f<T>(a: &mut Async<T>, t: T) { let _: &T = a.get_ref(); }"),
    ("C17", "get_ref-move", "the handle cannot be moved out through get_ref",
     "fn f<T>(a: &mut Async<T>) -> T { *a.get_ref() }", "E0507",
     "fn f<T>(a: &mut Async<T>) -> &T { &*a.get_ref() }"),
    ("C17", "as_ref-assign", "the handle cannot be replaced through AsRef",
     "fn f<T>(a: &mut Async<T>, t: T) { *<Async<T> as AsRef<T>>::as_ref(a) = t; }", "E0594",
     "fn f<T>(a: &mut Async<T>, t: T) { let _: &T = <Async<T> as AsRef<T>>::as_ref(a); }"),
    ("C17", "swap", "the handles of two Asyncs cannot be exchanged through get_ref",
     "fn f<T>(a: &mut Async<T>, b: &mut Async<T>) { std::mem::swap(a.get_ref(), b.get_ref()); }", "E0308",
     "fn f<T>(a: &mut Async<T>, b: &mut Async<T>) { std::mem::swap(a, b); }"),
    ("C17", "field-io", "the handle's field is private",
     "fn f<T>(a: &mut Async<T>) { let _ = &mut a.io; }", "E0616 E0609 E0610",
     "fn f<T>(a: &mut Async<T>) { let _ = a.get_ref(); }"),
    ("C17", "literal", "an Async cannot be put together by hand",
     "fn f<T>(a: Async<T>) -> Async<T> { Async { ..a } }", "E0451 E0423 E0063 E0509",
     "fn f<T>(a: Async<T>) -> Async<T> { a }"),
    ("C17", "AsMut", "Async gives no mutable access through AsMut",
     "fn n<T, X: AsMut<T>>() {} fn f<T>() { n::<T, Async<T>>() }", "E0277",
     "fn n<T, X: AsRef<T>>() {} fn f<T>() { n::<T, Async<T>>() }"),
    ("C17", "DerefMut", "Async gives no mutable access through DerefMut",
     "fn n<X: std::ops::DerefMut>() {} fn f<T>() { n::<Async<T>>() }", "E0277",
     "fn n<X: std::ops::DerefMut>() {} fn f<T>() { n::<Box<Async<T>>>() }"),
    ("C17", "BorrowMut", "Async gives no mutable access through BorrowMut",
     "fn n<T, X: std::borrow::BorrowMut<T>>() {} fn f() { n::<TcpStream, Async<TcpStream>>() }", "E0277",
     "fn n<T, X: std::borrow::BorrowMut<T>>() {} fn f() { n::<TcpStream, TcpStream>() }"),
    ("C17", "into_inner-consumes", "after into_inner there is no Async left",
     "fn f<T>(a: Async<T>) { let t = a.into_inner(); a.get_ref(); }", "E0382",
     "fn f<T>(a: Async<T>) { a.get_ref(); let t = a.into_inner(); }"),
    ("C17", "into_fd-consumes", "after conversion into an OwnedFd there is no Async left",
     "fn f(a: Async<TcpStream>) { let t = OwnedFd::try_from(a); a.get_ref(); }", "E0382",
     "fn f(a: Async<TcpStream>) { a.get_ref(); let t = OwnedFd::try_from(a); }"),
    ("C17", "new-consumes", "the handle given to new is not accessible any more",
     "fn f<T: AsFd>(t: T) { let a = Async::new(t); let _ = &t; }", "E0382",
     "fn f<T: AsFd>(t: T) { let _ = &t; let a = Async::new(t); }"),
    # ---- reading and writing through an owned Async needs the marker
    ("C17", "AsyncRead-IoSafe", "AsyncRead for Async<T> needs T: IoSafe",
     "fn f<T: Read + Write + AsFd + Send + Sync + Unpin + 'static>() { ar::<Async<T>>() }", "E0277",
     "fn f<T: Read + Write + AsFd + Send + Sync + Unpin + 'static + IoSafe>() { ar::<Async<T>>() }"),
    ("C17", "AsyncWrite-IoSafe", "AsyncWrite for Async<T> needs T: IoSafe",
     "fn f<T: Read + Write + AsFd + Send + Sync + Unpin + 'static>() { aw::<Async<T>>() }", "E0277",
     "fn f<T: Read + Write + AsFd + Send + Sync + Unpin + 'static + IoSafe>() { aw::<Async<T>>() }"),
    ("C17", "AsyncRead-ref", "reading through &Async<T> needs &T: Read",
     "fn f<T: IoSafe + Read>(a: &Async<T>) { fn g<X: AsyncRead>(_: X) {} g(a) }", "E0277",
     "fn f<T: IoSafe + Read>(a: &Async<T>) where for<'a> &'a T: Read { fn g<X: AsyncRead>(_: X) {} g(a) }"),
    ("C17", "AsyncWrite-ref", "writing through &Async<T> needs &T: Write",
     "fn f<T: IoSafe + Write>(a: &Async<T>) { fn g<X: AsyncWrite>(_: X) {} g(a) }", "E0277",
     "fn f<T: IoSafe + Write>(a: &Async<T>) where for<'a> &'a T: Write { fn g<X: AsyncWrite>(_: X) {} g(a) }"),
    ("C17", "IoSafe-unsafe", "IoSafe cannot be implemented without unsafe",
     "struct H; impl IoSafe for H {}", "E0200", "struct H; unsafe impl IoSafe for H {}"),
    ("C17", "IoSafe-user", "a user's handle type is not marked by default",
     "struct H(Option<TcpStream>); fn n<X: IoSafe>() {} fn f() { n::<H>() }", "E0277",
     "struct H(Option<TcpStream>); unsafe impl IoSafe for H {} fn n<X: IoSafe>() {} fn f() { n::<H>() }"),
    ("C17", "IoSafe-box", "a box around an unmarked type is not marked",
     "struct H(Option<TcpStream>); fn n<X: IoSafe>() {} fn f() { n::<Box<H>>() }", "E0277",
     "fn n<X: IoSafe>() {} fn f() { n::<Box<TcpStream>>() }"),
    ("C17", "IoSafe-mut", "a mutable reference to an unmarked type is not marked",
     "struct H(Option<TcpStream>); fn n<X: IoSafe>() {} fn f() { n::<&mut H>() }", "E0277",
     "fn n<X: IoSafe>() {} fn f() { n::<&mut TcpStream>() }"),
    ("C17", "IoSafe-bufreader", "a buffered reader of an unmarked type is not marked",
     "struct H(Option<TcpStream>); impl Read for H { fn read(&mut self, _: &mut [u8]) -> io::Result<usize> { self.0 = None; Ok(0) } } fn n<X: IoSafe>() {} fn f() { n::<io::BufReader<H>>() }", "E0277",
     "fn n<X: IoSafe>() {} fn f() { n::<io::BufReader<TcpStream>>() }"),
    ("C17", "IoSafe-bufwriter", "a buffered writer of an unmarked type is not marked",
     "struct H(Option<TcpStream>); impl Write for H { fn write(&mut self, _: &[u8]) -> io::Result<usize> { self.0 = None; Ok(0) } fn flush(&mut self) -> io::Result<()> { Ok(()) } } fn n<X: IoSafe>() {} fn f() { n::<io::BufWriter<H>>() }", "E0277",
     "fn n<X: IoSafe>() {} fn f() { n::<io::BufWriter<TcpStream>>() }"),
    ("C17", "IoSafe-linewriter", "a line writer of an unmarked type is not marked",
     "struct H(Option<TcpStream>); impl Write for H { fn write(&mut self, _: &[u8]) -> io::Result<usize> { self.0 = None; Ok(0) } fn flush(&mut self) -> io::Result<()> { Ok(()) } } fn n<X: IoSafe>() {} fn f() { n::<io::LineWriter<H>>() }", "E0277",
     "fn n<X: IoSafe>() {} fn f() { n::<io::LineWriter<TcpStream>>() }"),
    ("C17", "IoSafe-any", "no blanket implementation marks every type",
     "fn n<X: IoSafe + ?Sized>() {} fn f<T>() { n::<T>() }", "E0277",
     "fn n<X: IoSafe + ?Sized>() {} fn f<T: IoSafe>() { n::<T>() }"),
    ("C17", "IoSafe-handle", "no blanket implementation marks every readable, writable handle",
     "fn n<X: IoSafe + ?Sized>() {} fn f<T: AsFd + AsRawFd + Read + Write + Clone + Send + Sync + Unpin + 'static>() { n::<T>() }", "E0277",
     "fn n<X: IoSafe + ?Sized>() {} fn f<T: AsFd + AsRawFd + Read + Write + Clone + Send + Sync + Unpin + 'static + IoSafe>() { n::<T>() }"),
    # ---- nothing borrowed from an Async outlives it
    ("C17", "get_ref-outlives", "the handle's reference cannot outlive the Async",
     "fn f<'a, T>(a: Async<T>) -> &'a T { a.get_ref() }", "E0515",
     "fn f<'a, T>(a: &'a Async<T>) -> &'a T { a.get_ref() }"),
    ("C17", "as_ref-outlives", "the handle's reference cannot outlive the Async",
     "fn f<'a, T>(a: Async<T>) -> &'a T { a.as_ref() }", "E0515",
     "fn f<'a, T>(a: &'a Async<T>) -> &'a T { a.as_ref() }"),
    ("C17", "as_fd-outlives", "the borrowed descriptor cannot outlive the Async",
     "fn f<'a, T: AsFd + 'a>(a: Async<T>) -> BorrowedFd<'a> { a.as_fd() }", "E0515",
     "fn f<'a, T: AsFd>(a: &'a Async<T>) -> BorrowedFd<'a> { a.as_fd() }"),
    ("C17", "get_mut-outlives", "mutable access cannot outlive the Async",
     "fn f<'a, T>(mut a: Async<T>) -> &'a mut T { unsafe { a.get_mut() } }", "E0515",
     "fn f<'a, T>(a: &'a mut Async<T>) -> &'a mut T { unsafe { a.get_mut() } }"),
    ("C17", "get_ref-drop", "the Async cannot be dropped while its handle is borrowed",
     "fn f<T>(a: Async<T>) { let r = a.get_ref(); drop(a); let _ = r as *const T; }", "E0505",
     "fn f<T>(a: Async<T>) { let r = a.get_ref(); let _ = r as *const T; drop(a); }"),
    ("C17", "into_inner-borrowed", "the handle cannot be taken out while it is borrowed",
     "fn f<T>(a: Async<T>) { let r = a.get_ref(); let t = a.into_inner(); let _ = r as *const T; }", "E0505",
     "fn f<T>(a: Async<T>) { let r = a.get_ref(); let _ = r as *const T; let t = a.into_inner(); }"),
]
for op in ("readable", "writable"):
    BAD += [
        ("C17", op + "-outlives", "a wait cannot outlive the Async",
         "async fn f<T>(a: Async<T>) { let r = a.%s(); drop(a); let _ = r.await; }" % op, "E0505",
         "async fn f<T>(a: Async<T>) { let r = a.%s(); let _ = r.await; drop(a); }" % op),
        ("C17", op + "-into_inner", "the handle cannot be taken out while a wait on it is pending",
         "async fn f<T>(a: Async<T>) { let r = a.%s(); let t = a.into_inner(); let _ = r.await; }" % op, "E0505",
         "async fn f<T>(a: Async<T>) { let r = a.%s(); let _ = r.await; let t = a.into_inner(); }" % op),
    ]
for op in ("read_with", "write_with"):
    BAD.append(("C17", op + "-outlives", "an operation cannot outlive the Async",
                "async fn f<T>(a: Async<T>) { let r = a.%s(|_: &T| Ok(())); drop(a); let _ = r.await; }" % op, "E0505",
                "async fn f<T>(a: Async<T>) { let r = a.%s(|_: &T| Ok(())); let _ = r.await; drop(a); }" % op))
for ty, op in (("TcpListener", "incoming"), ("TcpListener", "accept"), ("un::UnixListener", "incoming"), ("un::UnixListener", "accept")):
    BAD.append(("C17", "%s-%s-outlives" % (ty.rsplit(":")[-1], op), "an operation cannot outlive the Async",
                "fn f(a: Async<%s>) { let r = a.%s(); drop(a); drop(r); }" % (ty, op), "E0505",
                "fn f(a: Async<%s>) { let r = a.%s(); drop(r); drop(a); }" % (ty, op)))

# ---- C22: wrapping does not make a handle thread-safe
for w, k in (("Async<T>", ""), ("ReadableOwned<T>", " + 'static"), ("WritableOwned<T>", " + 'static")):
    n = w.split("<")[0]
    BAD.append(("C22", n + "-not-Send", "%s is not Send for a handle that is not" % n,
                "fn f<T: Sync + Unpin%s>() { send::<%s>() }" % (k, w), "E0277",
                "fn f<T: Send + Sync + Unpin%s>() { send::<%s>() }" % (k, w)))
    BAD.append(("C22", n + "-not-Sync", "%s is not Sync for a handle that is not" % n,
                "fn f<T: Send + Unpin%s>() { sync::<%s>() }" % (k, w), "E0277",
                "fn f<T: Send + Sync + Unpin%s>() { sync::<%s>() }" % (k, w)))
for w in ("Readable<'a, T>", "Writable<'a, T>", "&'a Async<T>"):
    n = w.split("<")[0]
    for tr in ("send", "sync"):
        BAD.append(("C22", "%s-not-%s" % (n, tr), "%s is not %s for a handle that is not Sync" % (n, tr.title()),
                    "fn f<'a, T: Send + Unpin + 'a>() { %s::<%s>() }" % (tr, w), "E0277",
                    "fn f<'a, T: Send + Sync + Unpin + 'a>() { %s::<%s>() }" % (tr, w)))
for op in ("read_with", "write_with"):
    BAD.append(("C22", op + "-not-Send", "the future of %s is not Send for a closure that is not" % op,
                "fn f<T: Send + Sync, F: FnMut(&T) -> io::Result<()>>(a: &Async<T>, g: F) { vsend(a.%s(g)) }" % op, "E0277",
                "fn f<T: Send + Sync, F: FnMut(&T) -> io::Result<()> + Send>(a: &Async<T>, g: F) { vsend(a.%s(g)) }" % op))
    BAD.append(("C22", op + "-not-Send-handle", "the future of %s is not Send for a handle that is not Sync" % op,
                "fn f<T: Send, F: FnMut(&T) -> io::Result<()> + Send>(a: &Async<T>, g: F) { vsend(a.%s(g)) }" % op, "E0277",
                "fn f<T: Send + Sync, F: FnMut(&T) -> io::Result<()> + Send>(a: &Async<T>, g: F) { vsend(a.%s(g)) }" % op))

# (property, name, what it shows, must compile)
GOOD = [
    ("C22", "Async-Send", "Async<T> is Send when T is", "fn f<T: Send>() { send::<Async<T>>() }"),
    ("C22", "Async-Sync", "Async<T> is Sync when T is", "fn f<T: Sync>() { sync::<Async<T>>() }"),
    ("C22", "Async-Unpin", "Async<T> is Unpin for every T", "fn f<T>() { unpin::<Async<T>>() }"),
    ("C22", "Timer", "Timer is Send, Sync and Unpin", "fn f() { send::<Timer>(); sync::<Timer>(); unpin::<Timer>() }"),
]
for w in ("Readable", "Writable"):
    GOOD += [
        ("C22", w + "-Send", w + " is Send and Sync for thread-safe handles",
         "fn f<'a, T: Send + Sync + 'a>() { send::<%s<'a, T>>(); sync::<%s<'a, T>>() }" % (w, w)),
        ("C22", w + "-Unpin", w + " is Unpin for every handle", "fn f<'a, T: 'a>() { unpin::<%s<'a, T>>() }" % w),
        ("C22", w + "Owned-Send", w + "Owned is Send and Sync for thread-safe handles",
         "fn f<T: Send + Sync>() { send::<%sOwned<T>>(); sync::<%sOwned<T>>() }" % (w, w)),
        ("C22", w + "Owned-Unpin", w + "Owned is Unpin for every handle", "fn f<T>() { unpin::<%sOwned<T>>() }" % w),
        ("C22", w + "-wait", "waiting on %s from another thread" % w.lower(),
         "fn f<T: Send + Sync + 'static>(a: Arc<Async<T>>) { vsend(async move { a.%s().await }); }" % w.lower()),
    ]
for op, m in (("read_with", ""), ("write_with", ""), ("read_with_mut", "mut "), ("write_with_mut", "mut ")):
    GOOD.append(("C22", op + "-Send", "the future of %s is Send for thread-safe handles and closures" % op,
                 "fn f<T: Send + Sync, R: Send, F: FnMut(&%sT) -> io::Result<R> + Send>(a: &%sAsync<T>, g: F) { vsend(%s) }"
                 % (m, m, "unsafe { a.%s(g) }" % op if m else "a.%s(g)" % op)))
for ty, ops in (
        ("TcpListener", ("accept()", "incoming()")),
        ("TcpStream", ("peek(&mut [])",)),
        ("UdpSocket", ("recv_from(&mut [])", "peek_from(&mut [])", "send_to(&[], ([127, 0, 0, 1], 1))", "recv(&mut [])", "peek(&mut [])", "send(&[])")),
        ("un::UnixListener", ("accept()", "incoming()")),
        ("un::UnixDatagram", ("recv_from(&mut [])", "send_to(&[], \"x\")", "recv(&mut [])", "send(&[])"))):
    for op in ops:
        n = ty.rsplit(":")[-1] + "." + op.split("(")[0]
        GOOD.append(("C22", n, "the future of %s is Send" % n, "fn f(a: &Async<%s>) { vsend(a.%s) }" % (ty, op)))
GOOD += [
    ("C22", "TcpStream.connect", "the future of TcpStream.connect is Send",
     "fn f() { vsend(Async::<TcpStream>::connect(([127, 0, 0, 1], 1))) }"),
    ("C22", "UnixStream.connect", "the future of UnixStream.connect is Send",
     "fn f() { vsend(Async::<un::UnixStream>::connect(\"x\")) }"),
    ("C22", "spawned-io", "an owned Async can be read and written by a task on another thread",
     "fn f<T: IoSafe + Read + Write + Send + 'static>() { fn g<X: AsyncRead + AsyncWrite + Unpin + Send + 'static>() {} g::<Async<T>>() }"),
    ("C22", "shared-io", "a shared Async can be read and written by a task on another thread",
     "fn f<'a, T: Send + Sync + 'a>() where for<'b> &'b T: Read + Write { fn g<X: AsyncRead + AsyncWrite + Unpin + Send>() {} g::<&'a Async<T>>() }"),
    ("C22", "block_on-not-Send", "block_on runs futures that are neither Send nor Unpin nor 'static",
     "fn f<F: std::future::Future>(x: F) -> F::Output { block_on(x) }"),
]
