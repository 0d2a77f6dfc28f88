F='src/lib.rs';R='src/reactor.rs';U='src/reactor/unix.rs'
ADD='unsafe impl<T: ?Sized> IoSafe for &T {}'
M=[
('t-getmut-safe',F,'pub unsafe fn get_mut(&mut self)','pub fn get_mut(&mut self)'),
('t-rwm-safe',F,'pub async unsafe fn read_with_mut','pub async fn read_with_mut'),
('t-wwm-safe',F,'pub async unsafe fn write_with_mut','pub async fn write_with_mut'),
('t-asmut',F,'impl<T> AsRef<T> for Async<T> {','impl<T> AsMut<T> for Async<T> { fn as_mut(&mut self) -> &mut T { self.io.as_mut().unwrap() } }\nimpl<T> AsRef<T> for Async<T> {'),
('t-derefmut',F,'impl<T> AsRef<T> for Async<T> {','impl<T> std::ops::Deref for Async<T> { type Target=T; fn deref(&self) -> &T { self.get_ref() } }\nimpl<T> std::ops::DerefMut for Async<T> { fn deref_mut(&mut self) -> &mut Self::Target { unsafe { self.get_mut() } } }\nimpl<T> AsRef<T> for Async<T> {'),
('t-replace',F,'impl<T> AsRef<T> for Async<T> {','impl<T> Async<T> { /// x\npub fn replace(&mut self, t: T) -> Option<T> { self.io.replace(t) } }\nimpl<T> AsRef<T> for Async<T> {'),
('t-replace-helper',F,'impl<T> AsRef<T> for Async<T> {','impl<T> Async<T> { fn h(&mut self) -> &mut Option<T> { &mut self.io }\n/// x\npub fn replace(&mut self, t: T) { *self.h() = Some(t); } }\nimpl<T> AsRef<T> for Async<T> {'),
('t-with-mut',F,'impl<T> AsRef<T> for Async<T> {','impl<T> Async<T> { /// x\npub fn with<R>(&mut self, f: impl FnOnce(&mut T) -> R) -> R { f(unsafe { self.get_mut() }) } }\nimpl<T> AsRef<T> for Async<T> {'),
('t-with-mut-iosafe',F,'impl<T> AsRef<T> for Async<T> {','impl<T: IoSafe> Async<T> { /// x\npub fn with<R>(&mut self, f: impl FnOnce(&mut T) -> R) -> R { f(unsafe { self.get_mut() }) } }\nimpl<T> AsRef<T> for Async<T> {'),
('t-no-iosafe-read',F,'impl<T: IoSafe + Read> AsyncRead for Async<T>','impl<T: Read> AsyncRead for Async<T>'),
('t-no-iosafe-write',F,'impl<T: IoSafe + Write> AsyncWrite for Async<T>','impl<T: Write> AsyncWrite for Async<T>'),
('t-box',F,'unsafe impl<T: IoSafe + ?Sized> IoSafe for Box<T> {}','unsafe impl<T: ?Sized> IoSafe for Box<T> {}'),
('t-mut',F,'unsafe impl<T: IoSafe + ?Sized> IoSafe for &mut T {}','unsafe impl<T: ?Sized> IoSafe for &mut T {}'),
('t-bufr',F,'unsafe impl<T: IoSafe + Read> IoSafe for std::io::BufReader<T> {}','unsafe impl<T: Read> IoSafe for std::io::BufReader<T> {}'),
('t-cow',F,'unsafe impl<T: Clone + IoSafe> IoSafe for std::borrow::Cow','unsafe impl<T: Clone> IoSafe for std::borrow::Cow'),
('t-vec',F,ADD,ADD+'\nunsafe impl<T> IoSafe for Vec<T> {}'),
('t-chain',F,ADD,ADD+'\nunsafe impl<T: IoSafe, U> IoSafe for std::io::Chain<T, U> {}'),
('t-pub-io',F,'    io: Option<T>,','    /// x\n    pub io: Option<T>,'),
('t-safe-trait',F,'pub unsafe trait IoSafe {}','pub trait IoSafe {}'),
('t-swap',F,'impl<T> AsRef<T> for Async<T> {','impl<T> Async<T> { /// x\npub fn swap(&mut self, o: &mut Async<T>) { std::mem::swap(&mut self.io, &mut o.io) } }\nimpl<T> AsRef<T> for Async<T> {'),
('t-raw',F,'impl<T> AsRef<T> for Async<T> {','#[allow(invalid_reference_casting)]\nimpl<T> Async<T> { /// x\npub fn m(&mut self) -> &mut T { let p = self.get_ref() as *const T as *mut T; unsafe { &mut *p } } }\nimpl<T> AsRef<T> for Async<T> {'),
('t-priv-unsafe',F,'impl<T> AsRef<T> for Async<T> {','impl<T: IoSafe> Async<T> { unsafe fn h(&mut self, t: T) { self.io = Some(t); }\n/// x\npub fn replace(&mut self, t: T) { unsafe { self.h(t) } } }\nimpl<T> AsRef<T> for Async<T> {'),
('t-send',F,'impl<T> Unpin for Async<T> {}','impl<T> Unpin for Async<T> {}\nunsafe impl<T> Send for Async<T> {}'),
('t-sync',F,'impl<T> Unpin for Async<T> {}','impl<T> Unpin for Async<T> {}\nunsafe impl<T: Send> Sync for Async<T> {}'),
('t-unpin',F,'impl<T> Unpin for Async<T> {}',''),
('t-ready-unpin',R,'impl<H: Borrow<crate::Async<T>>, T> Unpin for Ready<H, T> {}',''),
('t-connsend',F,'        // Begin async connect.\n        let socket = connect(sock_addr, domain','        let rc = std::rc::Rc::new(());\n        // Begin async connect.\n        let socket = connect(sock_addr, domain'),
# preserving
('q-helper',[(F,'unsafe { (*self).get_mut() }','(*self).io_mut()'),(F,'impl<T> AsRef<T> for Async<T> {','impl<T: IoSafe> Async<T> { fn io_mut(&mut self) -> &mut T { unsafe { self.get_mut() } } }\nimpl<T> AsRef<T> for Async<T> {')]),
('q-helper2',[(F,'unsafe { (*self).get_mut() }','(*self).io_mut()'),(F,'impl<T> AsRef<T> for Async<T> {','impl<T> Async<T> { fn io_mut(&mut self) -> &mut T { self.io.as_mut().unwrap() } }\nimpl<T> AsRef<T> for Async<T> {')]),
('q-helper3',[(F,'unsafe { (*self).get_mut() }.read(buf)','io_op(&mut self, |io| io.read(buf))'),(F,'impl<T> AsRef<T> for Async<T> {','fn io_op<T, R>(a: &mut Async<T>, f: impl FnOnce(&mut T) -> io::Result<R>) -> io::Result<R> { f(a.io.as_mut().unwrap()) }\nimpl<T> AsRef<T> for Async<T> {')]),
('q-helper4',[(F,'unsafe { (*self).get_mut() }.read(buf)','self.io.as_mut().map_or(Ok(0), |io| io.read(buf))')]),
('q-dropfn',[(F,'        if self.io.is_some() {\n            // Dereg','        if let Some(_x) = &mut self.io {\n            // Dereg')]),
('q-takefn',[(F,'let io = self.io.take().unwrap();','let io = self.take_io().unwrap();'),(F,'impl<T> AsRef<T> for Async<T> {','impl<T> Async<T> { fn take_io(&mut self) -> Option<T> { self.io.take() } }\nimpl<T> AsRef<T> for Async<T> {')]),
]
