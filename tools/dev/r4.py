L='src/lib.rs'
def rw(fn,mutd,dirn,new): pass
NEVER="""                // Overflow to never going off.
                self.clear();
                self.when = None;
"""
REG="""        if let Some((id, waker)) = self.id_and_waker.as_mut() {
            // Re-register the timer with the new timeout.
            *id = Reactor::get().insert_timer(instant, waker);
        }
"""
REGI="""        if let Some((id, waker)) = self.id_and_waker.as_mut() {
            // Re-register the timer with the new timeout.
            *id = Reactor::get().insert_timer(start, waker);
        }
"""
CLEAR="""        if let (Some(when), Some((id, _))) = (self.when, self.id_and_waker.as_ref()) {
            // Deregister the timer from the reactor.
            Reactor::get().remove_timer(when, *id);
        }
"""
DROPT="""        if let (Some(when), Some((id, _))) = (self.when, self.id_and_waker.take()) {
            // Deregister the timer from the reactor.
            Reactor::get().remove_timer(when, id);
        }
"""
PN_A="""            if Instant::now() >= *when {
                if let Some((id, _)) = this.id_and_waker.take() {
                    // Deregister the timer from the reactor.
                    Reactor::get().remove_timer(*when, id);
                }
                let result_time = *when;
                if let Some(next) = (*when).checked_add(this.period) {
                    *when = next;
                    // Register the timer in the reactor.
                    let id = Reactor::get().insert_timer(next, cx.waker());
                    this.id_and_waker = Some((id, cx.waker().clone()));
                } else {
                    this.when = None;
                }
                return Poll::Ready(Some(result_time));
            } else {
                match &this.id_and_waker {
                    None => {
                        // Register the timer in the reactor.
                        let id = Reactor::get().insert_timer(*when, cx.waker());
                        this.id_and_waker = Some((id, cx.waker().clone()));
                    }
                    Some((id, w)) if !w.will_wake(cx.waker()) => {
                        // Deregister the timer from the reactor to remove the old waker.
                        Reactor::get().remove_timer(*when, *id);

                        // Register the timer in the reactor with the new waker.
                        let id = Reactor::get().insert_timer(*when, cx.waker());
                        this.id_and_waker = Some((id, cx.waker().clone()));
                    }
                    Some(_) => {}
                }
            }
"""
PN_N="""            match &this.id_and_waker {
                Some((_, w)) if w.will_wake(cx.waker()) => {}
                _ => this.id_and_waker = Some((0, cx.waker().clone())),
            }
"""
PN_WHOLE=None
RW="""    pub async fn read_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        loop {
            match op(self.get_ref()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.readable()).await?;
        }
    }
"""
OPT="""    let mut polled = false;
    pin!(fut);

    future::poll_fn(|cx| {
        if !polled {
            polled = true;
            fut.as_mut().poll(cx)
        } else {
            Poll::Ready(Ok(()))
        }
    })
    .await
"""
NEWNB="""        let registration = unsafe { Registration::new(io.as_fd()) };

        Ok(Async {
            source: Reactor::get().insert_io(registration)?,
            io: Some(io),
        })
"""
CONN="""    match rn::connect_any(&socket, &addr) {
        Ok(_) => {}
        #[cfg(unix)]
        Err(rio::Errno::INPROGRESS) => {}
        // On Unix, the connection hasn't even been started in this case.
        #[cfg(windows)]
        Err(rio::Errno::AGAIN) | Err(rio::Errno::WOULDBLOCK) => {}
        Err(err) => return Err(err.into()),
    }
    Ok(socket)
"""
TCPC="""        stream.writable().await?;

        // Check if there was an error while connecting.
        match stream.get_ref().take_error()? {
            None => Ok(stream),
            Some(err) => Err(err),
        }
"""
UXC="""        stream.writable().await?;

        // On Linux, it appears the socket may become writable even when connecting fails, so we
        // must do an extra check here and see if the peer address is retrievable.
        stream.get_ref().peer_addr()?;
        Ok(stream)
"""
DROPA="""        if self.io.is_some() {
            // Deregister and ignore errors because destructors should not panic.
            Reactor::get().remove_io(&self.source).ok();

            // Drop the I/O handle to close it.
            self.io.take();
        }
"""
INTO="""        let io = self.io.take().unwrap();
        Reactor::get().remove_io(&self.source)?;
        Ok(io)
"""
PR_OWN="""        loop {
            match unsafe { (*self).get_mut() }.read(buf) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return Poll::Ready(res),
            }
            ready!(self.poll_readable(cx))?;
        }
"""
PATHC="""        match path.as_bytes().first() {
            Some(0) => rn::SocketAddrUnix::new_abstract_name(path.as_bytes().get(1..).unwrap())?,
            _ => rn::SocketAddrUnix::new(path)?,
        }
"""
M=[
('a-never-helper',[(L,NEVER,"                self.unset();\n"),(L,NEVER,"                self.unset();\n"),(L,"    /// Helper function to clear the current timer.\n    fn clear","    fn unset(&mut self) {\n        self.clear();\n        self.when = None;\n    }\n\n    /// Helper function to clear the current timer.\n    fn clear")]),
('a-setat-via',L,"""        self.clear();

        // Update the timeout. The timer emits a single event, even if it was periodic before.
        self.when = Some(instant);
        self.period = Duration::MAX;

"""+REG,"        self.set_interval_at(instant, Duration::MAX)\n"),
('a-register-helper',[(L,REG,"        self.register();\n"),(L,REGI,"        self.register();\n"),(L,"    /// Helper function to clear the current timer.\n    fn clear","""    fn register(&mut self) {
        if let (Some(when), Some((id, waker))) = (self.when, self.id_and_waker.as_mut()) {
            *id = Reactor::get().insert_timer(when, waker);
        }
    }

    /// Helper function to clear the current timer.
    fn clear""")]),
('a-after-match',L,"""        Instant::now()
            .checked_add(duration)
            .map_or_else(Timer::never, Timer::at)
""","""        match Instant::now().checked_add(duration) {
            Some(at) => Timer::at(at),
            None => Timer::never(),
        }
"""),
('a-interval-match',L,"""        Instant::now()
            .checked_add(period)
            .map_or_else(Timer::never, |at| Timer::interval_at(at, period))
""","""        let now = Instant::now();
        let Some(at) = now.checked_add(period) else {
            return Timer::never();
        };
        Timer::interval_at(at, period)
"""),
('a-never-period0',L,"""            when: None,
            period: Duration::MAX,
""","""            when: None,
            period: Duration::ZERO,
"""),
('a-willfire',L,"        self.when.is_some()\n","        !matches!(self.when, None)\n"),
('a-clear-nested',L,CLEAR,"""        if let Some(when) = self.when {
            if let Some((id, _waker)) = &self.id_and_waker {
                Reactor::get().remove_timer(when, *id);
            }
        }
"""),
('a-drop-clear',L,DROPT,"        self.clear();\n"),
('a-drop-zip',L,DROPT,"""        let registered = self.when.zip(self.id_and_waker.take());
        if let Some((when, (id, _))) = registered {
            Reactor::get().remove_timer(when, id);
        }
"""),
('a-poll-map',L,"""        match self.poll_next(cx) {
            Poll::Ready(Some(when)) => Poll::Ready(when),
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => unreachable!(),
        }
""","        self.poll_next(cx).map(|when| when.unwrap())\n"),
('a-pn-let',L,"        if let Some(ref mut when) = this.when {\n","        if let Some(when) = this.when.as_mut() {\n"),
('a-pn-flat',L,PN_A,"""            if Instant::now() >= *when {
                if let Some((id, _)) = this.id_and_waker.take() {
                    Reactor::get().remove_timer(*when, id);
                }
                let result_time = *when;
                this.when = result_time.checked_add(this.period);
                if let Some(next) = this.when {
                    let id = Reactor::get().insert_timer(next, cx.waker());
                    this.id_and_waker = Some((id, cx.waker().clone()));
                }
                return Poll::Ready(Some(result_time));
            }
            let stale = match &this.id_and_waker {
                None => true,
                Some((id, w)) => {
                    let other = !w.will_wake(cx.waker());
                    if other {
                        Reactor::get().remove_timer(*when, *id);
                    }
                    other
                }
            };
            if stale {
                let id = Reactor::get().insert_timer(*when, cx.waker());
                this.id_and_waker = Some((id, cx.waker().clone()));
            }
"""),
('a-pn-now',L,"            if Instant::now() >= *when {\n","            let now = Instant::now();\n            if !(now < *when) {\n"),
('a-pn-dur',L,"            if Instant::now() >= *when {\n","            if when.saturating_duration_since(Instant::now()).is_zero() {\n"),
('a-pn-checked',L,"            if Instant::now() >= *when {\n","            if Instant::now().checked_duration_since(*when).is_some() {\n"),
('a-pn-cmp',L,"            if Instant::now() >= *when {\n","            if Instant::now().cmp(when) != std::cmp::Ordering::Less {\n"),
('a-pn-norm',L,PN_N,"""            if !this
                .id_and_waker
                .as_ref()
                .map_or(false, |(_, w)| w.will_wake(cx.waker()))
            {
                this.id_and_waker = Some((0, cx.waker().clone()));
            }
"""),
('a-pn-always-clone',L,PN_N,"            this.id_and_waker = Some((0, cx.waker().clone()));\n"),
('a-pn-clonefrom',L,PN_N,"""            match &mut this.id_and_waker {
                Some((_, w)) => w.clone_from(cx.waker()),
                none => *none = Some((0, cx.waker().clone())),
            }
"""),
('a-pn-rereg-always',L,"""                    Some((id, w)) if !w.will_wake(cx.waker()) => {
""","""                    Some((id, _)) => {
"""),
('a-pn-waker-var',L,"        let this = self.get_mut();\n\n        if let Some(ref","        let this = self.get_mut();\n        let _waker = cx.waker().clone();\n\n        if let Some(ref"),
('a-take-rearm',L,REG,"""        if let Some((_, waker)) = self.id_and_waker.take() {
            let id = Reactor::get().insert_timer(instant, &waker);
            self.id_and_waker = Some((id, waker));
        }
"""),
('a-clear-take',[(L,CLEAR,"""        if let Some((id, _)) = &self.id_and_waker {
            if let Some(when) = self.when.take() {
                Reactor::get().remove_timer(when, *id);
            }
        }
""")]),
('o-rw-while',L,RW,"""    pub async fn read_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        let mut res = op(self.get_ref());
        while matches!(&res, Err(err) if err.kind() == io::ErrorKind::WouldBlock) {
            optimistic(self.readable()).await?;
            res = op(self.get_ref());
        }
        res
    }
"""),
('o-rw-match',L,RW,"""    pub async fn read_with<R>(&self, mut op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        loop {
            let err = match op(self.get_ref()) {
                Ok(r) => return Ok(r),
                Err(err) => err,
            };
            if err.kind() != io::ErrorKind::WouldBlock {
                return Err(err);
            }
            if let Err(err) = optimistic(self.readable()).await {
                return Err(err);
            }
        }
    }
"""),
('o-rw-helper',[(L,RW,"""    pub async fn read_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        loop {
            if let Some(res) = unless_blocked(op(self.get_ref())) {
                return res;
            }
            optimistic(self.readable()).await?;
        }
    }
"""),(L,"""#[inline]
fn setup_networking() {""","""fn unless_blocked<R>(res: io::Result<R>) -> Option<io::Result<R>> {
    match res {
        Err(err) if err.kind() == io::ErrorKind::WouldBlock => None,
        res => Some(res),
    }
}

#[inline]
fn setup_networking() {""")]),
('o-rw-pollfn',L,RW,"""    pub async fn read_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        let mut op = op;
        loop {
            match op(self.get_ref()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            self.readable().await?;
        }
    }
"""),
('o-rwm-viaget',L,"""            match op(self.get_mut()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.readable()).await?;
""","""            let io = self.get_mut();
            match op(io) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {
                    optimistic(self.readable()).await?;
                }
                res => break res,
            }
"""),
('o-opt-match',L,OPT,"""    let mut polled = false;
    pin!(fut);

    future::poll_fn(|cx| {
        if polled {
            return Poll::Ready(Ok(()));
        }
        polled = true;
        fut.as_mut().poll(cx)
    })
    .await
"""),
('o-opt-replace',L,OPT,"""    let mut first = true;
    pin!(fut);

    future::poll_fn(move |cx| match std::mem::replace(&mut first, false) {
        true => fut.as_mut().poll(cx),
        false => Poll::Ready(Ok(())),
    })
    .await
"""),
('o-poll-matchready',L,PR_OWN,"""        loop {
            match unsafe { self.get_mut() }.read(buf) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return Poll::Ready(res),
            }
            match self.poll_readable(cx) {
                Poll::Ready(Ok(())) => {}
                Poll::Ready(Err(err)) => return Poll::Ready(Err(err)),
                Poll::Pending => return Poll::Pending,
            }
        }
"""),
('o-poll-source',L,PR_OWN,"""        let this = &mut *self;
        loop {
            let res = this.io.as_mut().unwrap().read(buf);
            match res {
                Err(ref err) if err.kind() == io::ErrorKind::WouldBlock => {}
                _ => return Poll::Ready(res),
            }
            ready!(this.source.poll_readable(cx))?;
        }
"""),
('o-poll-shared',[(L,PR_OWN,"        poll_op(cx, |cx| self.as_ref().get_ref().poll_readable(cx), || unsafe { (*self2).get_mut() }.read(buf))\n")]),
('o-close-flush',L,"""    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

impl<T> AsyncWrite for &Async<T>""","""    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        AsyncWrite::poll_flush(self, cx)
    }
}

impl<T> AsyncWrite for &Async<T>"""),
('h-new-let',L,NEWNB,"""        let source = {
            let fd = io.as_fd();
            let registration = unsafe { Registration::new(fd) };
            Reactor::get().insert_io(registration)?
        };

        Ok(Async {
            source,
            io: Some(io),
        })
"""),
('h-new-map',L,NEWNB,"""        let registration = unsafe { Registration::new(io.as_fd()) };

        Reactor::get().insert_io(registration).map(|source| Async {
            source,
            io: Some(io),
        })
"""),
('h-new-match',L,"""        set_nonblocking(io.as_fd())?;

        Self::new_nonblocking(io)
""","""        match set_nonblocking(io.as_fd()) {
            Ok(()) => Self::new_nonblocking(io),
            Err(err) => Err(err),
        }
"""),
('h-new-andthen',L,"""        set_nonblocking(io.as_fd())?;

        Self::new_nonblocking(io)
""","""        set_nonblocking(io.as_fd()).and_then(|()| Self::new_nonblocking(io))
"""),
('h-drop-take',L,DROPA,"""        if let Some(io) = self.io.take() {
            let _ = Reactor::get().remove_io(&self.source);
            drop(io);
        }
"""),
('h-drop-early',L,DROPA,"""        if self.io.is_none() {
            return;
        }
        if let Err(_err) = Reactor::get().remove_io(&self.source) {}
        drop(self.io.take());
"""),
('h-drop-implicit',L,DROPA,"""        if self.io.is_some() {
            Reactor::get().remove_io(&self.source).ok();
        }
"""),
('h-into-match',L,INTO,"""        let io = self.io.take().expect("handle already taken");
        match Reactor::get().remove_io(&self.source) {
            Ok(()) => Ok(io),
            Err(err) => Err(err),
        }
"""),
('h-into-map',L,INTO,"""        let io = self.io.take().unwrap();
        Reactor::get().remove_io(&self.source).map(|()| io)
"""),
('h-getref-match',L,"        self.io.as_ref().unwrap()\n","""        match &self.io {
            Some(io) => io,
            None => unreachable!(),
        }
"""),
('h-getmut-expect',L,"        self.io.as_mut().unwrap()\n","        self.io.as_mut().expect(\"no handle\")\n"),
('h-asref-direct',L,"""    fn as_ref(&self) -> &T {
        self.get_ref()
    }""","""    fn as_ref(&self) -> &T {
        self.io.as_ref().unwrap()
    }"""),
('h-tryfrom-q',L,"        value.into_inner().map(Into::into)\n","        Ok(value.into_inner()?.into())\n"),
('h-accept-map',L,"""        let (stream, addr) = self.read_with(|io| io.accept()).await?;
        Ok((Async::new(stream)?, addr))
""","""        let (stream, addr) = self.read_with(TcpListener::accept).await?;
        Async::new(stream).map(|stream| (stream, addr))
"""),
('h-accept-nb',L,"""        let (stream, addr) = self.read_with(|io| io.accept()).await?;
        Ok((Async::new(stream)?, addr))
""","""        let res = self.read_with(|io| io.accept()).await;
        match res {
            Ok((stream, addr)) => {
                let stream = Async::new(stream)?;
                Ok((stream, addr))
            }
            Err(err) => Err(err),
        }
"""),
('h-incoming',L,"""            let res = listener.accept().await.map(|(stream, _)| stream);
            Some((res, listener))
""","""            let res = match listener.accept().await {
                Ok((stream, _addr)) => Ok(stream),
                Err(err) => Err(err),
            };
            Some((res, listener))
"""),
('h-pair-let',L,"""        Ok((Async::new(stream1)?, Async::new(stream2)?))
""","""        let first = Async::new(stream1)?;
        let second = Async::new(stream2)?;
        Ok((first, second))
"""),
('h-bind-direct',L,"""        let addr = addr.into();
        Async::new(UdpSocket::bind(addr)?)
""","""        UdpSocket::bind(addr.into()).and_then(Async::new)
"""),
('h-sendto-clone',L,"""        let addr = addr.into();
        self.write_with(|io| io.send_to(buf, addr)).await
""","""        let addr: SocketAddr = addr.into();
        self.write_with(move |socket| socket.send_to(buf, addr)).await
"""),
('h-peek-fn',L,"""    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.read_with(|io| io.peek(buf)).await
    }
}

impl TryFrom<std::net::TcpStream>""","""    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self
            .read_with(|stream| {
                let n = stream.peek(buf)?;
                Ok(n)
            })
            .await?;
        Ok(n)
    }
}

impl TryFrom<std::net::TcpStream>"""),
('c-conn-if',L,CONN,"""    if let Err(err) = rn::connect_any(&socket, &addr) {
        #[cfg(unix)]
        let in_progress = err == rio::Errno::INPROGRESS;
        #[cfg(windows)]
        let in_progress = err == rio::Errno::AGAIN || err == rio::Errno::WOULDBLOCK;
        if !in_progress {
            return Err(err.into());
        }
    }
    Ok(socket)
"""),
('c-conn-expr',L,CONN,"""    match rn::connect_any(&socket, &addr) {
        Ok(_) => Ok(socket),
        #[cfg(unix)]
        Err(rio::Errno::INPROGRESS) => Ok(socket),
        #[cfg(windows)]
        Err(rio::Errno::AGAIN) | Err(rio::Errno::WOULDBLOCK) => Ok(socket),
        Err(err) => Err(io::Error::from(err)),
    }
"""),
('c-tcp-if',L,TCPC,"""        stream.writable().await?;

        if let Some(err) = stream.get_ref().take_error()? {
            return Err(err);
        }
        Ok(stream)
"""),
('c-tcp-helper',[(L,TCPC,"""        stream.writable().await?;
        Self::connected(stream)
"""),(L,"""    /// Reads data from the stream without removing it from the buffer.
    ///
    /// Returns the number of bytes read. Successive calls of this method read the same data.
    ///
    /// # Examples
    ///
    /// ```no_run
    /// use async_io::Async;
    /// use futures_lite::{io::AsyncWriteExt""","""    fn connected(stream: Self) -> io::Result<Self> {
        stream
            .get_ref()
            .take_error()?
            .map_or(Ok(()), Err)
            .map(|()| stream)
    }

    /// Reads data from the stream without removing it from the buffer.
    ///
    /// Returns the number of bytes read. Successive calls of this method read the same data.
    ///
    /// # Examples
    ///
    /// ```no_run
    /// use async_io::Async;
    /// use futures_lite::{io::AsyncWriteExt""")]),
('c-tcp-optwait',L,"""        stream.writable().await?;

        // Check if""","""        future::poll_fn(|cx| stream.poll_writable(cx)).await?;

        // Check if"""),
('c-ux-map',L,UXC,"""        stream.writable().await?;
        let peer = stream.get_ref().peer_addr();
        peer.map(|_| stream)
"""),
('c-ux-match',L,UXC,"""        if let Err(err) = stream.writable().await {
            return Err(err);
        }
        match stream.get_ref().peer_addr() {
            Ok(_) => Ok(stream),
            Err(err) => Err(err),
        }
"""),
('c-domain-helper',[(L,"""        let (domain, sock_addr) = match addr {
            SocketAddr::V4(v4) => (rn::AddressFamily::INET, rn::SocketAddrAny::V4(v4)),
            SocketAddr::V6(v6) => (rn::AddressFamily::INET6, rn::SocketAddrAny::V6(v6)),
        };
""","""        let domain = if addr.is_ipv4() {
            rn::AddressFamily::INET
        } else {
            rn::AddressFamily::INET6
        };
        let sock_addr = rn::SocketAddrAny::from(addr);
""")]),
('c-path-strip',L,PATHC,"""        match path.as_bytes() {
            [0, name @ ..] => rn::SocketAddrUnix::new_abstract_name(name)?,
            _ => rn::SocketAddrUnix::new(path)?,
        }
"""),
('c-path-if',L,PATHC,"""        let bytes = path.as_bytes();
        if !bytes.is_empty() && bytes[0] == 0 {
            rn::SocketAddrUnix::new_abstract_name(&bytes[1..])?
        } else {
            rn::SocketAddrUnix::new(path)?
        }
"""),
('c-path-stripprefix',L,PATHC,"""        match path.as_bytes().strip_prefix(&[0]) {
            Some(name) => rn::SocketAddrUnix::new_abstract_name(name)?,
            None => rn::SocketAddrUnix::new(path)?,
        }
"""),
('n-nb-map',L,"            rustix::io::ioctl_fionbio(fd, true)?;\n","            rustix::io::ioctl_fionbio(fd, true).map_err(io::Error::from)?;\n"),
('n-nb-fcntl',L,"            rustix::io::ioctl_fionbio(fd, true)?;\n","""            let previous = rustix::fs::fcntl_getfl(fd)?;
            if !previous.contains(rustix::fs::OFlags::NONBLOCK) {
                rustix::fs::fcntl_setfl(fd, previous | rustix::fs::OFlags::NONBLOCK)?;
            }
"""),
('n-rw-sharedfn',[(L,RW,"""    pub async fn read_with<R>(&self, op: impl FnMut(&T) -> io::Result<R>) -> io::Result<R> {
        self.io_with(op, Self::poll_readable_once).await
    }
""")]),
]
M=[m for m in M if m[0] not in('n-rw-sharedfn','o-poll-shared')]
