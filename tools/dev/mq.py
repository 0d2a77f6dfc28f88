exec(open('/tmp/mut.py').read())
F='src/lib.rs';R='src/reactor.rs';U='src/reactor/unix.rs'
M=[
('q-conn',F,'''    match rn::connect_any(&socket, &addr) {
        Ok(_) => {}
        #[cfg(unix)]
        Err(rio::Errno::INPROGRESS) => {}
        // On Unix, the connection hasn't even been started in this case.
        #[cfg(windows)]
        Err(rio::Errno::AGAIN) | Err(rio::Errno::WOULDBLOCK) => {}
        Err(err) => return Err(err.into()),
    }
    Ok(socket)''','''    if let Err(err) = rn::connect_any(&socket, &addr) {
        if err != rio::Errno::INPROGRESS {
            return Err(err.into());
        }
    }
    Ok(socket)'''),
('q-conn2',F,'''    match rn::connect_any(&socket, &addr) {
        Ok(_) => {}
        #[cfg(unix)]
        Err(rio::Errno::INPROGRESS) => {}
        // On Unix, the connection hasn't even been started in this case.
        #[cfg(windows)]
        Err(rio::Errno::AGAIN) | Err(rio::Errno::WOULDBLOCK) => {}
        Err(err) => return Err(err.into()),
    }
    Ok(socket)''','''    fn in_progress(err: rio::Errno) -> bool { matches!(err, rio::Errno::INPROGRESS) }
    match rn::connect_any(&socket, &addr) {
        Err(err) if !in_progress(err) => Err(err.into()),
        _ => Ok(socket),
    }'''),
('q-take',F,'''        match stream.get_ref().take_error()? {
            None => Ok(stream),
            Some(err) => Err(err),
        }''','''        if let Some(err) = stream.get_ref().take_error()? {
            return Err(err);
        }
        Ok(stream)'''),
('q-take2',F,'''        match stream.get_ref().take_error()? {
            None => Ok(stream),
            Some(err) => Err(err),
        }''','''        stream.get_ref().take_error()?.map_or(Ok(stream), Err)'''),
('q-fam',F,'''        let (domain, sock_addr) = match addr {
            SocketAddr::V4(v4) => (rn::AddressFamily::INET, rn::SocketAddrAny::V4(v4)),
            SocketAddr::V6(v6) => (rn::AddressFamily::INET6, rn::SocketAddrAny::V6(v6)),
        };

        // Begin async connect.
        let socket = connect(sock_addr, domain''','''        let domain = if addr.is_ipv4() { rn::AddressFamily::INET } else { rn::AddressFamily::INET6 };

        // Begin async connect.
        let socket = connect(addr.into(), domain'''),
('q-drop',F,'''        if self.io.is_some() {
            // Deregister and ignore errors because destructors should not panic.
            Reactor::get().remove_io(&self.source).ok();

            // Drop the I/O handle to close it.
            self.io.take();
        }''','''        if let Some(io) = self.io.take() {
            let _ = Reactor::get().remove_io(&self.source);
            drop(io);
        }'''),
('q-inner',F,'''        let io = self.io.take().unwrap();
        Reactor::get().remove_io(&self.source)?;
        Ok(io)''','''        let io = self.io.take().expect("handle");
        Reactor::get().remove_io(&self.source).map(|()| io)'''),
('q-ins',R,'''        if let Err(err) = source.registration.add(&self.poller, source.key) {
            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);
        }

        Ok(source)''','''        match source.registration.add(&self.poller, source.key) {
            Ok(()) => Ok(source),
            Err(err) => {
                self.sources.lock().unwrap().remove(source.key);
                Err(err)
            }
        }'''),
('q-ins2',R,'''            let mut sources = self.sources.lock().unwrap();
            let key = sources.vacant_entry().key();
            let source = Arc::new(Source {
                registration: raw,
                key,
                state: Default::default(),
            });
            sources.insert(source.clone());
            source''','''            let mut sources = self.sources.lock().unwrap();
            let entry = sources.vacant_entry();
            let source = Arc::new(Source {
                registration: raw,
                key: entry.key(),
                state: Default::default(),
            });
            entry.insert(source.clone());
            source'''),
('q-ins3',R,'''        let source = {
            let mut sources = self.sources.lock().unwrap();
            let key = sources.vacant_entry().key();
            let source = Arc::new(Source {
                registration: raw,
                key,
                state: Default::default(),
            });
            sources.insert(source.clone());
            source
        };

        // Register the file descriptor.
        if let Err(err) = source.registration.add(&self.poller, source.key) {
            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);
        }

        Ok(source)''','''        let mut sources = self.sources.lock().unwrap();
        let key = sources.vacant_entry().key();
        raw.add(&self.poller, key)?;
        let source = Arc::new(Source {
            registration: raw,
            key,
            state: Default::default(),
        });
        sources.insert(source.clone());
        Ok(source)'''),
('q-rem',R,'''        sources.remove(source.key);
        source.registration.delete(&self.poller)''','''        let res = source.registration.delete(&self.poller);
        sources.remove(source.key);
        res'''),
('q-nb',F,'''        // Put the file descriptor in non-blocking mode.
        set_nonblocking(io.as_fd())?;

        Self::new_nonblocking(io)''','''        set_nonblocking(io.as_fd()).and_then(|()| Self::new_nonblocking(io))'''),
('q-bind',F,'Async::new(UnixListener::bind(path)?)','UnixListener::bind(path).and_then(Async::new)'),
('q-pair',F,'Ok((Async::new(stream1)?, Async::new(stream2)?))','let a = Async::new(stream1)?;\n        let b = stream2.try_into()?;\n        Ok((a, b))'),
('q-acc',F,'''        let (stream, addr) = self.read_with(|io| io.accept()).await?;
        Ok((Async::new(stream)?, addr))''','''        self.read_with(|io| io.accept())
            .await
            .and_then(|(stream, addr)| Ok((Async::new(stream)?, addr)))'''),
('q-readwith',F,'''        let mut op = op;
        loop {
            match op(self.get_ref()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.readable()).await?;
        }''','''        let mut op = op;
        loop {
            let res = op(self.get_ref());
            let again = matches!(&res, Err(err) if err.kind() == io::ErrorKind::WouldBlock);
            if !again {
                return res;
            }
            if let Err(err) = optimistic(self.readable()).await {
                return Err(err);
            }
        }'''),
('q-inc',F,'''            let res = listener.accept().await.map(|(stream, _)| stream);
            Some((res, listener))''','''            match listener.accept().await {
                Ok((stream, _addr)) => Some((Ok(stream), listener)),
                Err(err) => Some((Err(err), listener)),
            }'''),
('q-opt',F,'''    let mut polled = false;
    pin!(fut);

    future::poll_fn(|cx| {
        if !polled {
            polled = true;
            fut.as_mut().poll(cx)
        } else {
            Poll::Ready(Ok(()))
        }
    })
    .await''','''    let mut first = true;
    let mut fut = std::pin::pin!(fut);

    future::poll_fn(move |cx| {
        if std::mem::replace(&mut first, false) {
            fut.as_mut().poll(cx)
        } else {
            Poll::Ready(Ok(()))
        }
    })
    .await'''),
]
run(M,[('rules_reg','analyse'),('rules_ops','analyse_ops')])
