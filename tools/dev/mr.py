exec(open('/tmp/mut.py').read())
F='src/lib.rs';R='src/reactor.rs';U='src/reactor/unix.rs'
def sub(s,a,b):
    assert a in s,a
    return s.replace(a,b)
new='''        // Put the file descriptor in non-blocking mode.
        set_nonblocking(io.as_fd())?;
'''
M=[
('nb-ignored',F,new,'        set_nonblocking(io.as_fd()).ok();\n'),
('nb-none',F,new,''),
('nb-false',F,'rustix::io::ioctl_fionbio(fd, true)?;','rustix::io::ioctl_fionbio(fd, false)?;'),
('1nb-after',F,'        set_nonblocking(io.as_fd())?;\n\n        Self::new_nonblocking(io)','        let this = Self::new_nonblocking(io)?;\n        set_nonblocking(this.as_fd())?;\n        Ok(this)'),
('accept-nonb',F,'Ok((Async::new(stream)?, addr))','Ok((Async::new_nonblocking(stream)?, addr))'),
('pair-swap',F,'Ok((Async::new(stream1)?, Async::new(stream2)?))','Ok((Async::new(stream2)?, Async::new(stream1)?))'),
('pair-nb',F,'Ok((Async::new(socket1)?, Async::new(socket2)?))','Ok((Async::new(socket1)?, Async::new_nonblocking(socket2)?))'),
('conn-nononblock',F,'rn::SocketFlags::CLOEXEC | rn::SocketFlags::NONBLOCK,\n        protocol,\n    )?;\n\n    #[cfg(not','rn::SocketFlags::CLOEXEC,\n        protocol,\n    )?;\n\n    #[cfg(not'),
('conn-nocloexec',F,'rn::SocketFlags::CLOEXEC | rn::SocketFlags::NONBLOCK,\n        protocol,\n    )?;\n\n    #[cfg(not','rn::SocketFlags::NONBLOCK,\n        protocol,\n    )?;\n\n    #[cfg(not'),
('conn-fam',F,'(rn::AddressFamily::INET6, rn::SocketAddrAny::V6(v6))','(rn::AddressFamily::INET, rn::SocketAddrAny::V6(v6))'),
('conn-dgram',F,'rn::SocketType::STREAM,\n        rn::SocketFlags::CLOEXEC | rn','rn::SocketType::DGRAM,\n        rn::SocketFlags::CLOEXEC | rn'),
('conn-again',F,'        #[cfg(windows)]\n        Err(rio::Errno::AGAIN)','        Err(rio::Errno::AGAIN)'),
('conn-anyerr',F,'        Err(err) => return Err(err.into()),\n    }\n    Ok(socket)','        Err(_) => {}\n    }\n    Ok(socket)'),
('conn-noinprog',F,'        #[cfg(unix)]\n        Err(rio::Errno::INPROGRESS) => {}\n','        #[cfg(unix)]\n        Err(rio::Errno::INTR) => {}\n'),
('conn-nowait',F,'        stream.writable().await?;\n\n        // Check if','        // Check if'),
('conn-read',F,'        stream.writable().await?;\n\n        // Check if','        stream.readable().await?;\n\n        // Check if'),
('conn-waitign',F,'        stream.writable().await?;\n\n        // Check if','        stream.writable().await.ok();\n\n        // Check if'),
('conn-opt',F,'        stream.writable().await?;\n\n        // Check if','        optimistic(stream.writable()).await?;\n\n        // Check if'),
('conn-noerr',F,'match stream.get_ref().take_error()? {','match stream.get_ref().take_error().unwrap_or(None) {'),
('conn-noerr2',F,'            None => Ok(stream),\n            Some(err) => Err(err),','            None => Ok(stream),\n            Some(err) if err.kind() == io::ErrorKind::Interrupted => Ok(stream),\n            Some(err) => Err(err),'),
('conn-early',F,'        stream.writable().await?;\n\n        // Check if there was an error while connecting.\n        match stream.get_ref().take_error()? {','        let e = stream.get_ref().take_error()?;\n        stream.writable().await?;\n        match e {'),
('unix-nopeer',F,'        stream.get_ref().peer_addr()?;\n','        stream.get_ref().peer_addr().ok();\n'),
('unix-abs',F,'path.as_bytes().get(1..).unwrap()','path.as_bytes().get(0..).unwrap()'),
('unix-abs2',F,'Some(0) => rn::Sock','Some(b\'@\') => rn::Sock'),
('ins-leak',R,'            let mut sources = self.sources.lock().unwrap();\n            sources.remove(source.key);\n            return Err(err);','            return Err(err);'),
('ins-swallow',R,'            sources.remove(source.key);\n            return Err(err);','            if err.kind() != std::io::ErrorKind::AlreadyExists {\n            sources.remove(source.key);\n            return Err(err); }'),
('ins-key',R,'source.registration.add(&self.poller, source.key)','source.registration.add(&self.poller, source.key + 1)'),
('rem-q',R,'        sources.remove(source.key);\n        source.registration.delete(&self.poller)','        source.registration.delete(&self.poller)?;\n        sources.remove(source.key);\n        Ok(())'),
('rem-order',R,'        let mut sources = self.sources.lock().unwrap();\n        sources.remove(source.key);\n        source.registration.delete(&self.poller)','        self.sources.lock().unwrap().remove(source.key);\n        source.registration.delete(&self.poller)'),
('rem-nodel',R,'        sources.remove(source.key);\n        source.registration.delete(&self.poller)','        sources.remove(source.key);\n        Ok(())'),
('rem-keep',R,'        sources.remove(source.key);\n        source.registration.delete(&self.poller)','        drop(sources);\n        source.registration.delete(&self.poller)'),
('inner-ign',F,'Reactor::get().remove_io(&self.source)?;','Reactor::get().remove_io(&self.source).ok();'),
('inner-none',F,'        Reactor::get().remove_io(&self.source)?;\n        Ok(io)','        Ok(io)'),
('inner-twice',F,'        let io = self.io.take().unwrap();\n        Reactor::get().remove_io(&self.source)?;\n        Ok(io)','        Reactor::get().remove_io(&self.source)?;\n        let io = self.io.take().unwrap();\n        Ok(io)'),
('drop-order',F,'            Reactor::get().remove_io(&self.source).ok();\n\n            // Drop the I/O handle to close it.\n            self.io.take();','            self.io.take();\n            Reactor::get().remove_io(&self.source).ok();'),
('drop-forget',F,'            Reactor::get().remove_io(&self.source).ok();\n\n            // Drop the I/O handle to close it.\n            self.io.take();','            if Reactor::get().remove_io(&self.source).is_err() { std::mem::forget(self.io.take()); }'),
('drop-none',F,'            Reactor::get().remove_io(&self.source).ok();\n','            \n'),
('bind-addr',F,'Async::new(UnixListener::bind(path)?)','Async::new(UnixListener::bind(path.with_extension("sock"))?)'),
('dgram-bind',F,'Async::new(UnixDatagram::bind(path)?)','Async::new(match UnixDatagram::bind(path) { Ok(s) => s, Err(e) if e.kind() == io::ErrorKind::AddrInUse => UnixDatagram::unbound()?, Err(e) => return Err(e) })'),
('own-clone',F,'            source: Reactor::get().insert_io(registration)?,\n            io: Some(io),','            source: Reactor::get().insert_io(registration).or_else(|_| Reactor::get().insert_io(unsafe { Registration::new(io.as_fd()) }))?,\n            io: Some(io),'),
]
run(M,[('rules_reg','analyse')])
