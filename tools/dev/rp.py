K='src/reactor/kqueue.rs';W='src/reactor/windows.rs';OK='src/os/kqueue.rs';OW='src/os/windows.rs'
M=[
('k-proc-helper',[(K,'impl Registration {','''/// The exit filter of a process.
fn exit_of(pid: NonZeroI32) -> Process<'static> {
    // SAFETY: the pid was given by the user as one of a child process
    unsafe { Process::from_pid(pid, ProcessOps::Exit) }
}

impl Registration {'''),(K,'unsafe { Process::from_pid(*pid, ProcessOps::Exit) }','exit_of(*pid)')]),
('k-fd-new',K,'poller.add(*raw, Event::none(token))','poller.add(*raw, Event::new(token, false, false))'),
('k-with-mode',K,'poller.modify(fd, interest)','poller.modify_with_mode(fd, interest, PollMode::Oneshot)'),
('k-let',K,'poller.modify_filter(PollSignal(signal.0), interest.key, PollMode::Oneshot)','let Signal(number) = *signal;\n                let key = interest.key;\n                poller.modify_filter(PollSignal(number), key, PollMode::Oneshot)'),
('k-q',K,'Self::Signal(signal) => poller.delete_filter(PollSignal(signal.0)),','Self::Signal(signal) => {\n                poller.delete_filter(PollSignal(signal.0))?;\n                Ok(())\n            }'),
('k-match-deref',K,'        match self {\n            Self::Fd(raw) => {\n                // SAFETY: self.raw is a valid file descriptor\n                let fd = unsafe { BorrowedFd::borrow_raw(*raw) };\n                poller.modify(fd, interest)','        match self {\n            &Self::Fd(ref raw) => {\n                // SAFETY: self.raw is a valid file descriptor\n                let fd = unsafe { BorrowedFd::borrow_raw(*raw) };\n                poller.modify(fd, interest)'),
('k-map-err',K,'poller.delete(fd)','match poller.delete(fd) {\n                    Ok(()) => Ok(()),\n                    Err(e) => Err(e),\n                }'),
('k-iflet',K,'''                unsafe { poller.add(*raw, Event::none(token)) }''','''                let interest = Event::none(token);
                unsafe { poller.add(*raw, interest) }'''),
('ok-sig',OK,'Registration::Signal(*self)','{\n            let signal = *self;\n            Registration::Signal(signal)\n        }'),
('ok-sig2',OK,'Registration::Signal(*self)','Registration::Signal(Signal(self.0))'),
('ok-pid',OK,'NonZeroI32::new(child.id().try_into().expect("unable to parse pid"))\n                .expect("cannot register pid with zero value")','{\n            let pid: i32 = child.id().try_into().expect("unable to parse pid");\n            match NonZeroI32::new(pid) {\n                Some(pid) => pid,\n                None => panic!("cannot register pid with zero value"),\n            }\n        }'),
('ok-poll',OK,'        self.0.poll_readable(cx)','        let inner = &self.0;\n        inner.poll_readable(cx)'),
('ok-ready',OK,'        Ready(self.0.readable())','        let readable = self.0.readable();\n        Ready(readable)'),
('ok-rpoll',OK,'Pin::new(&mut self.0).poll(cx)','let Self(inner) = &mut *self;\n        Pin::new(inner).poll(cx)'),
('ok-new',OK,'''        Ok(Self(Async {
            source: Reactor::get().insert_io(filter.registration())?,
            io: Some(filter),
        }))''','''        let registration = filter.registration();
        let source = Reactor::get().insert_io(registration)?;
        Ok(Self(Async {
            source,
            io: Some(filter),
        }))'''),
('ow-new',OW,'''        Ok(Self(Async {
            source: Reactor::get()
                .insert_io(unsafe { Registration::new_waitable(handle.as_handle()) })?,
            io: Some(handle),
        }))''','''        // SAFETY: the handle is kept
        let registration = unsafe { Registration::new_waitable(handle.as_handle()) };
        let source = Reactor::get().insert_io(registration)?;
        let inner = Async {
            source,
            io: Some(handle),
        };
        Ok(Self(inner))'''),
('w-evnew',W,'poller.add_waitable(*handle, Event::none(token), PollMode::Oneshot)','{\n                    let interest = Event::none(token);\n                    let mode = PollMode::Oneshot;\n                    poller.add_waitable(*handle, interest, mode)\n                }'),
('w-copy',W,'                interest,\n                PollMode::Oneshot,','                Event::new(interest.key, interest.readable, interest.writable),\n                PollMode::Oneshot,'),
('w-mode',W,'poller.modify(unsafe { BorrowedSocket::borrow_raw(*raw) }, interest)','poller.modify_with_mode(unsafe { BorrowedSocket::borrow_raw(*raw) }, interest, PollMode::Oneshot)'),
('w-handle',W,'poller.remove_waitable(unsafe { BorrowedHandle::borrow_raw(*handle) })','{\n                    let raw = *handle;\n                    let handle = unsafe { BorrowedHandle::borrow_raw(raw) };\n                    poller.remove_waitable(handle)\n                }'),
]
