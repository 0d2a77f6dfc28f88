F='src/lib.rs';R='src/reactor.rs';K='src/reactor/kqueue.rs';W='src/reactor/windows.rs';OK='src/os/kqueue.rs';OW='src/os/windows.rs'
M=[
('k-add-readable',K,'poller.add(*raw, Event::none(token))','poller.add(*raw, Event::readable(token))'),
('k-add-key0',K,'poller.add_filter(PollSignal(signal.0), token, PollMode::Oneshot)','poller.add_filter(PollSignal(signal.0), 0, PollMode::Oneshot)'),
('k-add-level',K,'poller.add_filter(PollSignal(signal.0), token, PollMode::Oneshot)','poller.add_filter(PollSignal(signal.0), token, PollMode::Level)'),
('k-mod-edge',K,'poller.modify_filter(PollSignal(signal.0), interest.key, PollMode::Oneshot)','poller.modify_filter(PollSignal(signal.0), interest.key, PollMode::Edge)'),
('k-mod-add',K,'poller.modify_filter(PollSignal(signal.0), interest.key, PollMode::Oneshot)','poller.add_filter(PollSignal(signal.0), interest.key, PollMode::Oneshot)'),
('k-mod-sig1',K,'poller.modify_filter(PollSignal(signal.0), interest.key','poller.modify_filter(PollSignal(signal.0 + 1), interest.key'),
('k-mod-key-sig',K,'poller.modify_filter(PollSignal(signal.0), interest.key','poller.modify_filter(PollSignal(signal.0), signal.0 as usize'),
('k-fork',K,'poller.modify_filter(\n                unsafe { Process::from_pid(*pid, ProcessOps::Exit) }','poller.modify_filter(\n                unsafe { Process::from_pid(*pid, ProcessOps::Fork) }'),
('k-del-ignored',K,'Self::Signal(signal) => poller.delete_filter(PollSignal(signal.0)),','Self::Signal(signal) => { poller.delete_filter(PollSignal(signal.0)).ok(); Ok(()) }'),
('k-del-noop',K,'Self::Signal(signal) => poller.delete_filter(PollSignal(signal.0)),','Self::Signal(_) => Ok(()),'),
('k-del-proc-noop',K,'poller.delete_filter(unsafe { Process::from_pid(*pid, ProcessOps::Exit) })','let _ = pid; Ok(())'),
('k-del-fd-mod',K,'poller.delete(fd)','poller.modify(fd, Event::none(0))'),
('k-mod-none',K,'poller.modify(fd, interest)','poller.modify(fd, Event::all(interest.key))'),
('k-mod-swap',K,'poller.modify(fd, interest)','poller.modify(fd, Event::new(interest.key, interest.writable, interest.readable))'),
('k-mod-lazy',K,'                // SAFETY: self.raw is a valid file descriptor\n                let fd = unsafe { BorrowedFd::borrow_raw(*raw) };\n                poller.modify(fd, interest)','                if !interest.readable && !interest.writable { return Ok(()); }\n                let fd = unsafe { BorrowedFd::borrow_raw(*raw) };\n                poller.modify(fd, interest)'),
('k-mod-sigint',K,'            Self::Signal(signal) => {\n                poller.modify_filter','            Self::Signal(_) if !interest.writable => Ok(()),\n            Self::Signal(signal) => {\n                poller.modify_filter'),
('k-exist',K,'poller.add(*raw, Event::none(token))','poller.add(*raw, Event::none(token)).or_else(|e| if e.kind() == std::io::ErrorKind::AlreadyExists { Ok(()) } else { Err(e) })'),
('k-neg',K,'Self::Process(pid) => poller.add_filter(\n                unsafe { Process::from_pid(*pid, ','Self::Process(pid) => poller.add_filter(\n                unsafe { Process::from_pid(NonZeroI32::new(-pid.get()).unwrap(), '),
('ok-ready-w',OK,'Ready(self.0.readable())','{ let _ = self.0.readable(); todo!() }'),
('ok-poll-w',OK,'self.0.poll_readable(cx)','self.0.poll_writable(cx)'),
('ok-sig',OK,'Registration::Signal(*self)','Registration::Signal(Signal(self.0 & 31))'),
('ok-sig-max',OK,'Registration::Signal(*self)','Registration::Signal(Signal(self.0.max(1)))'),
('ok-proc-self',OK,'Registration::Process(self.0)','Registration::Process(NonZeroI32::new(std::process::id() as i32).unwrap())'),
('ok-exit-pid',OK,'NonZeroI32::new(child.id().try_into().expect("unable to parse pid"))','NonZeroI32::new(std::process::id().try_into().expect("unable to parse pid"))'),
('ok-new-err',OK,'source: Reactor::get().insert_io(filter.registration())?','source: Reactor::get().insert_io(Registration::Signal(Signal(1)))?'),
('ok-into-inner',OK,'        self.0.into_inner()\n','        let mut this = std::mem::ManuallyDrop::new(self); unsafe { Ok(std::ptr::read(this.0.get_mut())) }\n'),
('w-add-readable',W,'poller.add_waitable(*handle, Event::none(token), PollMode::Oneshot)','poller.add_waitable(*handle, Event::readable(token), PollMode::Oneshot)'),
('w-add-key',W,'poller.add(*raw, Event::none(token))','poller.add(*raw, Event::none(token + 1))'),
('w-mod-level',W,'                interest,\n                PollMode::Oneshot,','                interest,\n                PollMode::Level,'),
('w-mod-sock-lvl',W,'poller.modify(unsafe { BorrowedSocket::borrow_raw(*raw) }, interest)','poller.modify_with_mode(unsafe { BorrowedSocket::borrow_raw(*raw) }, interest, PollMode::Level)'),
('w-del-noop',W,'poller.remove_waitable(unsafe { BorrowedHandle::borrow_raw(*handle) })','poller.modify_waitable(unsafe { BorrowedHandle::borrow_raw(*handle) }, Event::none(0), PollMode::Oneshot)'),
('w-del-ignore',W,'poller.remove_waitable(unsafe { BorrowedHandle::borrow_raw(*handle) })','poller.remove_waitable(unsafe { BorrowedHandle::borrow_raw(*handle) }).or(Ok(()))'),
('w-mod-readonly',W,'poller.modify(unsafe { BorrowedSocket::borrow_raw(*raw) }, interest)','poller.modify(unsafe { BorrowedSocket::borrow_raw(*raw) }, Event::readable(interest.key))'),
('w-mod-dir',W,'                interest,\n                PollMode::Oneshot,','                Event::readable(interest.key),\n                PollMode::Oneshot,'),
('ow-poll-w',OW,'self.0.poll_readable(cx)','self.0.poll_writable(cx)'),
('ow-nothandle',OW,'Self::new(handle.into())','Ok(Self(Async { source: Reactor::get().insert_io(unsafe { Registration::new_waitable(BorrowedHandle::borrow_raw(std::ptr::null_mut())) })?, io: Some(handle.into()) }))'),
]
