R='src/reactor.rs'
M=[('base',R,'pub(crate) struct Reactor {','pub(crate) struct Reactor {')]
