import re
def ed(f,*subs):
    """whole-file edit by regex substitution: returns [(file, whole old, whole new)]"""
    s=o=open('/repo/'+f).read()
    for a,b in subs:
        n=re.sub(a,b,s); assert n!=s,a; s=n
    return (f,o,s)
L='src/lib.rs'; R='src/reactor.rs'
M=[
('x-reg-struct',[ed(L,
 (r'id_and_waker: Option<\(usize, Waker\)>,\n','id_and_waker: Option<Registered>,\n'),
 (r'Some\(\(id, _\)\)','Some(Registered { id, .. })'),
 (r'Some\(\(id, waker\)\)','Some(Registered { id, waker })'),
 (r'Some\(\(id, w\)\)','Some(Registered { id, waker: w })'),
 (r'Some\(\(_, w\)\)','Some(Registered { waker: w, .. })'),
 (r'Some\(\(id, cx\.waker\(\)\.clone\(\)\)\)','Some(Registered { id, waker: cx.waker().clone() })'),
 (r'Some\(\(0, cx\.waker\(\)\.clone\(\)\)\)','Some(Registered { id: 0, waker: cx.waker().clone() })'),
 (r'(/// Async adapter for I/O types.)',r'#[derive(Debug)]\nstruct Registered {\n    id: usize,\n    waker: Waker,\n}\n\n\1'))]),
('x-schedule',[ed(L,
 (r'    when: Option<Instant>,\n','    plan: Schedule,\n'),
 (r'    /// The period.\n    period: Duration,\n',''),
 (r'self\.when','self.plan.when'),(r'this\.when','this.plan.when'),(r'self\.period','self.plan.period'),(r'this\.period','this.plan.period'),
 (r'            when: None,\n            period: Duration::MAX,\n','            plan: Schedule { when: None, period: Duration::MAX },\n'),
 (r'            when: Some\(start\),\n            period,\n','            plan: Schedule { when: Some(start), period },\n'),
 (r'(/// Async adapter for I/O types.)',r'#[derive(Debug)]\nstruct Schedule {\n    when: Option<Instant>,\n    period: Duration,\n}\n\n\1'),
 )]),
('x-sources',[ed(R,
 (r'sources: Mutex<Slab<Arc<Source>>>','sources: Sources'),
 (r'Mutex::new\(Slab::new\(\)\)','Sources(Mutex::new(Slab::new()))'),
 (r'self\.reactor\.sources\.lock\(\)\.unwrap\(\)','self.reactor.sources.all()'),
 (r'self\.sources\.lock\(\)\.unwrap\(\)','self.sources.all()'),
 (r'(impl Reactor \{)',r"struct Sources(Mutex<Slab<Arc<Source>>>);\n\nimpl Sources {\n    fn all(&self) -> std::sync::MutexGuard<'_, Slab<Arc<Source>>> {\n        self.0.lock().unwrap()\n    }\n}\n\n\1"))]),
('x-ticks',[ed(R,
 (r'ticks: Option<\(usize, usize\)>','ticks: Option<Seen>'),
 (r'let Some\(\(a, b\)\) =','let Some(Seen { reactor: a, dir: b }) ='),
 (r'Some\(\(Reactor::get\(\)\.ticker\(\), state\[dir\]\.tick\)\)','Some(Seen { reactor: Reactor::get().ticker(), dir: state[dir].tick })'),
 (r'Some\(\(Reactor::get\(\)\.ticker\(\), state\[\*dir\]\.tick\)\)','Some(Seen { reactor: Reactor::get().ticker(), dir: state[*dir].tick })'),
 (r'(/// A registered source of I/O events)',r'#[derive(Debug, Clone, Copy)]\nstruct Seen {\n    reactor: usize,\n    dir: usize,\n}\n\n\1'))]),
('x-bool-when',[ed(L,(r'        self\.when\.is_some\(\)','        matches!(self.when, Some(_))'))]),
('x-dirs',[ed(R,(r'const READ: usize = 0;','const READ: usize = 1;'),(r'const WRITE: usize = 1;','const WRITE: usize = 0;'))]),
('x-ready-new',[ed(R,(r'(            let mut state = source\.state\.lock\(\)\.unwrap\(\);)',r'            let mut state = source.lock_state();') if False else (r'self\.state\.lock\(\)\.unwrap\(\)','self.locked()'),
 (r'(impl Source \{)',r"impl Source {\n    fn locked(&self) -> std::sync::MutexGuard<'_, [Direction; 2]> {\n        self.state.lock().unwrap()\n    }\n"))]),
]
