"""C16, C18-C21: the operations of Async (see DESIGN.md)."""
from .common import *
from .engine import ALWAYS_SOME
from .rules_io import Spans, Dir, run_polls, eqf, forget_deadlines

WOULD_BLOCK = K(13)  # the discriminant of std::io::ErrorKind::WouldBlock

# what the operations of the same name wait for
OPS = {"read": "r", "read_vectored": "r", "accept": "r", "peek": "r", "recv": "r", "recv_from": "r", "peek_from": "r",
       "write": "w", "write_vectored": "w", "flush": "w", "send": "w", "send_to": "w",
       "read_with": "r", "read_with_mut": "r", "write_with": "w", "write_with_mut": "w"}
INSPECT = {"as_fd", "as_raw_fd", "fmt", "as_socket", "local_addr", "peer_addr", "deref", "borrow", "as_ref"}


def strip(v):
    """a value without the conversions it went through"""
    while True:
        if v.t == "op" and v.a[0] == "into":
            v = v.a[1]
        else:
            return v


def chase(st, v):
    """the place a (perhaps nested) reference refers to"""
    r, p = st.deref(v)
    for _ in range(6):
        x = st.rd(r, p)
        if x.t == "agg" and x.a[0] == PIN:
            x = x.a[2][0]
        if x.t != "ref":
            break
        r, p = st.deref(x)
    return r, p


def payload(st, v, variant):
    """is v the content of that variant of a result, and of which"""
    v = strip(v)
    if v.t == "prj" and v.a[1][0] == "f" and v.a[0].t == "prj" and v.a[0].a[1] == ("v", variant):
        return v.a[0].a[0]
    return None


def err_of(r):
    return project(project(r, ("v", 1)), ("f", 0, "0"))


def ok_of(r):
    return project(project(r, ("v", 0)), ("f", 0, "0"))


def is_err(st, r):
    d = st.discr(r)
    return kv(d) == 1 if d.t == "k" else None


def would_block(st, r):
    """does the operation's result say WouldBlock: True, False or None"""
    e = is_err(st, r)
    if e is not True:
        return False if e is False else None
    x = op("discr", op("kind", err_of(r)))
    v = st.evalb(op("eq", *sorted((st.norm(x), WOULD_BLOCK)))) if st.norm(x).t != "k" else K(kv(st.norm(x)) == kv(WOULD_BLOCK))
    return True if v is TRUE else False if v is FALSE else None


def not_would_block(st, r):
    """could it be known that the result is not WouldBlock"""
    return would_block(st, r) is not True


def asyncs(v, acc=None):
    """the Async values inside a value"""
    acc = [] if acc is None else acc
    if v.t == "agg" and v.a[0] == "Async":
        acc.append(v)
    elif v.t in ("agg", "coro", "ov"):
        for x in subvals(v):
            asyncs(x, acc)
    return acc


def subvals(v):
    if v.t == "agg":
        return v.a[2]
    if v.t == "coro":
        return tuple(v.a[2]) + tuple(x for _, x in v.a[3])
    if v.t == "ov":
        return (v.a[0],) + tuple(x for _, x in v.a[1])
    return ()


class Waits(Spans):
    """what the critical sections of source states mean for the task that is polled: st.obs["waits"] holds, since it was
    last cleared, (kind, direction, source) with kind armed / done, and ("failed", error, source)"""

    def on(self, eng, st, ev):
        self.base_on(eng, st, ev)

    def end(self, eng, st, sp, s0, data):
        c = self.c
        src = sp[0][0]
        new = []
        bad = [m for m in sp[2] if not m[0] and not m[4]]
        for m in bad:
            new.append(("failed", m[2], src))
        for i in (0, 1):
            a, b = Dir(c, st, s0, i), Dir(c, st, data, i)
            if not bad and self.records(st, b):
                new.append(("armed", K(i), src))
            elif sum(1 for t, v in st.eqf.items() if v is FALSE and t.t == "op" and t.a[0] == "eq" and a.tick in t.a[1:]) >= 2:
                new.append(("done", K(i), src))
        if new:
            st.obs["waits"] = tuple(sorted(set(st.obs.get("waits", ())) | set(new), key=repr))
        st.obs["looked"] = K(1)

    def records(self, st, b):
        base = slab_base(b.slab)
        # (a slot whose waker is known to be the task's own may have been left alone)
        ks = b.keys() | {t.a[1][1] for f, v in st.eqf.items() if v is TRUE and f.t == "op" and f.a[0] == "eq"
                         for t in subterms(f) if t.t == "prj" and t.a[0] is base and t.a[1][0] == "i"}
        for x in [b.waker] + [b.slot(k) for k in sorted(ks)]:
            if x is not ABSENT and b.is_some(x) and same_waker(st, some_inner(x), CX):
                return True
        return False

    def waits(self, st, kind):
        return [(x[1], x[2]) for x in st.obs.get("waits", ()) if x[0] == kind]

    def clear(self, st):
        st.obs.pop("waits", None)
        st.obs.pop("looked", None)


def source_of(c, st, place):
    """the source whose lock an Async's waits take"""
    r, p = place
    x = st.rd(r, p + (c.L["a.source"],))
    return st.deref(x)[0]


def find_handle(c, st, ev):
    """the Async place whose handle a call works on"""
    io = c.L["a.io"]
    todo = []
    for a in ev[3]:
        todo += list(a.a[2]) if a.t == "agg" and a.a[0] == "tuple" else [a]
    for a in todo:
        if a.t not in ("ref", "sym", "prj") and not (a.t == "agg" and a.a[0] == PIN):
            continue
        r, p = chase(st, a)
        if p[-3:] == (io, ("v", 1), ("f", 0, "0")):
            return r, p[:-3]
    return None


# ------------------------------------------------------------------------------------------------- operations
class OpObs(Waits):
    def __init__(self, c, entry, spec, want, params, kind):
        super().__init__(c)
        self.entry, self.spec, self.want, self.params, self.kind = entry, spec, want, params, kind
        self.seen = set()
        self.stream = None

    def bad(self, pid, key, msg, st, line=None):
        self.c.fail(pid, "%s:%s" % (key, self.entry), "%s: %s" % (self.entry, msg), st, line, entry=self.entry)

    def on(self, eng, st, ev):
        self.base_on(eng, st, ev)
        k = ev[0]
        if k == "call":
            self.call(eng, st, ev)
        elif k == "ret" and getattr(eng, "dropping", False):
            self.c.ob("C29", "dropping a pending operation performs nothing on the handle")
        elif k == "ret":
            self.at_ret(eng, st, ev[1])

    def call(self, eng, st, ev):
        c = self.c
        h = find_handle(c, st, ev)
        if h is None:
            return
        name = ev[1].split("::")[-1]
        if name in INSPECT:
            return
        if getattr(eng, "dropping", False):
            self.bad("C29", "performed-on-drop:%s" % name, "dropping the pending operation performs %s" % name, st, ev[4])
        c.ob("C19", "the operation performed is the one promised, with the caller's arguments")
        if name != self.spec:
            self.bad("C19", "other-operation:%s" % name, "performs %s instead of %s" % (name, self.spec), st, ev[4])
            return
        if self.spec != "<fnlike>":
            got = [self.arg(st, a) for a in ev[3][1:]]
            if got != self.params:
                self.bad("C19", "arguments", "%s is called with %s instead of the caller's %s" % (name, [show(x) for x in got], [show(x) for x in self.params]), st, ev[4])
        old = st.obs.get("op")
        c.ob("C18", "the operation is performed again only after WouldBlock and a wait")
        if old is not None:
            wb = would_block(st, old)
            if wb is not True:
                self.bad("C18", "repeated", "performs the operation again although the previous attempt did not report WouldBlock", st, ev[4])
            elif self.waits(st, "failed"):
                self.bad("C18", "wait-error", "the wait failed but the operation is performed again instead of returning that error", st, ev[4])
            elif st.obs.get("looked") is None:
                self.bad("C18", "spins", "performs the operation again without having waited", st, ev[4])
        st.obs["op"] = ev[6]
        st.obs["at"] = ref(*h)
        self.clear(st)

    def arg(self, st, v):
        v = strip(v)
        for _ in range(6):
            if v.t == "ref":
                r, p = v.a
                if r.t == "*" and not p:
                    v = strip(r.a[0])
                else:
                    v = strip(st.rd(r, p))
            else:
                break
        return v

    def at_ret(self, eng, st, v):
        c = self.c
        r = st.obs.get("op")
        d = st.discr(v)
        if d.t != "k":
            self.bad("C18", "unknown", "the result of the poll is not known to be Ready or Pending", st)
            return
        if r is None:
            for pid in ("C18",) if kv(d) else ("C18", "C19"):
                self.bad(pid, "no-attempt", "the poll returns %s without attempting the operation (%s)" % ("Pending" if kv(d) else show(v), self.spec), st)
            return
        wb = would_block(st, r)
        failed = self.waits(st, "failed")
        src = source_of(c, st, st.deref(st.obs["at"]))
        if kv(d) == 1:
            self.seen.add("pending")
            c.ob("C29", "an operation is suspended only when its attempt had no effect")
            if wb is not True:
                self.bad("C29", "suspended", "is suspended although its attempt did not report WouldBlock: a result is lost if it is dropped now", st)
            c.ob("C18", "Pending only after WouldBlock and with a wait in the right direction on the handle's source")
            if wb is not True:
                self.bad("C18", "pending", "returns Pending although the operation did not report WouldBlock", st)
            armed = self.waits(st, "armed")
            own = [x for x in armed if x[1] is src]
            if not own:
                self.bad("C18", "no-wait", "returns Pending without waiting on the handle's source", st)
            elif self.want is not None and K(c.dirmap[self.want]) not in [x[0] for x in own]:
                self.bad("C18", "direction", "waits in the wrong direction for %s" % self.spec, st)
            elif len(own) > 1 and self.unknown_other(st, own):
                self.bad("C18", "both-directions", "waits in both directions", st)
            return
        x = v.a[2][0]
        self.seen.add("ready")
        if self.stream is not None:
            # an item of a stream of connections, with what continues it
            y = x.a[2][0] if x.t == "agg" and x.a[0] == OPT and x.a[1] == 1 else None
            if y is not None and self.stream is not True:
                y, z = y.a[2] if y.t == "agg" and y.a[0] == "tuple" and len(y.a[2]) == 2 else (None, None)
                c.ob("C19", "a stream of connections goes on with the same listener")
                if y is not None and self.place(st, z) != self.place(st, self.stream):
                    self.bad("C19", "other-listener", "the stream goes on with %s instead of its listener" % show(z), st)
            if y is None:
                self.bad("C19", "stream-end", "the stream of connections yields %s instead of a connection or an error" % show(x), st)
                return
            x = y
        c.ob("C18", "a result other than WouldBlock, or the error of a failed wait, is returned unchanged")
        if failed:
            if not (st.discr(x) is K(1) and any(f[0] in x.atoms or f[0].atoms <= x.atoms for f in failed)):
                self.bad("C18", "wait-error", "the wait failed but the operation returns %s" % show(x), st)
            return
        if wb is True:
            self.bad("C18", "would-block", "returns %s although the operation reported WouldBlock" % show(x), st)
            return
        self.result(eng, st, x, r)

    def place(self, st, v):
        return chase(st, v)

    def unknown_other(self, st, own):
        return False

    def result(self, eng, st, x, r):
        c = self.c
        c.ob("C19", "the result returned is the operation's")
        if x is r:
            return
        if x.t == "agg" and x.a[0] == RES:
            y = x.a[2][0]
            if x.a[1] == 1 and (payload(st, y, 1) is r or strip(y) is r):
                return
            if x.a[1] == 0 and is_err(st, r) is False:
                if payload(st, y, 0) is r or y is ok_of(r):
                    return
                if self.kind == "accept":
                    # (Async over the accepted socket, its address)
                    s, a = project(ok_of(r), ("f", 0, "0")), project(ok_of(r), ("f", 1, "1"))
                    if y.t == "agg" and y.a[0] == "tuple":
                        z, addr = y.a[2]
                    else:
                        z, addr = y, None
                    if z.t == "agg" and z.a[0] == c.L["Async"]:
                        io = project(z, c.L["a.io"])
                        if io.t == "agg" and io.a[1] == 1 and strip(io.a[2][0]) is s and (addr is None or addr is a):
                            return
            if x.a[1] == 1 and self.kind == "accept" and is_err(st, r) is False:
                # putting the accepted socket into the reactor failed
                if any(t in st.obs.get("errors", ()) for t in subterms(x)):
                    return
        self.bad("C19", "result", "returns %s, which is not the operation's result %s" % (show(x), show(r)), st)


class ErrObs:
    """collects the errors of the system calls of the path"""

    def on(self, eng, st, ev):
        if ev[0] == "call" and ev[6] is not None and ev[1].split("::")[-1] in ("ioctl_fionbio", "set_nonblocking", "fcntl_setfl", "fcntl_getfl"):
            st.obs["errors"] = st.obs.get("errors", ()) + (err_of(ev[6]),)
        elif ev[0] == "poller_done" and ev[1].startswith("add") and not ev[2]:
            st.obs["errors"] = st.obs.get("errors", ()) + (strip(ev[5].a[2][0]),)


def is_cx(c, tid):
    t = c.prog.ty(tid)
    return t.get("k") == "ref" and c.prog.ty(t["args"][0]).get("path") == "core::task::wake::Context"


def setup_cx(c, b):
    def init(st):
        for i in range(b.argc):
            if is_cx(c, b.locals[i + 1]):
                st.mem[mk("L", 0, i + 1)] = c.cx(st)
    return init


def op_roots(c):
    """(body, operation, parameters) of the operations of Async"""
    for k, b in sorted(c.prog.bodies.items()):
        if not b.local or b.closure or b.coroutine or "Async" not in b.path:
            continue
        if not (b.path.startswith("Async::<") or b.path.startswith("<Async<") or b.path.startswith("<&Async<")):
            continue
        name = b.path.split("::")[-1]
        o = name[5:] if name.startswith("poll_") else name
        if o == "close":
            o = "flush"
        if o in OPS:
            ps = [x for i, x in enumerate(fargs(b)) if i and not is_cx(c, b.locals[i + 1])]
            yield b, o, ps


def analyse_ops(c):
    c.need("Async", "a.source", "a.io")
    # an Async that can be referred to has its handle: only into_inner and drop, which consume it, take it out (C16, C17)
    ALWAYS_SOME.add(c.L["a.io"])
    try:
        analyse_ops2(c)
    finally:
        ALWAYS_SOME.clear()


def analyse_ops2(c):
    run_polls(c, direct=False, futures=False)
    if len(c.dirmap) != 2:
        return
    n = 0
    for b, o, ps in op_roots(c):
        n += 1
        closure = o.endswith("_with") or o.endswith("_with_mut")
        spec = "<fnlike>" if closure else o
        run_op(c, b, b.path, spec, OPS[o], [] if closure else ps, "accept" if o == "accept" else "op")
    c.ob("C18", "operations found")
    if n == 0:
        raise Missing("no operations of Async")
    run_incoming(c)


def run_op(c, b, name, spec, want, ps, kind):
    cap = Capture()
    o = OpObs(c, name, spec, want, ps, kind)
    if is_future(c, b):
        e = c.engine([cap])
        e.run(b, fargs(b), name=name)
        vals = []
        for v, st in cap.vals:
            if v not in vals:
                vals.append(v)
                if v.t != "coro" and find_impl(c, v) is None:
                    raise Missing("%s does not return a future of the crate (%s)" % (name, show(v)[:100]))
                poll_states(c, name, v, st.mem, lambda _: [ErrObs(), o])
    else:
        e = c.engine([ErrObs(), o])
        e.run(b, fargs(b), init=setup_cx(c, b), name=name)
    for x in ("pending", "ready"):
        if x not in o.seen and not c.fails:
            c.fail("C18", "never-%s:%s" % (x, name), "%s never returns %s" % (name, x.capitalize()), None)


def find_impl(c, v):
    return c.prog.trait_impls.get(("core::future::future::Future", "poll", v.a[0], False)) if v.t == "agg" else None


def is_future(c, b):
    return not any(is_cx(c, b.locals[i + 1]) for i in range(b.argc))


class Made:
    """the streams made by a function: how they go on, from what"""

    def __init__(self):
        self.unfold = {}
        self.rets = []

    def on(self, eng, st, ev):
        if ev[0] == "call" and ev[1].split("::")[-1] in ("unfold", "try_unfold", "poll_fn") and ev[6] is not None:
            self.unfold[ev[6]] = (ev[1].split("::")[-1], ev[3])
        elif ev[0] == "ret":
            self.rets.append((ev[1], st))


def run_incoming(c):
    """the streams of accepted connections: every item is one accept on the listener"""
    n = 0
    for k, b in sorted(c.prog.bodies.items()):
        if not b.local or b.closure or b.coroutine or not b.path.startswith("Async::<") or b.path.split("::")[-1] != "incoming":
            continue
        n += 1
        m = Made()
        e = c.engine([m])
        e.run(b, fargs(b), name=b.path)
        if not m.rets:
            raise Missing("%s never returns" % b.path)
        me = fargs(b)[0]
        for v, st in m.rets:
            o = OpObs(c, b.path, "accept", "r", [], "accept")
            u = m.unfold.get(strip(v))
            pn = v.t == "agg" and c.prog.trait_impls.get(("futures_core::stream::Stream", "poll_next", v.a[0], False))
            if pn:
                o.stream = True
                poll_states(c, b.path, v, st.mem, lambda _: [ErrObs(), o])
            elif u and u[0] == "poll_fn":
                o.stream = True
                run_value(c, u[1][0], [sym("cx_arg")], [ErrObs(), o], b.path, st)
            elif u:
                o.stream = u[1][0]
                if chase(st, o.stream) != chase(st, me):
                    c.fail("C19", "other-listener:%s" % b.path, "%s: the stream is over %s instead of the listener" % (b.path, show(u[1][0])), st)
                cap = Capture()
                run_value(c, u[1][1], [u[1][0]], [cap], b.path, st)
                for w, s2 in cap.vals:
                    if w.t != "coro":
                        raise Missing("%s does not continue with a future of the crate (%s)" % (b.path, show(w)[:100]))
                    poll_states(c, b.path, w, s2.mem, lambda _: [ErrObs(), o])
            else:
                raise Missing("%s does not return a stream the rule knows (%s)" % (b.path, show(v)[:100]))
            for x in ("pending", "ready"):
                if x not in o.seen and not c.fails:
                    c.fail("C18", "never-%s:%s" % (x, b.path), "%s never returns %s" % (b.path, x.capitalize()), None)
    c.ob("C19", "streams of connections found")
    if n == 0:
        raise Missing("no stream of connections")


def run_value(c, fv, args, obs, name, st0):
    """runs a closure value with these arguments"""
    b = c.prog.bodies.get(fv.a[0].split(":", 1)[1]) if fv.t == "agg" and ":" in fv.a[0] else None
    if b is None:
        raise Missing("%s: %s is not a closure of the crate" % (name, show(fv)[:100]))
    env = fv
    r = mk("m", "env")
    byref = c.prog.ty(b.locals[1]).get("k") == "ref"
    if byref:
        env = ref(r)

    def init(st):
        for k, x in st0.mem.items():
            if k.t != "L":
                st.mem.setdefault(k, x)
        if byref:
            st.mem[r] = fv
        for i in range(b.argc):
            if is_cx(c, b.locals[i + 1]):
                st.mem[mk("L", 0, i + 1)] = c.cx(st)
    e = c.engine(obs)
    e.run(b, [env] + args, init=init, name=name)


def analyse(c):
    analyse_ops(c)
