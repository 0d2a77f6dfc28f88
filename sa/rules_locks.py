"""C15: lock order, re-entrancy, user code under locks (see DESIGN.md)."""
from .common import *
from .rules_io import forget_deadlines, is_waker_val, is_stored
from .rules_driver import hook_react, find_block_on

USER = ("<fnlike>", "<indirect>")


def is_cx(st, v):
    """is v known to be a waker of the very task that is polling"""
    def cx(t):
        a = st.obs["cx"].atoms if "cx" in st.obs else ()
        return any(x in a or x.t == "sym" and "cx" in x.a for x in t.atoms) and not is_stored(t)
    for f, k in st.eqf.items():
        if k is TRUE and f.t == "op" and f.a[0] == "eq":
            for a, b in ((f.a[1], f.a[2]), (f.a[2], f.a[1])):
                if (wid(v) is a or v is a or v.t == "removed" and v.a[0] is a) and cx(b):
                    return True
    return False


class LockObs:
    def __init__(self, c, entry, implicit=()):
        self.c, self.entry, self.implicit = c, entry, tuple(implicit)
        self.edges = {}  # (class held, class waited for) -> (state, line)
        self.waits = {}  # class waited for -> (state, line)

    def held(self, eng, st):
        return tuple(self.c.lock_class(eng, x[0]) for x in st.locks)

    def inner(self, eng, st):
        """locks held other than the right to drive the reactor"""
        return [x for x in self.held(eng, st) if x != "events"]

    def bad(self, key, msg, st, line):
        self.c.fail("C15", key, "%s: %s" % (self.entry, msg), st, line)

    def on(self, eng, st, ev):
        c, k = self.c, ev[0]
        if k == "lock":
            cl = c.lock_class(eng, ev[1])
            c.ob("C15", "a lock is acquired only in the global order")
            for h in self.implicit + self.held(eng, st):
                if ev[2] == "lock" or h == cl:
                    self.edges.setdefault((h, cl), (st, ev[3], self.entry))
            if ev[2] == "lock":
                self.waits.setdefault(cl, (st, ev[3], self.entry))
        elif k == "relock":
            self.bad("relock:%s" % c.lock_class(eng, ev[1]), "the %s lock is acquired by the thread that holds it" % c.lock_class(eng, ev[1]), st, ev[2])
        elif k == "wake":
            c.ob("C15", "no waker is woken under an internal lock")
            h = self.inner(eng, st)
            if h:
                self.bad("wake:%s" % h[0], "a waker is woken while the %s lock is held" % h[0], st, ev[2])
        elif k in ("drop", "dropremoved"):
            if is_waker_val(eng, ev[1], ev[2]) or (k == "dropremoved" and holds_waker(c, eng, ev)):
                c.ob("C15", "no waker is given up under an internal lock")
                h = self.inner(eng, st)
                # (a clone is not the last reference to the task)
                # (nor is one of the task that polls)
                if h and not (ev[1].t == "op" and ev[1].a[0] == "wclone") and not is_cx(st, ev[1]):
                    self.bad("drop:%s" % h[0], "a waker, perhaps the last one of its task, is dropped while the %s lock is held" % h[0], st, None)
        elif k == "call":
            if user_call(c, ev):
                c.ob("C15", "no user code is run under an internal lock")
                h = self.implicit + self.held(eng, st)
                if h:
                    self.bad("user:%s:%s" % (ev[1], h[0]), "user code (%s) is run while the %s lock is held" % (ev[1], h[0]), st, ev[4])
            elif ev[1].split("::")[-1] in ("sleep", "join", "recv", "wait", "sleep_ms"):
                h = self.implicit + self.held(eng, st)
                if h and blocks(ev[2]):
                    self.bad("blocks:%s" % ev[1], "%s is called while the %s lock is held" % (ev[1], h[0]), st, ev[4])
        elif k == "poller" and ev[1].startswith("wait"):
            c.ob("C15", "the OS wait holds only the right to drive the reactor")
            h = self.inner(eng, st)
            if h:
                self.bad("oswait:%s" % h[0], "the reactor waits for the OS while the %s lock is held" % h[0], st, ev[3])
        elif k == "poller_done" and ev[1].startswith("wait"):
            forget_deadlines(st)
        elif k == "ev":
            st.merge_generations("oserr")
        elif k == "react":
            h = self.inner(eng, st)
            if h:
                self.bad("oswait:%s" % h[0], "the reactor step is run while the %s lock is held" % h[0], st, ev[2])
        elif k == "park":
            c.ob("C15", "no thread sleeps in its parker holding a lock")
            h = self.implicit + self.held(eng, st)
            if h and (ev[2] is None or st.norm(ev[2]) is not dur(0)):
                self.bad("park:%s" % h[0], "the thread sleeps in its parker while the %s lock is held" % h[0], st, ev[4])
        elif k in ("ret", "unwind_out", "yield"):
            c.ob("C15", "no lock is kept across a return or an await")
            for x in st.locks:
                if not any(g.t == "guard" and (g.a[0], g.a[1]) == x[0] for v in ([ev[1]] if k == "ret" else []) for g in subterms(v)):
                    self.bad("kept:%s" % c.lock_class(eng, x[0]), "the %s lock is %s" % (c.lock_class(eng, x[0]), "held across an await" if k == "yield" else "never released"), st, None)


def holds_waker(c, eng, ev):
    """is what was removed a waker"""
    if ev[2] is not None and "Waker" in c.prog.tys(ev[2]):
        return True
    v = ev[1]
    if v.t == "const" and v.a[0] == "entry":
        return True
    return any(t.t == "data" and c.lock_class(eng, (t.a[0].a[0], t.a[0].a[1])) == "state" for t in subterms(v))


def blocks(path):
    return path.startswith("std::thread::") or path.startswith("std::sync::") or "parking::" in path


def user_call(c, ev):
    """a call of code the user supplies"""
    if ev[1] in USER:
        return True
    call = ev[5]
    if not call.atys:
        return False
    t = c.prog.ty(call.atys[0])
    for _ in range(4):
        if t.get("k") == "ref" or (t.get("k") == "adt" and t.get("path") == "core::pin::Pin"):
            t = c.prog.ty(t["args"][0])
    return t.get("k") == "param" or (t.get("k") not in ("adt",) and t.get("k") in ("dyn", "fnptr"))


def cycle(edges):
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    for a in sorted(g):
        st, seen = [(a, (a,))], set()
        while st:
            x, p = st.pop()
            for y in sorted(g.get(x, ())):
                if y == a:
                    return p + (a,)
                if y not in seen:
                    seen.add(y)
                    st.append((y, p + (y,)))
    return None


def roots(c):
    """every function of the crate that is not a closure, a coroutine or a reactor step"""
    react = set(c.react_roots())
    for k, b in sorted(c.prog.bodies.items()):
        if b.local and not b.closure and not b.coroutine and k not in react:
            yield b


def analyse_locks(c):
    edges, waits, done = {}, {}, set()
    direct = c.contains_call("Parker::park", "Parker::park_timeout")

    def collect(o, cl=None):
        for k, v in o.edges.items():
            edges.setdefault(k, v)
        for k, v in o.waits.items():
            waits.setdefault((k, o.entry), v)

    for b in roots(c):
        cap = Capture()
        o = LockObs(c, b.path)
        e = c.engine([o, cap])
        e.tls_flags_false = True
        hook_react(c, e)

        def init(st, b=b):
            for i in range(1, b.argc + 1):
                if "Context<" in c.prog.tys(b.locals[i]):
                    st.obs["cx"] = st.mem[mk("L", 0, i)]

        e.run(b, fargs(b), init=init, name=b.path)
        collect(o)
        for v, st in cap.vals:
            if v.t == "coro" and v not in done:
                done.add(v)
                obs = []

                def mkobs(_):
                    obs.append(LockObs(c, b.path))
                    return [obs[-1]]
                poll_states(c, b.path, v, st.mem, mkobs)
                for o in obs:
                    collect(o)
    for k in c.react_roots():
        b = c.body(k)
        o = LockObs(c, b.path, ("events",))
        e = c.engine([o])
        e.run(b, fargs(b), name=b.path)
        collect(o)
    c.ob("C15", "the lock order is acyclic")
    cyc = cycle(edges)
    c.lock_edges = sorted(edges)
    if cyc:
        st, line, entry = edges[(cyc[0], cyc[1])]
        c.fail("C15", "order:%s" % ">".join(sorted(set(cyc))), "locks are acquired in a cyclic order: %s (%s is acquired holding %s in %s; %s)" % (
            " -> ".join(cyc), cyc[1], cyc[0], entry, "; ".join("%s after %s in %s" % (b, a, edges[(a, b)][2]) for a, b in zip(cyc[1:], cyc[2:]))), st, line)
    # nobody but the reactor's own thread may wait until the reactor's driver is done
    own = set()
    for b, _, f, _ in c.call_sites(lambda f: f["path"].startswith("std::thread::") and f["path"].split("::")[-1].startswith("spawn")):
        for k in c.callees(b.key):
            own |= c.reach(k)
    paths = {c.prog.bodies[k].path for k in own if k in c.prog.bodies}
    c.ob("C15", "only the reactor's own thread waits for the right to drive the reactor")
    for (cl, entry), (st, line, _) in sorted(waits.items()):
        if cl == "events" and entry not in paths:
            c.fail("C15", "waits:events", "%s waits until another thread stops driving the reactor, which may take for ever" % entry, st, line)
