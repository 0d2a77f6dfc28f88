"""C16, C19 (constructors), C20, C21: how handles get into Async values and out of them again (see DESIGN.md)."""
from .common import *
from .rules_io import run_polls
from .rules_ops import (Waits, ErrObs, strip, chase, payload, err_of, ok_of, is_err, is_cx, is_future, setup_cx, source_of, find_impl)

INSPECT = {"as_fd", "as_raw_fd", "fmt", "as_socket", "local_addr", "peer_addr", "take_error"}


def last(name):
    return name.split("::")[-1]


def is_async_ty(c, t):
    return c.prog.ty(t).get("path") == c.L["Async"]


def async_places(st, v, place=None, acc=None, seen=None):
    """the Async values inside a value, also behind boxes and reference counts"""
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if v.t == "agg" and v.a[0] == "Async":
        if v not in acc:
            acc.append(v)
        return acc
    if v.t in ("arc", "box") and v.a[0] not in seen:
        seen.add(v.a[0])
        async_places(st, st.rd(v.a[0]), None, acc, seen)
        return acc
    if v.t == "agg":
        xs = v.a[2]
    elif v.t == "coro":
        xs = tuple(v.a[2]) + tuple(x for _, x in v.a[3])
    elif v.t == "ov":
        xs = (v.a[0],) + tuple(x for _, x in v.a[1])
    elif v.t in ("op", "arcinner"):
        xs = tuple(x for x in v.a if isinstance(x, V))
    else:
        xs = ()
    for x in xs:
        async_places(st, x, None, acc, seen)
    return acc


def parts(c, st, a):
    """(handle or None, key, root of the source) of an Async value"""
    io = st.norm(project(a, c.L["a.io"]))
    src = project(a, c.L["a.source"])
    root = st.deref(src)[0]
    key = st.rd(root, (c.L["s.key"],)) if c.L.get("s.key") else None
    d = st.discr(io)
    if d.t == "k" and kv(d) == 0:
        return None, key, root
    return some_inner(io), key, root


def fd(h):
    return strip(h)


def raw_handle(raw):
    """the handle a raw descriptor was taken from"""
    if raw.t == "op" and raw.a[0] == "fd":
        return strip(raw.a[1])
    # part of the registration of something that can be queued
    for t in subterms(raw):
        if t.t == "op" and t.a[0] == "registration":
            return strip(t.a[1])
    return None


def wrappers(c):
    """the crate's types that wrap an Async"""
    return {t["path"] for t, fs in c.structs() if len(t["variants"]) == 1 and len(fs) == 1 and fs[0][1].startswith(c.L["Async"] + "<")}


def flag_bits(st, v):
    """the value of a flags expression; None if unknown"""
    v = st.norm(v)
    while v.t == "agg" and len(v.a[2]) == 1:
        v = st.norm(v.a[2][0])
    if v.t == "k" and isinstance(kv(v), int):
        return kv(v)
    if v.t == "op" and v.a[0] == "bitor":
        xs = [flag_bits(st, x) for x in v.a[1:]]
        return None if None in xs else xs[0] | xs[1]
    return None


def has_bits(st, v, bits):
    """are these bits set in a flags expression (whatever the rest of it is); there may be no such bits on the platform"""
    if bits is None:
        return False
    v = st.norm(v)
    while v.t == "agg" and len(v.a[2]) == 1:
        v = st.norm(v.a[2][0])
    if v.t == "k" and isinstance(kv(v), int):
        return kv(v) & bits == bits
    if v.t == "op" and v.a[0] == "bitor":
        if any(has_bits(st, x, bits) for x in v.a[1:]):
            return True
        b = flag_bits(st, v)
        return b is not None and b & bits == bits
    return False


class RegObs:
    """the registrations a function makes and undoes; st.obs:
      regs   (handle, key, source root, status) with status live / gone
      slab   (key, source root) entries put into the table of sources
      nb     (handle, result) attempts to make a handle non-blocking
      errs   errors of the system calls that failed or may have failed, in order"""

    def __init__(self, c, entry, own=None, give=None):
        self.c, self.entry = c, entry
        self.own = own          # a handle that need not be made non-blocking
        self.give = give        # C19: what the returned Async values must hold: function(state) -> list or None
        self.made = 0
        self.rets = 0

    def bad(self, pid, key, msg, st, line=None):
        self.c.fail(pid, "%s:%s" % (key, self.entry), "%s: %s" % (self.entry, msg), st, line, entry=self.entry)

    def regs(self, st):
        return st.obs.get("regs", ())

    def put(self, st, regs):
        st.obs["regs"] = tuple(regs)

    def on(self, eng, st, ev):
        k = ev[0]
        f = getattr(self, "ev_" + k, None)
        if f:
            f(eng, st, ev)

    # ---- the table of sources
    def ev_slab(self, eng, st, ev):
        kind, place, key = ev[1], ev[2], ev[3]
        if place[0].t != "D" or self.c.lock_class(eng, tuple(place[0].a)) != "sources":
            return
        ent = [x for x in st.obs.get("slab", ()) if x[0] is not key]
        if kind == "insert":
            root = st.deref(ev[4])[0] if ev[4].t in ("arc", "ref", "box") else ev[4]
            ent.append((key, root))
            self.put(st, [(h, k, root, x) if k is key and r is None and x is K("live") else (h, k, r, x) for h, k, r, x in self.regs(st)])
        st.obs["slab"] = tuple(ent)
        if kind == "remove":
            g = [x for x in st.obs.get("freed", ())] + [key]
            st.obs["freed"] = tuple(g)

    def ev_locked(self, eng, st, ev):
        if self.c.lock_class(eng, ev[1]) == "sources":
            st.obs["held"] = K(1)

    def ev_unlock(self, eng, st, ev):
        if self.c.lock_class(eng, ev[1]) != "sources":
            return
        st.obs.pop("held", None)
        self.c.ob("C16", "a key is free only while nothing is registered under it")
        for h, key, root, status in self.regs(st):
            if status is not K("live"):
                continue
            if key in st.obs.get("freed", ()) or self.absent(st, key, root):
                self.bad("C16", "key-freed", "the key of %s is given up while the handle is still registered under it" % show(h), st)

    def absent(self, st, key, root):
        """a registration made here whose source is not in the table"""
        return root is None or (key, root) not in st.obs.get("slab", ()) and root not in st.obs.get("old", ())

    # ---- the poller
    def ev_poller(self, eng, st, ev):
        c = self.c
        if not ev[1].startswith("add"):
            return
        raw, event = ev[2][0], ev[2][1]
        h = raw_handle(raw)
        if h is None:
            self.bad("C16", "unknown-handle", "registers %s, which is not the descriptor of a handle" % show(raw), st, ev[3])
            return
        c.ob("C16", "a handle is registered once")
        if any(x[0] is h and x[3] is K("live") for x in self.regs(st)):
            self.bad("C16", "twice", "registers %s twice" % show(h), st, ev[3])
        c.ob("C20", "a handle is non-blocking before it is registered")
        if not (self.own is not None and h is self.own) and not self.plain(ev[1], raw) and not self.nonblocking(st, h):
            self.bad("C20", "blocking", "registers %s, which has not been made non-blocking" % show(h), st, ev[3])

    def plain(self, what, raw):
        """a registration without reads and writes that could block"""
        return ":" in what or any(t.t == "op" and t.a[0] == "registration" for t in subterms(raw))

    def nonblocking(self, st, h):
        ok_ = None
        for x, r, on in st.obs.get("nb", ()):
            if x is h:
                ok_ = on is TRUE and (r is TRUE or is_err(st, r) is False)
        if ok_ is not None:
            return ok_
        # its flags have been read, and the mode was among them
        for x, r in st.obs.get("flags", ()):
            if x is h and is_err(st, r) is False:
                v = ok_of(r)
                for t, y in st.eqf.items():
                    if y is TRUE and t.t == "op" and t.a[0] == "hasbits" and t.a[1] is v and has_bits(st, t.a[2], self.c.plat.o_nonblock):
                        return True
                    if y is TRUE and t.t == "op" and t.a[0] == "eq" and v in t.a[1:]:
                        z = t.a[1] if t.a[2] is v else t.a[2]
                        if has_bits(st, z, self.c.plat.o_nonblock):
                            return True
        s = payload(st, h, 0)
        if s is not None:
            for r, flags in st.obs.get("sockets", ()):
                if r is s:
                    return has_bits(st, flags, self.c.plat.sock_nonblock)
        return False

    def ev_poller_done(self, eng, st, ev):
        c = self.c
        what, good, args = ev[1], ev[2], ev[3]
        h = raw_handle(args[0])
        if what.startswith("add"):
            key = project(args[1], c.L["e.key"])
            if not good:
                self.error(st, ev[5])
                return
            root = next((r for k, r in st.obs.get("slab", ()) if k is key), None)
            c.ob("C16", "a handle is registered under the key of its own source")
            if root is None and st.obs.get("held") is None:
                self.bad("C16", "key", "registers %s under the key %s, which its source does not hold" % (show(h), show(key)), st, ev[4])
            self.put(st, self.regs(st) + ((h, key, root, K("live")),))
            self.made += 1
        elif what.startswith("delete"):
            c.ob("C16", "a registered handle is deregistered once")
            rs = list(self.regs(st))
            for i, (x, key, root, status) in enumerate(rs):
                if x is h:
                    if status is not K("live"):
                        self.bad("C16", "delete-twice", "deregisters %s again" % show(h), st, ev[4])
                    rs[i] = (x, key, root, K("gone"))
                    break
            else:
                self.bad("C16", "delete-unknown", "deregisters %s, which is not registered here" % show(args[0]), st, ev[4])
            self.put(st, rs)
            if not good:
                e = ev[5]
                st.obs["delerr"] = strip(e.a[2][0])

    def error(self, st, r):
        st.obs["errs"] = st.obs.get("errs", ()) + (strip(r.a[2][0]) if r.t == "agg" else err_of(r),)

    # ---- calls
    def ev_call(self, eng, st, ev):
        c, name, args, r = self.c, last(ev[1]), ev[3], ev[6]
        if name == "ioctl_fionbio":
            self.attempt(st, raw_handle(args[0]) or self.handle(st, args[0]), r, args[1], ev[4])
        elif name == "set_nonblocking":
            self.attempt(st, self.handle(st, args[0]), r, args[1], ev[4])
        elif name == "fcntl_getfl":
            h = raw_handle(args[0]) or self.handle(st, args[0])
            st.obs["flags"] = tuple(x for x in st.obs.get("flags", ()) if x[0] is not h) + ((h, r),)
        elif name == "fcntl_setfl":
            self.attempt(st, raw_handle(args[0]) or self.handle(st, args[0]), r, TRUE if has_bits(st, args[1], self.c.plat.o_nonblock) else FALSE, ev[4])
        elif name == "socket_with":
            st.obs["sockets"] = st.obs.get("sockets", ()) + ((r, args[2]),)

    def handle(self, st, a):
        if a.t == "op" and a.a[0] == "fd":
            return raw_handle(a)
        r, p = chase(st, a)
        return strip(st.rd(r, p))

    def attempt(self, st, h, r, on, line):
        on = st.norm(on)
        st.obs["nb"] = st.obs.get("nb", ()) + ((h, r, on),)
        self.c.ob("C20", "a handle is not made blocking again")
        if on is not TRUE:
            self.bad("C20", "made-blocking", "makes %s blocking" % show(h), st, line)

    # ---- the end of handles
    def ev_drop(self, eng, st, ev):
        v = strip(ev[1])
        for h, key, root, status in self.regs(st):
            if h is v:
                self.c.ob("C16", "a handle is closed only after it has been deregistered")
                if status is K("live"):
                    self.bad("C16", "closed", "closes %s while it is still registered" % show(h), st)
                d = st.obs.get("dropped", ())
                if v in d:
                    self.bad("C16", "closed-twice", "closes %s twice" % show(h), st)
                st.obs["dropped"] = d + (v,)

    def ev_ret(self, eng, st, ev):
        c, v = self.c, ev[1]
        if getattr(eng, "dropping", False):
            out = []
        else:
            self.rets += 1
            out = async_places(st, v)
            fut = st.mem.get(mk("m", "fut"))
            if fut is not None:
                out = async_places(st, fut, None, out)
        ps = [parts(c, st, a) for a in out]
        c.ob("C16", "every registration belongs to an Async when the function returns")
        if getattr(eng, "dropping", False):
            c.ob("C29", "dropping a pending connection leaves nothing registered")
        for h, key, root, status in self.regs(st):
            if status is not K("live"):
                continue
            if not any(x is not None and strip(x) is h for x, _, _ in ps):
                if getattr(eng, "dropping", False):
                    self.bad("C29", "leaked", "dropping it leaves %s registered" % show(h), st)
                self.bad("C16", "leaked", "returns with %s registered but not in any Async (%s)" % (show(h), show(v)), st)
        for x, key, root in ps:
            c.ob("C16", "every Async holds a registered handle, with the source it is registered under")
            if x is None:
                self.bad("C16", "empty", "an Async without a handle is returned", st)
                continue
            g = [y for y in self.regs(st) if y[0] is strip(x)]
            if not g or g[-1][3] is not K("live"):
                self.bad("C16", "unregistered", "an Async is returned whose handle %s is not registered" % show(x), st)
            elif g[-1][1] is not key or (g[-1][2] is not None and g[-1][2] is not root):
                self.bad("C16", "other-source", "an Async is returned whose source is not the one its handle %s is registered under" % show(x), st)
        for key, root in st.obs.get("slab", ()):
            if not any(y[1] is key and y[3] is K("live") for y in self.regs(st)):
                self.bad("C16", "slab-leak", "a source stays in the table although its handle is not registered", st)
        if not getattr(eng, "dropping", False):
            self.errors(st, v)

    def errors(self, st, v):
        """failures are returned"""
        c = self.c
        r = self.result(st, v)
        if r is None:
            return
        nb = [(h, x) for h, x, on in st.obs.get("nb", ()) if x is not TRUE]
        for h, x in nb:
            if is_err(st, x) is True:
                c.ob("C20", "a failure to make a handle non-blocking is returned")
                if not self.carries(st, r, err_of(x)):
                    self.bad("C20", "nonblocking-error", "%s could not be made non-blocking but %s is returned" % (show(h), show(v)), st)
        for h, x in st.obs.get("flags", ()):
            if is_err(st, x) is True and not self.carries(st, r, err_of(x)):
                self.bad("C20", "nonblocking-error", "the mode of %s could not be read but %s is returned" % (show(h), show(v)), st)
        for e in st.obs.get("errs", ()):
            c.ob("C16", "a failed registration is returned")
            if not self.carries(st, r, e):
                self.bad("C16", "register-error", "the registration failed but %s is returned" % show(v), st)

    def result(self, st, v):
        """the result inside a Poll or an item of a stream; None while pending"""
        if v.t == "agg" and v.a[0] == POLL:
            if v.a[1] == 1:
                return None
            v = v.a[2][0]
        return v

    def carries(self, st, r, e):
        d = st.discr(r)
        return d is K(1) and e in subterms(r)


# ------------------------------------------------------------------------------------------------- constructors
def value_of(c, b, st, i):
    return sym(b.names.get(i + 1, "a%d" % i))


def origin(st, v):
    """what a value was converted from"""
    for _ in range(20):
        v = strip(v)
        if v.t == "op" and v.a[0] in ("asref", "str"):
            v = v.a[1]
        elif v.t == "init" and v.a[0].t == "*":
            v = v.a[0].a[0]
        elif v.t == "ref":
            r, p = v.a
            v = r.a[0] if r.t == "*" and not p else st.rd(r, p)
        else:
            break
    return v


class CtorObs(RegObs):
    """C19: the Async values returned hold what the named operation produced"""

    def __init__(self, c, b, entry, own, op_, param, seal):
        super().__init__(c, entry, own)
        self.op_, self.param, self.seal = op_, param, seal

    def ev_call(self, eng, st, ev):
        super().ev_call(eng, st, ev)
        if self.op_ is not None and last(ev[1]) == self.op_ and ev[6] is not None:
            c = self.c
            c.ob("C19", "a constructor performs the operation it is named after, with the caller's argument")
            if st.obs.get("made") is not None:
                self.bad("C19", "repeated", "performs %s twice" % self.op_, st, ev[4])
            got = [origin(st, a) for a in ev[3]]
            if self.param is not None and got != [self.param]:
                self.bad("C19", "arguments", "%s is called with %s instead of the caller's %s" % (self.op_, [show(x) for x in ev[3]], show(self.param)), st, ev[4])
            st.obs["made"] = ev[6]

    def ev_ret(self, eng, st, ev):
        super().ev_ret(eng, st, ev)
        c = self.c
        r = self.result(st, ev[1])
        if r is None or getattr(eng, "dropping", False):
            return
        d = st.discr(r)
        m = st.obs.get("made")
        if self.op_ is not None and m is None:
            self.bad("C19", "not-performed", "returns %s without performing %s" % (show(r), self.op_), st)
            return
        if d is K(1):
            if self.op_ is not None and is_err(st, m) is True:
                c.ob("C19", "a failure of the operation is returned")
                if not self.carries(st, r, err_of(m)):
                    self.bad("C19", "error", "%s failed but %s is returned" % (self.op_, show(r)), st)
                return
            known = [x for x in st.obs.get("errs", ())] + [err_of(x) for h, x, on in st.obs.get("nb", ()) if x is not TRUE and is_err(st, x) is True] \
                + [err_of(x) for h, x in st.obs.get("flags", ()) if is_err(st, x) is True]
            if not any(self.carries(st, r, e) for e in known):
                self.bad("C19", "spurious-error", "returns %s although nothing failed" % show(r), st)
            return
        if d is not K(0):
            return
        c.ob("C19", "the Async returned holds the handle produced")
        y = project(project(r, ("v", 0)), ("f", 0, "0"))
        got = [parts(c, st, a)[0] for a in async_places(st, y)]
        got = [strip(x) if x is not None else None for x in got]
        if self.op_ is None:
            want = [self.param]
            got = [origin(st, x) for x in got if x is not None]
        elif self.op_ == "pair":
            want = [project(ok_of(m), ("f", i, str(i))) for i in (0, 1)]
        else:
            want = [ok_of(m)]
        if got != want:
            self.bad("C19", "other-handle", "returns Async values over %s instead of %s" % ([show(x) if x else x for x in got], [show(x) for x in want]), st)


def adder_reach(c):
    """functions that reach the registration of a handle"""
    direct = c.contains_call("Poller::add", "Poller::add_with_mode")
    if not direct:
        raise Missing("no registration with the poller in the crate")
    return {k for k in c.prog.bodies if c.reach(k) & direct}


def ctor_roots(c):
    """functions that take no Async and whose result holds new ones"""
    add = adder_reach(c)
    for k, b in sorted(c.prog.bodies.items()):
        if not b.local or b.closure or b.coroutine or k not in add:
            continue
        if not any(b.path.startswith("%s::<" % x) or b.path.startswith("<%s<" % x) or b.path.startswith("<&%s<" % x) or " for %s<" % x in b.path
                   for x in ["Async"] + sorted(wrappers(c))):
            continue
        yield b


def ctor_spec(b):
    """(operation, parameter)"""
    n = last(b.path)
    ps = fargs(b)
    if n in ("bind", "pair", "unbound"):
        return n, (ps[0] if ps else None)
    if n in ("new", "new_nonblocking", "try_from"):
        return None, ps[0]
    return False, None


def analyse_handles(c):
    c.need("Async", "a.source", "a.io", "s.key", "e.key")
    run_polls(c, direct=False, futures=False)
    if len(c.dirmap) != 2:
        return
    n = 0
    kept = []
    for b in ctor_roots(c):
        n += 1
        op_, param = ctor_spec(b)
        own = fargs(b)[0] if last(b.path) == "new_nonblocking" else None
        if last(b.path) == "connect":
            mkobs = lambda: [ConnectObs(c, b, b.path)]
        elif op_ is False:
            mkobs = lambda: [RegObs(c, b.path, own)]
        else:
            mkobs = lambda: [CtorObs(c, b, b.path, own, op_, param, None)]
        o = run_root(c, b, mkobs, kept if last(b.path) == "new" else None)
        if last(b.path) == "connect":
            o.finish()
    c.ob("C16", "functions that register handles: %d" % n)
    if n == 0:
        raise Missing("no function that puts a handle into an Async")
    if not kept:
        raise Missing("no constructor of Async returns one")
    analyse_ends(c, kept)
    analyse_access(c)


def sealed(c, v):
    """obs at the start of polling a suspended future: the registrations its Async values stand for"""
    def setup(st, fut):
        regs, old, slab = [], [], []
        for a in async_places(st, fut):
            h, key, root = parts(c, st, a)
            if h is not None:
                regs.append((strip(h), key, root, K("live")))
                old.append(root)
                if key is not None:
                    slab.append((st.norm(key), root))
        st.obs["slab"] = tuple(slab)
        st.obs["regs"] = tuple(regs)
        st.obs["old"] = tuple(old)
    return setup


def run_root(c, b, mkobs, keep=None):
    obs = mkobs()
    cap = Capture()
    fut = is_future(c, b)
    e = c.engine([cap] + ([] if fut and makes_future(c, b) else obs))
    e.run(b, fargs(b), init=setup_cx(c, b), name=b.path)
    seen = []
    for v, st in cap.vals:
        if keep is not None and v.t == "agg" and v.a[0] == RES and v.a[1] == 0:
            keep.append((v.a[2][0], st))
        if v.t == "coro" or (find_impl(c, v) is not None):
            if v not in seen:
                seen.append(v)
                if hasattr(obs[0], "start"):
                    obs[0].start(v)
                poll_states(c, b.path, v, st.mem, lambda _: obs, setup=lambda st, fut: sealed(c, fut)(st, fut) or (obs[0].setup(st, fut) if hasattr(obs[0], "setup") else None))
    return obs[0]


def makes_future(c, b):
    t = c.prog.ty(b.locals[0])
    return t.get("k") == "coroutine" or "coroutine" in str(t.get("k")) or c.prog.tys(b.locals[0]).startswith("{async") or "async fn body" in c.prog.tys(b.locals[0])


# ------------------------------------------------------------------------------------------------- the end of an Async
class EndObs(RegObs):
    def __init__(self, c, entry, h, how):
        super().__init__(c, entry)
        self.h, self.how = strip(h), how

    def ev_ret(self, eng, st, ev):
        c, v = self.c, ev[1]
        self.rets += 1
        status = [x[3] for x in self.regs(st) if x[0] is self.h]
        c.ob("C16", "%s: the handle is deregistered" % self.how)
        if not status or status[-1] is K("live"):
            self.bad("C16", "not-deregistered", "the handle is still registered at the end", st)
            return
        key = [x[1] for x in self.regs(st) if x[0] is self.h][-1]
        if key not in st.obs.get("freed", ()):
            self.bad("C16", "key-kept", "the source stays in the table at the end", st)
        dropped = self.h in st.obs.get("dropped", ())
        e = st.obs.get("delerr")
        if self.how == "drop":
            c.ob("C16", "dropping an Async closes the handle whether or not deregistering it failed")
            if not dropped:
                self.bad("C16", "not-closed", "the handle is not closed%s" % (" when deregistering it fails" if e is not None else ""), st)
            return
        d = st.discr(v)
        if e is not None:
            c.ob("C16", "a failed deregistration is reported by into_inner")
            if not (d is K(1) and e in subterms(v)):
                self.bad("C16", "delete-error", "deregistering failed but %s is returned" % show(v), st)
            return
        c.ob("C16", "the handle itself is handed out")
        y = project(project(v, ("v", 0)), ("f", 0, "0")) if v.t == "agg" else v
        for pid in ("C16", "C19"):
            if d is not K(0) or strip(y) is not self.h or dropped:
                self.bad(pid, "not-handed-out", "returns %s instead of the handle %s" % (show(v), show(self.h)), st)

    def ev_call(self, eng, st, ev):
        # (blocking mode of a handle handed out is the user's business)
        pass


def analyse_ends(c, kept):
    done = set()
    for v, st0 in kept:
        if v in done:
            continue
        done.add(v)
        a = async_places(st0, v)
        if len(a) != 1:
            raise Missing("a constructor returns %s" % show(v))
        h, key, root = parts(c, st0, a[0])

        def init(st):
            for k, x in st0.mem.items():
                if k.t != "L":
                    st.mem.setdefault(k, x)
            st.obs["regs"] = ((strip(h), key, root, K("live")),)
            st.obs["old"] = (root,)
            if key is not None:
                st.obs["slab"] = ((st.norm(key), root),)

        nm = "drop of %s" % v.a[0].split("::")[-1]
        o = EndObs(c, nm, h, "drop")
        e = c.engine([o])
        e.run_drop(v, None, init=init, name=nm, root=mk("m", "async"))
        if not o.rets:
            raise Missing("dropping an Async never returns")
        n = 0
        for k, b in sorted(c.prog.bodies.items()):
            if not b.local or b.closure or b.coroutine or b.argc != 1 or c.prog.ty(b.locals[1]).get("path") != v.a[0]:
                continue
            n += 1
            o = EndObs(c, b.path, h, "into_inner")
            e = c.engine([o])
            e.run(b, [v], init=init, name=b.path)
            if not o.rets:
                raise Missing("%s never returns" % b.path)
        if n == 0:
            raise Missing("no function takes the handle out of an Async")


# ------------------------------------------------------------------------------------------------- access to the handle
ACCESS = {"get_ref": True, "get_mut": True, "as_ref": True, "as_mut": True, "as_fd": False, "as_raw_fd": False, "as_socket": False, "as_raw_socket": False,
          "as_handle": False, "as_raw_handle": False}


class AccessObs:
    def __init__(self, c, b, want):
        self.c, self.b, self.want, self.rets = c, b, want, 0

    def on(self, eng, st, ev):
        if ev[0] != "ret":
            return
        c, v = self.c, ev[1]
        self.rets += 1
        c.ob("C19", "access functions give the wrapped handle")
        io = c.L["a.io"]
        good = False
        if self.want:
            if v.t in ("ref", "sym", "prj"):
                r, p = st.deref(v)
                good = p[-3:] == (io, ("v", 1), ("f", 0, "0")) and r.atoms <= {sym("self")}
        else:
            s = v
            while s.t == "agg" and len(s.a[2]) >= 1:
                s = s.a[2][0]
            good = s.t == "op" and s.a[0] == "fd" and io in chain(s.a[1]) and s.atoms <= {sym("self")}
        if not good:
            c.fail("C19", "access:%s" % self.b.path, "%s: returns %s instead of the wrapped handle" % (self.b.path, show(v)), st, entry=self.b.path)


def chain(v):
    """the projections a value was reached through"""
    out = []
    for x in subterms(v):
        if x.t == "prj":
            out.append(x.a[1])
    return out


def analyse_access(c):
    for k, b in sorted(c.prog.bodies.items()):
        if not b.local or b.closure or b.coroutine or last(b.path) not in ACCESS or b.argc != 1:
            continue
        if not any(b.path.startswith("%s::<" % x) or b.path.startswith("<%s<" % x) for x in ["Async"] + sorted(wrappers(c))):
            continue
        o = AccessObs(c, b, ACCESS[last(b.path)])
        e = c.engine([o])
        e.run(b, [sym("self")], name=b.path)
        if not o.rets:
            raise Missing("%s never returns" % b.path)


# ------------------------------------------------------------------------------------------------- connect
class ConnectObs(Waits, RegObs):
    """C21"""

    def __init__(self, c, b, entry):
        Waits.__init__(self, c)
        RegObs.__init__(self, c, entry)
        self.unix = "unix" in b.path.lower()
        self.param = fargs(b)[0]
        self.seen = set()

    def setup(self, st, fut):
        """a suspended connect has started the connection on the socket its Async holds"""
        if fut.t == "coro" and fut.a[1] >= 3:
            st.obs["resumed"] = K(1)

    def on(self, eng, st, ev):
        Waits.on(self, eng, st, ev)
        RegObs.on(self, eng, st, ev)

    def ev_call(self, eng, st, ev):
        RegObs.ev_call(self, eng, st, ev)
        c, name, args, r, line = self.c, last(ev[1]), ev[3], ev[6], ev[4]
        if name in ("socket_with", "socket"):
            c.ob("C21", "the socket is a stream socket of the address's family, non-blocking and close-on-exec")
            st.obs["socket"] = r
            dom, ty, fl = flag_bits(st, args[0]), flag_bits(st, args[1]), args[2] if name == "socket_with" else K(0)
            want = self.family(st)
            if want is None or dom != want:
                self.bad("C21", "family", "creates a socket of family %s for an address of family %s" % (dom, want), st, line)
            if ty != 1:
                self.bad("C21", "type", "creates a socket of type %s instead of a stream socket" % ty, st, line)
            # (it may be set before connecting)
            st.obs["cloexec"] = K(has_bits(st, fl, c.plat.sock_cloexec))
        elif name in ("ioctl_fioclex", "fcntl_setfd", "SetHandleInformation"):
            if name == "SetHandleInformation":
                good = has_bits(st, args[1], 1) and flag_bits(st, args[2]) is not None and not flag_bits(st, args[2]) & 1
            else:
                good = name == "ioctl_fioclex" or has_bits(st, args[1], 1)
            if self.own_socket(st, args[0]):
                st.obs["cloexec"] = r if good else FALSE
                st.obs["sys"] = st.obs.get("sys", ()) + (r,)
        elif name in ("connect_any", "connect", "connect_v4", "connect_v6", "connect_unix"):
            c.ob("C21", "the connection is begun once, on that socket, to the caller's address")
            if st.obs.get("begun") is not None or st.obs.get("resumed") is not None:
                self.bad("C21", "connect-twice", "begins to connect twice", st, line)
            s = self.handle(st, args[0])
            x = st.obs.get("cloexec", FALSE)
            for good, what in ((self.nonblocking(st, s), "non-blocking"), (x is TRUE or x is not FALSE and self.succeeded(st, x), "close-on-exec")):
                if not good:
                    self.bad("C21", "flags:%s" % what, "connects a socket that is not %s" % what, st, line)
            if st.obs.get("socket") is None or s is not ok_of(st.obs["socket"]):
                self.bad("C21", "other-socket", "connects %s" % show(s), st, line)
            if not self.address(st, args[1]):
                self.bad("C21", "address", "connects to %s instead of the caller's address" % show(self.content(st, args[1])), st, line)
            st.obs["begun"] = r
            st.obs["looked"] = K(0)
        elif name == "last_os_error":
            st.obs["oserr"] = st.obs.get("oserr", ()) + (r,)
        elif name in ("take_error", "socket_error", "get_socket_error", "peer_addr", "getpeername"):
            h = self.own_handle(st, args[0])
            if h is not None:
                c.ob("C21", "the outcome is looked at after the wait")
                st.obs["outcome"] = (K(name), r, K(bool(self.waited(st))))
        elif self.unix and name in ("new", "new_abstract_name", "new_unnamed") and "SocketAddrUnix" in ev[2]:
            c.ob("C21", "a path that starts with NUL means the abstract name that follows, any other the path")
            nul = self.nul_first(st)
            x = self.content(st, args[0]) if args else None
            if name == "new_abstract_name":
                good = c.plat.abstract and nul is True and self.rest(x)
            else:
                good = name == "new" and (nul is False or not c.plat.abstract) and origin(st, x) is self.param
            if not good:
                self.bad("C21", "path", "%s is called with %s for a path that %s" % (name, show(x) if x else "nothing", {True: "starts with NUL", False: "does not start with NUL", None: "may or may not start with NUL"}[nul]), st, line)
            st.obs["addr"] = r
        elif args and self.own_socket(st, args[0]):
            # other settings of the socket
            st.obs["sys"] = st.obs.get("sys", ()) + (r,)

    def own_socket(self, st, a):
        s = st.obs.get("socket")
        return s is not None and (raw_handle(a) or self.handle(st, a)) is ok_of(s)

    def succeeded(self, st, r):
        """did a call succeed, given what has been tested about its result"""
        if is_err(st, r) is False:
            return True
        return st.evalb(op("eq", *sorted((r, K(0))))) is FALSE

    def content(self, st, v):
        for _ in range(6):
            if v.t != "ref":
                break
            v = st.rd(*v.a)
        return v

    def family(self, st):
        if self.unix:
            return 1
        for t, v in st.eqf.items():
            if t.t == "op" and t.a[0] == "discr" and strip(t.a[1]) is self.param and v.t == "k":
                return (2, self.c.plat.inet6)[kv(v)] if kv(v) in (0, 1) else None
        for k in ("is_ipv4", "is_ipv6"):
            for t, v in st.eqf.items():
                if t.t == "op" and t.a[0] == k and strip(t.a[1]) is self.param and v in (TRUE, FALSE):
                    return 2 if (v is TRUE) == (k == "is_ipv4") else self.c.plat.inet6
        for t, ks in st.nef.items():
            if t.t == "op" and t.a[0] == "discr" and strip(t.a[1]) is self.param:
                r = [x for x in (0, 1) if x not in ks and K(x) not in ks]
                if len(r) == 1:
                    return (2, self.c.plat.inet6)[r[0]]
        return None

    def address(self, st, a):
        x = self.content(st, a)
        if self.unix:
            y = strip(x)
            if y.t == "agg" and len(y.a[2]) == 1:
                y = strip(y.a[2][0])
            return st.obs.get("addr") is not None and y is ok_of(st.obs["addr"])
        y = strip(x)
        if y is self.param:
            return True
        if y.t == "agg" and len(y.a[2]) == 1:
            v = strip(y.a[2][0])
            if v.t == "prj" and v.a[0].t == "prj" and v.a[0].a[1][0] == "v":
                return strip(v.a[0].a[0]) is self.param and y.a[1] == v.a[0].a[1][1] == (0 if self.family(st) == 2 else 1)
        return False

    def base(self, v):
        """is v the bytes of the caller's path"""
        return v.atoms == {self.param} and not any(x.t == "op" and x.a[0] in ("get", "first", "last", "split_first", "strip_prefix") or x.t == "prj" for x in subterms(v))

    def first_byte(self, t):
        """is the term the first byte of the path"""
        if t.t == "prj" and t.a[1] == ("i", K(0)) and self.base(t.a[0]):
            return True
        if t.t == "init" and t.a[0].t == "*":
            x = t.a[0].a[0]
            ps = []
            while x.t == "prj":
                ps.append(x.a[1])
                x = x.a[0]
            if x.t == "op" and x.a[0] in ("first", "split_first") and self.base(x.a[1]):
                return True if x.a[0] == "first" else ps[0][:2] == ("f", 0)
        return False

    def nul_first(self, st):
        for t, v in st.eqf.items():
            if self.first_byte(t) and v.t == "k":
                return kv(v) == 0
            if t.t == "op" and t.a[0] == "discr" and t.a[1].t == "op" and v.t == "k":
                x = t.a[1]
                if x.a[0] in ("first", "split_first") and self.base(x.a[1]) and kv(v) == 0:
                    return False
                if x.a[0] == "strip_prefix" and self.base(x.a[1]) and self.zero(x.a[2]):
                    return kv(v) == 1
            if t.t == "op" and t.a[0] == "starts_with" and self.base(t.a[1]) and self.zero(t.a[2]) and v in (TRUE, FALSE):
                return v is TRUE
            if t.t == "op" and t.a[0] == "eq" and v in (TRUE, FALSE):
                # compared with Some(&0)
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if x.t == "op" and x.a[0] in ("first", "get") and self.base(x.a[1]) and (x.a[0] == "first" or x.a[2] is K(0)) and y.t == "agg" and y.a[0] == OPT and y.a[1] == 1:
                        z = y.a[2][0]
                        if (st.load(z) if z.t == "ref" else z) is K(0):
                            return v is TRUE
            if t.t == "op" and t.a[0] == "lt" and t.a[2] is K(1) and t.a[1].t == "op" and t.a[1].a[0] == "len" and self.base(t.a[1].a[1]) and v is TRUE:
                return False
            if t.t == "op" and t.a[0] == "eq" and v is FALSE and K(0) in t.a[1:] and any(self.first_byte(x) for x in t.a[1:]):
                return False
            if t.t == "op" and t.a[0] == "eq" and v is TRUE and K(0) in t.a[1:] and any(self.first_byte(x) for x in t.a[1:]):
                return True
        for t, ks in st.nef.items():
            if self.first_byte(t) and (0 in ks or K(0) in ks):
                return False
        return None

    def zero(self, v):
        if v.t == "ref" and v.a[0].t == "constmem":
            x = v.a[0].a[0]
            return x.t == "agg" and x.a[0] == "array" and x.a[2] == (K(0),)
        return False

    def rest(self, v):
        """is v the bytes of the path after the first"""
        if v.t == "init" and v.a[0].t == "*":
            v = v.a[0].a[0]
        ps = []
        while v.t == "prj":
            ps.append(v.a[1])
            v = v.a[0]
        if ps and ps[0] == ("sub", 1, 0, True) and len(ps) == 1 and self.base(v):
            return True
        if v.t != "op" or not self.base(v.a[1]):
            return False
        if v.a[0] == "get" and v.a[2].t == "agg" and v.a[2].a[0].endswith("RangeFrom") and v.a[2].a[2] == (K(1),):
            return True
        if v.a[0] == "strip_prefix":
            return self.zero(v.a[2])
        return v.a[0] == "split_first" and ps[0][:2] == ("f", 1)

    def own_handle(self, st, a):
        """the handle of this connect's Async, if that is what a refers to"""
        h = self.handle(st, a)
        return h if any(x[0] is h for x in self.regs(st)) else None

    def waited(self, st):
        """has writability been reported for the source of the connecting handle in this poll"""
        roots = [x[2] for x in self.regs(st)]
        return any(d is K(self.c.dirmap["w"]) and src in roots for d, src in self.waits(st, "done"))

    def accepted(self, st):
        """the immediate result of connecting: True connected, "pending" in progress, None unknown, False failed"""
        r = st.obs.get("begun")
        if r is None:
            return "pending" if st.obs.get("resumed") is not None else None
        e = is_err(st, r)
        if e is False:
            return True
        if e is True:
            x = err_of(r)
            while True:
                y = st.norm(x)
                if y.t == "k":
                    return "pending" if kv(y) in self.c.plat.started else False
                ts = [t for t in st.eqf if st.eqf[t].t == "k" and x in subterms(t) and t.t == "prj"]
                if ts:
                    return "pending" if any(kv(st.eqf[t]) in self.c.plat.started for t in ts) else False
                es = [t for t, v in st.eqf.items() if t.t == "op" and t.a[0] == "eq" and v is TRUE and x in subterms(t)]
                for t in es:
                    ks = [flag_bits(st, y) for y in t.a[1:] if x not in subterms(y)]
                    return "pending" if ks and ks[0] in self.c.plat.started else False
                return None
        return None

    def ev_ret(self, eng, st, ev):
        RegObs.ev_ret(self, eng, st, ev)
        if getattr(eng, "dropping", False):
            return
        c, v = self.c, ev[1]
        d = st.discr(v)
        if d is K(1):
            self.seen.add("pending")
            c.ob("C21", "connect is pending only while a connection in progress is waited for")
            if self.accepted(st) not in (True, "pending"):
                self.bad("C21", "pending", "waits although the connection was not begun or failed at once", st)
            roots = [x[2] for x in self.regs(st)]
            if not any(dd is K(c.dirmap["w"]) and src in roots for dd, src in self.waits(st, "armed")):
                self.bad("C21", "no-wait", "returns Pending without waiting for writability", st)
            return
        r = self.result(st, v)
        if r is None:
            return
        b = st.obs.get("begun")
        if st.discr(r) is K(1):
            self.seen.add("err")
            c.ob("C21", "the error returned is the one that occurred")
            if any(f[0] in subterms(r) or f[0].atoms and f[0].atoms <= r.atoms for f in self.failed_waits(st)):
                return
            known = list(st.obs.get("errs", ()))
            for x in (st.obs.get("socket"), b, st.obs.get("addr")):
                if x is not None and is_err(st, x) is True:
                    known.append(err_of(x))
            o = st.obs.get("outcome")
            if o is not None:
                if is_err(st, o[1]) is True:
                    known.append(err_of(o[1]))
                elif kv(o[0]) != "peer_addr" and kv(o[0]) != "getpeername":
                    y = ok_of(o[1])
                    if st.discr(y) is K(1):
                        known.append(some_inner(y))
            for h, x, on in st.obs.get("nb", ()):
                if x is not TRUE and is_err(st, x) is True:
                    known.append(err_of(x))
            for h, x in st.obs.get("flags", ()):
                if is_err(st, x) is True:
                    known.append(err_of(x))
            for x in st.obs.get("sys", ()):
                if is_err(st, x) is True:
                    known.append(err_of(x))
                elif st.evalb(op("eq", *sorted((x, K(0))))) is TRUE:
                    known += st.obs.get("oserr", ())
            if not any(e in subterms(r) for e in known):
                self.bad("C21", "other-error", "returns %s, which is not an error that occurred" % show(r), st)
            if self.accepted(st) == "pending" and b is not None and err_of(b) in subterms(r):
                self.bad("C21", "in-progress", "returns the in-progress result as an error", st)
            return
        self.seen.add("ok")
        c.ob("C21", "a stream is returned only when the connection is established")
        a = self.accepted(st)
        if a not in (True, "pending"):
            self.bad("C21", "not-begun", "returns a stream although the connection was not begun or failed", st)
            return
        if self.failed_waits(st):
            self.bad("C21", "wait-error", "returns a stream although the wait failed", st)
            return
        if a is True:
            return
        if not self.waited(st):
            self.bad("C21", "not-waited", "returns a stream without having waited for writability", st)
            return
        o = st.obs.get("outcome")
        if o is None or o[2] is not TRUE:
            self.bad("C21", "no-outcome", "returns a stream without checking the outcome after the wait", st)
            return
        c.ob("C21", "the outcome checked is a success")
        good = is_err(st, o[1]) is False
        if good and not self.unix and kv(o[0]) in ("take_error",):
            good = st.discr(ok_of(o[1])) is K(0)
        if not good:
            self.bad("C21", "outcome", "returns a stream although the outcome %s is not a success" % show(o[1]), st)
        if not self.unix and kv(o[0]) not in ("take_error", "socket_error", "get_socket_error"):
            self.bad("C21", "no-outcome", "returns a stream without checking the socket's error after the wait", st)
        if self.unix and kv(o[0]) not in ("peer_addr", "getpeername"):
            self.bad("C21", "no-outcome", "returns a stream without checking that it has a peer after the wait", st)

    def failed_waits(self, st):
        return [(x[1], x[2]) for x in st.obs.get("waits", ()) if x[0] == "failed"]

    def finish(self):
        for x in ("pending", "ok", "err"):
            if x not in self.seen and not any(k[0] == "C21" for k in self.c.fails):
                self.c.fail("C21", "never-%s:%s" % (x, self.entry), "%s never returns %s" % (self.entry, x), None)


def analyse(c):
    analyse_handles(c)
