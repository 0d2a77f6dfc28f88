"""C23: the registration contract on the platforms the tests do not run on (see DESIGN.md)."""
from .common import *
from .rules_ops import strip, err_of
from . import rules_io, rules_reg

ROLES = ("add", "modify", "delete")


def tys(c, b):
    return [c.prog.tys(b.locals[i + 1]) for i in range(b.argc)]


def registration(c):
    """the type of the registrations that sources hold"""
    for t, fs in c.structs():
        if t["path"] == c.L.get("Source"):
            for _, y in fs:
                if y != "usize" and "Mutex<" not in y:
                    return y
    raise Missing("sources hold no registration")


def role_roots(c, reg):
    """outermost functions on a registration that reach the poller, by what they do there"""
    out = {}
    ops = {r: c.contains_call(*(["Poller::" + r, "Poller::%s_with_mode" % r])) | {b.key for b, _, f, _ in c.call_sites(
        lambda f: f["path"].split("::")[-1] in ("%s_filter" % r, "%s_waitable" % r, "remove_waitable" if r == "delete" else "?"))} for r in ROLES}
    mine = [k for k, b in c.prog.bodies.items() if b.local and not b.closure and not b.coroutine and b.argc
            and tys(c, b)[0].lstrip("&").removeprefix("mut ") == reg and any("polling::Poller" in t for t in tys(c, b))]
    for r in ROLES:
        ks = [k for k in mine if c.reach(k) & ops[r]]
        out[r] = sorted(k for k in ks if not any(o != k and k in c.reach(o) for o in ks))
    return out


def projection(t, root):
    """is t a part of what root refers to, taken out and not computed with"""
    n = 0
    while True:
        t = strip(t)
        if t.t == "op" and t.a[0] in ("fd", "get", "cast"):
            t = t.a[1]
        elif t.t == "prj":
            t, n = t.a[0], n + 1
        elif t.t == "init":
            r = t.a[0]
            return n > 0 and (r is root or r.t == "*" and r.a[0] is root)
        elif t is root:
            return n > 0
        else:
            return False


class ContractObs:
    """one call of add, modify or delete on a registration"""

    def __init__(self, c, b, role):
        self.c, self.b, self.role, self.rets = c, b, role, 0
        self.me = fargs(b)[0]
        ts = tys(c, b)
        self.token = next((a for a, t in zip(fargs(b), ts) if t == "usize"), None)
        self.interest = next((a for a, t in zip(fargs(b), ts) if t.lstrip("&") == "polling::Event"), None)

    def bad(self, key, msg, st, line=None):
        self.c.fail("C23", "%s:%s" % (key, self.b.path), "%s: %s" % (self.b.path, msg), st, line, entry=self.b.path)

    def on(self, eng, st, ev):
        if ev[0] == "poller":
            self.called(eng, st, ev)
        elif ev[0] == "poller_done":
            st.obs["results"] = st.obs.get("results", ()) + ((K(ev[2]), ev[5]),)
        elif ev[0] == "ret":
            self.ret(eng, st, ev[1])

    def called(self, eng, st, ev):
        c, role = self.c, self.role
        what, _, kind = ev[1].partition(":")
        args, line = ev[2], ev[4] if len(ev) > 4 else ev[3]
        c.ob("C23", "%s reaches the poller's %s" % (self.b.name, role))
        if what.split("_")[0] != role:
            self.bad("other-call", "calls the poller's %s instead of %s" % (what, role), st, line)
            return
        if st.obs.get("called") is not None:
            self.bad("twice", "calls the poller twice", st, line)
        st.obs["called"] = K(kind or "fd")
        # the handle
        h = strip(args[0])
        c.ob("C23", "the poller is called for the registered handle itself")
        if kind == "filter":
            if h.t == "agg" and len(h.a[2]) == 1:
                good = projection(h.a[2][0], self.me)
            elif h.t == "op" and h.a[0] == "process":
                good = projection(h.a[1], self.me)
                o = st.norm(h.a[2])
                c.ob("C23", "a process is watched for its exit")
                if not (o.t == "agg" and o.a[1] == 0):
                    self.bad("process-event", "watches a process for %s instead of its exit" % show(o), st, line)
            else:
                good = projection(h, self.me)
        else:
            good = projection(h, self.me)
        if not good:
            self.bad("handle", "calls the poller for %s, which is not the registered handle" % show(h), st, line)
        if role == "delete":
            return
        # key and directions
        e = args[1]
        if e.t == "ref":
            e = st.rd(*st.deref(e))
        key = st.norm(project(e, c.L["e.key"]))
        want = self.token if self.interest is None else self.part(st, "key")
        c.ob("C23", "the poller is given the source's key")
        if want is None or key is not st.norm(want):
            self.bad("key", "calls the poller with the key %s instead of %s" % (show(key), show(want) if want else "the source's"), st, line)
        if kind != "filter":
            c.ob("C23", "the poller is given the requested directions")
            for n in ("readable", "writable"):
                x = st.evalb(project(e, c.L["e." + n]))
                w = FALSE if self.interest is None else st.evalb(self.part(st, n))
                if x is not w:
                    self.bad("directions", "asks the poller for %s=%s instead of %s" % (n, show(x), show(w)), st, line)
        if kind or what.endswith("_with_mode"):
            m = st.norm(args[2]) if len(args) > 2 else None
            c.ob("C23", "events are asked for once at a time")
            if not (m is not None and m.t == "agg" and m.a[1] == 0):
                self.bad("mode", "asks the poller for events in the mode %s instead of one-shot" % (show(m) if m else "?"), st, line)

    def part(self, st, n):
        e = self.interest
        if tys(self.c, self.b)[[i for i, a in enumerate(fargs(self.b)) if a is e][0]].startswith("&"):
            e = st.rd(*st.deref(e))
        return project(e, self.c.L["e." + n])

    def ret(self, eng, st, v):
        c = self.c
        self.rets += 1
        rs = st.obs.get("results", ())
        c.ob("C23", "every kind of registration reaches the poller")
        if not rs:
            self.bad("not-called", "returns %s without calling the poller (%s)" % (show(v), self.case(st)), st)
            return
        d = st.discr(v)
        c.ob("C23", "the poller's result is returned")
        bad = [r for good, r in rs if good is not TRUE]
        if bad:
            e = strip(bad[0].a[2][0]) if bad[0].t == "agg" else err_of(bad[0])
            if d is not K(1) or e not in subterms(v):
                self.bad("error", "the poller failed but %s is returned" % show(v), st)
        elif d is not K(0):
            self.bad("spurious-error", "the poller succeeded but %s is returned" % show(v), st)

    def case(self, st):
        for t, v in st.eqf.items():
            if t.t == "op" and t.a[0] == "discr" and v.t == "k":
                return "variant %s" % kv(v)
        return "no variant"


def analyse_contract(c):
    reg = registration(c)
    roots = role_roots(c, reg)
    for role in ROLES:
        for k in roots[role]:
            b = c.prog.bodies[k]
            o = ContractObs(c, b, role)
            if role != "delete" and o.token is None and o.interest is None:
                continue
            e = c.engine([o])
            e.run(b, fargs(b), name=b.path)
            if not o.rets:
                raise Missing("%s never returns" % b.path)
    c.ob("C23", "functions that pass a registration to the poller: %d" % sum(len(x) for x in roots.values()))


# ------------------------------------------------------------------------------------------------- what is registered
class SourceObs:
    """functions that make a registration out of something: it stands for that thing"""

    def __init__(self, c, b, variants):
        self.c, self.b, self.variants, self.rets = c, b, variants, 0

    def on(self, eng, st, ev):
        if ev[0] != "ret":
            return
        c, b, v = self.c, self.b, ev[1]
        self.rets += 1
        c.ob("C23", "a registration is made of the handle, signal or process it is asked for")
        me = fargs(b)[0]
        good = v.t == "agg" and len(v.a[2]) == 1
        if good:
            x = v.a[2][0]
            while x.t == "agg" and len(x.a[2]) == 1:
                x = x.a[2][0]
            x = strip(x)
            if x.t == "op" and x.a[0] == "fd":
                x = x.a[1]
            good = x is me or projection(x, me) or x.t == "init" and x.a[0].t == "*" and x.a[0].a[0] is me
        if not good:
            c.fail("C23", "registers:%s" % b.path, "%s: makes a registration of %s" % (b.path, show(v)), st, entry=b.path)


def analyse_sources(c):
    reg = registration(c)
    n = 0
    for k, b in sorted(c.prog.bodies.items()):
        if not b.local or b.closure or b.coroutine or b.argc != 1 or c.prog.tys(b.locals[0]) != reg or "Clone" in b.path:
            continue
        n += 1
        o = SourceObs(c, b, None)
        e = c.engine([o])
        e.run(b, fargs(b), name=b.path)
        if not o.rets:
            raise Missing("%s never returns" % b.path)
    c.ob("C23", "functions that make a registration: %d" % n)
    # what can be watched names what it was made for
    for k, b in sorted(c.prog.bodies.items()):
        if not b.local or b.closure or b.coroutine or b.argc != 1 or b.name not in ("new", "from_pid") or not c.prog.tys(b.locals[0]).endswith("kqueue::Exit"):
            continue
        o = ExitObs(c, b)
        e = c.engine([o])
        e.run(b, fargs(b), name=b.path)
        if not o.rets:
            raise Missing("%s never returns" % b.path)


class ExitObs:
    def __init__(self, c, b):
        self.c, self.b, self.rets = c, b, 0

    @staticmethod
    def base(v):
        """the value that conversions and checks of its result give"""
        while True:
            v = strip(v)
            if v.t == "prj":
                v = v.a[0]
            elif v.t == "op" and v.a[0] in ("cast", "get"):
                v = v.a[1]
            else:
                return v

    def on(self, eng, st, ev):
        c, b = self.c, self.b
        me = fargs(b)[0]
        if ev[0] == "call" and ev[3]:
            a, name = ev[3][0], ev[1].split("::")[-1]
            if ev[1].endswith("Child::id"):
                r, p = st.deref(a) if a.t == "ref" else (None, None)
                if r is not None and strip(st.rd(r, p)) is me:
                    st.obs["pid"] = (ev[6],)
            elif name in ("try_into", "try_from", "into", "from", "new", "new_unchecked", "get") and self.base(a) in st.obs.get("pid", ()):
                st.obs["pid"] += (ev[6],)
        if ev[0] != "ret":
            return
        self.rets += 1
        v = ev[1]
        while v.t == "agg" and len(v.a[2]) == 1:
            v = v.a[2][0]
        c.ob("C23", "an exit filter names the process it was made for")
        if self.base(v) not in (st.obs.get("pid", ()) if b.name == "new" else (me,)):
            c.fail("C23", "other-process:%s" % b.path, "%s: the filter is for %s" % (b.path, show(v)), st, entry=b.path)


# ------------------------------------------------------------------------------------------------- filters and waitable handles
def analyse_ready(c):
    """waiting for a wrapped source is a readiness wait like an Async's own, for reading"""
    ws, n = rules_reg.wrappers(c), 0
    for k, b in sorted(c.prog.bodies.items()):
        if not b.local or b.closure or b.coroutine or not b.argc:
            continue
        t = c.prog.ty(b.locals[1])
        if t.get("k") != "ref" or c.prog.ty(t["args"][0]).get("path") not in ws:
            continue
        if b.name == "poll_ready":
            o = rules_io.PollObs(c, b.path, c.dirmap["r"])
            rules_io.run_poll_method(c, b, [o], b.path)
            n += 1
        elif b.name == "ready":
            rules_io.run_future(c, b.path, b.key, c.dirmap["r"], lambda o: [o])
            n += 1
    c.ob("C23", "waits of filters and waitable handles: %d" % n)


# ------------------------------------------------------------------------------------------------- all of it
SHARED = ("C01", "C02", "C03", "C05", "C16", "C19", "C20")


def analyse(c):
    """everything that is about registrations, on one of the platforms"""
    analyse_contract(c)
    analyse_sources(c)
    rules_io.analyse_waits(c)
    if len(getattr(c, "dirmap", {})) == 2:
        analyse_ready(c)
        rules_io.analyse_react(c)
        rules_reg.analyse(c)
    for (pid, key), f in list(c.fails.items()):
        if pid in SHARED:
            g = dict(f, property="C23", key="%s:%s" % (pid, f["key"]))
            c.fails.setdefault(("C23", g["key"]), g)
    for pid in SHARED:
        for what, n in c.obl.get(pid, {}).items():
            c.obl.setdefault("C23", {})["%s [%s]" % (what, pid)] = n
