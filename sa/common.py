"""What the rules share: where things are in the crate, and running roots (see DESIGN.md)."""
import json
import os
import sys
from .values import *
from .engine import *
from .models import MODELS, wid, lt_term, lex_lt, slab_base, ABSENT, ANON, short

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


INTS = ("usize", "u64", "u32", "u128", "isize", "i64", "i32", "i128")


def projn(v, path):
    for q in path:
        v = project(v, q)
    return v


class Missing(Exception):
    """a construct the rule is about is not in the crate (any more)"""


def sym(name, *k):
    return mk("sym", 0, "entry", name, 0)


CX = sym("cx")  # the waker of the polling task


class Platform:
    """what differs between the platforms the crate is analysed for"""

    def __init__(self, name, target, o_nonblock, sock_nonblock, sock_cloexec, started, inet6, abstract=False):
        self.name, self.target = name, target
        self.o_nonblock = o_nonblock            # fcntl's flag
        self.sock_nonblock, self.sock_cloexec = sock_nonblock, sock_cloexec  # flags of socket(); None where there are none
        self.started = started                  # errors that say that the connection has been started (as they are encoded)
        self.inet6 = inet6                      # AF_INET6
        self.abstract = abstract                # are there abstract Unix socket names


LINUX = Platform("linux", None, 0o4000, 0o4000, 0o2000000, (65536 - 115, 115, -115), 10, True)
PLATFORMS = {p.name: p for p in (
    LINUX,
    Platform("freebsd", "x86_64-unknown-freebsd", 4, 0x20000000, 0x10000000, (36,), 28),
    Platform("macos", "x86_64-apple-darwin", 4, None, None, (36,), 30),
    Platform("windows", "x86_64-pc-windows-msvc", None, None, None, (10035,), 23),
)}


# what is a violation (an obligation) of another property too: (property, start of the key (part of the text), the other property)
ALSO = [("C05", "drop-", "C29"), ("C08", "leak:", "C29"),
        ("C19", "access:", "C30"), ("C19", "not-handed-out", "C30"), ("C19", "other-handle", "C30"), ("C16", "other-source", "C30"), ("C16", "unknown-handle", "C30"),
        ("C16", "empty", "C30")]
ALSO_OB = [("C05", "dropping ", "C29"), ("C08", "drop: ", "C29"), ("C19", "access functions", "C30"), ("C16", "the handle itself is handed out", "C30"),
           ("C16", "every Async holds", "C30")]


class Ctx:
    def __init__(self, mir, models, plat=LINUX):
        self.prog = Program(mir, models)
        self.plat = plat
        self.engines = []
        self.everywhere = []  # observers of every run
        self.fails = {}
        self.obl = {}
        self.find_layout()

    # ---- reporting
    def fail(self, pid, key, msg, st=None, line=None, entry=None):
        if self.plat is not LINUX and not key.endswith("@" + self.plat.name):
            key, msg = "%s@%s" % (key, self.plat.name), "on %s: %s" % (self.plat.name, msg)
        for p, prefix, other in ALSO:
            if p == pid and key.startswith(prefix):
                self.fail(other, key, msg, st, line, entry)
        k = (pid, key)
        if k in self.fails:
            return
        tr = []
        if st is not None:
            t = st.trail
            while t is not None and len(tr) < 80:
                tr.append(t.e)
                t = t.prev
            tr.reverse()
        self.fails[k] = {"property": pid, "key": key, "msg": msg, "line": line, "path": tr, "entry": entry}

    def ob(self, pid, what):
        """an obligation that was examined"""
        for p, part, other in ALSO_OB:
            if p == pid and part in what:
                self.ob(other, what)
        if self.plat is not LINUX:
            what = "on %s: %s" % (self.plat.name, what)
        self.obl.setdefault(pid, {})
        self.obl[pid][what] = self.obl[pid].get(what, 0) + 1

    # ---- layout of the private types the rules talk about, found by the types of their fields
    def structs(self):
        seen = set()
        for t in self.prog.types:
            if t.get("k") == "adt" and t.get("local") and t.get("variants"):
                fs = tuple((n, self.prog.tys(x)) for n, x in t["variants"][0]["fields"])
                k = (t["path"], fs)
                if k in seen:
                    continue
                seen.add(k)
                yield t, fs

    def find_layout(self):
        W = "core::task::wake::Waker"
        self.L = L = {}
        # two numbers: as a pair or as a struct of their own
        two = {t["path"]: tuple(("f", i, n) for i, (n, _) in enumerate(fs)) for t, fs in self.structs()
               if len(t["variants"]) == 1 and [x for _, x in fs] == ["usize", "usize"]}
        L["tk"] = (("f", 0, "0"), ("f", 1, "1"))

        def plain(x):
            y = x[len("core::option::Option<"):-1] if x.startswith("core::option::Option<") else x
            if y in two:
                L["tk"] = two[y]
                return x.replace(y, "(usize, usize)")
            return x
        for t, fs in self.structs():
            ty = [plain(f[1]) for f in fs]
            F = lambda i: ("f", i, fs[i][0])
            ow = "core::option::Option<%s>" % W
            sl = "slab::Slab<core::option::Option<%s>>" % W
            tk = "core::option::Option<(usize, usize)>"
            if len(t["variants"]) == 1:
                if ow in ty and sl in ty and tk in ty and "usize" in ty:
                    L["Direction"] = t["path"]
                    L["d.waker"], L["d.wakers"], L["d.ticks"], L["d.tick"] = F(ty.index(ow)), F(ty.index(sl)), F(ty.index(tk)), F(ty.index("usize"))
                if tk in ty and "core::option::Option<usize>" in ty and "usize" in ty:
                    L["Ready"] = t["path"]
                    L["r.ticks"], L["r.index"], L["r.dir"] = F(ty.index(tk)), F(ty.index("core::option::Option<usize>")), F(ty.index("usize"))
                elif "usize" in ty and not L.get("Ready"):
                    # the slot and the ticks in one Option
                    for i, (_, x) in enumerate(t["variants"][0]["fields"]):
                        y = self.prog.ty(x)
                        if y.get("path") != "core::option::Option" or not y.get("args"):
                            continue
                        z = self.prog.ty(y["args"][0])
                        zf = [(str(j), q) for j, q in enumerate(z.get("args") or ())] if z.get("k") == "tuple" else z["variants"][0]["fields"] if z.get("k") == "adt" and z.get("local") and len(z.get("variants") or ()) == 1 else []
                        zt = [plain(self.prog.tys(q)) for _, q in zf]
                        if sorted(zt) == ["(usize, usize)", "usize"]:
                            L["Ready"], L["r.dir"] = t["path"], F(ty.index("usize"))
                            L["r.both"] = (F(i), ("f", zt.index("usize"), zf[zt.index("usize")][0]), ("f", 1 - zt.index("usize"), zf[1 - zt.index("usize")][0]))
                if len(ty) == 2 and any(x.endswith("Arc<reactor::Source>") for x in ty) and any(x.startswith("core::option::Option<") for x in ty):
                    L["Async"] = t["path"]
                    i = [j for j in (0, 1) if "Arc<" in ty[j]][0]
                    L["a.source"], L["a.io"] = F(i), F(1 - i)
                for i, x in enumerate(ty):
                    if "Mutex<" in x and "BTreeMap" in x and "Atomic" in " ".join(ty):
                        L["Reactor"] = t["path"]
                        for j, y in enumerate(ty):
                            if "atomic::Atomic<" in y:
                                L["R.ticker"] = F(j)
                            if y.startswith("concurrent_queue::"):
                                L["R.ops"] = F(j)
                                L["op"] = y[y.index("<") + 1:-1]
        for t, fs in self.structs():
            if t["path"] == L.get("op"):
                L["op.ins"] = L["op.rem"] = None
                for vi, v in enumerate(t["variants"]):
                    ix = {}
                    for q, y in self.prog.leaves([(str(n), x) for n, x in v["fields"]]):
                        ix["when" if "Instant" in y else "id" if y in INTS else "waker" if y == W else "?"] = q
                    L["op.ins" if "waker" in ix else "op.rem"] = (vi, ix)
        for t, fs in self.structs():
            ty = [f[1] for f in fs]
            for i, (_, x) in enumerate(t["variants"][0]["fields"]) if len(t["variants"]) == 1 else ():
                y = self.prog.ty(x)
                if y.get("path", "").endswith("::Mutex") and y.get("args"):
                    d = self.dirs_of(y["args"][0])
                    if d is not None:
                        L["Source"], L["s.state"], L["s.dirs"], L["s.type"] = t["path"], ("f", i, fs[i][0]), d, self.prog.tys(y["args"][0])
                        if "usize" in ty:
                            L["s.key"] = ("f", ty.index("usize"), fs[ty.index("usize")][0])
        # a request may also be one record with the waker of an insertion
        for i, t in enumerate(self.prog.types):
            fs = None
            if L.get("op.ins") is None and t.get("s") == L.get("op"):
                if t.get("k") == "tuple":
                    fs = [(str(j), x) for j, x in enumerate(t["args"])]
                elif t.get("k") == "adt" and len(t.get("variants") or ()) == 1:
                    fs = t["variants"][0]["fields"]
            if fs is not None:
                ix = {}
                for q, y in self.prog.leaves(fs):
                    ix["when" if "Instant" in y else "id" if y in INTS else "opt" if y == "core::option::Option<%s>" % W else "?"] = q
                if set(ix) == {"when", "id", "opt"}:
                    L["op.ins"] = L["op.rem"] = (0, ix)
                    break
        t = next((t for t in self.prog.types if t.get("path") == "polling::Event" and t.get("variants")), None)
        if t:
            for i, (n, _) in enumerate(t["variants"][0]["fields"]):
                L["e." + n] = ("f", i, n)

    def key_part(self, st, key, what):
        """the deadline ("when") or the identity ("id") in a key of the map of timers"""
        fit = lambda t: "Instant" in t if what == "when" else t in INTS
        if "k.paths" not in self.L:
            t = next((t for t in self.prog.types if t.get("path", "").endswith("::BTreeMap") and t.get("args") and self.prog.tys(t["args"][1]).endswith("Waker")), None)
            if t is None:
                raise Missing("cannot find the map of timers")
            self.L["k.paths"] = list(self.prog.leaves([("0", t["args"][0])]))
        for q, t in self.L["k.paths"]:
            if fit(t):
                return st.norm(projn(key, q[1:]))
        raise Missing("cannot find the %s in the key of the map of timers" % what)

    def dirs_of(self, x):
        """where the records of the two directions are in a type that holds just these"""
        t = self.prog.ty(x)
        if t.get("k") == "array" and t.get("len") == 2 and self.prog.ty(t["args"][0]).get("path") == self.L.get("Direction", 0):
            return ((("i", K(0)),), (("i", K(1)),))
        fs = [(str(j), y) for j, y in enumerate(t["args"])] if t.get("k") == "tuple" else t["variants"][0]["fields"] if t.get("k") == "adt" and t.get("local") and len(t.get("variants") or ()) == 1 else []
        ps = [(("f", i, str(n)),) for i, (n, _) in enumerate(fs)]
        if len(fs) == 2 and all(self.prog.ty(y).get("path") == self.L.get("Direction", 0) for _, y in fs):
            return tuple(ps)
        if len(fs) == 1 and t.get("path") != self.L.get("Direction"):
            d = self.dirs_of(fs[0][1])
            return d and tuple(ps[0] + q for q in d)
        return None

    def wait_part(self, r, what):
        """the Option of the slot ("index") or of the ticks ("ticks") of a wait's record"""
        if "r.both" not in self.L:
            return project(r, self.L["r." + what])
        o, i, t = self.L["r.both"]
        x = project(r, o)
        if x.t != "agg":
            return x
        return x if x.a[1] == 0 else agg(OPT, 1, (project(x.a[2][0], i if what == "index" else t),))

    def need(self, *ks):
        for k in ks:
            if self.L.get(k) is None:
                raise Missing("cannot find %s in the crate" % k)

    # ---- lookups
    def body(self, key):
        b = self.prog.bodies.get(key)
        if b is None:
            raise Missing("function %s is not in the crate" % key)
        return b

    def callees(self, key):
        """local bodies a body may call or whose closure it creates"""
        b = self.prog.bodies.get(key)
        out = set()
        if b is None:
            return out

        def opnd(o):
            if o[0] == "const" and "fn" in o[1]:
                f = o[1]["fn"]
                for k in (f.get("res"), f.get("key")):
                    if k in self.prog.bodies:
                        out.add(k)
                        break

        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=":
                    r = s[2]
                    if r[0] == "agg":
                        if r[1].startswith("closure:") or r[1].startswith("coroutine:"):
                            out.add(r[1].split(":", 1)[1])
                        for x in r[3]:
                            opnd(x)
                    elif r[0] in ("use", "repeat"):
                        opnd(r[1])
                    elif r[0] in ("cast", "un"):
                        opnd(r[2])
            t = bl["t"]
            if t["k"] == "call":
                opnd(t["f"])
                for x in t["a"]:
                    opnd(x)
            if t["k"] == "drop":
                d = self.prog.ty(t["ty"]).get("drop")
                if d in self.prog.bodies:
                    out.add(d)
        return out

    def graph(self):
        if not hasattr(self, "_g"):
            self._g = {k: self.callees(k) for k in self.prog.bodies}
        return self._g

    def reach(self, key):
        g = self.graph()
        seen, st = set(), [key]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += g.get(x, ())
        return seen

    def call_sites(self, pred):
        """(body, block, callee info, line) of calls whose callee info satisfies pred"""
        for k, b in self.prog.bodies.items():
            for i, bl in enumerate(b.blocks):
                t = bl["t"]
                if t["k"] == "call" and t["f"][0] == "const" and "fn" in t["f"][1]:
                    f = t["f"][1]["fn"]
                    if pred(f):
                        yield b, i, f, t.get("ln")

    def contains_call(self, *names):
        r = set()
        for b, _, f, _ in self.call_sites(lambda f: short(f.get("respath") or f["path"]) in names):
            r.add(b.key)
        return r

    def react_roots(self):
        """the reactor step: outermost functions that take the caller's timeout and reach the OS wait"""
        direct = self.contains_call("Poller::wait", "Poller::wait_with_timeout")
        if not direct:
            raise Missing("no call of Poller::wait in the crate")
        cands = []
        for k, b in self.prog.bodies.items():
            if not b.local or b.closure or b.coroutine:
                continue
            if not (self.reach(k) & direct):
                continue
            if any("Option<core::time::Duration>" in self.prog.tys(b.locals[i + 1]) for i in range(b.argc)):
                cands.append(k)
        outer = [k for k in cands if not any(k != o and k in self.reach(o) for o in cands)]
        if not outer:
            raise Missing("no function with a timeout reaches Poller::wait")
        return outer

    # ---- running
    watch_loops = False

    def engine(self, observers, budget=600000):
        e = Engine(self.prog, MODELS, budget)
        e.observers = list(observers) + self.everywhere
        e.tls_values = self.tls_values()
        e.watch_loops = self.watch_loops
        self.engines.append(e)
        return e

    def tls_values(self):
        r = {}
        return r

    def cx(self, st):
        """a Context argument"""
        w = mk("m", "cxw")
        st.mem[w] = CX
        r = mk("m", "cx")
        st.mem[r] = agg("core::task::wake::Context", 0, (ref(w),))
        return ref(r)

    def lock_class(self, eng, lockid):
        tid = eng.lock_ty.get(lockid)
        t = self.prog.ty(tid) if tid is not None else {}
        s = t.get("s", "?")
        if "BTreeMap" in s:
            return "timers"
        if s == self.L.get("s.type"):
            return "state"
        if "Slab<" in s:
            return "sources"
        if "Events" in s:
            return "events"
        return s

    def find_poll(self, v):
        tag = v.a[0] if v.t == "agg" else None
        k = self.prog.trait_impls.get(("core::future::future::Future", "poll", tag, False))
        if k is None:
            raise Missing("no Future impl for %s" % show(v))
        return self.prog.bodies[k]


class Capture:
    """collects the values returned"""

    def __init__(self):
        self.vals = []

    def on(self, eng, st, ev):
        if ev[0] == "ret":
            self.vals.append((ev[1], st))


def settle(v, cache=None):
    """a suspended future with the values it has picked up renamed by where they came from, so that its states converge"""
    m = {}
    have = set(v.atoms)
    for x in sorted(y for y in v.atoms if y.t == "sym" and y.a[1] != "entry"):
        n = 0
        while True:
            # a name of its own, beside one that is left from an earlier poll
            m[x] = mk("sym", 0, "entry", "was_%s_%s" % (x.a[2], x.a[1]), n)
            if m[x] not in have:
                break
            n += 1
        have.add(m[x])
    return replace(v, m) if m else v


def poll_states(c, name, v0, mem0, observers, drops=True, limit=40, setup=None):
    """explore polling a future (a value) again and again, from every state a Pending leaves it in, and dropping it there;
    observers(value) gives the observers of one poll; yields the states"""
    fut = mk("m", "fut")
    todo, seen = [(v0, dict(mem0))], set()
    while todo:
        v, base = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        if len(seen) > limit:
            raise Unsupported("the states of the future %s do not converge" % name)
        nxt = []

        class Next:
            def on(self, eng, st, ev):
                if ev[0] == "ret" and st.discr(ev[1]) is not K(0) and not eng.dropping:
                    x = st.rd(fut)
                    want, keep = set(x.refs), {}
                    while want:
                        r = want.pop()
                        if r is fut or r in keep or r not in st.mem or r.t == "L":
                            continue
                        keep[r] = settle(st.mem[r])
                        want |= keep[r].refs
                    nxt.append((settle(x), keep))

        if v.t == "coro":
            poll = c.body(v.a[0])
        else:
            poll = c.find_poll(v)

        def init(st):
            for k, x in base.items():
                st.mem.setdefault(k, x)
            st.mem[fut] = v
            st.mem[mk("L", 0, 1)] = pin(ref(fut))
            st.mem[mk("L", 0, 2)] = c.cx(st)
            if setup:
                setup(st, v)

        e = c.engine(observers(v) + [Next()])
        e.dropping = False
        e.run(poll, [UNIT, UNIT], init=init, name=name)
        todo += nxt
        if drops:
            def init2(st):
                for k, x in base.items():
                    st.mem.setdefault(k, x)
                if setup:
                    setup(st, v)

            e = c.engine(observers(v))
            e.dropping = True
            # (in place: it may refer to itself)
            e.run_drop(v, None, init=init2, name="drop of " + name, root=fut)
    return seen


def fargs(b, skip=0):
    return [sym(b.names.get(i + 1, "a%d" % i)) for i in range(skip, b.argc)]


def some_inner(v):
    """the content of an Option value assumed Some"""
    return project(project(v, ("v", 1)), ("f", 0, "0"))


def canon_opt(st, x):
    if x.t == "agg" and x.a[0] == OPT and x.a[1] == 1:
        y = x.a[2][0]
        if y.t == "prj" and y.a[1][0] == "f" and y.a[0].t == "prj" and y.a[0].a[1] == ("v", 1):
            z = y.a[0].a[0]
            if st.discr(z) is K(1):
                return z
        return x
    if x.t != "agg" and st.discr(x) is K(0):
        return NONE
    return x


def same_waker(st, a, b):
    a, b = wid(a), wid(b)
    return a is b or st.evalb(op("eq", *sorted((a, b)))) is TRUE
