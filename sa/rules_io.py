"""C01-C05: readiness waits and the delivery of I/O events."""
from .common import *


class Dir:
    """one direction of the data behind a source's state lock"""

    def __init__(self, c, st, data, i):
        L = c.L
        self.st = st
        d = data
        for x in L["s.dirs"][i]:
            d = project(d, x)
        self.tick = project(d, L["d.tick"])
        self.ticks = canon_opt(st, project(d, L["d.ticks"]))
        self.waker = canon_opt(st, project(d, L["d.waker"]))
        self.slab = project(d, L["d.wakers"])

    def keys(self):
        ks = {K(a) for a in ANON}
        if self.slab.t == "ov":
            ks |= {p[1] for p, _ in self.slab.a[1] if p[0] == "i"}
        return ks

    def slot(self, k):
        """content of a slot; ABSENT if the slab has no such slot for certain"""
        if self.slab.t == "slab0":
            return ABSENT
        x = project(self.slab, ("i", k))
        if x is ABSENT:
            return ABSENT
        if slab_base(self.slab).t == "slab0" and x.t == "prj":
            return ABSENT
        return canon_opt(self.st, x)

    def inslab(self, k):
        """is the slot known to exist"""
        if self.slab.t == "ov" and any(p == ("i", k) and x is not ABSENT for p, x in self.slab.a[1]):
            return True
        return self.st.evalb(op("has", slab_base(self.slab), k)) is TRUE

    def is_some(self, x):
        if x is ABSENT:
            return False
        d = self.st.discr(x)
        if d.t == "k":
            return kv(d) == 1
        for n in (0, 1):
            if self.st.evalb(op("eq", *sorted((d, K(n))))) is FALSE:
                return n == 0
        return None

    def definitely_empty(self, keys=()):
        r = [self.is_some(self.waker)] + [self.is_some(self.slot(k)) for k in self.keys() | set(keys)]
        # a slot that is only a name for one of the anonymous slots does not count unless it exists
        return all(x is False for x in r)

    def definitely_nonempty(self, keys=()):
        if self.is_some(self.waker):
            return True
        for k in self.keys() | set(keys):
            if self.is_some(self.slot(k)) and (k in (K(ANON[0]), K(ANON[1])) or self.inslab(k)):
                return True
        return False


def same_dir(a, b, ticks=True):
    """same content (component names that differ)"""
    diff = []
    if a.waker is not b.waker:
        diff.append("waker")
    for k in sorted(a.keys() | b.keys()):
        x, y = a.slot(k), b.slot(k)
        if x is not y:
            diff.append(("slot", k))
    if a.tick is not b.tick:
        diff.append("tick")
    if ticks and a.ticks is not b.ticks:
        diff.append("ticks")
    return diff


def is_waker_val(eng, v, tid):
    if v.t in ("wk", "waker"):
        return True
    if v.t == "op" and v.a[0] in ("tw", "wclone"):
        return True
    return tid is not None and eng.prog.ty(tid).get("path") == "core::task::wake::Waker"


class Spans:
    """follows the critical sections of source state locks"""

    def __init__(self, c):
        self.c = c

    def base_on(self, eng, st, ev):
        c = self.c
        k = ev[0]
        if k == "locked" and c.lock_class(eng, ev[1]) == "state":
            st.obs["span"] = (ev[1], st.locks[-1][1], (), ())
            self.begin(eng, st)
        elif k == "poller_done" and ev[1].startswith("modify"):
            sp = st.obs.get("span")
            if sp is None:
                self.outside(eng, st, ev)
            else:
                # the last: is this part of dropping something
                st.obs["span"] = sp[:2] + (sp[2] + ((ev[2], ev[3], ev[5], ev[1], any(f.body is None for f in st.frames)),), sp[3])
        elif k == "atomic" and ev[1] == "load":
            sp = st.obs.get("span")
            if sp is not None and ev[2][1] and ev[2][1][-1] == c.L.get("R.ticker"):
                st.obs["span"] = sp[:3] + (sp[3] + (ev[3],),)
        elif k == "unlock" and st.obs.get("span") and ev[1] == st.obs["span"][0]:
            sp = st.obs.pop("span")
            s0 = mk("data", mk("D", *sp[0]), sp[1])
            self.end(eng, st, sp, s0, ev[2])

    def begin(self, eng, st):
        pass

    def outside(self, eng, st, ev):
        pass

    def event_bools(self, st, e):
        L = self.c.L
        return st.evalb(project(e, L["e.readable"])), st.evalb(project(e, L["e.writable"]))

    def check_target(self, eng, st, pid, sp, m, keys_ok=()):
        """the OS registration that is changed is the one of this source"""
        c, L = self.c, self.c.L
        root, path = sp[0]
        base = path[:-1]
        fd, e = m[1][0], m[1][1]
        key = st.norm(project(e, L["e.key"]))
        want = st.rd(root, base + (L["s.key"],))
        c.ob(pid, "re-arming names the source whose waiters it serves")
        if key is not want and key not in keys_ok:
            c.fail(pid, "arm-key:%s" % eng.entry, "the OS registration is changed under key %s, not the key of the source (%s)" % (show(key), show(want)), st)
        src = st.rd(root, base)
        if not any(t is src or (t.t == "prj" and under(t, src)) for t in subterms(fd)):
            c.fail(pid, "arm-fd:%s" % eng.entry, "the OS registration changed (%s) is not the one of the source %s" % (show(fd), show(src)), st)
        if m[3] != "modify":
            mode = m[1][2] if len(m[1]) > 2 else None
            if not (mode is not None and mode.t == "agg" and mode.a[1] == 0):
                c.fail(pid, "arm-mode:%s" % eng.entry, "interest is armed in a mode other than one-shot", st)


def under(t, src):
    while t.t == "prj":
        t = t.a[0]
        if t is src:
            return True
    return t is src


class PollObs(Spans):
    """roots: polling a readiness wait once"""

    def __init__(self, c, kind, want=None, fut=None, shape=None):
        super().__init__(c)
        self.kind, self.want, self.fut, self.shape = kind, want, fut, shape
        self.dirs = set()
        self.next = []

    def on(self, eng, st, ev):
        self.base_on(eng, st, ev)
        c = self.c
        k = ev[0]
        if k == "wake":
            st.obs["woken"] = tuple(sorted(set(st.obs.get("woken", ())) | {wid(ev[1])}))
            c.ob("C05", "%s: only the waker of another task is woken by a poll" % self.kind)
            if eqf(st, wid(ev[1]), CX) is not FALSE:
                c.fail("C05", "wakes-own-task:%s" % self.kind, "the poll may wake the task that is polling: it is polled again and again although nothing happened", st, ev[2])
        elif k in ("drop", "forget") and is_waker_val(eng, ev[1], ev[2] if k == "drop" else None):
            self.dropped(eng, st, ev[1])
        elif k == "ret":
            self.at_ret(eng, st, ev[1])

    def outside(self, eng, st, ev):
        self.c.fail("C01", "arm-outside:%s" % self.kind, "interest is armed without holding the source's state lock, so an event can be delivered between recording and arming", st, ev[4])

    def dropped(self, eng, st, v):
        """a waker is thrown away"""
        w = wid(v)
        if same_waker(st, w, CX) or w in st.obs.get("woken", ()):
            return
        own = own_slot_term(self, w)
        if own:
            return
        if not is_stored(w):
            return
        self.c.fail("C05", "displaced-lost:%s" % self.kind, "the waker of another task (%s) is discarded without being woken" % show(w), st)

    def own_index(self, st):
        """the wait's own slot key before the poll"""
        return self.shape.get("index") if self.shape else None

    def end(self, eng, st, sp, s0, data):
        c = self.c
        own = self.own_index(st)
        mods = sp[2]
        for m in mods:
            self.check_target(eng, st, "C01", sp, m)
        good = [m for m in mods if m[0]]
        bad = [m for m in mods if not m[0]]
        bools = self.event_bools(st, good[-1][1][1]) if good else None
        st.obs["failed"] = st.obs.get("failed", ()) + tuple(m[2] for m in bad)
        st.obs["last"] = (sp[0], sp[1], data, sp[3], tuple(m[2] for m in mods if not m[0]))
        for i in (0, 1):
            a, b = Dir(c, st, s0, i), Dir(c, st, data, i)
            keys = (own,) if own is not None and self.want in (None, i) else ()
            diff = same_dir(a, b)
            c.ob("C01", "%s: every direction that holds a waiter when the lock is released is armed" % self.kind)
            if not b.definitely_empty(keys):
                armed = a.definitely_nonempty(keys)
                if not armed and not good and not [d for d in diff if d not in ("tick", "ticks")]:
                    armed = True  # nothing was added
                if good:
                    armed = None
                    r, w = bools
                    ix = c.dirmap
                    mine = r if ix.get("r") == i else w if ix.get("w") == i else None
                    if mine is None:
                        # the map of directions is not known yet: any of the two, checked later
                        mine = r if self.kind == "poll_readable" else w
                        if self.want is not None and self.want != i:
                            mine = w if self.kind == "poll_readable" else r
                    if mine is not TRUE:
                        c.fail("C01", "not-covered:%s" % self.kind, "the lock is released with a waiter in direction %d that the armed interest does not cover" % i, st)
                elif not armed:
                    if bad:
                        c.fail("C01", "failed-arm-leaves-waiter:%s" % self.kind,
                               "arming failed but the waiter stays recorded: the next poll takes it for armed and returns Pending", st)
                    else:
                        c.fail("C01", "unarmed:%s" % self.kind, "the lock is released with a waiter recorded in direction %d that nothing armed" % i, st)
            # ticks accompany a recorded poll_* waker
            if "waker" in diff:
                if b.is_some(b.waker) is not False and b.is_some(b.ticks) is not True:
                    c.fail("C02", "no-snapshot:%s" % self.kind, "a waiter is recorded without remembering the reactor's progress, so its event cannot be recognised", st)
            if "tick" in diff:
                c.fail("C02", "tick-forged:%s" % self.kind, "a poll changes the delivery mark of the source", st)
            if "ticks" in diff and b.is_some(b.ticks):
                self.check_snapshot("C02", eng, st, b.ticks, b.tick, sp[3])
            # other waiters are left alone
            for d in diff:
                if isinstance(d, tuple):
                    x, y = a.slot(d[1]), b.slot(d[1])
                    if d[1] is own or not a.inslab(d[1]) and a.is_some(x) is None:
                        continue
                    c.fail("C05", "other-slot:%s" % self.kind, "the poll changes the slot %s of another wait" % show(d[1]), st)

    def check_snapshot(self, pid, eng, st, ticks, tick, loads):
        c = self.c
        c.ob(pid, "%s: a new wait remembers the reactor's ticker and the source's mark, both read under the lock" % self.kind)
        v = some_inner(ticks)
        x, y = project(v, c.L["tk"][0]), project(v, c.L["tk"][1])
        if not ((x in loads and y is tick) or (y in loads and x is tick)):
            c.fail(pid, "bad-snapshot:%s" % self.kind,
                   "the remembered pair (%s, %s) is not (current ticker, current mark of the direction %s) read under the lock" % (show(x), show(y), show(tick)), st)

    # -- at the return of the poll
    def at_ret(self, eng, st, v):
        c = self.c
        last = st.obs.get("last")
        if self.fut is not None:
            self.next.append(st.rd(self.fut))
        kind = self.kind
        d = st.discr(v)
        failed = st.obs.get("failed", ())
        if failed:
            c.ob("C01", "%s: a failed arming is returned" % kind)
            good = d is K(0) and st.discr(some_inner0(v)) is K(1) and any(x in e_atoms(v) or any(a in e_atoms(v) for a in x.atoms) for x in failed)
            if not good:
                c.fail("C01", "error-hidden:%s" % kind, "arming failed but the poll returns %s" % show(v), st)
        if d.t != "k":
            c.fail("C01", "unknown-result:%s" % kind, "the result of the poll cannot be determined: %s" % show(v), st)
            return
        if self.fut is not None:
            self.check_index(eng, st, v, last)
        if last is None:
            c.fail("C01", "no-lock:%s" % kind, "the poll returns %s without looking at the source's state" % show(v), st)
            return
        s0 = mk("data", mk("D", *last[0]), last[1])
        if kv(d) == 1:
            self.at_pending(eng, st, last, s0)
        else:
            r = v.a[2][0]
            rd = st.discr(r)
            if rd is K(1):
                if not failed:
                    c.fail("C01", "spurious-error:%s" % kind, "the poll fails although nothing failed", st)
                return
            self.at_ready(eng, st, last, s0)

    def at_pending(self, eng, st, last, s0):
        c, kind = self.c, self.kind
        own = None
        if self.fut is not None:
            r = find_ready(c, st.rd(self.fut))
            own = st_opt(st, c.wait_part(r, "index")) if r is not None else None
        hit = []
        for i in (0, 1):
            b = Dir(c, st, last[2], i)
            a = Dir(c, st, s0, i)
            diff = [x for x in same_dir(a, b)]
            if self.fut is None:
                if b.is_some(b.waker) and same_waker(st, some_inner(b.waker), CX):
                    hit.append(i)
                elif diff:
                    hit.append(("wrong", i))
            else:
                if own is not None:
                    x = b.slot(own)
                    if b.is_some(x) and same_waker(st, some_inner(x), CX):
                        hit.append(i)
                        continue
                if diff:
                    hit.append(("wrong", i))
        c.ob("C01", "%s: Pending only with the caller's waker recorded" % kind)
        good = [h for h in hit if isinstance(h, int)]
        if len(good) != 1:
            # the waker is missing (or in both directions)
            if unreachable(c, st, s0):
                return
            c.fail("C01", "not-recorded:%s" % kind, "the poll returns Pending but the polling task's waker is recorded in %s" % (hit or "no direction"), st)
            if self.fut is None and not good:
                i = self.want if self.want is not None else c.dirmap.get("r" if kind == "poll_readable" else "w")
                for j in (0, 1) if i is None else (i,):
                    b = Dir(c, st, last[2], j)
                    if b.is_some(b.waker) and wid(some_inner(b.waker)) not in st.obs.get("woken", ()):
                        c.fail("C05", "not-displaced:%s" % kind, "another task's waker stays recorded in direction %d: the polling task is not recorded in its place and the other one is not woken" % j, st)
                        break
            return
        i = good[0]
        if any(isinstance(h, tuple) for h in hit):
            c.fail("C01", "other-direction:%s" % kind, "the poll changes the other direction as well", st)
        self.dirs.add(i)
        if self.want is not None and i != self.want:
            c.fail("C01", "direction:%s" % kind, "the waiter is recorded for direction %d, not %d" % (i, self.want), st)
        # an event already delivered must complete the wait
        a = Dir(c, st, s0, i)
        c.ob("C02", "%s: Pending only if no new event was delivered" % kind)
        if self.fut is None:
            t0 = a.ticks
        else:
            t0 = self.shape["ticks"]
        if t0 is not None and st.discr(t0) is not K(0):
            v = some_inner(t0)
            x, y = project(v, c.L["tk"][0]), project(v, c.L["tk"][1])
            if st.discr(t0).t != "k":
                c.fail("C02", "ignores-event:%s" % kind, "the poll returns Pending without looking at whether an event was delivered", st)
            elif not (eqf(st, a.tick, x) is TRUE or eqf(st, a.tick, y) is TRUE):
                c.fail("C02", "ignores-event:%s" % kind, "the poll returns Pending although the source's mark may differ from both remembered ticks", st)
        # and what is remembered afterwards is a valid snapshot
        if self.fut is not None:
            r = find_ready(c, st.rd(self.fut))
            t1 = canon_opt(st, c.wait_part(r, "ticks"))
            if st.discr(t1) is not K(1) and not (t1 is t0):
                c.fail("C02", "no-snapshot:%s" % kind, "Pending without remembering the reactor's progress: the wait can never complete", st)
            elif t1 is not t0 and not same_pair(c, st, t1, t0):
                self.check_snapshot("C02", eng, st, t1, Dir(c, st, last[2], i).tick, last[3])
        else:
            b = Dir(c, st, last[2], i)
            if b.ticks is not a.ticks and b.is_some(b.ticks) is not True:
                c.fail("C02", "no-snapshot:%s" % kind, "Pending, but the reactor's progress that was remembered is forgotten: the event cannot be recognised", st)

    def at_ready(self, eng, st, last, s0):
        c, kind = self.c, self.kind
        c.ob("C02", "%s: Ready(Ok) only after a new event" % kind)
        ok_ = False
        for i in ((self.want,) if self.want is not None else (0, 1)):
            a = Dir(c, st, s0, i)
            t0 = a.ticks if self.fut is None else self.shape["ticks"]
            if t0 is None or st.discr(t0) is not K(1):
                continue
            v = some_inner(t0)
            x, y = project(v, c.L["tk"][0]), project(v, c.L["tk"][1])
            if eqf(st, a.tick, x) is FALSE and eqf(st, a.tick, y) is FALSE:
                ok_ = True
                if self.fut is None:
                    b = Dir(c, st, last[2], i)
                    c.ob("C02", "%s: a completed wait starts afresh" % kind)
                    if b.is_some(b.ticks) is not False:
                        c.fail("C02", "not-reset:%s" % kind, "Ready(Ok) leaves the old snapshot in place, so the next call is answered from the old event", st)
                    others = Dir(c, st, s0, 1 - i), Dir(c, st, last[2], 1 - i)
                    if same_dir(*others):
                        c.fail("C02", "other-direction-reset:%s" % kind, "Ready(Ok) changes the other direction", st)
        if not ok_:
            c.fail("C02", "early-ready:%s" % kind, "the poll returns Ready(Ok) without an event newer than both remembered ticks", st)

    def check_index(self, eng, st, v, last):
        """the wait knows its own slot for as long as it exists"""
        c, kind = self.c, self.kind
        r = find_ready(c, st.rd(self.fut))
        if r is None:
            c.fail("C05", "no-future:%s" % kind, "the wait's own record is gone after the poll", st)
            return
        ix = c.wait_part(r, "index")
        now = st_opt(st, ix)
        c.ob("C05", "%s: the wait keeps the key of its slot" % kind)
        if last is None:
            return
        s0 = mk("data", mk("D", *last[0]), last[1])
        for i in (0, 1):
            a, b = Dir(c, st, s0, i), Dir(c, st, last[2], i)
            for k in b.keys() - {K(x) for x in ANON}:
                if b.slot(k) is ABSENT or k is now:
                    continue
                if same_in(a, b, k):
                    continue
                c.fail("C05", "slot-leaked:%s" % kind, "the wait has a slot %s in direction %d that it does not remember: it is not removed when the wait is dropped" % (show(k), i), st)
        own = self.own_index(st)
        if own is not None and now is not own:
            i = self.want if self.want is not None else None
            for i in (0, 1) if i is None else (i,):
                b = Dir(c, st, last[2], i)
                if b.slot(own) is not ABSENT:
                    c.fail("C05", "slot-forgotten:%s" % kind, "the wait forgets its slot %s while it is still there" % show(own), st)


def same_in(a, b, k):
    return a.slot(k) is b.slot(k)


def some_inner0(v):
    return v.a[2][0] if v.t == "agg" and v.a[2] else project(project(v, ("v", 0)), ("f", 0, "0"))


def e_atoms(v):
    return v.atoms


def eqf(st, a, b):
    return st.evalb(op("eq", *sorted((st.norm(a), st.norm(b)))))


def same_pair(c, st, a, b):
    if a is None or b is None:
        return False
    x, y = some_inner(a), some_inner(b)
    return all(project(x, f) is project(y, f) for f in c.L["tk"])


def st_opt(st, x):
    """content of an Option known to be Some, else None"""
    x = canon_opt(st, x)
    if st.discr(x) is K(1):
        return some_inner(x)
    return None


def unreachable(c, st, s0):
    """poll_* wakers are always stored together with a snapshot (checked at every release of the lock)"""
    for i in (0, 1):
        a = Dir(c, st, s0, i)
        if a.is_some(a.waker) is True and a.is_some(a.ticks) is False:
            return True
    return False


def own_slot_term(o, w):
    """is w the previous waker in the wait's own slot"""
    own = o.shape.get("index") if o.shape else None
    if own is None:
        return False
    return any(t.t == "prj" and t.a[1] == ("i", own) for t in subterms(w))


def is_stored(w):
    return any(t.t == "data" for t in subterms(w))


def find_ready(c, v):
    """the inner wait record inside a future value"""
    if v.t == "agg":
        if v.a[0] == c.L["Ready"]:
            return v
        for x in v.a[2]:
            r = find_ready(c, x)
            if r is not None:
                return r
    return None


def canonise(c, v, path=""):
    """forget which poll produced the components of a future value"""
    if v.t == "agg":
        return mk("agg", v.a[0], v.a[1], tuple(canonise(c, x, "%s.%d" % (path, i)) for i, x in enumerate(v.a[2])))
    if v.t in ("k", "fn", "zst", "const", "uninit", "moved") or (v.t == "sym" and v.a[1] == "entry" and not str(v.a[2]).startswith("fut.")):
        return v
    if v.t in ("ref", "arc"):
        return v
    return sym("fut" + path)


FUTS = [("readable", "Async::<T>::readable", "r"), ("writable", "Async::<T>::writable", "w"),
        ("readable_owned", "Async::<T>::readable_owned", "r"), ("writable_owned", "Async::<T>::writable_owned", "w")]


def run_polls(c, observers=lambda o: [o], direct=True, futures=True):
    """all readiness waits; fills c.dirmap"""
    c.need("Direction", "Source", "s.key", "s.state", "R.ticker", "Ready", "e.readable", "e.writable", "e.key")
    if not hasattr(c, "dirmap"):
        c.dirmap = {}
    for name, which in (("poll_readable", "r"), ("poll_writable", "w")):
        b = c.body("Async::<T>::" + name)
        # first pass: find the direction (findings are made in the second pass)
        keep = dict(c.fails)
        o = PollObs(c, name)
        run_poll_method(c, b, [o], name)
        dirs = set(o.dirs)
        c.fails = keep
        if len(dirs) != 1:
            c.fail("C01", "direction:%s" % name, "no single direction records the waiter of %s (%s)" % (name, sorted(dirs)))
            continue
        c.dirmap[which] = dirs.pop()
    if len(set(c.dirmap.values())) != 2:
        c.fail("C01", "directions-shared", "readability and writability waits share one direction: %s" % c.dirmap)
        return
    c.ob("C01", "readability and writability have different records")
    if direct:
        for name, which in (("poll_readable", "r"), ("poll_writable", "w")):
            o = PollObs(c, name, c.dirmap[which])
            run_poll_method(c, c.body("Async::<T>::" + name), observers(o), name)
    if futures:
        for name, key, which in FUTS:
            run_future(c, name, key, c.dirmap[which], observers)


def run_poll_method(c, b, obs, name):
    e = c.engine(obs)

    def init(st):
        st.mem[mk("L", 0, 2)] = c.cx(st)

    e.run(b, fargs(b), init=init, name=name)


def run_future(c, name, key, want, observers):
    b = c.body(key)
    cap = Capture()
    c.engine([cap]).run(b, fargs(b), name=name)
    if len(cap.vals) != 1:
        raise Missing("constructor %s has no single result" % key)
    v0, st0 = cap.vals[0]
    base = dict(st0.mem)
    todo, seen = [v0], set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        if len(seen) > 12:
            raise Unsupported("the states of the future %s do not converge" % name)
        r = find_ready(c, v)
        if r is None:
            raise Missing("%s does not hold a wait record" % name)
        ix = c.wait_part(r, "index")
        shape = {"index": some_inner(ix) if ix.t == "agg" and ix.a[1] == 1 else None, "ticks": c.wait_part(r, "ticks")}
        if ix.t != "agg":
            raise Unsupported("unknown state of the future %s" % name)
        fut = mk("m", "fut")
        o = PollObs(c, name, want, fut, shape)
        poll = c.find_poll(v)
        e = c.engine(observers(o))

        def init(st):
            for k, x in base.items():
                st.mem.setdefault(k, x)
            if shape["index"] is not None and want is not None:
                st.obs["ownkey"] = (shape["index"], K(want))
            st.mem[fut] = v
            st.mem[mk("L", 0, 1)] = pin(ref(fut))
            st.mem[mk("L", 0, 2)] = c.cx(st)

        e.run(poll, [UNIT, UNIT], init=init, name=name)
        for x in o.next:
            todo.append(canonise(c, x))
        # and dropping it in this state
        d = DropObs(c, name, want, shape)
        t = poll.locals[0]
        e = c.engine(observers(d))

        def init2(st):
            for k, x in base.items():
                st.mem.setdefault(k, x)
            if shape["index"] is not None and want is not None:
                st.obs["ownkey"] = (shape["index"], K(want))

        e.run_drop(v, None, init=init2, name="drop of " + name)


class DropObs(Spans):
    """dropping a readiness wait"""

    def __init__(self, c, kind, want, shape):
        super().__init__(c)
        self.kind, self.want, self.shape = kind, want, shape

    def on(self, eng, st, ev):
        self.base_on(eng, st, ev)
        if ev[0] == "ret":
            self.at_ret(eng, st)

    def end(self, eng, st, sp, s0, data):
        c = self.c
        own = self.shape["index"]
        c.ob("C05", "dropping %s changes nothing but its own slot" % self.kind)
        for i in (0, 1):
            a, b = Dir(c, st, s0, i), Dir(c, st, data, i)
            for d in same_dir(a, b):
                if isinstance(d, tuple) and d[1] is own and i == self.want:
                    continue
                if isinstance(d, tuple) and b.slot(d[1]) is a.slot(d[1]):
                    continue
                c.fail("C05", "drop-other:%s" % self.kind, "dropping the wait changes %s of direction %d" % (show(d), i), st)
            if own is not None and i == self.want:
                gone = b.slot(own) is ABSENT or st.evalb(op("has", slab_base(b.slab), own)) is FALSE
                if gone:
                    st.obs["gone"] = True
        if not sp[2]:
            return
        for m in sp[2]:
            self.check_target(eng, st, "C01", sp, m)
        # a drop that touches the interest leaves every other waiter covered
        good = [m for m in sp[2] if m[0]]
        if not good:
            return
        r, w = self.event_bools(st, good[-1][1][1])
        ix = c.dirmap
        for i in (0, 1):
            b = Dir(c, st, data, i)
            if b.definitely_empty(()):
                continue
            mine = (r,) if ix.get("r") == i else (w,) if ix.get("w") == i else (r, w)
            if any(x is not TRUE for x in mine):
                c.fail("C05", "drop-disarms:%s" % self.kind, "dropping the wait changes the interest so that it may not cover the waiters left in direction %d" % i, st)

    def outside(self, eng, st, ev):
        self.c.fail("C05", "drop-arms-outside:%s" % self.kind, "dropping the wait changes the interest without holding the source's state lock", st, ev[4])

    def at_ret(self, eng, st):
        c = self.c
        if self.shape["index"] is None:
            return
        c.ob("C05", "dropping %s removes its slot" % self.kind)
        if not st.obs.get("gone"):
            c.fail("C05", "drop-leaks:%s" % self.kind, "dropping the wait leaves its slot and waker behind", st)


# ------------------------------------------------------------------ the reactor step
def forget_deadlines(st):
    """after the OS wait, what is known about deadlines does not matter for what follows"""
    st.forget(lambda t: any(x.t == "op" and x.a[0] in ("mapsize", "when", "dsince") for x in subterms(t)))
    ds = {x for v in st.mem.values() for x in subterms(v) if x.t == "op" and x.a[0] == "dsince"}
    if ds:
        m, cc = {x: sym("until_deadline") for x in ds}, {}
        st.map(lambda x: replace(x, m, cc))


class ReactObs(Spans):
    def __init__(self, c):
        super().__init__(c)
        self.unclean = None  # a path that waits with what an earlier step may have left in the event buffer
        self.leftover = None  # a path that leaves events in the buffer

    def on(self, eng, st, ev):
        self.base_on(eng, st, ev)
        c, L = self.c, self.c.L
        k = ev[0]
        if k == "ev":
            left = self.undelivered(st)
            st.merge_generations("oserr")
            if len(left) > 3:
                self.skipped(st, "more events are taken")
                left = ()
            st.obs["ev"] = left + ((ev[1], False),)
            st.obs["evs"] = "open"
        elif k == "evdone":
            st.obs["ev"] = self.undelivered(st)
            st.obs["evs"] = "done"
        elif k == "unlocked":
            st.obs["ev"] = self.undelivered(st, True)
        elif k == "events":
            st.obs["buffer"] = "clean"
        elif k == "atomic":
            if ev[2][1] and ev[2][1][-1] == L["R.ticker"]:
                what = ev[1]
                if what == "fetch_add" and ev[4] and ev[4][0] is K(1):
                    n = st.obs.get("bump")
                    st.obs["bump"] = ev[3]
                    st.obs["nbump"] = min(3, st.obs.get("nbump", 0) + 1)
                    if st.obs.get("waited"):
                        c.fail("C02", "bump-late", "the reactor's ticker advances after the OS wait has started", st, ev[5])
                elif what not in ("load",):
                    c.fail("C02", "ticker-op", "the reactor's ticker is changed by %s, which may repeat a value" % what, st, ev[5])
        elif k == "poller" and ev[1] == "wait":
            c.ob("C02", "the reactor's ticker advances before each OS wait")
            if st.obs.get("nbump", 0) != 1:
                c.fail("C02", "no-bump", "the OS wait starts without the reactor's ticker having advanced", st, ev[3])
            st.obs["waited"] = True
            b = st.load(ev[2][0]) if ev[2] else None
            # (what a poller appends to must be empty, or the events of earlier steps are delivered again)
            if st.obs.get("buffer") == "dirty":
                c.fail("C02", "stale-events", "the OS wait appends to a buffer that still holds the events of the wait before", st, ev[3])
            elif st.obs.get("buffer") is None and not (b is not None and b.t == "events"):
                self.unclean = self.unclean or (st, ev[3])
        elif k == "poller_done" and ev[1] == "wait":
            if ev[2]:
                st.obs["buffer"] = "dirty"
            st.obs["wait"] = (ev[2], ev[5])
            forget_deadlines(st)
        elif k in ("drop", "forget"):
            v = ev[1]
            tid = ev[2] if k == "drop" else None
            if isinstance(tid, str):
                tid = None
            if is_waker_val(eng, v, tid):
                c.fail("C04", "lost-waker", "a collected waker (%s) is discarded without being woken" % show(v)[:200], st)
        elif k == "wake":
            c.ob("C04", "each waker taken out is woken")
            if not any(f.after is not None and f.after[0] == "catch" for f in st.frames):
                c.fail("C04", "unprotected-wake", "a waker is woken where its panic would unwind into the reactor's thread", st, ev[2])
        elif k == "unwind_out":
            c.fail("C04", "panic-escapes", "a panicking waker unwinds out of the reactor step", st)
        elif k == "ret":
            if st.obs.get("buffer") == "dirty":
                self.leftover = self.leftover or (st, None)
            if self.undelivered(st):
                self.skipped(st, "the step returns")
            c.ob("C04", "every way out of the step")
            w = st.obs.get("wait")
            if w and w[0] and st.obs.get("evs") != "done":
                n = some_inner0(w[1])
                if eqf(st, n, K(0)) is not TRUE:
                    c.fail("C03", "events-unread", "the step returns without having gone through all delivered events", st)
            if "failed" in st.obs and st.discr(ev[1]) is not K(1):
                c.fail("C03", "rearm-error-hidden", "re-arming a source failed but the step reports success", st)
            if w and not w[0]:
                e = some_inner(project(w[1], ("v", 1)))
                kind_ = op("kind", w[1].a[2][0])
                intr = any(t.t == "op" and kind_ in subterms(t) and v is TRUE for t, v in st.eqf.items()) or st.discr(kind_).t == "k"
                c.ob("C04", "an OS wait failure ends the step in an orderly way")
                if st.discr(ev[1]) is K(0) and not intr:
                    c.fail("C03", "wait-error-hidden", "the OS wait failed but the step reports success", st)

    def undelivered(self, st, keep=False):
        """the events taken from the list that were not delivered, and may belong to a registered source"""
        absent = [t.a[2] for t, v in st.eqf.items() if t.t == "op" and t.a[0] == "has" and v is FALSE]
        return tuple(e for e in st.obs.get("ev") or () if (keep if e[1] else project(e[0], self.c.L["e.key"]) not in absent))

    def skipped(self, st, when):
        self.c.fail("C03", "event-skipped", "%s before an event was delivered to its source" % when, st)

    def outside(self, eng, st, ev):
        self.c.fail("C03", "arm-outside", "interest is re-armed without holding the source's state lock", st, ev[4])

    def end(self, eng, st, sp, s0, data):
        c, L = self.c, self.c.L
        evs = st.obs.get("ev") or ()
        if not evs:
            for i in (0, 1):
                a, b = Dir(c, st, s0, i), Dir(c, st, data, i)
                if same_dir(a, b):
                    c.fail("C03", "state-without-event", "the step changes a source's waiters outside the delivery of an event", st)
            return
        ev = evs[-1][0]
        for e, _ in evs:
            if any(t.t == "prj" and t.a[1] == ("i", project(e, L["e.key"])) for t in subterms(sp[0][0])):
                ev = e
        key = project(ev, L["e.key"])
        # the source is the one the event names
        c.ob("C03", "the event is delivered to the source it names")
        if not any(t.t == "prj" and t.a[1] == ("i", key) for t in subterms(sp[0][0])):
            c.fail("C03", "wrong-source", "the event's waiters are looked up at %s, not under the event's key" % show(sp[0][0])[:200], st)
        c.ob("C03", "every event on a registered source is delivered")
        st.obs["ev"] = tuple((e, d or e is ev) for e, d in evs)
        r, w = st.evalb(project(ev, L["e.readable"])), st.evalb(project(ev, L["e.writable"]))
        mods = sp[2]
        for m in mods:
            self.check_target(eng, st, "C03", sp, m, (key,))
        failed = bool(mods) and not mods[-1][0]
        if any(not m[0] for m in mods):
            st.obs["failed"] = TRUE
        good = mods[-1] if mods and mods[-1][0] else None
        bools = self.event_bools(st, good[1][1]) if good else (FALSE, FALSE)
        old = st.obs.get("bump")
        for d, em, armed, nm in ((c.dirmap["r"], r, bools[0], "readable"), (c.dirmap["w"], w, bools[1], "writable")):
            a, b = Dir(c, st, s0, d), Dir(c, st, data, d)
            diff = same_dir(a, b)
            c.ob("C05", "delivering an event leaves the waits their slots")
            c.ob("C26", "delivering an event leaves the waits their slots")
            if any(b.slot(k) is ABSENT and a.slot(k) is not ABSENT for k in a.keys()):
                for p in ("C05", "C26"):
                    c.fail(p, "slot-removed:%s" % nm, "delivering an event removes the slot of a wait that still exists: its next poll panics or takes over another wait's slot", st)
            c.ob("C03", "a reported direction loses all its waiters and is marked; an unreported one is untouched")
            if em is TRUE:
                if not b.definitely_empty():
                    c.fail("C03", "not-drained:%s" % nm, "a %s event leaves a waiter of that direction in place" % nm, st)
                if old is None or b.tick is not op("add", old, K(1)):
                    c.fail("C03", "not-marked:%s" % nm, "a %s event does not set the direction's mark to this step's tick (it is %s)" % (nm, show(b.tick)[:120]), st)
                    c.fail("C02", "mark:%s" % nm, "a %s event does not set the direction's mark to this step's new tick (it is %s)" % (nm, show(b.tick)[:120]), st)
            elif em is FALSE:
                if diff and not failed:
                    c.fail("C03", "unreported-touched:%s" % nm, "an event that is not %s changes %s of that direction" % (nm, show(diff[0])), st)
                if "tick" in diff or "ticks" in diff:
                    c.fail("C02", "mark-unreported:%s" % nm, "an event that is not %s changes the mark of that direction" % nm, st)
            else:
                c.fail("C03", "direction-ignored:%s" % nm, "the event is delivered without looking at whether it is %s" % nm, st)
            if "ticks" in diff and em is TRUE:
                c.fail("C02", "snapshot-touched:%s" % nm, "delivering an event changes what a waiter remembered", st)
            c.ob("C03", "the source is re-armed for exactly the directions that still have waiters")
            if not b.definitely_empty():
                if armed is not TRUE:
                    c.fail("C03", "not-rearmed:%s" % nm, "a waiter stays in the %s direction but the source is %s" % (
                        nm, "not armed again for it" if not failed else "not armed (re-arming failed) and the waiter is not told"), st)
            elif armed is not FALSE and not (good and good[3].endswith(":filter")):
                c.fail("C03", "overarmed:%s" % nm, "the source is armed again for the %s direction, which has no waiter" % nm, st)


def run_react(c, obs, wakers_panic=True):
    c.need("Direction", "Source", "s.key", "s.state", "R.ticker", "e.readable", "e.writable", "e.key")
    for k in c.react_roots():
        b = c.body(k)
        e = c.engine(obs)
        e.wakers_panic = wakers_panic
        e.run(b, fargs(b), name=b.name or k)


def analyse_waits(c):
    run_polls(c)


def analyse_react(c):
    run_polls(c, direct=False, futures=False)
    o = ReactObs(c)
    run_react(c, [o])
    c.ob("C02", "the event buffer is empty when the OS wait starts")
    if o.unclean and o.leftover:
        c.fail("C02", "stale-events", "the OS wait appends to a buffer that may still hold the events of an earlier step", *o.unclean)
