"""C06-C11: timers, the request queue and the reactor's handling of deadlines."""
import re
from .common import *
from .models import aty, peel, queue_capacity, ret

MAXD = dur(18446744073709551615999999999)


class Ghost:
    """what the user may rely on about a timer, independent of how it is represented.
    when: deadline or None; period: None for one-shot; regs: registrations the reactor holds for it,
    (when, id, waker); waiter: waker of the task waiting on it, or None"""

    def __init__(self, when, period, regs=(), waiter=None, origin="new"):
        self.when, self.period, self.regs, self.waiter, self.origin = when, period, tuple(regs), waiter, origin

    def key(self):
        return (self.when, self.period, self.regs, self.waiter, self.origin)

    def map(self, f):
        o = lambda x: None if x is None else f(x)
        return Ghost(o(self.when), o(self.period), tuple(tuple(f(x) for x in r) for r in self.regs), o(self.waiter), self.origin)

    def __str__(self):
        return "deadline %s, period %s, registrations %s, waiter %s (schedule from: %s)" % tuple(show(x) if isinstance(x, V) or isinstance(x, tuple) else x for x in self.key())


def canonical(v, g):
    """rename what a timer value and its ghost mention, consistently"""
    m, c = {}, {}

    def name(t, n):
        if t is None or t in m or t.t in ("k", "dur", "const") or t is CX:
            return
        m[t] = sym(n)
    if g.when is not None:
        name(g.when, "when")
    if g.period is not None:
        name(g.period, "period")
    for i, (w, d, k) in enumerate(g.regs):
        name(w, "oldwhen%d" % i)
        name(d, "id%d" % i)
        name(wid(k), "waiter")
    if g.waiter is not None:
        name(wid(g.waiter), "waiter")
    if CX in subterms(v) or any(CX in subterms(x) for r in g.regs for x in r) or g.waiter is CX:
        m[CX] = sym("waiter")
        if sym("waiter") in subterms(v) or any(sym("waiter") in subterms(x) for r in g.regs for x in r):
            # another task's
            m[sym("waiter")] = sym("oldwaiter")
    # first to names of their own: what keeps one of these names from before the operation is something else
    m = {t: sym("~" + x.a[2]) for t, x in m.items()}
    v2, g2 = strip_clones(replace(v, m, c)), g.map(lambda x: strip_clones(replace(x, m, c)))
    left = {}
    for t in sorted(set(v2.atoms).union(*[x.atoms for r in g2.regs for x in r])):
        if not (t.a[1] == "entry" and t.a[0] == 0):
            left[t] = sym("x%d" % len(left))
        elif re.match(r"(when|period|oldwhen\d+|id\d+|waiter|oldwaiter|set\.\d+|new\.\d+|x\d+|y\d+)$", str(t.a[2])):
            left[t] = sym("y%d" % len(left))
        elif str(t.a[2]).startswith("~"):
            left[t] = sym(t.a[2][1:])
    return subst(v2, left, {}), g2.map(lambda x: subst(x, left, {}))


def strip_clones(v):
    if isinstance(v, V):
        if v.t == "op" and v.a[0] == "wclone":
            return strip_clones(v.a[1])
        return mk(v.t, *[strip_clones(x) for x in v.a])
    if isinstance(v, tuple):
        return tuple(strip_clones(x) for x in v)
    if isinstance(v, frozenset):
        return frozenset(strip_clones(x) for x in v)
    return v


class QueueObs:
    """what is pushed into the request queue"""

    def __init__(self, c, what):
        self.c, self.what = c, what

    def op_fields(self, st, o):
        L = self.c.L
        if "opt" in L["op.ins"][1]:
            f = {n: st.norm(projn(o, p)) for n, p in L["op.ins"][1].items()}
            w = f.pop("opt")
            d = st.discr(w)
            if d.t != "k":
                return None, {}
            if kv(d) == 0:
                return "rem", f
            f["waker"] = st.norm(some_inner(w))
            return "ins", f
        d = kv(st.discr(o)) if st.discr(o).t == "k" else None
        for kind, (vi, ix) in (("ins", L["op.ins"]), ("rem", L["op.rem"])):
            if d == vi:
                f = {}
                for n, p in ix.items():
                    x = project(o, ("v", vi)) if o.t != "agg" else o
                    f[n] = st.norm(projn(x, p))
                return kind, f
        return None, {}

    def is_queue(self, place):
        return bool(place[1]) and place[1][-1] == self.c.L["R.ops"]

    def on_queue(self, eng, st, ev):
        c = self.c
        k = ev[0]
        if k in ("qpush", "qfull") and self.is_queue(ev[1]):
            kind, f = self.op_fields(st, ev[2])
            if kind is None:
                c.fail("C10", "unknown-op:%s" % self.what, "an unknown request %s is queued" % show(ev[2]), st, ev[3])
                return
            key = (kind, f["when"], f["id"], wid(f["waker"]) if "waker" in f else None)
            owed = st.obs.get("owed", ())
            c.ob("C10", "%s: each request is queued, also when the queue is full at first" % self.what)
            if k == "qfull":
                if key not in owed:
                    owed += (key,)
                st.obs["owed"] = owed
                st.obs["drained"] = False
            else:
                if key in owed:
                    if not st.obs.get("drained"):
                        c.fail("C10", "retry-without-drain:%s" % self.what, "a full queue is tried again without applying what it holds", st, ev[3])
                    owed = tuple(x for x in owed if x != key)
                elif owed:
                    c.fail("C10", "request-lost:%s" % self.what, "a request refused by the full queue is not the one queued next (%s)" % show(owed[0]), st, ev[3])
                st.obs["owed"] = owed
                self.pushed(eng, st, kind, f, ev[3])
        elif k == "qforced":
            c.fail("C10", "evicts:%s" % self.what, "queueing a request evicts another one", st, ev[3])
        elif k in ("qempty", "limit"):
            st.obs["drained"] = True

    def pushed(self, eng, st, kind, f, line):
        pass

    def queue_end(self, eng, st):
        owed = st.obs.get("owed", ())
        if owed:
            self.c.fail("C10", "request-lost:%s" % self.what, "a request that the full queue refused is dropped: %s" % show(owed[0]), st)


class ApplyObs(QueueObs):
    """what is taken out of the request queue is applied to the map of timers"""

    def on(self, eng, st, ev):
        c = self.c
        k = ev[0]
        if k == "qpop":
            c.ob("C10", "%s: each request taken out is applied once" % self.what)
            self.settle(eng, st, "the next one is taken")
            if "timers" not in [c.lock_class(eng, l[0]) for l in st.locks]:
                c.fail("C10", "apply-unlocked:%s" % self.what, "requests are taken from the queue without the lock on the timers, so two threads can apply them out of order", st, ev[3])
            st.obs["popped"] = ev[2]
        elif k in ("qempty", "limit"):
            # the next one was looked for
            pass
        elif k == "map":
            what, place, key, w = ev[1], ev[2], ev[3], ev[4]
            if what in ("insert", "remove") or (what == "take" and st.obs.get("popped") is not None):
                p = st.obs.get("popped")
                if p is None:
                    c.fail("C10", "map-changed:%s" % self.what, "the map of timers is changed (%s %s) other than by a request" % (what, show(key)), st, ev[5])
                    return
                kind, f = self.op_fields(st, p)
                if kind is None:
                    c.fail("C10", "op-kind:%s" % self.what, "a request is applied without looking at what it asks for", st, ev[5])
                    return
                same = c.key_part(st, key, "when") is f["when"] and c.key_part(st, key, "id") is f["id"]
                if not same:
                    c.fail("C10", "op-key:%s" % self.what, "a request is applied under %s, not under its own deadline and identity" % show(key), st, ev[5])
                if kind == "ins" and (what != "insert" or wid(w) is not wid(f["waker"])) or kind == "rem" and what == "insert":
                    c.fail("C10", "op-applied:%s" % self.what, "a request to %s is applied as %s with waker %s" % ({"ins": "insert", "rem": "remove"}[kind], what, show(w) if w is not None else "-"), st, ev[5])
                st.obs.pop("popped")
        elif k == "unlock" and c.lock_class(eng, ev[1]) == "timers":
            self.settle(eng, st, "the timers are unlocked")
        elif k == "ret":
            self.settle(eng, st, "the function returns")

    def settle(self, eng, st, when):
        p = st.obs.get("popped")
        if p is not None:
            self.c.fail("C10", "request-dropped:%s" % self.what, "a request taken from the queue has not been applied when %s" % when, st)
            st.obs.pop("popped", None)


class TimerObs(QueueObs):
    """one operation on a timer whose observable state before is ghost g"""

    def __init__(self, c, what, g, tm=None, kind=None, args=()):
        super().__init__(c, what)
        self.g, self.tm, self.kind, self.args = g, tm, kind, args
        self.next = []

    def fail(self, pid, key, msg, st=None, line=None):
        # what follows from a wrong state is not reported again
        self.bad = True
        self.c.fail(pid, key, msg, st, line)

    def counter_changed(self, st, ev):
        """a counter of identities only ever goes on, in one direction"""
        x = self.c.__dict__.setdefault("id_counter", {})
        x.setdefault(ev[2], set()).add(ev[1])
        if ev[2] in x.get("of", ()) and len(x[ev[2]]) > 1:
            self.fail("C10", "identity-reused:%s" % self.what, "the counter of identities is changed in another way (%s)" % ev[1], st, ev[5])

    def identity(self, st, f, line):
        """where a new identity comes from"""
        for i, name, place, step, ty in st.obs.get("steps", ()):
            if i is not f["id"]:
                continue
            x = self.c.__dict__.setdefault("id_counter", {})
            if step.t != "k" or kv(step) == 0 or abs(kv(step)) > 1 << 32:
                self.fail("C10", "identity-step", "the counter of identities moves by %s, so identities repeat" % show(step), st, line)
            elif not any(w in ty for w in ("<usize>", "<u64>", "<i64>", "<isize>")):
                self.fail("C10", "identity-width", "the counter of identities (%s) is so narrow that identities repeat" % ty, st, line)
            elif place[0].t in ("L", "T", "m"):
                self.fail("C10", "identity-counter", "the counter of identities is not shared by all timers", st, line)
            elif x.get("of", {place}) != {place}:
                self.fail("C10", "identity-counter", "identities come from different counters (%s), so that two registrations can have the same" % show(place[0]), st, line)
            elif len(x.get(place, ())) > 1:
                self.fail("C10", "identity-counter", "the counter of identities is changed in different ways (%s)" % ", ".join(sorted(x[place])), st, line)
            x.setdefault("of", {place})

    # ghost registrations live in obs
    def on(self, eng, st, ev):
        c = self.c
        self.on_queue(eng, st, ev)
        k = ev[0]
        if k == "now":
            st.obs["nows"] = tuple(sorted(set(st.obs.get("nows", ()) + (ev[1],))))
        elif k == "may_panic" and ev[1].startswith(("Instant", "Duration")):
            if not (len(ev) > 3 and ev[3] is dur(1)):
                self.fail("C09", "overflow-panic:%s" % self.what, "%s can overflow and panic" % ev[1], st, ev[2])
        elif k == "call" and any(x in ev[2] for x in ("unwrap_failed", "expect_failed", "panicking::")):
            if any(t.t == "op" and t.a[0] == "fits" and v is FALSE for t, v in st.eqf.items()):
                self.fail("C09", "overflow-panic:%s" % self.what, "panics when the deadline is not representable", st, ev[4])
        elif k == "poller" and ev[1] == "notify":
            st.obs["unnotified"] = False
        elif k == "atomic" and ev[1] in ("fetch_add", "fetch_sub"):
            st.obs["ids"] = tuple(sorted(set(st.obs.get("ids", ()) + (ev[3],))))
            st.obs["steps"] = st.obs.get("steps", ()) + ((ev[3], ev[1], ev[2], st.norm(ev[4][0]), ev[6]),)
            self.counter_changed(st, ev)
        elif k == "atomic" and ev[1] != "load":
            self.counter_changed(st, ev)
        elif k == "ret":
            self.at_ret(eng, st, ev[1])

    def regs(self, st):
        return st.obs.get("regs", self.g.regs if self.g else ())

    def pushed(self, eng, st, kind, f, line):
        c = self.c
        r = self.regs(st)
        if kind == "ins":
            c.ob("C07", "%s: a new registration" % self.what)
            e = (f["when"], f["id"], wid(f["waker"]))
            ids = st.obs.get("ids", ())
            c.ob("C10", "%s: each registration gets a fresh identity" % self.what)
            if f["id"] not in ids or any(f["id"] is x[1] for x in r):
                self.fail("C10", "identity-reused:%s" % self.what, "the identity %s of a new registration does not come from a counter step of its own" % show(f["id"]), st, line)
            self.identity(st, f, line)
            st.obs["regs"] = r + (e,)
            st.obs["fresh"] = st.obs.get("fresh", ()) + (e,)
            st.obs["unnotified"] = True
        else:
            c.ob("C08", "%s: a registration is removed" % self.what)
            st.obs["regs"] = tuple(x for x in r if not (x[0] is f["when"] and x[1] is f["id"]))

    def fits(self, st, base, d):
        """is the deadline base+d representable: True, False, None"""
        if d is MAXD:
            return False
        x = st.eqf.get(op("fits", base, d))
        return None if x is None else x is TRUE

    def at_ret(self, eng, st, v):
        c, g, kind = self.c, self.g, self.kind
        self.bad = False
        self.queue_end(eng, st)
        regs = self.regs(st)
        nows = st.obs.get("nows", ())
        if st.obs.get("unnotified"):
            self.fail("C07", "no-notify:%s" % self.what, "a registration is queued but the reactor is not notified after that", st)
        if kind == "drop":
            c.ob("C08", "drop: no registration is left")
            if regs:
                self.fail("C08", "leak:%s" % self.what, "dropping the timer leaves a registration (%s) behind" % show(regs[0]), st)
            return
        if kind == "will_fire":
            c.ob("C06", "will_fire() is true exactly if there is a deadline")
            x = st.norm(v)
            if x is not K(g.when is not None):
                self.fail("C06", "will-fire", "will_fire() returns %s for a timer with %s" % (show(v), g), st)
            return
        tmv = st.rd(self.tm) if self.tm is not None else v
        if kind == "new" or kind == "set":
            n = self.new_schedule(st, nows)
            if n is None:
                return
            when, period = n
            waiter = g.waiter if g else None
            self.check_regs(st, regs, when, waiter, "C09" if kind == "set" else "C07")
            self.out(st, tmv, Ghost(when, period, regs, waiter, kind))
            return
        # polling
        d = st.discr(v)
        if d is K(1):
            c.ob("C07", "%s: Pending" % self.what)
            if g.when is not None:
                before = any(st.evalb(op("lt", n, g.when)) is TRUE for n in nows)
                have = [r for r in regs if r[0] is g.when and same_waker(st, r[2], CX)]
                fresh = st.obs.get("fresh", ())
                if not have:
                    self.fail("C07", "unregistered:%s" % self.what, "Pending without a registration for the deadline with the polling task's waker (registrations: %s)" % show(regs), st)
                elif not before and not any(h in fresh for h in have):
                    self.fail("C07", "overdue-pending:%s" % self.what, "Pending although the deadline may have passed and the old registration may be used up", st)
                for r in regs:
                    if r not in have[:1]:
                        self.fail("C08", "stale-registration:%s" % self.what, "an old registration (%s) is left in place" % show(r), st)
                self.out(st, tmv, Ghost(g.when, g.period, regs, CX, g.origin))
            else:
                if regs:
                    self.fail("C08", "stale-registration:%s" % self.what, "a timer without deadline has a registration %s" % show(regs[0]), st)
                self.out(st, tmv, Ghost(None, g.period, regs, CX, g.origin))
            return
        if d is not K(0):
            self.fail("C06", "unknown-result:%s" % self.what, "the result of the poll is not determined: %s" % show(v), st)
            return
        t = v.a[2][0] if v.t == "agg" else some_inner0(v)
        if kind == "poll_next":
            if st.discr(t) is not K(1):
                self.fail("C06", "stream-ends:%s" % self.what, "the stream of a timer ends (%s)" % show(v), st)
                return
            t = some_inner0(t) if t.t == "agg" else some_inner(t)
        c.ob("C06", "%s: fires with its own deadline and not early" % self.what)
        if g.when is None:
            self.fail("C06", "fires-without-deadline:%s" % self.what, "a timer without deadline fires", st)
            return
        if t is not g.when:
            self.fail("C06", "wrong-value:%s" % self.what, "the timer yields %s, not its deadline" % show(t), st)
        if not any(st.evalb(op("lt", n, g.when)) is FALSE for n in nows):
            self.fail("C06", "early:%s" % self.what, "the timer fires although the clock may not have reached its deadline", st)
        nw = None
        if g.period is not None:
            ft = self.fits(st, g.when, g.period)
            if ft is None:
                # not computed: stands for either
                self.fail("C06", "no-next:%s" % self.what, "an interval timer fires without working out its next deadline from the one that passed", st)
                return
            if ft:
                nw = op("iadd", g.when, g.period)
        if nw is not None:
            c.ob("C07", "%s: the next deadline of an interval is registered" % self.what)
            have = [r for r in regs if r[0] is nw and same_waker(st, r[2], CX)]
            if not have:
                self.fail("C07", "next-unregistered:%s" % self.what, "an interval timer fires without registering its next deadline (registrations: %s)" % show(regs), st)
            rest = [r for r in regs if r not in have[:1]]
        else:
            rest = regs
        c.ob("C08", "%s: the registration of the deadline that fired is removed" % self.what)
        if g.period is None and any(r in st.obs.get("fresh", ()) for r in rest):
            msg = "a one-shot timer schedules itself again when it fires (%s)" % show(rest[-1])
            self.fail("C06", "refires:%s" % self.what, msg, st)
            if g.origin == "set":
                self.fail("C09", "not-one-shot:%s" % self.what, msg + ", after set_after/set_at", st)
            return
        for r in rest:
            if r in st.obs.get("fresh", ()) and (nw is None or r[0] is not nw):
                self.fail("C06", "wrong-next:%s" % self.what, "an interval timer goes on with another deadline (%s) than the one that passed plus its period" % show(r[0]), st)
            self.fail("C08", "stale-registration:%s" % self.what, "firing leaves a registration (%s) behind" % show(r), st)
        self.out(st, tmv, Ghost(nw, g.period if nw is not None else None, regs, CX if nw is not None else None, g.origin))

    def new_schedule(self, st, nows):
        """(deadline, period) the operation is documented to set"""
        c, nm, a = self.c, self.what.split(" ")[0], self.args
        if nm == "never":
            return None, None
        if nm in ("at", "set_at"):
            return a[0], None
        if nm in ("interval_at", "set_interval_at"):
            return a[0], a[1]
        # relative to now
        for n in nows:
            f = self.fits(st, n, a[0])
            if f is True:
                return op("iadd", n, a[0]), (a[0] if "interval" in nm else None)
            if f is False:
                return None, None
        self.fail("C09", "no-overflow-check:%s" % self.what, "the deadline is not worked out by a checked addition to the current time", st)
        return None

    def check_regs(self, st, regs, when, waiter, pid):
        c = self.c
        c.ob("C09" if pid == "C09" else "C07", "%s: registrations after a new schedule" % self.what)
        good = [r for r in regs if when is not None and r[0] is when]
        if when is not None and waiter is not None:
            good = [r for r in good if same_waker(st, r[2], waiter)]
            if not good:
                self.fail("C09", "waiter-lost:%s" % self.what, "the task that waits on the timer is not registered for the new deadline (registrations: %s)" % show(regs), st)
        for r in regs:
            if r not in good[:1]:
                self.fail("C08", "stale-registration:%s" % self.what, "the old registration (%s) is left in place" % show(r), st)

    def out(self, st, v, g):
        if not self.bad:
            # a waker known to wake the polling task is that task's
            old = {t: CX for t in set(subterms(v)).union(*[subterms(r[2]) for r in g.regs]) if t.t == "sym" and t is not CX and same_waker(st, t, CX)}
            if old:
                v, g = subst(v, old, {}), g.map(lambda x: subst(x, old, {}))
            self.next.append((v, g))


def some_inner0(v):
    return v.a[2][0] if v.t == "agg" and v.a[2] else project(project(v, ("v", 0)), ("f", 0, "0"))


CTORS = ["never", "after", "at", "interval", "interval_at"]
SETS = ["set_after", "set_at", "set_interval", "set_interval_at"]


def timer_states(c, more=lambda o: [o]):
    """explores the timer operations over all reachable observable states"""
    c.need("op", "op.ins", "op.rem", "R.ops")
    prog = c.prog
    todo, seen = [], {}

    def add(o):
        for v, g in o.next:
            v, g = canonical(v, g)
            k = (v, g.key())
            if k not in seen:
                seen[k] = g
                todo.append((v, g))
                if len(seen) > 64:
                    raise Unsupported("the states of a timer do not converge")

    def run(b, args, o, tmv=None, poll=False):
        e = c.engine(more(o))

        def init(st):
            # what is known about these matters until the end
            st.obs["args"] = tuple(args[1:] if tmv is not None else args)
            if tmv is not None:
                st.mem[o.tm] = tmv
                st.obs["ghost"] = tuple(x for x in (o.g.when, o.g.period) if x is not None)
            if poll:
                st.mem[mk("L", 0, 2)] = c.cx(st)
        e.run(b, args, init=init, name=o.what)

    for n in CTORS:
        b = c.body("Timer::" + n)
        args = [sym("new.%d" % i) for i in range(b.argc)]
        o = TimerObs(c, n, None, kind="new", args=args)
        run(b, args, o)
        add(o)
    polls = [("poll_next", ("futures_core::stream::Stream", "poll_next", "Timer", False)),
             ("poll", ("core::future::future::Future", "poll", "Timer", False))]
    for n, k in polls:
        if k not in prog.trait_impls:
            raise Missing("Timer does not implement %s" % k[0])
    while todo:
        v, g = todo.pop()
        tm = mk("m", "timer")
        R = ref(tm)
        for n in SETS:
            b = c.body("Timer::" + n)
            args = [sym("set.%d" % i) for i in range(b.argc - 1)]
            o = TimerObs(c, n, g, tm, "set", args)
            run(b, [R] + args, o, v)
            add(o)
        for n, k in polls:
            b = prog.bodies[prog.trait_impls[k]]
            o = TimerObs(c, n, g, tm, n)
            run(b, [pin(R), UNIT], o, v, True)
            add(o)
        o = TimerObs(c, "will_fire", g, tm, "will_fire")
        run(c.body("Timer::will_fire"), [R], o, v)
        o = TimerObs(c, "drop", g, None, "drop")
        e = c.engine(more(o))
        e.run_drop(v, None, name="drop of Timer")
    c.timer_states = [str(g) for g in seen.values()]
    return seen


# ------------------------------------------------------------ the reactor step
class StepObs:
    """the handling of deadlines in one reactor step"""

    def __init__(self, c, tmo):
        self.c = c
        self.tmo = tmo  # the caller's timeout (a symbol)

    def on(self, eng, st, ev):
        c = self.c
        k = ev[0]
        if k == "now":
            st.obs["nows"] = tuple(sorted(set(st.obs.get("nows", ()) + (ev[1],))))
        elif k == "atomic" and ev[1] != "load" and ev[2] in c.__dict__.get("id_counter", {}).get("of", ()):
            c.fail("C10", "identity-counter", "the counter of identities is changed (%s) in a reactor step" % ev[1], st, ev[5])
        elif k == "mapmat":
            st.obs["mat"] = (ev[1], ev[2])
        elif k == "qempty":
            st.obs["drained"] = True
        elif k == "limit":
            x = ev[1]
            if x.t == "op" and x.a[0] == "capacity" or x.t == "k" and kv(x) >= (queue_capacity(c.prog) or 1 << 62):
                st.obs["drained"] = True
        elif k == "qpop":
            st.obs["drained"] = False
        elif k == "unlock" and c.lock_class(eng, ev[1]) == "timers":
            self.processed(eng, st, ev[2])
        elif k == "poller" and ev[1] == "wait":
            self.at_wait(eng, st, ev[2], ev[3])
            st.obs["nows"] = ()
            st.obs.pop("proc", None)
            st.obs["drained"] = False
        elif k == "poller_done" and ev[1] == "wait":
            st.obs["wait"] = (ev[2], ev[5], ev[3])
        elif k == "ret":
            self.at_ret(eng, st)

    def processed(self, eng, st, data):
        c = self.c
        if data.t != "map":
            return
        left = data.a[0]
        lt = lambda n, w: st.evalb(op("lt", n, w))
        nows = st.obs.get("nows", ())
        wh = lambda key: c.key_part(st, key, "when")
        kept = {wh(k) for k, _ in left}
        fired = False
        # the entries the map held when it was looked at
        mat = st.obs.pop("mat", None)
        if mat is not None:
            for i in range(mat[1]):
                w = op("when", K(i), mat[0])
                if w in kept:
                    continue
                fired = True
                c.ob("C11", "only timers whose deadline has been reached are taken")
                if not any(lt(x, w) is FALSE for x in nows):
                    c.fail("C11", "early-wake", "a timer is taken out although its deadline may not have been reached", st)
        for k, _ in left:
            c.ob("C11", "timers that are kept are not due")
            if not any(lt(x, wh(k)) is TRUE for x in nows):
                c.fail("C11", "missed", "a timer that may be due is left in the map when the timers are unlocked", st)
        if not st.obs.get("drained"):
            c.fail("C11", "undrained", "due timers are looked for without having applied all queued requests", st)
        st.obs["proc"] = (tuple(wh(k) for k, _ in left), fired, nows)

    def at_wait(self, eng, st, args, line):
        c = self.c
        c.ob("C11", "the OS wait is bounded by the earliest deadline and the caller's timeout")
        p = st.obs.get("proc")
        x = args[1] if len(args) > 1 else None
        if x is None:
            c.fail("C11", "no-timeout", "the OS wait has no timeout argument", st, line)
            return
        if p is None:
            c.fail("C11", "unprocessed", "the OS wait starts without the due timers having been looked for", st, line)
            return
        left, fired, nows = p
        bounds = []
        if fired:
            bounds.append((None, dur(0)))
        elif left:
            bounds.append((left[0], None))
        t = self.tmo
        d = st.discr(t)
        if d.t != "k" and st.evalb(op("eq", *sorted((d, K(1))))) is FALSE:
            d = K(0)
        if d is not K(0):
            if d is not K(1) and x is not t:
                c.fail("C11", "caller-timeout", "the OS wait is set up without looking at the caller's timeout", st, line)
            bounds.append((None, some_inner(t)))
        if st.discr(x) is K(0):
            if bounds:
                c.fail("C11", "unbounded", "the OS wait is unbounded although %s" % ("a timer is due" if fired else "a timer is pending" if left else "the caller gave a timeout"), st, line)
            return
        if x is t and len(bounds) == 1:
            return
        if st.discr(x) is not K(1):
            c.fail("C11", "unknown-timeout", "the timeout of the OS wait is not determined: %s" % show(x), st, line)
            return
        y = some_inner0(x) if x.t == "agg" else some_inner(x)
        y = st.norm(y)
        for w, b in bounds:
            if w is not None:
                good = y is dur(0) or any(self.le(st, y, op("dsince", w, n)) for n in nows)
                b = op("dsince", w, sym("now"))
            else:
                good = self.le(st, y, b)
            if not good:
                c.fail("C11", "oversleep", "the OS wait may last %s, longer than %s" % (show(y), show(b)), st, line)

    def le(self, st, y, b):
        if y is b or y is dur(0):
            return True
        return st.evalb(op("lt", b, y)) is FALSE or st.evalb(op("lt", y, b)) is TRUE or st.evalb(op("eq", *sorted((y, b)))) is TRUE

    def at_ret(self, eng, st):
        c = self.c
        w = st.obs.get("wait")
        if not w:
            c.fail("C11", "no-wait", "a reactor step ends without asking the OS for events", st)
            return
        good, v, args = w
        if not good:
            return
        n = project(project(v, ("v", 0)), ("f", 0, "0")) if v.t != "agg" else v.a[2][0]
        if st.evalb(op("eq", *sorted((st.norm(n), K(0))))) is FALSE:
            return
        x = args[1]
        if st.discr(x) is K(1):
            y = st.norm(some_inner0(x) if x.t == "agg" else some_inner(x))
            if y is dur(0) or st.evalb(op("eq", *sorted((y, dur(0))))) is TRUE:
                return
        c.ob("C11", "a wait that ended without events makes the step look at the timers again")
        p = st.obs.get("proc")
        if p is None:
            c.fail("C11", "timers-not-rechecked", "the OS wait ended without events and the step returns without looking at the timers again", st)
        elif not p[2]:
            c.fail("C11", "stale-clock", "after the OS wait the timers are compared with a clock value from before it", st)


def analyse_timer(c):
    timer_states(c, lambda o: [o, ApplyObs(c, "full queue")])


def timeout_arg(c, b):
    for i in range(b.argc):
        if "Option<core::time::Duration>" in c.prog.tys(b.locals[i + 1]):
            return i
    raise Missing("the reactor step has no timeout")


NO_SOURCE = ("Slab::get", "Slab::get_mut", "Slab::contains", "Index::index", "IndexMut::index_mut")


def no_source(eng, st, cl, info):
    r, p = st.deref(cl.args[0])
    if "Arc<" not in peel(eng, aty(eng, cl, 0)).get("s", "?"):
        return None
    if cl.name == "Slab::contains":
        return ret(eng, st, cl, FALSE)
    if cl.name in ("Index::index", "IndexMut::index_mut"):
        return []  # a panic (C26)
    return ret(eng, st, cl, NONE)


def analyse_step(c):
    for k in c.react_roots():
        b = c.body(k)
        args = fargs(b)
        o = StepObs(c, args[timeout_arg(c, b)])
        e = c.engine([o, ApplyObs(c, "reactor step")])
        # deadlines do not depend on which sources the events are for: take them all for unknown ones
        e.hooks.append((lambda eng, st, cl, info: cl.name in NO_SOURCE, no_source))
        e.run(b, args, obs={"tmo": o.tmo}, name=b.name or k)
