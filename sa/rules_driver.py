"""C12-C14: block_on, its waker, the background thread (see DESIGN.md)."""
from .common import *
from .models import ret, choice, pointee

SEQCST = 4


def is_zero(st, x):
    return x is not None and (x is dur(0) or st.norm(x) is dur(0))


def none_counted(st, v):
    """the path found the count (or flag) v to be zero (or false)"""
    return st.norm(v) in (K(0), FALSE) or st.evalb(op("eq", *sorted((K(0), v)))) is TRUE or st.evalb(op("lt", K(0), v)) is FALSE \
        or st.evalb(op("lt", v, K(1))) is TRUE


def find(v, tag):
    return [x for x in subterms(v) if x.t == tag]


def order_of(v):
    return v.a[1] if v.t == "agg" and v.a[0].endswith("Ordering") else v.a[1] if v.t == "agg" else None


def orders(args):
    return [x.a[1] for x in args if x.t == "agg" and "Ordering" in x.a[0]]


def root_static(r):
    """the static a place belongs to, if any"""
    for x in subterms(r):
        if x.t == "static":
            return x
    return None


def hook_react(c, e):
    roots = set(c.react_roots())

    def h(eng, st, cl, info):
        b = eng.prog.bodies[info.get("res") or info["key"]]
        i = timeout_pos(c, b)
        eng.emit(st, "react", cl.args[i], cl.line)
        if st.dead:
            return []
        def bad(s):
            return agg(RES, 1, (eng.fresh(s, "oserr"),))
        out = []
        for v, lab in ((agg(RES, 0, (UNIT,)), "the reactor step succeeds"), (None, "the reactor step fails")):
            s = st.copy()
            s.trail = Trail(s.trail, (cl.line, lab))
            x = v or bad(s)
            eng.emit(s, "reacted", cl.args[i], v is not None, cl.line)
            out += ret(eng, s, cl, x)
        return out

    e.hooks.append((lambda eng, st, cl, info: (info.get("res") or info["key"]) in roots, h))


def timeout_pos(c, b):
    for i in range(b.argc):
        if "Option<core::time::Duration>" in c.prog.tys(b.locals[i + 1]):
            return i
    raise Missing("the reactor step has no timeout")


def find_block_on(c):
    r = [k for k, b in c.prog.bodies.items() if b.local and b.name == "block_on" and not b.closure]
    if not r:
        raise Missing("no function block_on")
    return c.body(r[0])


def reactor_get(c):
    """functions that give out the global reactor"""
    c.need("Reactor")
    r = [b for b in c.prog.bodies.values() if b.local and b.argc == 0 and not b.closure and c.prog.tys(b.locals[0]).startswith("&") and c.prog.tys(b.locals[0]).lstrip("&").replace("'static ", "") == c.L["Reactor"]]
    if not r:
        raise Missing("no function returns the global reactor")
    return r


def panics(ev):
    return ev[0] == "call" and any(x in ev[2] for x in ("unwrap_failed", "expect_failed", "panicking::", "panic_fmt", "begin_panic"))


# ------------------------------------------------------------ the waker given to the future
class PollCapture:
    """what the future's Context holds at each poll"""

    def __init__(self):
        self.got = {}

    def on(self, eng, st, ev):
        if ev[0] == "call" and ev[1] == "Future::poll":
            w = waker_at(eng, st, ev[3])
            if w is None:
                self.got.setdefault(None, (None, st.copy()))
                return
            self.got.setdefault((w, waker_content(st, w)), (w, st.copy()))


def waker_at(eng, st, args):
    if len(args) < 2:
        return None
    x = args[1]
    v = st.load(x) if x.t == "ref" else x
    if v.t != "agg" or not v.a[0].endswith("Context"):
        return None
    w = v.a[2][0]
    for _ in range(3):
        if w.t == "ref":
            w = st.load(w)
    while w.t == "op" and w.a[0] == "wclone":
        w = w.a[1]
    return w


def waker_content(st, w):
    if w.t == "waker" and w.a[0].t in ("arc", "box"):
        return st.rd(w.a[0].a[0])
    return w


def own_pair(st, w):
    """symbol of the parker/unparker pair a waker belongs to"""
    u = find(waker_content(st, w), "unparker")
    return u[0].a[0] if len(u) == 1 else None


class WakeObs:
    """one execution of the waker's wake function"""

    def __init__(self, c, what, pair):
        self.c, self.what, self.pair = c, what, pair
        self.atoms = set()  # atomic place -> justification polarity
        self.cells = {}
        self.bad_order = []

    def on(self, eng, st, ev):
        c = self.c
        k = ev[0]
        if k == "unpark":
            x = ev[1]
            if x.t == "unparker" and x.a[0] is self.pair:
                st.obs["unparked"] = True
                st.obs["newly"] = ev[2] is TRUE or st.obs.get("newly", False)
                st.obs["notified"] = False
                st.obs["loads"] = ()
        elif k == "poller" and ev[1] == "notify":
            st.obs["notified"] = True
        elif k == "atomic" and ev[1] in ("load", "swap", "fetch_or", "fetch_and"):
            st.obs["loads"] = st.obs.get("loads", ()) + ((ev[2], ev[3], tuple(K(o) for o in orders(ev[4]))),)
        elif k == "ret":
            self.at_ret(eng, st)
        elif k == "lock" and ev[2] == "lock":
            c.fail("C12", "waker-locks", "waking a block_on task waits for a lock (%s)" % c.lock_class(eng, ev[1]), st, ev[3])

    def at_ret(self, eng, st):
        c = self.c
        c.ob("C12", "%s: the parker is unparked on every path, and the OS wait is interrupted unless it cannot be needed" % self.what)
        if not st.obs.get("unparked"):
            c.fail("C12", "no-unpark", "a path through %s does not unpark the thread in block_on" % self.what, st)
            return
        if not st.obs.get("newly") or st.obs.get("notified"):
            return
        good = False
        for place, v, os in st.obs.get("loads", ()):
            if st.evalb(v) is FALSE:
                good = True
                self.atoms.add(place)
                if K(SEQCST) not in os:
                    c.fail("C12", "weak-load", "the flag that says whether the thread is blocked on I/O is read with an ordering weaker than SeqCst", st)
        # thread-local flags of the waking thread
        for t, v in st.eqf.items():
            if v is TRUE and t.t == "prj":
                tl = find(t, "tls")
                if tl:
                    good = True
                    self.cells[tl[0]] = TRUE
        if not good:
            c.fail("C12", "no-notify", "a path through %s leaves a thread that may be blocked on I/O uninterrupted" % self.what, st)


def analyse_waker(c, b):
    """-> (pair symbol names, flags the waker relies on)"""
    cap = PollCapture()
    e = c.engine([cap])
    e.tls_flags_false = True
    hook_react(c, e)
    e.run(b, fargs(b), name="block_on")
    if not cap.got:
        raise Missing("block_on does not poll the future")
    atoms, cells = {}, {}  # flags by pair
    for key, (w, st) in cap.got.items():
        if key is None or w.t != "waker" or w.a[0].t != "arc":
            raise Unsupported("the waker of block_on is not made from an Arc of a Wake type")
        pair = own_pair(st, w)
        if pair is None:
            c.fail("C12", "no-parker", "the waker of block_on does not hold an unparker", st)
            continue
        content = waker_content(st, w)
        tag = content.a[0]
        for m in ("wake", "wake_by_ref"):
            k = c.prog.trait_impls.get(("alloc::task::Wake", m, tag, False))
            if k is None:
                if m == "wake":
                    raise Missing("no Wake impl for %s" % tag)
                continue  # by default wake_by_ref clones and wakes
            wb = c.prog.bodies[k]
            o = WakeObs(c, "%s::%s" % (tag.rsplit("::", 1)[-1], m), pair)
            e2 = c.engine([o])

            def init(s):
                for r, v in st.mem.items():
                    if r.t in ("T", "m"):
                        s.mem[r] = v
                if m == "wake_by_ref":
                    s.mem[mk("m", "self")] = w.a[0]
                # keep the facts about everything read until the end
                s.obs["keep"] = w
            arg = ref(mk("m", "self")) if m == "wake_by_ref" else w.a[0]
            e2.run(wb, [arg], init=init, name=o.what)
            atoms.setdefault(pair, set()).update(o.atoms)
            cells.update(o.cells)
    return atoms, cells


# ------------------------------------------------------------ block_on
class BlockObs:
    def __init__(self, c, atoms, cells):
        self.c, self.atoms, self.cells = c, atoms, cells
        self.counted = set()
        self.borrowed_at_poll = set()
        self.must_borrow = {}

    def held(self, eng, st):
        return any(self.c.lock_class(eng, x[0]) == "events" for x in st.locks)

    def on(self, eng, st, ev):
        c = self.c
        k = ev[0]
        if k == "call" and ev[1] == "Future::poll":
            self.at_poll(eng, st, ev)
        elif k == "park":
            self.at_park(eng, st, ev)
        elif k == "react":
            self.at_react(eng, st, ev)
        elif k == "lock" and c.lock_class(eng, ev[1]) == "events":
            c.ob("C14", "block_on only tries to take the reactor")
            if ev[2] == "lock":
                c.fail("C14", "waits-for-reactor", "block_on waits for the reactor's lock", st, ev[3])
                c.fail("C12", "sleeps-on-lock", "block_on waits for the reactor's lock, where its waker cannot reach it", st, ev[3])
        elif k == "locked" and c.lock_class(eng, ev[1]) == "events":
            st.obs["drove"] = False
            st.obs["steps"] = K(0)
        elif k in ("now", "elapsed"):
            st.obs["steps"] = K(0)
        elif k == "trylock_failed" and c.lock_class(eng, ev[1]) == "events":
            # someone else drives the reactor
            st.obs["released"] = False
        elif k == "unlocked" and c.lock_class(eng, ev[1]) == "events":
            st.obs["released"] = True
            st.obs["steps"] = K(0)
            c.ob("C14", "block_on drives the reactor when it has taken it")
            if not st.obs.get("drove") and not st.obs.get("token") and not st.unwinding:
                c.fail("C14", "takes-without-driving", "block_on takes the reactor and gives it back without having driven it or received a notification", st)
        elif k == "unpark":
            if root_static(ev[1]) is not None:
                st.obs["released"] = False
        elif k == "atomic":
            self.at_atomic(eng, st, ev)
        elif k == "borrow":
            st.obs["borrows"] = st.obs.get("borrows", ()) + ((ev[1], ev[2]),)
            if not ev[3]:
                self.must_borrow.setdefault(ev[1], (st, ev[4]))
        elif k == "unborrow":
            b = list(st.obs.get("borrows", ()))
            if (ev[1], ev[2]) in b:
                b.remove((ev[1], ev[2]))
            st.obs["borrows"] = tuple(b)
        elif k == "ret":
            self.at_exit(eng, st, ev[1])
        elif k == "unwind_out":
            self.at_exit(eng, st, None)

    # ---- polls
    def at_poll(self, eng, st, ev):
        c = self.c
        v = ev[6]
        w = waker_at(eng, st, ev[3])
        pair = own_pair(st, w)
        c.ob("C12", "the future is polled with a waker of the parker this call sleeps in")
        if st.obs.get("pair") not in (None, pair):
            c.fail("C12", "other-parker", "the future is polled with the waker of another parker", st, ev[4])
        st.obs["pair"] = pair
        parked = st.obs.get("parkers", ())
        for x in parked:
            if not (x.t == "parker" and x.a[0] is pair):
                c.fail("C12", "foreign-parker", "block_on waits in %s but its waker unparks another parker" % show(x), st, ev[4])
        for x in find(waker_content(st, w), "parker"):
            pass
        c.ob("C13", "the future is not polled again after it is ready")
        last = st.obs.get("last")
        if last is not None and st.discr(last) is not K(1):
            c.fail("C13", "polled-after-ready", "the future is polled again although it may have returned Ready", st, ev[4])
        c.ob("C12", "the future is polled again exactly after a notification was consumed")
        if last is not None and not st.obs.get("token"):
            c.fail("C12", "poll-without-wake", "the future is polled again without a notification having been received", st, ev[4])
        st.obs["token"] = False
        st.obs["last"] = v
        st.obs["drained"] = st.obs.get("drained", False) if last is None else False
        st.obs["fresh_check"] = ()
        if self.held(eng, st):
            c.fail("C15", "poll-under-reactor", "the future is polled while the reactor is held", st, ev[4])
            c.fail("C14", "poll-under-reactor", "the future is polled while the reactor is held: nobody can drive it meanwhile", st, ev[4])
        # flags
        for t in self.cells:
            c.ob("C12", "this thread is not marked as polling I/O while the future runs")
            x = self.cell(st, t)
            if x is not None and x is not FALSE and not self.held(eng, st):
                c.fail("C12", "polling-flag", "the future is polled while the thread is marked as polling I/O: wake-ups from it would not interrupt other threads", st, ev[4])
        # counts
        for p, n in self.counts(st).items():
            self.counted.add(p)
            c.ob("C13", "this call is counted while it runs")
            if n != 1:
                c.fail("C13", "count-at-poll", "the count of running calls has changed by %d, not 1, when the future is polled" % n, st, ev[4])
        # isolation of nested calls
        c.ob("C13", "a nested call cannot get at the parker in use")
        br = st.obs.get("borrows", ())
        for r, val in st.mem.items():
            if r.t not in ("tls", "static"):
                continue
            if not any(x.t in ("parker", "unparker") and x.a[0] is pair for x in subterms(val)):
                continue
            held = [b for b in br if b[0][0] is r and b[1] == "mut"]
            for b in held:
                self.borrowed_at_poll.add(b[0])
            if not held:
                c.fail("C13", "shared-parker", "the cached parker can be used by a nested block_on while this one is using it", st, ev[4])

    def cell(self, st, t):
        v = st.mem.get(t)
        if v is None:
            return None
        return st.norm(project(v, ("f", 0, "value")))

    # ---- parking
    def at_park(self, eng, st, ev):
        c = self.c
        x, tmo, got, line = ev[1], ev[2], ev[3], ev[4]
        pair = st.obs.get("pair")
        blocking = tmo is None or not is_zero(st, tmo)
        if pair is not None:
            if not (x.t == "parker" and x.a[0] is pair):
                c.fail("C12", "foreign-parker", "block_on waits in %s but its waker unparks another parker" % show(x), st, line)
                return
        else:
            st.obs["parkers"] = tuple(sorted(set(st.obs.get("parkers", ()) + (x,))))
        if blocking:
            c.ob("C12", "before sleeping no notification has been consumed without polling, and the reactor is not held")
            last = st.obs.get("last")
            if last is None or (last is not None and st.discr(last) is not K(1)):
                c.fail("C12", "sleeps-unpolled", "block_on sleeps although the future was not polled or may be ready", st, line)
            if st.obs.get("token"):
                c.fail("C12", "lost-token", "block_on goes to sleep after it has consumed a notification, without polling the future", st, line)
            if self.held(eng, st):
                c.fail("C12", "sleeps-holding-reactor", "block_on sleeps in its parker while holding the reactor", st, line)
                c.fail("C14", "sleeps-holding-reactor", "block_on sleeps in its parker while holding the reactor", st, line)
            c.ob("C14", "a thread that stops driving the reactor and sleeps has woken the background thread")
            if st.obs.get("released") and not self.polled_since_release(st):
                c.fail("C14", "no-handover", "block_on stops driving the reactor and sleeps without waking the background thread after the reactor was released", st, line)
        if got is TRUE or (got is None and tmo is None):
            st.obs["token"] = True
        if got is FALSE and is_zero(st, tmo):
            st.obs["checked"] = True
            st.obs["pub"] = tuple((p, K(2)) for p, _ in st.obs.get("pub", ()))
        last = st.obs.get("last")
        if last is None or st.discr(last) is K(0):
            st.obs["drained"] = True

    def polled_since_release(self, st):
        return False

    # ---- driving the reactor
    def at_react(self, eng, st, ev):
        c = self.c
        tmo, line = ev[1], ev[2]
        d = st.discr(tmo)
        zero = d is K(1) and is_zero(st, tmo.a[2][0] if tmo.t == "agg" else some_inner(tmo))
        st.obs["drove"] = True
        if zero:
            return
        c.ob("C14", "block_on does not keep the reactor for step after step without looking at the time")
        n = kv(st.obs.get("steps", K(0))) + 1
        st.obs["steps"] = K(n)
        if n > 32:
            c.fail("C14", "hogs-reactor", "block_on can go on driving the reactor for other tasks without ever handing it over to the background thread", st, line)
            st.dead = True
            return
        c.ob("C12", "a blocking reactor step starts only after publishing that the thread blocks and then finding no notification")
        last = st.obs.get("last")
        if last is None or st.discr(last) is not K(1):
            c.fail("C12", "blocks-unpolled", "block_on blocks in the reactor although the future was not polled or may be ready", st, line)
        if st.obs.get("token"):
            c.fail("C12", "lost-token", "block_on blocks in the reactor after it has consumed a notification, without polling the future", st, line)
        pub = dict(st.obs.get("pub", ()))
        mine = self.atoms.get(st.obs.get("pair"), ())
        for p in sorted(mine):
            x = pub.get(p)
            if x is None:
                c.fail("C12", "unpublished", "block_on blocks in the reactor without having set the flag its waker looks at", st, line)
            elif x is K(1):
                c.fail("C12", "unchecked", "block_on blocks in the reactor without having looked for a notification after it set the flag its waker looks at", st, line)
        if not mine and not st.obs.get("checked"):
            c.fail("C12", "unchecked", "block_on blocks in the reactor without having looked for a notification", st, line)
        # a notification may arrive during the step
        st.obs["pub"] = tuple(sorted((p, K(1)) for p, x in pub.items()))
        st.obs["checked"] = False

    def at_atomic(self, eng, st, ev):
        c = self.c
        what, place, line = ev[1], ev[2], ev[5]
        if any(place in x for x in self.atoms.values()) and what in ("store", "swap"):
            v = ev[3] if what == "store" else ev[4][0]
            pub = dict(st.obs.get("pub", ()))
            if v is TRUE:
                pub[place] = K(1)
                st.obs["checked"] = False
                if SEQCST not in orders(ev[4]):
                    c.fail("C12", "weak-store", "the flag that says that the thread is blocked on I/O is set with an ordering weaker than SeqCst", st, line)
            else:
                pub.pop(place, None)
            st.obs["pub"] = tuple(sorted(pub.items()))
            st.obs["flag"] = tuple(sorted({**dict(st.obs.get("flag", ())), place: v}.items()))
        if place[0].t == "static" and what in ("fetch_add", "fetch_sub"):
            n = self.counts(st)
            a = ev[4][0] if ev[4] else None
            d = kv(a) if a is not None and a.t == "k" else 99
            n[place] = n.get(place, 0) + (d if what == "fetch_add" else -d)
            st.obs["count"] = tuple(sorted(((p, K(x)) for p, x in n.items())))

    def counts(self, st):
        return {p: kv(x) for p, x in st.obs.get("count", ())}

    # ---- exits
    def at_exit(self, eng, st, v):
        c = self.c
        how = "returns" if v is not None else "unwinds"
        if v is not None:
            c.ob("C13", "the result is the future's first Ready value")
            p = st.obs.get("last")
            want = None if p is None else project(project(p, ("v", 0)), ("f", 0, "0"))
            if p is None or st.discr(p) is not K(0) or v is not want:
                c.fail("C13", "wrong-result", "block_on returns %s, not the value of the future's Ready" % show(v), st)
            pair = st.obs.get("pair")
            cached = any(r.t in ("tls", "static") and any(x.t == "parker" and x.a[0] is pair for x in subterms(val)) for r, val in st.mem.items())
            c.ob("C13", "a left-over notification is consumed")
            if cached and not st.obs.get("drained"):
                c.fail("C13", "stale-token", "block_on returns without consuming a notification left in the cached parker", st)
        c.ob("C13", "counts and flags are restored on every exit")
        cnt = self.counts(st)
        for p, n in cnt.items():
            if n != 0:
                c.fail("C13", "count-unbalanced", "block_on %s with the count of running calls changed by %+d" % (how, n), st)
        if not cnt:
            c.fail("C13", "not-counted", "block_on %s without having been counted" % how, st)
        for t in self.cells:
            x = self.cell(st, t)
            if x is not None and x is not FALSE:
                c.fail("C13", "flag-left", "block_on %s with the thread still marked as polling I/O" % how, st)
        for p, x in st.obs.get("flag", ()):
            if x is not FALSE:
                c.fail("C13", "io-flag-left", "block_on %s with the thread still marked as blocked on I/O" % how, st)
        if self.held(eng, st):
            c.fail("C14", "reactor-kept", "block_on %s holding the reactor" % how, st)
        c.ob("C14", "a thread that drove the reactor wakes the background thread when it leaves block_on")
        if st.obs.get("released"):
            c.fail("C14", "no-handover-at-exit", "block_on %s after having driven the reactor without waking the background thread after the reactor was released" % how, st)

    def finish(self):
        c = self.c
        for p, (st, line) in self.must_borrow.items():
            if p in self.borrowed_at_poll:
                c.fail("C13", "nested-panics", "a nested block_on panics: it borrows the cell that the outer call keeps borrowed", st, line)


def first_bool(v):
    if "bool" in v:
        return v["bool"]
    for x in v.get("fields", ()):
        r = first_bool(x)
        if r is not None:
            return r
    return first_bool(v["refto"]) if "refto" in v else None


def initially_set(c, key):
    """whether a thread-local flag starts out set: its constant, or its initialiser's result"""
    for p, v in c.prog.statics.items():
        if p.startswith(key + "::") and first_bool(v):
            return True
    b = next((b for b in c.prog.bodies.values() if b.path == key + "::__rust_std_internal_init_fn"), None)
    if b is None:
        return False
    o = InitObs()
    c.engine([o]).run(b, [], name="initialiser of %s" % key)
    return any(TRUE in subterms(v) for v, _ in o.rets)


def analyse_block_on(c):
    b = find_block_on(c)
    atoms, cells = analyse_waker(c, b)
    for t in cells:
        c.ob("C12", "a thread that has never polled I/O is not marked as polling I/O")
        if initially_set(c, t.a[0]):
            c.fail("C12", "flag-initially-set", "%s starts out set: wake-ups from threads that never polled I/O would not interrupt the thread they are for" % t.a[0], None)
    o = BlockObs(c, atoms, cells)
    e = c.engine([o])
    e.tls_flags_false = True
    e.unwind_on = lambda eng, st, cl: cl.name == "Future::poll"
    hook_react(c, e)
    e.run(b, fargs(b), name="block_on")
    o.finish()


# ------------------------------------------------------------ the background thread
class InitObs:
    def __init__(self):
        self.onces = {}
        self.rets = []

    def on(self, eng, st, ev):
        if ev[0] == "once":
            self.onces.setdefault(ev[1], ev[2])
            st.obs["once"] = tuple(sorted(set(st.obs.get("once", ()) + (ev[1],))))
        elif ev[0] == "call" and ev[1].split("::")[-1] in ("spawn", "spawn_scoped", "spawn_unchecked"):
            st.obs["spawn"] = st.obs.get("spawn", ()) + (ev[6],) + tuple(x for x in ev[3])
            st.obs["spawner"] = mk("const", ev[2])
        elif ev[0] == "ret":
            self.rets.append((ev[1], st))


def closure_root(c, obs, fv, name, st0=None):
    """runs a closure value as a root"""
    b = c.prog.bodies.get(fv.a[0].split(":", 1)[1]) if fv.t == "agg" else None
    if b is None:
        raise Missing("the initialiser of a global is not a closure of the crate")
    e = c.engine(obs)
    arg = fv
    init = None
    if c.prog.ty(b.locals[1]).get("k") == "ref":
        r = mk("m", "env")
        arg = ref(r)

        def init(s):
            s.mem[r] = fv
    e.run(b, [arg] + fargs(b, 1), init=init, name=name)
    return e


def analyse_background(c):
    thread = None
    c.ob("C14", "the background thread is started by the initialisation of the reactor")
    for g in reactor_get(c):
        o = InitObs()
        e = c.engine([o])
        e.run(g, [], name=g.name)
        if not o.rets:
            raise Missing("%s never returns" % g.name)
        places = {}
        for v, st in o.rets:
            r, p = st.deref(v)
            st_pl = [x for x in o.onces if x[0] is r]
            if not st_pl:
                raise Missing("%s does not return a lazily initialised global" % g.name)
            places[st_pl[0]] = o.onces[st_pl[0]]
        for pl, clo in places.items():
            i = InitObs()
            if clo is None:
                raise Missing("no initialiser for the reactor")
            closure_root(c, [i], clo, "initialisation of the reactor")
            started = None
            every = {**{k: v for k, v in o.onces.items() if k != pl}, **i.onces}
            for q, clo2 in every.items():
                s = InitObs()
                closure_root(c, [s], clo2, "initialisation of %s" % show(q[0]))
                good = bool(s.rets)
                for v, st in s.rets:
                    if not st.obs.get("spawn"):
                        good = False
                if good:
                    started = (q, s)
            if started is None:
                # perhaps spawned directly
                if i.rets and all(st.obs.get("spawn") for _, st in i.rets):
                    thread = i
                    continue
                c.fail("C14", "no-thread", "the initialisation of the reactor does not start the background thread", None)
                continue
            q, s = started
            thread = s
            for v, st in i.rets:
                if q not in st.obs.get("once", ()) and not all(q in s2.obs.get("once", ()) for _, s2 in o.rets):
                    c.fail("C14", "thread-not-started", "a path through the initialisation of the reactor does not start the background thread", st)
    if thread is None:
        return
    loops = {}
    for v, st in thread.rets:
        sp = st.obs["spawn"]
        res = sp[0]
        c.ob("C14", "starting the background thread cannot fail silently")
        if "thread::spawn" not in st.obs["spawner"].a[0].replace("Builder", "") and st.discr(res) is not K(0):
            c.fail("C14", "spawn-failure-ignored", "the reactor goes on although its background thread could not be started", st)
        clo = [x for x in sp[1:] if x.t == "agg" and x.a[0].startswith("closure:")]
        if not clo:
            raise Missing("the thread's function is not a closure of the crate")
        loops[clo[0]] = st
        u, p = find(v, "unparker"), find(clo[0], "parker")
        c.ob("C14", "the global unparker wakes the background thread")
        if v.t == "ref":
            u = find(st.load(v), "unparker")
        if not u or not p or u[0].a[0] is not p[0].a[0]:
            c.fail("C14", "wrong-unparker", "the global unparker does not belong to the background thread's parker", st)
    for clo, st in loops.items():
        main_loop(c, clo)


class LoopObs:
    LIMIT = 64

    def __init__(self, c, parker):
        self.c, self.parker = c, parker
        self.parks, self.counted, self.spins = 0, False, []

    def on(self, eng, st, ev):
        c = self.c
        k = ev[0]
        if k in ("react", "park") or k == "lock" and ev[2] == "lock":
            # waits or works in this round
            st.obs["spin"] = K(0)
            self.parks += k == "park"
        elif k == "atomic" and ev[1] == "load" and root_static(ev[2][0]):
            self.counted = True
            st.obs["running"] = (ev[3],)
        if k in ("ret", "unwind_out"):
            c.fail("C14", "thread-ends", "the background thread's function can %s" % ("return" if k == "ret" else "unwind"), st)
        elif panics(ev):
            c.fail("C14", "thread-panics", "the background thread can panic (%s)" % ev[2], st, ev[4])
        elif k == "lock" and c.lock_class(eng, ev[1]) == "events":
            c.ob("C14", "the background thread asks for the reactor")
            st.obs["idle"] = K(0)
            if ev[2] == "lock":
                st.obs["sleeps"] = K(0)
        elif k == "trylock_failed" and c.lock_class(eng, ev[1]) == "events":
            st.obs["idle"] = K(0)
        elif k == "react":
            c.ob("C14", "the background thread drives the reactor")
            st.obs["sleeps"] = K(0)
            st.obs["idle"] = K(0)
            st.obs["gen"] = K(1 - kv(st.obs.get("gen", K(0))))
        elif k == "park":
            if self.parker is not None and not (ev[1].t == "parker" and ev[1].a[0] is self.parker):
                c.fail("C14", "wrong-parker", "the background thread sleeps in a parker nobody unparks", st, ev[4])
            if any(c.lock_class(eng, x[0]) == "events" for x in st.locks):
                c.fail("C14", "thread-sleeps-holding", "the background thread sleeps while holding the reactor", st, ev[4])
            if ev[2] is None:
                # for ever: only if nobody relies on it
                c.fail("C14", "thread-sleeps-forever", "the background thread sleeps without a timeout: if the reactor's driver stops without waking it, nobody drives the reactor", st, ev[4])
            if ev[3] is FALSE:
                n = kv(st.obs.get("sleeps", K(0))) + 1
                st.obs["sleeps"] = K(n)
                if n > self.LIMIT:
                    c.fail("C14", "thread-idles", "the background thread can sleep again and again without ever waiting for the reactor, although nobody drives it", st, ev[4])
                    st.dead = True
            else:
                st.obs["sleeps"] = K(0)
        elif k == "ticker":
            n = kv(st.obs.get("idle", K(0))) + 1
            st.obs["idle"] = K(n)
            if n > 4:
                c.fail("C14", "thread-ignores", "the background thread goes round its loop without trying to take the reactor, although nobody drives it", st)
                st.dead = True
            v = st.obs.get("running")
            if v and none_counted(st, v[0]):
                # nobody else is there to drive the reactor: it tries again at once
                st.obs["spin"] = K(0)
            else:
                n = kv(st.obs.get("spin", K(0))) + 1
                st.obs["spin"] = K(n)
                if n > 4:
                    self.spins.append(st)
                    st.dead = True
            st.obs.pop("running", None)

    def finish(self):
        c = self.c
        c.ob("C14", "while others drive the reactor, the background thread sleeps between its attempts")
        if self.spins and (self.counted or not self.parks):
            c.fail("C14", "thread-spins", "the background thread can go round its loop again and again without sleeping, waiting or driving the reactor, although a block_on call is running", self.spins[0])


def main_loop(c, clo):
    c.need("R.ticker")
    p = find(clo, "parker")
    o = LoopObs(c, p[0].a[0] if p else None)
    b = c.prog.bodies[clo.a[0].split(":", 1)[1]]
    e = c.engine([o])
    hook_react(c, e)

    def ticker(eng, st, cl, info):
        r, pth = st.deref(cl.args[0])
        if not pth or pth[-1] != c.L["R.ticker"]:
            return None
        # nobody else drives the reactor: the ticker stands still between the thread's own steps
        eng.emit(st, "ticker", cl.line)
        if st.dead:
            return []
        return ret(eng, st, cl, sym("tick%d" % kv(st.obs.get("gen", K(0)))))

    def park(eng, st, cl, info):
        return [] if kv(st.obs.get("sleeps", K(0))) > o.LIMIT else None

    e.hooks.append((lambda eng, st, cl, info: cl.name == "Atomic::load", ticker))
    e.hooks.append((lambda eng, st, cl, info: cl.name in ("Parker::park_timeout", "Parker::park"), park))
    c.ob("C14", "the background thread never ends and takes over a reactor nobody drives")
    e.run(b, [clo] + fargs(b, 1), name="background thread")
    o.finish()


def analyse_driver(c):
    analyse_block_on(c)


def analyse_thread(c):
    analyse_background(c)
