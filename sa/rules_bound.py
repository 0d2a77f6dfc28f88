"""C28: steps and operations do a bounded amount of work (see DESIGN.md)."""
from .common import *
from .engine import back_edges, succs
from . import rules_io, rules_reg, rules_timer


def members(b, head):
    """the blocks of the loop with this head"""
    if not hasattr(b, "_members"):
        pv = {}
        for i, x in enumerate(b.blocks):
            for j in succs(x["t"]):
                pv.setdefault(j, []).append(i)
        b._members = {}
        for tail, h in back_edges(b):
            seen = b._members.setdefault(h, {h})
            todo = [tail]
            while todo:
                n = todo.pop()
                if n not in seen:
                    seen.add(n)
                    todo += pv.get(n, ())
    return b._members[head]


BLOCKING = ("std::thread::", "std::sync::", "parking::", "event_listener::", "async_lock::", "futures_lite::")
WAITS = ("sleep", "sleep_ms", "sleep_until", "park", "park_timeout", "park_deadline", "join", "recv", "recv_timeout", "wait", "wait_timeout", "wait_while", "wait_timeout_while", "block_on")


class LoopObs:
    """Each way round a loop has to use up something that was there when the loop began: obs["loops"] has, for each loop head
    passed, the places since then where something of the kind was used up (with the data it is part of, if that is behind a lock)."""

    def __init__(self, c):
        self.c, self.what = c, ""

    def on(self, eng, st, ev):
        k = ev[0]
        if k == "head":
            self.head(eng, st, *ev[1:])
        elif k == "progress":
            if len(ev) > 3:
                # a comparison of two numbers: one of them has to be another than last time
                if not self.live(st):
                    st.obs.pop("compared", None)
                    return
                old = dict(st.obs.get("compared", ()))
                if old.get(ev[1]) == ev[3]:
                    return
                old[ev[1]] = ev[3]
                st.obs["compared"] = tuple(sorted(old.items(), key=lambda x: str(x[0])))
            r, depth = ev[2], None
            if r is not None and r.t == "L":
                # a local value: it was not there when a loop in a caller began
                r, depth = None, r.a[0]
            self.add(st, (ev[1], r), depth)
        elif k == "exhausted":
            # the end of what was used up: what comes next is something new
            self.drop(st, lambda x: x[0] == ev[1])
        elif k == "qfull":
            st.obs["full"] = True
        elif k in ("qempty", "limit") and st.obs.pop("full", None):
            # the request queue was full and has been emptied before the next try
            self.add(st, ("emptied", None))
        elif k == "atomic" and ev[1] == "cas" or k == "poller_done" and ev[1] == "wait" and not ev[2]:
            # (another thread got on with it; a signal)
            self.add(st, (k, None))
            if k == "poller_done":
                st.obs.pop("waits", None)
        elif k == "yield":
            self.add(st, ("suspended", None))
        elif k == "unlocked":
            # others may have added to what the lock protects
            d = mk("D", *ev[1])
            self.drop(st, lambda x: x[1] is d)
        elif k == "call" and ev[1].split("::")[-1] in WAITS and ev[2].lstrip("<").startswith(BLOCKING):
            self.c.fail("C28", "blocks:%s" % self.what, "%s waits for something other than a lock or the OS wait (%s)" % (self.what, ev[2]), st, ev[4])
        elif k == "poller" and ev[1] == "wait":
            if st.obs.get("waits"):
                self.c.fail("C28", "waits-again", "one reactor step waits for the OS more than once", st, ev[3])
            st.obs["waits"] = True
        elif k == "ret":
            self.c.ob("C28", "%s: comes to an end" % self.what)

    def live(self, st):
        """the loops that execution is in"""
        l = st.obs.get("loops", ())
        if not l:
            return l
        at = {f.ctx: f for f in st.frames if f.body}
        return tuple(x for x in l if x[0][0] in at and at[x[0][0]].bb in members(at[x[0][0]].body, x[0][1]))

    def add(self, st, x, depth=None):
        at = {f.ctx: f.depth for f in st.frames if f.body}
        st.obs["loops"] = tuple((h, s | {x} if depth is None or at[h[0]] >= depth else s) for h, s in self.live(st))

    def drop(self, st, f):
        st.obs["loops"] = tuple((h, frozenset(x for x in s if not f(x))) for h, s in self.live(st))

    def head(self, eng, st, ctx, bb, line, body):
        c, l = self.c, self.live(st)
        for h, s in l:
            if h == (ctx, bb):
                own = [f.body.path for f in st.frames if f.body and f.body.local]
                own = own[-1] if own else body.path
                c.ob("C28", "each way round a loop in %s uses up part of what there was" % own)
                if not s:
                    st.obs["stop"] = True
                    c.fail("C28", "unbounded:%s" % own, "a loop in %s can go round again without using up anything of what was there when it began, so nothing bounds it" % own, st, line,
                           entry=st.frames[0].body.path if st.frames[0].body else None)
        if all(h != (ctx, bb) for h, _ in l) and st.obs.get("compared"):
            # a loop that begins: what its tests saw when it ran before does not count
            mine = {"%s@%d" % (body.key, n) for n in members(body, bb)}
            st.obs["compared"] = tuple(x for x in st.obs["compared"] if x[0] not in mine)
        st.obs["loops"] = tuple(x for x in l if x[0] != (ctx, bb)) + (((ctx, bb), frozenset()),)


def analyse(c):
    c.need("Async", "a.io")
    o = LoopObs(c)
    c.everywhere.append(o)
    c.watch_loops = True
    for mod, fns in ((rules_io, ("analyse_waits", "analyse_react")), (rules_timer, ("analyse_timer", "analyse_step")), (rules_reg, ("analyse",))):
        for f in fns:
            o.what = "%s.%s" % (mod.__name__.split("_")[-1], f)
            getattr(mod, f)(c)
