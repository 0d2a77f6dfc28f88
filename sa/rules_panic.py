"""C26: the crate does not panic on its own (see DESIGN.md)."""
from .common import *
from .engine import ALWAYS_SOME
from . import rules_driver, rules_io, rules_ops, rules_reg, rules_timer

PANICS = ("unwrap_failed", "expect_failed", "panicking::", "panic_fmt", "begin_panic", "slice_index_fail", "slice_error_fail", "process::abort", "process::exit")
SITES = ("::unwrap", "::expect", "Index::index", "IndexMut::index_mut", "Slab::<T>::remove", "::borrow_mut", "::unwrap_err", "::copy_from_slice", "::split_at")
# where the operating system refuses what the crate cannot work without
BASIC = ("Poller::new", "thread::Builder::spawn", "Builder::spawn", "thread::spawn")


class PanicObs:
    def __init__(self, c):
        self.c, self.what = c, ""

    def on(self, eng, st, ev):
        k, c = ev[0], self.c
        if k == "poller_done" and ev[1] == "notify" and not ev[2]:
            st.obs["refused"] = st.obs.get("refused", ()) + (ev[5],)
        elif k == "call":
            if any(x in ev[2] for x in PANICS):
                self.site(eng, st, "a call of %s" % ev[2].split("::")[-1], ev[4], False)
            elif ev[1].endswith(BASIC):
                st.obs["refused"] = st.obs.get("refused", ()) + (ev[6],)
        elif k == "slab":
            # what was inserted on this path stays until it is removed on this path: nobody else uses the key
            x = (ev[2], ev[3])
            l = [y for y in st.obs.get("slots", ()) if y != x]
            st.obs["slots"] = tuple(l + [x]) if ev[1] == "insert" else tuple(l)
        elif k == "panics":
            self.site(eng, st, ev[1], ev[2], ev[3])
        elif k == "may_panic":
            # (a step of the clock that a constant of at most a second away can be represented)
            if len(ev) > 3 and ev[3].t == "dur" and ev[3].a[0] <= 10 ** 9:
                return
            self.site(eng, st, ev[1], ev[2], True)
        elif k == "ret":
            c.ob("C26", "%s: runs to the end without panicking" % self.what)

    def site(self, eng, st, why, line, maybe):
        c = self.c
        for v in st.obs.get("refused", ()):
            if st.discr(v) is K(1):
                c.ob("C26", "panics only where the operating system refuses a poller, a notification or a thread")
                return
        fs = [f.body.path for f in st.frames if f.body and f.body.local]
        own = fs[-1] if fs else "?"
        if "slab" in why and self.what != "io.analyse_waits" and any("%s<" % c.L["Ready"] in f for f in fs):
            # a wait inside another future: its slot is known where the wait itself is analysed
            return
        c.fail("C26", "panic:%s:%s" % (own, why.split(" ")[-1]), "%s in %s %s panic" % (why, own, "can" if maybe else "does"), st, line, entry=fs[0] if fs else None)


def analyse(c):
    c.need("Async", "a.io")
    o = PanicObs(c)
    c.everywhere.append(o)
    for mod, fns in ((rules_io, ("analyse_waits", "analyse_react")), (rules_timer, ("analyse_timer", "analyse_step")),
                     (rules_driver, ("analyse_driver", "analyse_thread")), (rules_ops, ("analyse_ops",)), (rules_reg, ("analyse",))):
        for f in fns:
            o.what = "%s.%s" % (mod.__name__.split("_")[-1], f)
            # an Async that can be referred to has its handle: only into_inner and drop, which consume it, take it out (C16, C17)
            ALWAYS_SOME.add(c.L["a.io"])
            try:
                getattr(mod, f)(c)
            finally:
                ALWAYS_SOME.clear()
    # what there is to be shown unreachable
    vis = set().union(*[e.stats["functions"] for e in c.engines])
    missed = []
    for b, _, f, line in c.call_sites(lambda f: f["path"].endswith(SITES) or any(x in f["path"] for x in PANICS)):
        if not b.local:
            continue
        what = "%s in %s (line %s)" % ("::".join(f["path"].split("::")[-2:]), b.path, line)
        if b.path in vis:
            c.ob("C26", "never panics: %s" % what)
        else:
            missed.append(what)
    c.notes = {"C26": "Sites in functions no analysis enters (nothing is claimed about them): %s." % ("; ".join(missed) or "none")}
