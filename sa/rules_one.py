"""C27: there is one reactor (see DESIGN.md)."""
from .common import *
from .rules_driver import InitObs, closure_root, reactor_get

MAKES = ("Poller::new",)


class OneObs(InitObs):
    def __init__(self):
        super().__init__()
        self.calls = []

    def on(self, eng, st, ev):
        super().on(eng, st, ev)
        if ev[0] == "call":
            self.calls.append((ev[1], ev[3], ev[6]))
            if ev[1].endswith(MAKES):
                st.obs["made"] = st.obs.get("made", ()) + (ev[6],)


def global_of(c):
    """the lazily initialised global that the reactor lives in: (place, initialiser)"""
    found = {}
    for g in reactor_get(c):
        o = OneObs()
        e = c.engine([o])
        e.run(g, [], name=g.name)
        if not o.rets:
            raise Missing("%s never returns" % g.name)
        for v, st in o.rets:
            c.ob("C27", "the reactor is a lazily initialised global")
            r, p = st.deref(v)
            pl = [x for x in o.onces if x[0] is r and p[:len(x[1])] == x[1]]
            if not pl:
                c.fail("C27", "not-global:%s" % g.path, "%s does not return a lazily initialised global" % g.path, st, entry=g.path)
                continue
            if r.t != "static":
                c.fail("C27", "per-thread:%s" % g.path, "the reactor that %s returns is not one for the whole process" % g.path, st, entry=g.path)
            found[pl[0]] = o.onces[pl[0]]
    return found


def above(c, b):
    """the functions from which b can be reached, b included; those that nothing calls are the ends"""
    if not hasattr(c, "_callers"):
        c._callers = {}
        for x, _, f, _ in c.call_sites(lambda f: True):
            c._callers.setdefault(f.get("res") or f["key"], set()).add(x.key)
    seen, todo = {b.key}, [b.key]
    while todo:
        for k in c._callers.get(todo.pop(), ()):
            if k not in seen:
                seen.add(k)
                todo.append(k)
    return seen


def analyse(c):
    found = global_of(c)
    inits = {}
    for pl, clo in found.items():
        if clo is None:
            raise Missing("the initialiser of the reactor")
        i = OneObs()
        e = closure_root(c, [i], clo, "initialisation of the reactor")
        inits[pl] = (i, e, clo)
        for v, st in i.rets:
            c.ob("C27", "the initialisation makes one reactor with one poller")
            made = [x for x in st.obs.get("made", ())]
            if len(made) != 1:
                c.fail("C27", "pollers", "the initialisation of the reactor makes %d pollers" % len(made), st)
    c.ob("C27", "there is one global for the reactor")
    if len(found) > 1:
        c.fail("C27", "several", "there are several reactors: %s" % ", ".join(show(p[0]) for p in found))
    inside = set().union(*[e.stats["functions"] for _, e, _ in inits.values()])
    for b, _, f, line in c.call_sites(lambda f: f["path"].endswith(MAKES)):
        if not b.local:
            continue
        c.ob("C27", "a poller is made only when the reactor is initialised")
        out = [k for k in above(c, b) if k not in inside]
        if b.key not in inside or out:
            c.fail("C27", "other-poller:%s" % b.path, "%s makes a poller, not only when the reactor is initialised" % b.path, line=line, entry=b.path)
    # the descriptor given out
    for b in c.prog.bodies.values():
        if not b.local or b.closure or b.argc or b.name != "reactor_fd":
            continue
        o = OneObs()
        e = c.engine([o])
        e.run(b, [], name=b.path)
        for v, st in o.rets:
            c.ob("C27", "reactor_fd gives the descriptor of the reactor's poller")
            good = False
            if v.t == "agg" and v.a[1] == 1:
                x = v.a[2][0]
                good = (x.t == "op" and x.a[0] == "fd") and any(y is pl[0] for y in subterms(x) for pl in found)
                for name, args, res in o.calls:
                    if res is x and name.split("::")[-1] == "as_fd" and args and args[0].t == "ref":
                        r, p = st.deref(args[0])
                        good = good or any(r is pl[0] for pl in found)
            if not good:
                c.fail("C27", "reactor_fd", "reactor_fd does not return the descriptor of the poller that the reactor waits on", st, entry=b.path)
