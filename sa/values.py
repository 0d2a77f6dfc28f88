"""Hash-consed abstract values."""
import sys
sys.setrecursionlimit(100000)


class V:
    __slots__ = ("t", "a", "_h", "atoms", "refs", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return skey(self) < skey(o)


_tab = {}
_EMPTY = frozenset()


def _collect(x, at, rf):
    if isinstance(x, V):
        at |= x.atoms
        rf |= x.refs
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _collect(y, at, rf)


def mk(t, *a):
    key = (t, a)
    v = _tab.get(key)
    if v is None:
        v = V()
        v.t = t
        v.a = a
        v._h = hash(key)
        at, rf = set(), set()
        for x in a:
            _collect(x, at, rf)
        if t == "sym":
            at.add(v)
        if t in ("ref", "arc", "box"):
            rf.add(a[0])
        v.atoms = frozenset(at) if at else _EMPTY
        v.refs = frozenset(rf) if rf else _EMPTY
        _tab[key] = v
    return v


_sk = {}


def skey(v):
    """a deterministic sort key"""
    if isinstance(v, V):
        s = _sk.get(v)
        if s is None:
            s = "(" + v.t + " " + " ".join(skey(x) for x in v.a) + ")"
            _sk[v] = s
        return s
    if isinstance(v, (tuple,)):
        return "[" + ",".join(skey(x) for x in v) + "]"
    if isinstance(v, frozenset):
        return "{" + ",".join(sorted(skey(x) for x in v)) + "}"
    return type(v).__name__ + ":" + str(v)


# ---- constructors -------------------------------------------------------
def K(x):
    return mk("k", type(x).__name__, x)


TRUE, FALSE = K(True), K(False)
UNIT = mk("agg", "tuple", 0, ())
MOVED = mk("moved")
UNINIT = mk("uninit")


def is_k(v):
    return v.t == "k"


def kv(v):
    return v.a[1]


def agg(tag, variant, fields):
    return mk("agg", tag, variant, tuple(fields))


def op(name, *args):
    return mk("op", name, *args)


def ref(root, projs=()):
    return mk("ref", root, tuple(projs))


def prj(base, p):
    return mk("prj", base, p)


def star(v):
    """the memory a symbolic pointer points to"""
    return mk("*", v)


OPT = "core::option::Option"
RES = "core::result::Result"
POLL = "core::task::poll::Poll"
CF = "core::ops::control_flow::ControlFlow"
PIN = "core::pin::Pin"


def some(x):
    return agg(OPT, 1, (x,))


NONE = agg(OPT, 0, ())


def ok(x):
    return agg(RES, 0, (x,))


def err(x):
    return agg(RES, 1, (x,))


def ready(x):
    return agg(POLL, 0, (x,))


PENDING = agg(POLL, 1, ())


def pin(x):
    return agg(PIN, 0, (x,))


def coro(key, state, upvars, saved=()):
    """a coroutine: its state, what it captured, and the locals it keeps across awaits"""
    return mk("coro", key, state, tuple(upvars), tuple(saved))


def dur(n):
    return mk("dur", n)


def subst(v, m, cache):
    """replace atoms by m in a value (or tuple / frozenset of values)"""
    if isinstance(v, V):
        if not (v.atoms & m.keys()):
            return v
        r = cache.get(v)
        if r is None:
            r = m.get(v)
            if r is None:
                r = mk(v.t, *[subst(x, m, cache) for x in v.a])
            cache[v] = r
        return r
    if isinstance(v, tuple):
        return tuple(subst(x, m, cache) for x in v)
    if isinstance(v, frozenset):
        return frozenset(subst(x, m, cache) for x in v)
    return v


def atoms_of(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, V):
        acc |= x.atoms
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            atoms_of(y, acc)
    elif isinstance(x, dict):
        for k, y in x.items():
            atoms_of(k, acc)
            atoms_of(y, acc)
    return acc


def refs_of(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, V):
        acc |= x.refs
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            refs_of(y, acc)
    elif isinstance(x, dict):
        for k, y in x.items():
            refs_of(k, acc)
            refs_of(y, acc)
    return acc


def subterms(v):
    """all V sub-terms of a value"""
    out, st = set(), [v]
    while st:
        x = st.pop()
        if isinstance(x, V):
            if x in out:
                continue
            out.add(x)
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return out


def pshow(p):
    if isinstance(p, tuple):
        if p[0] == "f":
            return "." + str(p[2])
        if p[0] == "v":
            return "@%s" % p[1]
        if p[0] == "i":
            return "[%s]" % (show(p[1]))
        return ".%s" % (p,)
    return str(p)


def show(v, d=0):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return "(" + ", ".join(show(x) for x in v) + ")"
        return str(v)
    if d > 12:
        return "…"
    t, a = v.t, v.a
    if t == "k":
        return repr(a[1])
    if t == "sym":
        return "%s#%s%s" % (a[2], a[1], "'" * a[3])
    if t == "agg":
        tag = a[0].rsplit("::", 1)[-1]
        nm = {OPT: ("None", "Some"), RES: ("Ok", "Err"), POLL: ("Ready", "Pending")}.get(a[0])
        if nm:
            tag = nm[a[1]]
        elif a[1]:
            tag += "@%d" % a[1]
        return tag + "(" + ", ".join(show(x, d + 1) for x in a[2]) + ")"
    if t == "ref":
        return "&" + show(a[0], d + 1) + "".join(pshow(p) for p in a[1])
    if t == "prj":
        return show(a[0], d + 1) + pshow(a[1])
    if t == "ov":
        return show(a[0], d + 1) + "{" + ", ".join(pshow(p) + "=" + show(x, d + 1) for p, x in a[1]) + "}"
    if t == "coro":
        return "coroutine " + a[0] + "@%d(" % a[1] + ", ".join(show(x, d + 1) for x in a[2]) + "; " + ", ".join("%d.%d=%s" % (k[0], k[1], show(x, d + 1)) for k, x in a[3]) + ")"
    if t == "op":
        return a[0] + "(" + ", ".join(show(x, d + 1) for x in a[1:]) + ")"
    if t == "*":
        return "*" + show(a[0], d + 1)
    return t + "(" + ", ".join(show(x, d + 1) for x in a) + ")"


def replace(v, m, cache=None):
    """replace whole sub-terms"""
    cache = {} if cache is None else cache
    if isinstance(v, V):
        if v in m:
            return m[v]
        r = cache.get(v)
        if r is None:
            r = mk(v.t, *[replace(x, m, cache) for x in v.a])
            cache[v] = r
        return r
    if isinstance(v, tuple):
        return tuple(replace(x, m, cache) for x in v)
    if isinstance(v, frozenset):
        return frozenset(replace(x, m, cache) for x in v)
    return v
