"""Path-sensitive abstract interpreter over the dumped MIR (see DESIGN.md)."""
import json
import re
from .values import *


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ program
def short(path):
    """`a::b::Type::<T>::m` -> `Type::m`, keeping only the last two path segments"""
    p = re.sub(r"::<(?!impl )[^<>]*(<[^<>]*(<[^<>]*>)*[^<>]*>)*[^<>]*>", "", path)
    m = re.match(r"^.*<impl (.*?)>::(\w+)$", p)
    if m:
        n = m.group(1)
        if n.startswith("rustix::") and "<" not in n:
            n = n.split("::")[-1]
        return n + "::" + m.group(2)
    seg = p.split("::")
    return "::".join(seg[-2:])


class Body:
    pass


class Program:
    """bodies of the crate under analysis, exported core helpers and control-flow models"""

    def __init__(self, path, models_path=None):
        self.types = []
        self.bodies = {}
        self.promoted = {}
        self.impls = []
        self._load(path, "")
        if models_path:
            self._load(models_path, "models")
        self.trait_impls = {}
        self.drop_impls = {}
        self.adt_by_path = {}
        for i, t in enumerate(self.types):
            if t.get("k") == "adt":
                if t.get("variants") and t.get("local"):
                    self.adt_by_path.setdefault(t["path"], i)
                if t.get("drop"):
                    self.drop_impls[t["path"]] = t["drop"]
        for k, b in self.bodies.items():
            if b.trait and b.self_ty is not None:
                t = self.types[b.self_ty]
                isref = False
                while t.get("k") == "ref":
                    isref = True
                    t = self.types[t["args"][0]]
                if t.get("k") == "adt":
                    self.trait_impls[(b.trait, b.name, t["path"], isref)] = k

    def _load(self, path, prefix):
        m = json.load(open(path))
        off = len(self.types)

        def fix(t):
            t = dict(t)
            if "args" in t:
                t["args"] = [x + off for x in t["args"]]
            if "variants" in t:
                t["variants"] = [
                    {"name": v["name"], "fields": [[n, x + off] for n, x in v["fields"]]} for v in t["variants"]
                ]
            return t

        self.types += [fix(t) for t in m["types"]]
        if not prefix:
            self.impls = m["impls"]
            self.statics = m["statics"]
            self.adts = [x + off for x in m["adts"]]
        for name, tab in (("bodies", self.bodies), ("promoted", self.promoted)):
            for k, b in m[name].items():
                if prefix:
                    if not b["local"]:
                        if k in tab:
                            continue
                    else:
                        k = prefix + "::" + k
                tab[k] = self._body(k, b, off, prefix if (prefix and b["local"]) else "")

    def _body(self, key, j, off, prefix):
        b = Body()
        b.key = key
        b.path = j["path"]
        b.local = j["local"] and not prefix
        b.model = bool(prefix)
        b.span = j["span"]
        b.argc = j["argc"]
        b.spread = j.get("spread")
        b.locals = [x + off for x in j["locals"]]
        b.names = {int(k): v for k, v in j["names"].items()}
        b.coroutine = j.get("coroutine", False)
        b.closure = j.get("closure", False)
        b.self_ty = j["self_ty"] + off if "self_ty" in j else None
        b.trait = j.get("trait")
        b.derived = j.get("derived", False)
        b.name = j.get("name")
        b.pub = j.get("pub", False)
        b.unsafe = j.get("unsafe", False)
        b.parent = j.get("parent")
        b.off = off
        b.prefix = prefix
        b.blocks = [self._block(x, off, prefix) for x in j["blocks"]]
        # loop heads / joins
        preds = [0] * len(b.blocks)
        for bl in b.blocks:
            for s in succs(bl["t"]):
                preds[s] += 1
        b.join = [p >= 2 for p in preds]
        b.live = liveness(b)
        return b

    def _place(self, p, off):
        pr = []
        for e in p[1]:
            if e[0] == "f":
                pr.append(("f", e[1], e[2]))
            elif e[0] == "v":
                pr.append(("v", e[1]))
            elif e[0] == "i":
                pr.append(("I", e[1]))
            elif e[0] == "ci":
                pr.append(("ci", e[1], e[2]))
            elif e[0] == "sub":
                pr.append(("sub", e[1], e[2], e[3]))
            else:
                pr.append("*")
        return (p[0], tuple(pr))

    def _const(self, c, off, prefix):
        c = dict(c)
        if "ty" in c:
            c["ty"] += off
        if prefix and c.get("owner") is not None:
            c["owner"] = prefix + "::" + c["owner"]
        if "fn" in c:
            f = dict(c["fn"])
            f["args"] = [x + off for x in f["args"]]
            if prefix:
                for k in ("key", "res"):
                    if f.get(k) and (f["local"] if k == "key" else f.get("reslocal")):
                        f[k] = prefix + "::" + f[k]
            c["fn"] = f
        return c

    def _operand(self, o, off, prefix):
        if o[0] in ("copy", "move"):
            return (o[0], self._place(o[1], off))
        return ("const", self._const(o[1], off, prefix))

    def _rv(self, r, off, prefix):
        k = r[0]
        O = lambda x: self._operand(x, off, prefix)
        if k == "use":
            return ("use", O(r[1]))
        if k == "repeat":
            return ("repeat", O(r[1]), r[2])
        if k == "ref":
            return ("ref", r[1], self._place(r[2], off))
        if k == "cast":
            return ("cast", r[1], O(r[2]), r[3] + off)
        if k == "bin":
            return ("bin", r[1], O(r[2]), O(r[3]))
        if k == "un":
            return ("un", r[1], O(r[2]))
        if k == "discr":
            return ("discr", self._place(r[1], off), r[2] + off)
        if k == "agg":
            tag = r[1]
            if prefix and (tag.startswith("closure:") or tag.startswith("coroutine:")):
                h, t = tag.split(":", 1)
                tag = h + ":" + prefix + "::" + t
            return ("agg", tag, r[2], [O(x) for x in r[3]], (r[4] + off) if len(r) > 4 else None)
        return tuple(r)

    def _block(self, bl, off, prefix):
        st = []
        for s in bl["s"]:
            if s[0] == "=":
                st.append(("=", self._place(s[1], off), self._rv(s[2], off, prefix), s[3]))
            elif s[0] == "setdiscr":
                st.append(("setdiscr", self._place(s[1], off), s[2]))
            else:
                st.append((s[0], s[1]))
        t = dict(bl["t"])
        if t["k"] == "call":
            t["a"] = [self._operand(x, off, prefix) for x in t["a"]]
            t["f"] = self._operand(t["f"], off, prefix)
            t["d"] = self._place(t["d"], off)
            t["aty"] = [x + off for x in t["aty"]]
            t["dty"] += off
        elif t["k"] == "switch":
            t["op"] = self._operand(t["op"], off, prefix)
        elif t["k"] == "assert":
            t["op"] = self._operand(t["op"], off, prefix)
        elif t["k"] == "drop":
            t["p"] = self._place(t["p"], off)
            t["ty"] += off
        elif t["k"] == "yield":
            t["op"] = self._operand(t["op"], off, prefix)
            t["d"] = self._place(t["d"], off)
        return {"s": st, "t": t, "c": bl["c"]}

    def ty(self, i):
        return self.types[i]

    def tys(self, i):
        return self.types[i].get("s", "?")

    def leaves(self, fields, path=()):
        """the parts of a record as (path, type), through records and tuples inside it"""
        for i, (n, x) in enumerate(fields):
            t, q = self.types[x], path + (("f", i, str(n)),)
            if t.get("k") == "tuple" and t.get("args"):
                yield from self.leaves([(str(j), y) for j, y in enumerate(t["args"])], q)
            elif t.get("k") == "adt" and t.get("local") and len(t.get("variants") or ()) == 1 and t["variants"][0]["fields"]:
                yield from self.leaves(t["variants"][0]["fields"], q)
            else:
                yield q, t.get("s", "?")


def succs(t):
    k = t["k"]
    if k in ("goto", "drop", "assert", "yield"):
        return [t["t"]]
    if k == "call":
        return [t["t"]] if t["t"] is not None else []
    if k == "switch":
        return [b for _, b in t["ts"]] + ([t["else"]] if t.get("else") is not None else [])
    return []


def back_edges(b):
    """the edges to a block from one after it in depth-first order"""
    if not hasattr(b, "_back"):
        back, color, todo = set(), {}, [(0, False)]
        if b.coroutine:
            # first as it runs when nothing suspends it: from its start, not from where it can be resumed
            todo += [(n, False) for n in succs(b.blocks[0]["t"])[:1]]
        while todo:
            n, done = todo.pop()
            if done:
                color[n] = 2
                continue
            if n in color:
                continue
            color[n] = 1
            todo.append((n, True))
            for m in succs(b.blocks[n]["t"]):
                if color.get(m) == 1:
                    back.add((n, m))
                elif m not in color:
                    todo.append((m, False))
        b._back = back
        b._heads = {h for _, h in back}
    return b._back


def loop_heads(b):
    back_edges(b)
    return b._heads


def liveness(b):
    """per block: locals whose value may still be read (borrowed locals count as always live)"""
    borrowed = set()
    use, deff, nxt = [], [], []

    def rd(pl, u, d):
        if pl[0] not in d:
            u.add(pl[0])
        for e in pl[1]:
            if e != "*" and e[0] == "I" and e[1] not in d:
                u.add(e[1])

    def wr(pl, u, d):
        if pl[1]:
            rd(pl, u, d)
        else:
            d.add(pl[0])

    def opd(o, u, d):
        if o[0] != "const":
            rd(o[1], u, d)

    for bl in b.blocks:
        u, d = set(), set()
        for s in bl["s"]:
            if s[0] == "=":
                r = s[2]
                k = r[0]
                if k == "use":
                    opd(r[1], u, d)
                elif k == "ref":
                    rd(r[2], u, d)
                    if "*" not in r[2][1]:
                        borrowed.add(r[2][0])
                elif k == "cast":
                    opd(r[2], u, d)
                elif k == "bin":
                    opd(r[2], u, d)
                    opd(r[3], u, d)
                elif k == "un":
                    opd(r[2], u, d)
                elif k == "discr":
                    rd(r[1], u, d)
                elif k == "agg":
                    for x in r[3]:
                        opd(x, u, d)
                elif k == "repeat":
                    opd(r[1], u, d)
                wr(s[1], u, d)
            elif s[0] == "setdiscr":
                rd(s[1], u, d)
        t = bl["t"]
        k = t["k"]
        if k == "call":
            opd(t["f"], u, d)
            for x in t["a"]:
                opd(x, u, d)
            if t["d"][1]:
                rd(t["d"], u, d)
        elif k in ("switch", "assert"):
            opd(t["op"], u, d)
        elif k == "drop":
            rd(t["p"], u, d)
        elif k == "yield":
            opd(t["op"], u, d)
        elif k == "return":
            if 0 not in d:
                u.add(0)
        n = list(succs(t))
        if isinstance(t.get("uw"), int) and not isinstance(t.get("uw"), bool):
            n.append(t["uw"])
        use.append(u)
        deff.append(d)
        nxt.append(n)
    live = [set() for _ in b.blocks]
    ch = True
    while ch:
        ch = False
        for i in reversed(range(len(b.blocks))):
            o = set()
            for n in nxt[i]:
                o |= live[n]
            t = b.blocks[i]["t"]
            if t["k"] in ("call", "yield") and not t["d"][1]:
                o.discard(t["d"][0])
            x = use[i] | (o - deff[i])
            if x != live[i]:
                live[i] = x
                ch = True
    b.borrowed = borrowed
    return live


# -------------------------------------------------------------------- state
DUR0 = dur(0)

# fields of entry-state objects that hold Some as long as the object can be reached (set by the rules)
ALWAYS_SOME = set()


class Frame:
    __slots__ = ("body", "bb", "depth", "ctx", "dest", "target", "uw", "after", "items", "resume", "sub")

    def __init__(self, body, bb, depth, ctx, dest, target, uw=None, after=None, items=None, resume=None, sub=None):
        self.sub = sub  # what the type parameters of the body stand for (determined by the call site, so no part of the key)
        self.body, self.bb, self.depth, self.ctx = body, bb, depth, ctx
        self.dest, self.target, self.uw, self.after, self.items = dest, target, uw, after, items
        self.resume = resume

    def with_(self, **kw):
        f = Frame(self.body, self.bb, self.depth, self.ctx, self.dest, self.target, self.uw, self.after, self.items, self.resume, self.sub)
        for k, v in kw.items():
            setattr(f, k, v)
        return f

    def key(self):
        return (self.body.key if self.body else "glue", self.bb, self.depth, self.ctx, self.dest, self.target, self.after, self.items, self.resume)


class Trail:
    __slots__ = ("prev", "e", "n")

    def __init__(self, prev, e):
        self.prev, self.e = prev, e
        self.n = prev.n + 1 if prev else 1


def nonempty(o):
    """is this Option there exactly if its sequence is not empty"""
    if o.t != "op" or o.a[0] not in ("first", "last", "split_first", "get"):
        return False
    if o.a[0] != "get":
        return True
    i = o.a[2]
    return i is K(0) or i.t == "agg" and i.a[0].endswith("RangeFrom") and i.a[2][0] is K(1)


NVAR = {}  # number of variants a discriminant term ranges over


CTORS = {"Ok": ((RES, 0, 1),), "Err": ((RES, 1, 1),), "Some": ((OPT, 1, 1),), "Ready": ((POLL, 0, 1),),
         "Continue": ((CF, 0, 1),), "Break": ((CF, 1, 1),)}


class State:
    __slots__ = ("frames", "mem", "eqf", "nef", "obs", "locks", "trail", "unwinding", "dead", "rounds")

    def __init__(self):
        self.rounds = {}
        self.frames = ()
        self.mem = {}
        self.eqf = {}
        self.nef = {}
        self.obs = {}
        self.locks = ()
        self.trail = None
        self.unwinding = False
        self.dead = False

    def copy(self):
        s = State()
        s.frames = self.frames
        s.mem = dict(self.mem)
        s.eqf = dict(self.eqf)
        s.nef = dict(self.nef)
        s.obs = dict(self.obs)
        s.locks = self.locks
        s.trail = self.trail
        s.unwinding = self.unwinding
        s.rounds = self.rounds
        return s

    @property
    def top(self):
        return self.frames[-1]

    def set_top(self, **kw):
        self.frames = self.frames[:-1] + (self.frames[-1].with_(**kw),)

    # ---- memory
    def rd(self, root, path=()):
        v = self.mem.get(root)
        if v is None:
            v = UNINIT if root.t == "L" else root.a[0] if root.t == "constmem" else mk("init", root)
        for p in path:
            v = project(v, p)
        return v

    def wr(self, root, path, val):
        if not path:
            self.mem[root] = val
        else:
            cur = self.mem.get(root)
            if cur is None:
                cur = UNINIT if root.t == "L" else mk("init", root)
            self.mem[root] = setv(cur, path, val)

    def deref(self, v):
        """the place a pointer value denotes"""
        while v.t == "agg" and (v.a[0] == PIN or v.a[0].endswith("::NonNull") or v.a[0].endswith("::Unique")) and len(v.a[2]) >= 1:
            v = v.a[2][0]
        if v.t == "ref":
            return v.a[0], v.a[1]
        if v.t in ("arc", "box"):
            return v.a[0], ()
        return star(v), ()

    def load(self, v):
        """value behind a reference value"""
        r, p = self.deref(v)
        return self.rd(r, p)

    # ---- facts
    def norm(self, v):
        if v.t == "k":
            return v
        f = self.eqf.get(v)
        if f is not None:
            return f
        if v.t == "op" and v.a[0] in ("not", "and", "or", "eq", "lt", "cast"):
            return self.evalb(v)
        if v.t == "op" and v.a[0] == "discr":
            return self.discr(v.a[1])
        return v

    def discr(self, v):
        if v.t == "agg":
            return K(v.a[1])
        if v.t == "ov":
            return self.discr(v.a[0])
        if v.t == "coro":
            return K(v.a[1])
        if v.t == "prj" and v.a[1] in ALWAYS_SOME:
            b = v.a[0]
            while b.t == "prj":
                b = b.a[0]
            if b.t == "init":
                return K(1)
        d = op("discr", v)
        return self.eqf.get(d, d)

    def evalb(self, v):
        """normalise a boolean/int term under the facts"""
        if v.t == "k":
            return v
        f = self.eqf.get(v)
        if f is not None:
            return f
        if v.t != "op":
            return v
        n = v.a[0]
        if n == "not":
            x = self.evalb(v.a[1])
            return K(not kv(x)) if x.t == "k" else op("not", x)
        if n == "and":
            a, b = self.evalb(v.a[1]), self.evalb(v.a[2])
            if FALSE in (a, b):
                return FALSE
            if a is TRUE:
                return b
            if b is TRUE:
                return a
            return v
        if n == "or":
            a, b = self.evalb(v.a[1]), self.evalb(v.a[2])
            if TRUE in (a, b):
                return TRUE
            if a is FALSE:
                return b
            if b is FALSE:
                return a
            return v
        if n == "eq":
            a, b = self.norm(v.a[1]), self.norm(v.a[2])
            r = self.eq_vals(a, b)
            if r is not None:
                return K(r)
            if K(0) in (a, b):
                x = b if a is K(0) else a
                if x.t == "op" and x.a[0] == "len":
                    return self.evalb(op("lt", x, K(1)))
            if DUR0 in (a, b):
                x = b if a is DUR0 else a
                if x.t == "op" and x.a[0] == "dsince":
                    # no time between two instants: the first is not after the second
                    return self.evalb(op("not", op("lt", x.a[2], x.a[1])))
            r = op("eq", *sorted((a, b)))
            f = self.eqf.get(r)
            if f is not None:
                return f
            q = self.eq_fields(a, b)
            if q is not None and len(q) == 1:
                return self.evalb(op("eq", *sorted(q[0])))
            return r
        if n == "lt":
            a, b = self.norm(v.a[1]), self.norm(v.a[2])
            if a is b:
                return FALSE
            if a.t == b.t == "k":
                return K(kv(a) < kv(b))
            if a.t == b.t == "dur":
                return K(a.a[0] < b.a[0])
            if b is dur(0) or (b.t == "k" and b.a[1] == 0 and b.a[0] == "int" and False):
                return FALSE
            r = op("lt", a, b)
            f = self.eqf.get(r)
            if f is not None:
                return f
            if a is K(0) and b.t == "op" and b.a[0] == "len":
                return self.evalb(op("not", op("lt", b, K(1))))
            if a.t == "k" and b.t == "op" and b.a[0] == "len" and kv(a) < self.minlen(b.a[1]):
                return TRUE
            if b.t == "k" and a.t == "op" and a.a[0] == "len" and kv(b) <= self.minlen(a.a[1]):
                return FALSE
            if self.eqf.get(op("lt", b, a)) is TRUE:
                return FALSE
            e = self.eqf.get(op("eq", *sorted((a, b))))
            if e is TRUE:
                return FALSE
            if a is DUR0 and b.t == "op" and b.a[0] == "dsince":
                return self.evalb(op("lt", b.a[2], b.a[1]))
            if a is DUR0 and (e is FALSE or a in self.nef.get(b, ())):
                return TRUE
            q = self.ordered(a, b)
            return r if q is None else K(q)
        if n == "discr":
            return self.discr(v.a[1])
        return v

    def minlen(self, x):
        """how many elements an opaque sequence has at least, from what was asked about it"""
        n, ln = 0, op("len", x)
        for t, v in self.eqf.items():
            if t.t != "op" or v.t != "k":
                continue
            if t.a[0] == "lt":
                if t.a[2] is ln and t.a[1].t == "k" and v is TRUE:
                    n = max(n, kv(t.a[1]) + 1)
                elif t.a[1] is ln and t.a[2].t == "k" and v is FALSE:
                    n = max(n, kv(t.a[2]))
            elif t.a[0] == "eq" and ln in t.a[1:]:
                y = t.a[2] if t.a[1] is ln else t.a[1]
                if y.t == "k" and (v is TRUE or kv(y) == 0):
                    n = max(n, kv(y) if v is TRUE else 1)
            elif t.a[0] == "discr":
                if nonempty(t.a[1]) and t.a[1].a[1] is x and v is K(1):
                    n = max(n, 1)
            elif t.a[0] == "starts_with" and t.a[1] is x and v is TRUE:
                y = t.a[2]
                y = y.a[0].a[0] if y.t == "ref" and y.a[0].t == "constmem" else y
                if y.t == "agg" and y.a[0] == "array":
                    n = max(n, len(y.a[2]))
        if K(0) in self.nef.get(ln, ()):
            n = max(n, 1)
        return n

    def ordered(self, a, b):
        """whether a < b follows from the comparisons recorded (None: it is open)"""
        edges = {}
        for t, v in self.eqf.items():
            if t.t == "op" and v.t == "k":
                if t.a[0] == "lt":
                    x, y = t.a[1], t.a[2]
                    if v is TRUE:
                        edges.setdefault(x, []).append((y, True))
                    elif v is FALSE:
                        edges.setdefault(y, []).append((x, False))
                elif t.a[0] == "eq" and v is TRUE:
                    edges.setdefault(t.a[1], []).append((t.a[2], False))
                    edges.setdefault(t.a[2], []).append((t.a[1], False))
        if len(edges) < 2:
            return None

        def reach(x, y):
            best, todo = {x: False}, [x]
            while todo:
                u = todo.pop()
                for w, strict in edges.get(u, ()):
                    s = strict or best[u]
                    if w not in best or s and not best[w]:
                        best[w] = s
                        todo.append(w)
            return best.get(y)
        if a in edges and reach(a, b):
            return True
        if b in edges and reach(b, a) is not None:
            return False
        return None

    def eq_fields(self, a, b):
        """pairs of fields the equality of two values comes down to"""
        if b.t == "agg" and a.t != "agg":
            a, b = b, a
        if a.t != "agg" or a.a[0] not in (OPT, RES, POLL, "tuple"):
            return None
        if b.t == "agg":
            if a.a[:2] != b.a[:2] or len(a.a[2]) != len(b.a[2]):
                return None
            fs = list(zip(a.a[2], b.a[2]))
        else:
            if a.a[0] != "tuple":
                if self.discr(b) is not K(a.a[1]):
                    return None
                b = project(b, ("v", a.a[1]))
            fs = [(x, self.norm(project(b, ("f", i, str(i))))) for i, x in enumerate(a.a[2])]
        return [(x, y) for x, y in fs if self.evalb(op("eq", *sorted((x, y)))) is not TRUE]

    def eq_vals(self, a, b):
        if a is b:
            return True
        if a.t == b.t == "k":
            return kv(a) == kv(b)
        if a.t == b.t == "dur":
            return a.a[0] == b.a[0]
        if a.t == b.t == "agg":
            if a.a[0] == b.a[0] and a.a[1] != b.a[1]:
                return False
            if a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]):
                rs = [self.evalb(op("eq", *sorted((x, y)))) for x, y in zip(a.a[2], b.a[2])]
                if all(r is TRUE for r in rs):
                    return True
                if any(r is FALSE for r in rs):
                    return False
            return None
        for x, y in ((a, b), (b, a)):
            if y.t in ("k", "dur") and y in self.nef.get(x, ()):
                return False
            if y.t == "agg" and x.t != "agg":
                d = self.discr(x)
                if d.t == "k" and kv(d) != y.a[1]:
                    return False
                if K(y.a[1]) in self.nef.get(d, ()):
                    return False
                if d.t == "k" and not y.a[2]:
                    return True
        if self.eqf.get(op("lt", a, b)) is TRUE or self.eqf.get(op("lt", b, a)) is TRUE:
            return False
        for x, y in ((a, b), (b, a)):
            # nothing is less than zero
            if y is DUR0 and self.eqf.get(op("lt", y, x)) is FALSE:
                return True
        return None

    def assume(self, t, val):
        """record term == const V; False if infeasible"""
        t = self.evalb(t) if t.t == "op" else self.norm(t)
        if t.t == "k":
            return t is val
        if t.t == "op":
            n = t.a[0]
            if n == "not":
                return self.assume(t.a[1], K(not kv(val)))
            if n == "eq" and val.t == "k" and val.a[0] == "bool":
                a, b = t.a[1], t.a[2]
                for x, y in ((a, b), (b, a)):
                    if y.t == "agg" and not y.a[2] and x.t != "agg":
                        d = self.discr(x)
                        return self.assume(d, K(y.a[1])) if kv(val) else self.exclude(d, K(y.a[1]))
                    if y.t in ("k", "dur") and x.t not in ("k", "dur"):
                        if kv(val):
                            if y.t == "k":
                                if not self.assume(x, y):
                                    return False
                            else:
                                self.eqf[x] = y
                            if y.t == "k":
                                return True  # follows from the fact just recorded
                        else:
                            if not self.exclude(x, y):
                                return False
                            if y.t == "k":
                                return True
                self.eqf[t] = val
                if val is TRUE:
                    for x, y in ((a, b), (b, a)):
                        if y.t == "agg" and y.a[2] and x.t != "agg" and y.a[0] in (OPT, RES, POLL):
                            if not self.assume(op("discr", x), K(y.a[1])):
                                return False
                            x = project(x, ("v", y.a[1]))
                            for i, z in enumerate(y.a[2]):
                                if not self.assume(op("eq", *sorted((z, self.norm(project(x, ("f", i, str(i))))))), TRUE):
                                    return False
                return self.propagate()
            if n == "and" and val is TRUE:
                return self.assume(t.a[1], TRUE) and self.assume(t.a[2], TRUE)
            if n == "or" and val is FALSE:
                return self.assume(t.a[1], FALSE) and self.assume(t.a[2], FALSE)
        if val in self.nef.get(t, ()):
            return False
        self.eqf[t] = val
        return self.propagate()

    def propagate(self):
        """what compound facts say now that a part of them is known"""
        for t, v in list(self.eqf.items()):
            if t.t != "op" or v.t != "k" or v.a[0] != "bool":
                continue
            n = t.a[0]
            if n == "and" and v is FALSE or n == "or" and v is TRUE:
                k = K(not kv(v))
                a, b = self.evalb(t.a[1]), self.evalb(t.a[2])
                if a is k and b is k:
                    return False
                for x, y in ((a, b), (b, a)):
                    if x is k and y.t != "k":
                        if not self.assume(y, v):
                            return False
            elif n == "eq" and v is FALSE:
                a, b = self.norm(t.a[1]), self.norm(t.a[2])
                if a.t == "agg" or b.t == "agg":
                    q = self.eq_fields(a, b)
                    if q is not None and len(q) == 0:
                        return False
                    if q is not None and len(q) == 1:
                        e = op("eq", *sorted(q[0]))
                        if self.eqf.get(e) is not FALSE and not self.assume(e, FALSE):
                            return False
        return True

    def exclude(self, t, val):
        t = self.norm(t)
        if t.t == "k":
            return t is not val
        if t.t == "op" and t.a[0] == "discr" and NVAR.get(t) == 2 and val.t == "k" and val.a[1] in (0, 1):
            return self.assume(t, K(1 - val.a[1]))
        s = self.nef.get(t, frozenset())
        self.nef[t] = s | {val}
        return True

    def forget(self, pred):
        """drop facts (the state then stands for more executions)"""
        self.eqf = {t: v for t, v in self.eqf.items() if not pred(t)}
        self.nef = {t: v for t, v in self.nef.items() if not pred(t)}

    # ---- housekeeping
    def roots(self):
        acc = set()
        for r, v in self.mem.items():
            acc |= r.atoms
            acc |= v.atoms
        for f in self.frames:
            for x in (f.dest, f.items, f.after):
                if x is not None:
                    atoms_of(x, acc)
        atoms_of(self.obs, acc)
        atoms_of(self.locks, acc)
        return acc

    def gc(self):
        # dead locals of every frame (except those being dropped)
        dead, cand = [], set()
        held = {it[2][0] for f in self.frames if f.items for it in f.items if len(it) > 2 and it[2]}
        for i, f in enumerate(self.frames):
            if f.body is None:
                continue
            keep = f.body.live[f.bb] if i == len(self.frames) - 1 else None
            if keep is None:
                # suspended at a call: what is live after it
                g = self.frames[i + 1]
                t = f.body.blocks[f.bb]["t"]
                # (below drop glue the block has been advanced already)
                keep = set(f.body.live[f.bb]) if g.body is None else set()
                for n in succs(t):
                    keep |= f.body.live[n]
                if isinstance(t.get("uw"), int):
                    keep |= f.body.live[t["uw"]]
            for r in self.mem:
                if r.t == "L" and r.a[0] == f.depth and r.a[1] not in keep and r not in held:
                    if r.a[1] in f.body.borrowed:
                        # only what still points to it can read it
                        cand.add(r)
                    else:
                        dead.append(r)
        for r in dead:
            self.mem.pop(r, None)
        # memory behind pointers nobody holds
        while True:
            refs = set()
            for v in self.mem.values():
                refs |= v.refs
            for f in self.frames:
                for x in (f.dest, f.items, f.after):
                    if x is not None:
                        refs_of(x, refs)
            refs_of(self.obs, refs)
            refs_of(self.locks, refs)
            live = set()
            for r in self.mem:
                if (r.t == "T" or r in cand) and r not in refs and not any(d and d[0] is r for d in (f.dest for f in self.frames)):
                    continue
                live.add(r)
            at = set()
            for r in live:
                at |= self.mem[r].atoms
            for f in self.frames:
                for x in (f.dest, f.items, f.after):
                    if x is not None:
                        atoms_of(x, at)
            atoms_of(self.obs, at)
            atoms_of(self.locks, at)
            for r in list(live):
                if r.t == "*" and r not in refs and r.atoms and not (r.atoms <= at):
                    live.discard(r)
            if len(live) == len(self.mem):
                break
            self.mem = {r: v for r, v in self.mem.items() if r in live}
        at = self.roots()
        self.eqf = {t: v for t, v in self.eqf.items() if t.atoms <= at}
        self.nef = {t: v for t, v in self.nef.items() if t.atoms <= at}

    def rename(self, m):
        c = {}
        self.map(lambda x: subst(x, m, c))

    def map(self, S):
        self.mem = {S(r): S(v) for r, v in self.mem.items()}
        self.eqf = {S(t): S(v) for t, v in self.eqf.items()}
        self.nef = {S(t): S(v) for t, v in self.nef.items()}
        self.obs = {k: S(v) for k, v in self.obs.items()}
        self.locks = S(self.locks)
        self.frames = tuple(f.with_(dest=S(f.dest), items=S(f.items), after=S(f.after)) if f.dest or f.items or f.after else f for f in self.frames)

    def merge_generations(self, label):
        """for values whose identity does not matter: do not tell an older one from a newer one"""
        at = self.roots()
        m = {x: mk("sym", *x.a[:3], 0) for x in at if x.t == "sym" and x.a[2] == label and x.a[3] == 1}
        if m:
            self.forget(lambda t: any(x in t.atoms for y in m.items() for x in y))
            self.rename(m)

    def key(self):
        return (
            tuple(f.key() for f in self.frames),
            frozenset(self.mem.items()),
            frozenset(self.eqf.items()),
            frozenset(self.nef.items()),
            tuple(sorted(self.obs.items(), key=lambda x: x[0])),
            self.locks,
            self.unwinding,
        )


def project(v, p):
    t = v.t
    k = p[0]
    if t == "agg":
        if k == "f" and p[1] < len(v.a[2]):
            return v.a[2][p[1]]
        if k == "v":
            return v
        if k == "i" and p[1].t == "k" and kv(p[1]) < len(v.a[2]):
            return v.a[2][kv(p[1])]
        if k == "ci" and not p[2] and p[1] < len(v.a[2]):
            return v.a[2][p[1]]
        return prj(v, p)
    if t == "ov":
        for q, x in v.a[1]:
            if q == p:
                return x
        return project(v.a[0], p)
    if t == "coro":
        if k == "f" and p[1] < len(v.a[2]):
            return v.a[2][p[1]]
        if k == "v":
            return mk("corov", v, p[1])
        return prj(v, p)
    if t == "corov":
        return dict(v.a[0].a[3]).get((v.a[1], p[1]), UNINIT) if k == "f" else prj(v, p)
    return prj(v, p)


def setv(v, path, val):
    if not path:
        return val
    p = path[0]
    k = p[0]
    if v.t == "agg":
        if k == "f" and p[1] < len(v.a[2]):
            f = list(v.a[2])
            f[p[1]] = setv(f[p[1]], path[1:], val)
            return mk("agg", v.a[0], v.a[1], tuple(f))
        if k == "v":
            return setv(v, path[1:], val)
        if k == "i" and p[1].t == "k" and kv(p[1]) < len(v.a[2]):
            f = list(v.a[2])
            f[kv(p[1])] = setv(f[kv(p[1])], path[1:], val)
            return mk("agg", v.a[0], v.a[1], tuple(f))
    if v.t == "coro":
        if k == "f" and p[1] < len(v.a[2]):
            u = list(v.a[2])
            u[p[1]] = setv(u[p[1]], path[1:], val)
            return coro(v.a[0], v.a[1], u, v.a[3])
        if k == "v" and len(path) > 1:
            d, f = dict(v.a[3]), (p[1], path[1][1])
            x = setv(d.get(f, UNINIT), path[2:], val)
            if x is UNINIT or x is MOVED:
                d.pop(f, None)
            else:
                d[f] = x
            return coro(v.a[0], v.a[1], v.a[2], sorted(d.items()))
    nv = setv(project(v, p), path[1:], val)
    if v.t == "ov":
        d = dict(v.a[1])
        base = v.a[0]
    else:
        d, base = {}, v
    d[p] = nv
    if nv is project(base, p):
        del d[p]
    if not d:
        return base
    return mk("ov", base, tuple(sorted(d.items(), key=lambda x: skey(tuple(x[0])))))


# --------------------------------------------------------------------- calls
class Call:
    __slots__ = ("fn", "args", "atys", "dest", "target", "uw", "dty", "line", "site", "name", "path")


class Violation(Exception):
    pass


class Engine:
    def __init__(self, prog, models, budget=400000):
        self.upvars_used = {}
        self.prog = prog
        self.models = models
        self.observers = []
        self.ctx_ids = {}
        self.hooks = []  # (predicate(call, st), handler)
        self.unwind_on = None
        self.watch_loops = False
        self.viol = {}
        self.stats = {"states": 0, "steps": 0, "paths": 0, "calls_opaque": set(), "functions": set(), "lines": set()}
        self.budget = budget
        self.max_rounds = 100  # of one loop on one path
        self.opaque_bodies = set()
        self.truncated = 0
        self.entry = ""
        self.wakers_panic = False
        self.lock_ty = {}
        self.lock_tys = {}
        if not hasattr(prog, "fninfo"):
            prog.fninfo = {}
        self.fninfo = prog.fninfo  # (values outlive the run that made them)
        self._prom = {}
        self.nvar = {}
        self.tls_values = {}
        self.tls_ty = prog.__dict__.setdefault("tls_meta", ({}, {}))[0]
        self.tls_drop = prog.__dict__.setdefault("tls_meta", ({}, {}))[1]
        self.tls_flags_false = False

    # ---- symbols
    def ctx(self, *k):
        i = self.ctx_ids.get(k)
        if i is None:
            i = self.ctx_ids[k] = len(self.ctx_ids)
        return i

    def fresh(self, st, label, site=None):
        f = st.top
        if site is None:
            site = self.site(st)
        s = mk("sym", f.ctx, site, label, 0)
        if s in st.roots() or any(s in t.atoms for t in st.eqf) or any(s in t.atoms for t in st.nef):
            s1 = mk("sym", f.ctx, site, label, 1)
            # forget what was known about the older generation: two values share the name now
            st.eqf = {t: v for t, v in st.eqf.items() if s1 not in t.atoms}
            st.nef = {t: v for t, v in st.nef.items() if s1 not in t.atoms}
            st.rename({s: s1})
        return s

    def site(self, st):
        f = st.top
        return "%s@%s" % (f.body.key if f.body else "glue", f.bb)

    # ---- events
    def emit(self, st, *ev):
        for o in self.observers:
            o.on(self, st, ev)

    def violation(self, key, msg, st=None, line=None):
        if key in self.viol:
            return
        tr = []
        if st is not None:
            t = st.trail
            while t is not None and len(tr) < 60:
                tr.append(t.e)
                t = t.prev
            tr.reverse()
        self.viol[key] = {"key": key, "msg": msg, "line": line, "path": tr, "entry": self.entry}

    # ---- evaluation
    def place(self, st, fr, pl):
        root, path = mk("L", fr.depth, pl[0]), ()
        for p in pl[1]:
            if p == "*":
                v = st.rd(root, path)
                root, path = st.deref(v)
            elif p[0] == "I":
                iv = st.norm(st.rd(mk("L", fr.depth, p[1])))
                path += (("i", iv),)
            elif p[0] == "ci" and not p[2]:
                path += (("i", K(p[1])),)
            else:
                path += (p,)
        return root, path

    def const(self, st, c):
        if "fn" in c:
            f = c["fn"]
            v = mk("fn", f["key"], f.get("res") or f["key"])
            self.fninfo[v] = f
            return v
        if "ty" in c and c.get("def") and self.prog.tys(c["ty"]).startswith("std::thread::local::LocalKey"):
            self.tls_ty[c["def"]] = self.prog.tys(c["ty"])
            self.tls_drop[c["def"]] = self.prog.ty(c["ty"]).get("keynd", False)
            return mk("tlskey", c["def"])
        if "promoted" in c and c.get("owner") and "thread::local::LocalKey<" in self.prog.tys(c["ty"]):
            # which thread-local it is: the evaluated constant does not say
            return self.promoted("%s::promoted[%d]" % (c["owner"], c["promoted"]))
        if "v" in c:
            return self.cval(c["v"], c)
        if "promoted" in c and c.get("owner"):
            k = "%s::promoted[%d]" % (c["owner"], c["promoted"])
            return self.promoted(k)
        if c.get("rt"):
            return FALSE
        return mk("const", c.get("def") or self.prog.tys(c["ty"]) if "ty" in c else "?")

    def cval(self, v, c):
        if "int" in v:
            return K(int(v["int"]))
        if "bool" in v:
            return K(v["bool"])
        if "unit" in v:
            return UNIT
        if "str" in v:
            return K(v["str"])
        if "static" in v:
            return ref(mk("static", v["static"]))
        if "fnptr" in v:
            f = mk("fn", v["fnptr"], v["fnptr"])
            self.fninfo.setdefault(f, {"key": v["fnptr"], "res": v["fnptr"], "path": v["fnptr"], "local": v["fnptr"] in self.prog.bodies, "args": []})
            return f
        if "refto" in v:
            x = self.cval(v["refto"], {})
            return ref(mk("constmem", x))
        if "agg" in v:
            fs = [self.cval(x, {}) for x in v["fields"]]
            if v["agg"] == "core::time::Duration" and len(fs) == 2 and fs[0].t == "k":
                n = fs[1]
                while n.t == "agg" and n.a[2]:
                    n = n.a[2][0]
                return dur(kv(fs[0]) * 10**9 + (kv(n) if n.t == "k" else 0 if kv(fs[0]) < 2**64 - 1 else 999999999))
            return agg(v["agg"], v.get("variant", 0), fs)
        if "zst" in v:
            return mk("zst", v["zst"])
        d = c.get("def")
        return mk("const", d or v.get("opaque", "?"))

    def promoted(self, k):
        """reference to the value of a promoted constant"""
        r = self._prom.get(k)
        if r is None:
            b = self.prog.promoted.get(k)
            r = mk("const", k)
            if b is not None and len(b.blocks) == 1:
                st = State()
                st.frames = (Frame(b, 0, 900, 0, None, None),)
                ok_ = True
                for s in b.blocks[0]["s"]:
                    if s[0] == "=":
                        try:
                            self.stmt(st, st.top, s)
                        except Exception:
                            ok_ = False
                if ok_:
                    v = st.rd(mk("L", 900, 0))
                    if v.t == "ref":
                        x = st.rd(*v.a)
                        # nested references to constant data become constant memory too
                        x = self._constify(st, x)
                        r = ref(mk("constmem", x))
            self._prom[k] = r
        return r

    def _constify(self, st, x):
        if x.t == "ref" and x.a[0].t == "L":
            return ref(mk("constmem", self._constify(st, st.rd(*x.a))))
        if x.t == "agg":
            return mk("agg", x.a[0], x.a[1], tuple(self._constify(st, y) for y in x.a[2]))
        return x

    def operand(self, st, fr, o):
        if o[0] == "const":
            return self.const(st, o[1])
        root, path = self.place(st, fr, o[1])
        v = st.rd(root, path)
        if o[0] == "move" and (root.t in ("L", "T", "*", "box") or self.in_coro(st, root, path)) and v.t not in ("k", "ref", "fn"):
            # remember that the value left this place
            st.wr(root, path, MOVED)
        return v

    BIN = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Le": "le", "Gt": "gt", "Ge": "ge"}

    def cmp(self, st, o, a, b):
        """comparison term, normalised to eq/lt"""
        if o == "eq":
            return st.evalb(op("eq", *sorted((a, b))))
        if o == "ne":
            return st.evalb(op("not", op("eq", *sorted((a, b)))))
        if o == "lt":
            return st.evalb(op("lt", a, b))
        if o == "gt":
            return st.evalb(op("lt", b, a))
        if o == "le":
            return st.evalb(op("not", op("lt", b, a)))
        if o == "ge":
            return st.evalb(op("not", op("lt", a, b)))

    def binop(self, st, o, a, b):
        a, b = st.norm(a), st.norm(b)
        if o in self.BIN:
            return self.cmp(st, self.BIN[o], a, b)
        base = o.replace("WithOverflow", "").replace("Unchecked", "")
        r = None
        if a.t == b.t == "k" and a.a[0] == "int" and b.a[0] == "int":
            x, y = kv(a), kv(b)
            if base == "Add":
                z = x + y
                r = K(z) if abs(z) <= 24 or max(abs(x), abs(y)) > 24 else self.fresh(st, "int")
                if max(abs(x), abs(y)) > 24:
                    r = op("add", a, b)
            elif base == "Sub" and x > 24 and 0 < y <= 24 and st.top.body is not None and self.in_loop(st.top):
                r = self.fresh(st, "countdown:%d" % x)
            elif base == "Sub" and x >= y:
                r = K(x - y)
            elif base == "Mul":
                r = K(x * y)
            elif base == "BitOr":
                r = K(x | y)
            elif base == "BitAnd":
                r = K(x & y)
        if r is None and base in ("BitAnd", "BitOr"):
            n = "and" if base == "BitAnd" else "or"
            r = st.evalb(op(n, a, b))
        if r is None and base == "BitXor" and (b in (TRUE, FALSE) or a in (TRUE, FALSE)):
            x, c = (a, b) if b in (TRUE, FALSE) else (b, a)
            r = st.evalb(op("not", x)) if c is TRUE else x
        if r is None:
            # a growing counter is widened
            if base in ("Add", "Mul") and a.t == "k" and b.t != "k":
                a, b = b, a
            if base == "Sub" and b.t == "k" and a.t == "op" and a.a[0] == "capacity":
                r = self.fresh(st, "countdown:capacity")
            elif base == "Sub" and b.t == "k" and a.t == "sym" and str(a.a[2]).startswith("countdown:"):
                r = self.fresh(st, a.a[2])
            elif base in ("Add", "Sub") and depth_of(a) > 3:
                r = self.fresh(st, "int")
            else:
                r = op(base.lower(), a, b)
        if o.endswith("WithOverflow"):
            return agg("tuple", 0, (r, FALSE))
        return r

    def no_counter(self, fr, rv):
        """this comparison is of an index with its bound, or of which variants two values are"""
        if fr.body.blocks[fr.bb]["t"]["k"] == "assert":
            return True
        t = [self.prog.ty(x[1]["ty"] if x[0] == "const" else fr.body.locals[x[1][0]]) for x in rv[2:4] if x[0] == "const" or not x[1][1]]
        return any(x.get("s") == "isize" for x in t)

    def rvalue(self, st, fr, rv, tid=None):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            r, p = self.place(st, fr, rv[2])
            return ref(r, p)
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            if "ReifyFnPointer" in rv[1] or "ClosureFnPointer" in rv[1]:
                return v
            if rv[1].startswith("IntToInt"):
                if v.t == "k" and v.a[0] == "bool":
                    return K(int(kv(v)))
                frm, to = self.int_bits(self.operand_ty(fr, rv[2])), self.int_bits(rv[3])
                if frm and to and to < frm:
                    if v.t == "k":
                        n = kv(v) & ((1 << to) - 1)
                        return K(n - (1 << to) if n >> to - 1 and self.prog.tys(rv[3])[0] == "i" else n)
                    return op("trunc", K(to), v)
            return v
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            if self.watch_loops and rv[1] in self.BIN and a.t == b.t == "k" and a.a[0] == "int" and not self.no_counter(fr, rv):
                self.emit(st, "progress", self.site(st), None, (a, b))
            elif self.watch_loops and rv[1] in self.BIN and any(x.t == "op" and x.a[0] == "capacity" for x in (a, b)):
                # (a test whose outcome may be known from an earlier loop)
                self.emit(st, "progress", self.site(st), None, (a, b))
            return self.binop(st, rv[1], a, b)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                a = st.norm(a)
                if a.t == "k" and a.a[0] == "int":
                    return op("bitnot", a)
                return st.evalb(op("not", a))
            if rv[1] == "PtrMetadata":
                x = st.load(a)
                if x.t == "agg" and x.a[0] == "array":
                    return K(len(x.a[2]))
                return op("len", x)
            return op(rv[1].lower(), a)
        if k == "discr":
            r, p = self.place(st, fr, rv[1])
            v = st.rd(r, p)
            d = st.discr(v)
            if d.t != "k":
                t = self.prog.ty(rv[2])
                if t.get("variants"):
                    self.nvar[d] = NVAR[d] = len(t["variants"])
            return d
        if k == "agg":
            vs = [self.operand(st, fr, x) for x in rv[3]]
            if rv[1].startswith("coroutine:"):
                return coro(rv[1].split(":", 1)[1], 0, vs)
            return agg(rv[1], rv[2], vs)
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            if rv[2] is not None and rv[2] <= 8:
                return agg("array", 0, (v,) * rv[2])
            return op("repeat", v)
        if k == "tls":
            return ref(mk("tls", rv[1]))
        return self.fresh(st, "opaque")

    def stmt(self, st, fr, s):
        if s[0] == "=":
            v = self.rvalue(st, fr, s[2])
            r, p = self.place(st, fr, s[1])
            self.write(st, r, p, v, s[3])
        elif s[0] == "dead":
            st.mem.pop(mk("L", fr.depth, s[1]), None)
        elif s[0] == "setdiscr":
            r, p = self.place(st, fr, s[1])
            v = st.rd(r, p)
            if v.t == "agg":
                st.wr(r, p, agg(v.a[0], s[2], v.a[2]))
            elif v.t == "coro":
                done = s[2] in (1, 2)
                st.wr(r, p, coro(v.a[0], s[2], (MOVED,) * len(v.a[2]) if done else self.kept_upvars(fr.body, s[2], v.a[2]), () if done else v.a[3]))
            else:
                st.wr(r, p, mk("setdiscr", v, s[2]))

    def kept_upvars(self, b, state, ups):
        """the captured values a suspended coroutine can still use when it is resumed in that state"""
        if state < 3 or not ups:
            return ups
        memo = self.upvars_used.setdefault(b.key, {})
        if state not in memo:
            todo = [int(x) for bl in b.blocks if bl["t"]["k"] == "switch" for n, x in bl["t"]["ts"] if n == str(state) and bl is b.blocks[0]]
            seen, used = set(), set()

            def look(x):
                if isinstance(x, (tuple, list)):
                    if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple) and len(x[1]) > 1 and x[1][0] == "*" and x[1][1][0] == "f":
                        used.add(x[1][1][1])
                    for y in x:
                        look(y)
                elif isinstance(x, dict):
                    for y in x.values():
                        look(y)
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                bl = b.blocks[i]
                look(bl["s"])
                look(bl["t"])
                todo += succs(bl["t"]) + ([bl["t"]["uw"]] if isinstance(bl["t"].get("uw"), int) else [])
            memo[state] = used if seen else set(range(len(ups)))
        return tuple(x if i in memo[state] else MOVED for i, x in enumerate(ups))

    def write(self, st, r, p, v, line=None):
        if r.t not in ("L", "T"):
            self.emit(st, "write", r, p, v, line)
        st.wr(r, p, v)

    # ---- stepping
    def tls_initial(self, key):
        """content of a const-initialised thread-local at its first use in this analysis"""
        v = self.tls_values.get(key)
        if v is None and self.tls_flags_false and "Cell<bool>" in self.tls_ty.get(key, ""):
            v = agg("Cell", 0, (FALSE,))
        return v or mk("init", mk("tls", key))

    def int_bits(self, tid):
        m = re.match(r"[iu](8|16|32|64|128|size)$", self.prog.tys(tid)) if tid is not None else None
        return m and (64 if m.group(1) == "size" else int(m.group(1)))

    @staticmethod
    def operand_ty(fr, o):
        """the type of an operand, where it can be told at once"""
        if o[0] == "const":
            return o[1].get("ty")
        if o[0] in ("copy", "move") and not o[1][1]:
            return fr.body.locals[o[1][0]]
        return None

    def type_args(self, fr, body, atys):
        """what the type parameters of a body stand for in a call with arguments of these types"""
        m = {}

        def match(p, a):
            t = self.prog.ty(p)
            if t.get("k") == "param":
                x = self.prog.ty(a)
                if x.get("k") == "param":
                    a = (fr.sub or {}).get(x["name"])
                if a is not None:
                    m.setdefault(t["name"], a)
                return
            x = self.prog.ty(a)
            if t.get("k") == x.get("k") and t.get("path") == x.get("path"):
                for p2, a2 in zip(t.get("args") or (), x.get("args") or ()):
                    match(p2, a2)
        for i, a in enumerate(atys):
            if i + 1 < len(body.locals):
                match(body.locals[i + 1], a)
        return m or None

    def push(self, st, body, args, dest, target, uw=None, after=None, site=None, atys=None):
        fr = st.top if st.frames else None
        depth = fr.depth + 1 if fr else 0
        c = self.ctx(fr.ctx if fr else -1, (fr.body.key if fr and fr.body else "glue") if fr else "", fr.bb if fr else 0, body.key) if fr else self.ctx("root", body.key)
        if depth > 40:
            raise Unsupported("recursion too deep in " + body.key)
        self.stats["functions"].add(body.key)
        for r in [r for r in st.mem if r.t == "L" and r.a[0] >= depth]:
            del st.mem[r]
        if body.spread is not None and len(args) >= 1:
            # rust-call ABI bodies take their tuple spread; callers give the tuple
            pass
        for i, a in enumerate(args):
            st.mem[mk("L", depth, i + 1)] = a
        f = Frame(body, 0, depth, c, dest, target, uw, after)
        if atys and fr:
            f.sub = self.type_args(fr, body, atys)
        elif fr and fr.body and body.key.startswith(fr.body.key):
            f.sub = fr.sub
        st.frames += (f,)
        return st

    def ret_value(self, st, call, v):
        """finish a modelled call"""
        if call.target is None:
            return []
        if call.dest is not None:
            st.wr(call.dest[0], call.dest[1], v)
        st.set_top(bb=call.target)
        return [st]

    def do_return(self, st):
        fr = st.top
        v = st.rd(mk("L", fr.depth, 0))
        d = fr.depth
        st.mem = {r: x for r, x in st.mem.items() if not (r.t == "L" and r.a[0] >= d)}
        st.frames = st.frames[:-1]
        if fr.after is not None and fr.after[0] == "tls":
            _, root, f, box = fr.after
            st.mem[root] = v
            return self.call_fnlike(st, box.c, f, agg("tuple", 0, (ref(root),)))
        if fr.after is not None:
            v = self.after(st, fr.after, v)
            if isinstance(v, list):
                out = []
                for s2, v2 in v:
                    out += self._ret_to(s2, fr, v2)
                return out
        return self._ret_to(st, fr, v)

    def _ret_to(self, st, fr, v):
        if not st.frames:
            self.emit(st, "ret", v)
            self.stats["paths"] += 1
            return []
        if fr.dest is not None:
            st.wr(fr.dest[0], fr.dest[1], v)
        if fr.target is None:
            if st.top.items is None:
                return []
            return [st]
        if st.top.items is None:
            st.set_top(bb=fr.target)
        return [st]

    def after(self, st, a, v):
        h = a[0]
        if h == "ok":
            return ok(v)
        if h == "ready":
            return ready(v)
        if h == "some":
            return some(v)
        if h == "const":
            return a[1]
        if h == "not":
            return st.evalb(op("not", v))
        if h in self.after_handlers:
            return self.after_handlers[h](self, st, a, v)
        raise Unsupported("after " + h)

    after_handlers = {}

    def step(self, st):
        """execute the top block; list of successor states"""
        fr = st.top
        if fr.items is not None:
            return self.glue_step(st)
        bl = fr.body.blocks[fr.bb]
        if self.watch_loops and fr.bb in loop_heads(fr.body):
            self.emit(st, "head", fr.ctx, fr.bb, bl["t"].get("ln"), fr.body)
        for s in bl["s"]:
            self.stmt(st, fr, s)
        t = bl["t"]
        ln = t.get("ln")
        k = t["k"]
        if fr.body.local and ln:
            self.stats["lines"].add(ln)
        if k == "goto":
            st.set_top(bb=t["t"])
            return [st]
        if k == "return":
            return self.do_return(st)
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "assert":
            return self.do_assert(st, fr, t)
        if k == "drop":
            r, p = self.place(st, fr, t["p"])
            v = st.rd(r, p)
            st.set_top(bb=t["t"])
            if not t["nd"] and v.t not in ("guard",):
                st.wr(r, p, MOVED)
                return [st]
            return self.start_drop(st, [("val", v, (r, p), t["ty"])], ln, clear=(r, p))
        if k == "call":
            return self.do_call(st, fr, t)
        if k == "yield":
            v = self.operand(st, fr, t["op"])
            self.emit(st, "yield", v, ln)
            r, p = self.place(st, fr, t["d"])
            st.wr(r, p, self.fresh(st, "resume"))
            st.set_top(bb=t["t"])
            return [st]
        if k == "resume":
            return self.do_resume(st)
        if k in ("unreachable", "cdrop", "other", "abort"):
            return []
        raise Unsupported("terminator " + k)

    def do_resume(self, st):
        """unwinding leaves the current frame"""
        fr = st.top
        d = fr.depth
        st.mem = {r: x for r, x in st.mem.items() if not (r.t == "L" and r.a[0] >= d)}
        st.frames = st.frames[:-1]
        return self.unwind_into(st, fr)

    def unwind_into(self, st, fr):
        if not st.frames:
            self.emit(st, "unwind_out")
            self.stats["paths"] += 1
            return []
        if fr.after is not None and fr.after[0] == "catch":
            st.unwinding = False
            return self._ret_to(st, fr, err(self.fresh(st, "panic")))
        if st.top.items is not None:
            # panic inside drop glue during unwinding: skip the glue frame
            g = st.top
            st.frames = st.frames[:-1]
            return self.unwind_into(st, g) if isinstance(g.uw, int) or True else []
        if isinstance(fr.uw, int):
            st.set_top(bb=fr.uw)
            return [st]
        return self.do_resume(st)

    def switch(self, st, fr, t):
        raw = self.operand(st, fr, t["op"])
        v = st.norm(raw)
        targets = [(int(a), b) for a, b in t["ts"]]
        els = t.get("else")

        def cv(n):
            return K(bool(n)) if t.get("bool") else K(n)

        if v.t == "k":
            x = int(kv(v))
            for n, b in targets:
                if n == x:
                    st.set_top(bb=b)
                    return [st]
            if els is None:
                return []
            st.set_top(bb=els)
            return [st]
        out = []
        if t.get("bool") and v.t == "op" and v.a[0] in ("not", "and", "or"):
            for s2, k in self.decide(st, v, t.get("ln")):
                if k.t != "k":
                    raise Unsupported("cannot split on %s" % show(v)[:200])
                dest = [b for n, b in targets if n == int(kv(k))] or ([els] if els is not None else [])
                if dest:
                    s2.set_top(bb=dest[0])
                    out.append(s2)
            return out
        nv = self.nvar.get(v)
        for n, b in targets:
            s2 = st.copy()
            if s2.assume(v, cv(n)):
                self.counted(s2, v, cv(n))
                s2.set_top(bb=b)
                s2.trail = Trail(s2.trail, (t.get("ln"), "%s == %s" % (show(v)[:160], n)))
                out.append(s2)
        if els is not None:
            s2 = st.copy()
            if t.get("bool"):
                if s2.assume(v, K(not bool(targets[0][0]))):
                    self.counted(s2, v, K(not bool(targets[0][0])))
                    s2.set_top(bb=els)
                    s2.trail = Trail(s2.trail, (t.get("ln"), "%s == %s" % (show(v)[:160], not bool(targets[0][0]))))
                    out.append(s2)
            else:
                feas = True
                for n, _ in targets:
                    if not s2.exclude(v, cv(n)):
                        feas = False
                if feas and nv is not None:
                    ex = s2.nef.get(v, frozenset())
                    rem = [i for i in range(nv) if K(i) not in ex]
                    if not rem:
                        feas = False
                    elif len(rem) == 1:
                        s2.eqf[v] = K(rem[0])
                if feas:
                    s2.set_top(bb=els)
                    s2.trail = Trail(s2.trail, (t.get("ln"), "%s otherwise" % (show(v)[:160])))
                    out.append(s2)
        return out

    def counted(self, st, t, k):
        """a test of a counter against its bound"""
        if self.watch_loops and t.t == "op" and t.a[0] in ("lt", "eq"):
            n = lambda x: x.t == "sym" and (x.a[2] in ("int", "item") or str(x.a[2]).startswith("countdown:"))
            cap = lambda x: x.t == "op" and x.a[0] in ("capacity", "len", "maplen") or x.t == "sym"
            x, y = t.a[1], t.a[2]
            if n(x) or n(y) or t.a[0] == "lt" and x.t == "k" and cap(y) or t.a[0] == "lt" and y.t == "k" and cap(x):
                self.emit(st, "progress", self.site(st), None)
        if self.watch_loops and t.t == "op" and self.is_eintr(t, k):
            self.emit(st, "progress", "signal", None)
        self.reached(st, t, k)

    @staticmethod
    def is_eintr(t, k):
        """a test that says that an error is ErrorKind::Interrupted or EINTR (the kind is of an opaque value otherwise)"""
        kind = lambda x: x.t == "op" and x.a[0] == "kind"
        if t.a[0] == "discr":
            return kind(t.a[1]) and k is K(35)
        if t.a[0] == "eq" and k is TRUE:
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if kind(x) or x.t == "op" and x.a[0] == "discr" and kind(x.a[1]):
                    return y is K(35) or y.t == "agg" and y.a[0].endswith("ErrorKind") and y.a[1] == 35
                if x.t == "agg" and x.a[0].endswith("Errno"):
                    return True
        return False

    def reached(self, st, t, k):
        """a test that says a counter has reached its bound"""
        if t.t == "sym" and str(t.a[2]).startswith("countdown:"):
            x, reached = t, k is K(0)
        elif t.t == "op" and t.a[0] == "eq" and K(0) in t.a[1:]:
            x, reached = t.a[1] if t.a[2] is K(0) else t.a[2], k is TRUE
        elif t.t == "op" and t.a[0] == "lt":
            x, reached = (t.a[2], k is FALSE)
            if t.a[1] is not K(0):
                # counting up
                a = t.a[1]
                up = a.t == "k" and a.a[0] == "int" and kv(a) > 0 or a.t == "sym" and a.a[2] in ("int", "item")
                if reached and up and (x.t == "k" and x.a[0] == "int" or x.t == "op" and x.a[0] == "capacity"):
                    self.emit(st, "limit", x, None)
                return
        elif t.t == "op" and t.a[0] == "eq" and k is TRUE:
            for x, a in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                up = a.t == "k" and a.a[0] == "int" and kv(a) > 0 or a.t == "sym" and a.a[2] == "int"
                if up and x.t == "op" and x.a[0] == "capacity":
                    self.emit(st, "limit", x, None)
            return
        else:
            return
        if reached and x.t == "op" and x.a[0] == "capacity":
            self.emit(st, "limit", x, None)
        elif reached and x.t == "sym" and str(x.a[2]).startswith("countdown:"):
            n = x.a[2].split(":")[1]
            self.emit(st, "limit", op("capacity") if n == "capacity" else K(int(n)), None)

    def in_loop(self, fr):
        """whether a block can come back to itself"""
        b = fr.body
        if not hasattr(b, "_loops"):
            b._loops = {}
        if fr.bb not in b._loops:
            todo, seen = list(succs(b.blocks[fr.bb]["t"])), set()
            while todo:
                n = todo.pop()
                if n not in seen:
                    seen.add(n)
                    todo += succs(b.blocks[n]["t"])
            b._loops[fr.bb] = fr.bb in seen
        return b._loops[fr.bb]

    def decide(self, st, v, line=None):
        """the states in which a boolean term has a value, one per way of getting there: [(state, value)]"""
        v = st.evalb(v)
        if v.t == "k":
            return [(st, v)]
        leaf = v
        while leaf.t == "op" and leaf.a[0] in ("not", "and", "or"):
            leaf = st.evalb(leaf.a[1])
            if leaf.t == "k":
                leaf = v
                break
        out = []
        for k in (TRUE, FALSE):
            s2 = st.copy()
            if s2.assume(leaf, k):
                self.counted(s2, leaf, k)
                s2.trail = Trail(s2.trail, (line, "%s == %s" % (show(leaf)[:160], k is TRUE)))
                if leaf is v:
                    out.append((s2, k))
                else:
                    w = s2.evalb(v)
                    out += [(s2, w)] if w.t == "k" or w is v else self.decide(s2, w, line)
        return out

    def do_assert(self, st, fr, t):
        v = self.operand(st, fr, t["op"])
        st.set_top(bb=t["t"])
        v = st.norm(v)
        if v.t == "k" and kv(v) == t["exp"]:
            return [st]
        self.emit(st, "panics", "overflow or index out of bounds", t.get("ln"), v.t != "k")
        if v.t == "k":
            return []
        # bounds check against a small constant: case split on the index
        if v.t == "op" and v.a[0] == "lt" and t["exp"] and v.a[2].t == "k" and v.a[2].a[0] == "int" and kv(v.a[2]) <= 4:
            out = []
            for i in range(kv(v.a[2])):
                s2 = st.copy()
                if s2.assume(v.a[1], K(i)):
                    s2.trail = Trail(s2.trail, (t.get("ln"), "%s == %d" % (show(v.a[1]), i)))
                    out.append(s2)
            return out
        if not st.assume(v, K(t["exp"])):
            return []
        return [st]

    # ---- calls
    def do_call(self, st, fr, t):
        c = Call()
        f = self.operand(st, fr, t["f"])
        c.args = [self.operand(st, fr, a) for a in t["a"]]
        c.atys = t["aty"]
        c.dest = self.place(st, fr, t["d"])
        c.target = t["t"]
        c.uw = t["uw"]
        c.dty = t["dty"]
        c.line = t.get("ln")
        c.site = self.site(st)
        c.fn = f
        return self.call(st, c)

    def call(self, st, c):
        f = c.fn
        if f.t == "fn":
            info = self.fninfo[f]
            return self.call_fn(st, c, info)
        if f.t == "agg" and f.a[0].startswith("closure:"):
            return self.call_closure(st, c, f, c.args, None)
        # unknown function pointer
        c.name = "<indirect>"
        c.path = "<indirect>"
        return self.opaque(st, c)

    def call_fn(self, st, c, info):
        rp = info.get("respath") or info["path"]
        tr = info.get("trait")
        c.path = rp
        if tr:
            c.name = tr.rsplit("::", 1)[-1] + "::" + info["name"]
        else:
            c.name = short(rp)
        for pred, h in self.hooks:
            if pred(self, st, c, info):
                r = h(self, st, c, info)
                if r is not None:
                    return r
        # models (exact path first, then trait method / short name)
        for key in (rp, info["path"], c.name):
            m = self.models.get(key)
            if m is not None and not (info.get("reslocal") and key == c.name and key != rp and not tr):
                r = m(self, st, c, info)
                if r is not None:
                    return r
        # constructors used as functions
        if "::" in rp and not tr:
            ty, _, var = rp.rpartition("::")
            a = self.prog.adt_by_path.get(ty)
            if a is not None:
                for i, v in enumerate(self.prog.ty(a).get("variants") or ()):
                    if v["name"] == var and len(v["fields"]) == len(c.args) and rp not in self.prog.bodies:
                        return self.ret_value(st, c, agg(ty, i, c.args))
            for ty2, i, n in CTORS.get(var, ()):
                if ty == ty2 and rp not in self.prog.bodies and len(c.args) == n:
                    return self.ret_value(st, c, agg(ty, i, c.args))
        if not tr and rp in self.prog.adt_by_path and rp not in self.prog.bodies:
            return self.ret_value(st, c, agg(rp, 0, c.args))
        key = info.get("res") or info["key"]
        # calls through Fn* traits on known closures
        if tr and tr.rsplit("::", 1)[-1] in ("Fn", "FnMut", "FnOnce"):
            return self.call_fnlike(st, c, c.args[0], c.args[1])
        b = None
        if info.get("reskind") in (None, "item"):
            b = self.prog.bodies.get(key) if (info.get("res") or not tr) else None
        if b is None and tr:
            b = self.dispatch(st, c, tr, info["name"])
        if b is None and info.get("reslocal") and key in self.prog.bodies:
            b = self.prog.bodies[key]
        if b is not None and key not in self.opaque_bodies:
            return [self.push(st, b, c.args, c.dest, c.target, c.uw, atys=c.atys)]
        return self.opaque(st, c)

    def adt_tag(self, st, v, depth=0):
        """the ADT a (pointer to a) value is known to be, or None"""
        isref = False
        for _ in range(6):
            if v.t == "agg":
                if v.a[0] == PIN and v.a[2]:
                    v = v.a[2][0]
                    continue
                return v.a[0], v
            if v.t in ("ref", "arc", "box"):
                v = st.load(v)
                continue
            if v.t == "ov":
                v = v.a[0]
                continue
            return None, v
        return None, v

    def dispatch(self, st, c, trait, name):
        if not c.args:
            return None
        tag, v = self.adt_tag(st, c.args[0])
        if tag is None:
            return None
        for isref in (False, True):
            k = self.prog.trait_impls.get((trait, name, tag, isref))
            if k:
                return self.prog.bodies[k]
        return None

    def call_fnlike(self, st, c, fv, argtuple, after=None):
        """call closure / fn item fv with a tuple of arguments"""
        args = list(argtuple.a[2]) if argtuple.t == "agg" else None
        v = fv
        for _ in range(4):
            if v.t == "agg" and v.a[0].startswith("closure:"):
                break
            if v.t == "fn":
                break
            if v.t in ("ref", "arc", "box"):
                v2 = st.load(v)
                if v2.t in ("agg", "fn", "ref", "arc", "box"):
                    if v2.t == "agg" and v2.a[0].startswith("closure:"):
                        fv = v
                        v = v2
                        break
                    v = v2
                    fv = v2
                    continue
            break
        if v.t == "agg" and v.a[0].startswith("closure:"):
            return self.call_closure(st, c, fv, args if args is not None else [argtuple], after)
        if v.t == "fn":
            info = self.fninfo[v]
            c2 = Call()
            c2.fn, c2.args, c2.atys, c2.dest, c2.target, c2.uw, c2.dty, c2.line, c2.site = v, args or [], [], c.dest, c.target, c.uw, c.dty, c.line, c.site
            if after is not None:
                raise Unsupported("after on fn item")
            return self.call_fn(st, c2, info)
        c.name = "<fnlike>"
        c.path = "<fnlike>"
        if after is not None:
            c.name += ""
            r = self.opaque(st, c)
            return r
        return self.opaque(st, c)

    def call_closure(self, st, c, fv, args, after):
        v = fv
        place = None
        if v.t in ("ref", "arc", "box"):
            place = v
            v = st.load(v)
        key = v.a[0].split(":", 1)[1]
        b = self.prog.bodies.get(key)
        if b is None:
            return self.opaque(st, c)
        t = self.prog.ty(b.locals[1])
        if t.get("k") == "ref":
            if place is None:
                root = mk("T", st.top.ctx, c.site + "#env")
                st.mem[root] = v
                place = ref(root)
            env = place
        else:
            env = v
        return [self.push(st, b, [env] + list(args), c.dest, c.target, c.uw, after)]

    def poll_coroutine(self, st, c):
        """run a coroutine from its current state to its next await or its end"""
        root, path = st.deref(c.args[0])
        v = st.rd(root, path)
        if v.t != "coro" or v.a[0] not in self.prog.bodies:
            return self.opaque(st, c)
        return [self.push(st, self.prog.bodies[v.a[0]], [pin(ref(root, path))] + c.args[1:], c.dest, c.target, c.uw)]

    def opaque(self, st, c):
        """an unknown function: any result, anything behind &mut arguments may change"""
        self.stats["calls_opaque"].add(c.path)
        v = self.fresh(st, c.name.rsplit("::", 1)[-1])
        self.emit(st, "call", c.name, c.path, tuple(c.args), c.line, c, v)
        for i, a in enumerate(c.args):
            t = self.prog.ty(c.atys[i]) if i < len(c.atys) else {}
            if t.get("k") == "ref" and t.get("mut") and a.t == "ref" and "task::wake::Context<" not in self.prog.tys(t["to"] if "to" in t else c.atys[i]):
                # (a Context cannot be changed through a reference to it)
                st.wr(a.a[0], a.a[1], self.fresh(st, "havoc%d" % i))
        out = []
        if self.unwind_on and self.unwind_on(self, st, c):
            s2 = st.copy()
            s2.trail = Trail(s2.trail, (c.line, "%s panics" % c.name))
            out += self.start_unwind(s2, c.uw)
        return out + self.ret_value(st, c, v)

    def start_unwind(self, st, uw):
        st.unwinding = True
        if isinstance(uw, int):
            st.set_top(bb=uw)
            return [st]
        return self.do_resume(st)

    # ---- drop glue
    def start_drop(self, st, items, line, clear=None):
        fr = st.top
        g = Frame(None, 0, fr.depth + 1, self.ctx(fr.ctx, "glue", line), None, None, None, None, tuple(reversed(items)))
        g.resume = clear
        g.sub = fr.sub
        st.frames += (g,)
        return self.glue_step(st)

    def in_coro(self, st, r, p):
        """is this place a local that a coroutine keeps"""
        v = st.mem.get(r)
        for q in p:
            if v is None:
                return False
            if v.t == "coro" and q[0] == "v":
                return True
            v = project(v, q)
        return False

    def glue_step(self, st):
        fr = st.top
        items = fr.items
        if not items:
            st.frames = st.frames[:-1]
            if fr.resume is not None:
                # after dropping, the place is uninitialised
                r, p = fr.resume
                if r.t in ("L", "T") or self.in_coro(st, r, p):
                    st.wr(r, p, MOVED)
            if not st.frames:
                self.emit(st, "ret", UNIT)
                self.stats["paths"] += 1
                return []
            return [st]
        it = items[-1]
        rest = items[:-1]
        st.set_top(items=rest)
        kind, v, place, tid = it
        t = self.prog.ty(tid) if tid is not None else {}
        if t.get("k") == "param" and fr.sub and t["name"] in fr.sub:
            tid = fr.sub[t["name"]]
            t = self.prog.ty(tid)
        if kind == "fields":
            # after a user Drop: the fields of whatever is there now
            v = st.rd(*place)
            return self.drop_fields(st, v, place, tid, rest)
        if v.t in ("k", "ref", "fn", "moved", "uninit", "dur", "zst", "const"):
            return [st]
        if v.t == "guard":
            self.unlock(st, v)
            return [st]
        if v.t in self.drop_models:
            more = self.drop_models[v.t](self, st, v, place, tid)
            st.set_top(items=rest + tuple(reversed(more or ())))
            return [st]
        # local Drop impl
        dk = None
        if v.t == "agg" and v.a[0] in self.prog.drop_impls:
            dk = self.prog.drop_impls[v.a[0]]
        elif t.get("drop"):
            dk = t["drop"]
        if dk is not None and dk in self.prog.bodies:
            if place is None or True:
                if place is None:
                    root = mk("T", fr.ctx, "drop#%d" % len(rest))
                    st.mem[root] = v
                    place = (root, ())
            st.set_top(items=rest + (("fields", v, place, tid),))
            hook = self.drop_hook(st, dk, v, place)
            if hook is not None:
                return hook
            return [self.push(st, self.prog.bodies[dk], [ref(*place)], None, None)]
        return self.drop_fields(st, v, place, tid, rest)

    drop_models = {}

    def drop_hook(self, st, dk, v, place):
        return None

    def drop_fields(self, st, v, place, tid, rest):
        if v.t == "coro":
            its = [("val", x, (place[0], place[1] + (("v", k[0]), ("f", k[1], str(k[1])))) if place else None, None) for k, x in v.a[3]]
            its += [("val", x, (place[0], place[1] + (("f", i, str(i)),)) if place else None, None) for i, x in enumerate(v.a[2])]
            st.set_top(items=rest + tuple(reversed(its)))
            return [st]
        t = self.prog.ty(tid) if tid is not None else {}
        if v.t == "agg":
            fts = None
            if t.get("variants") and v.a[1] < len(t["variants"]):
                fts = [x[1] for x in t["variants"][v.a[1]]["fields"]]
            elif t.get("k") in ("tuple", "closure") and len(t.get("args", ())) == len(v.a[2]):
                fts = t["args"]
            elif t.get("k") == "array":
                fts = [t["args"][0]] * len(v.a[2])
            elif v.a[0] in self.prog.adt_by_path and tid is None:
                tt = self.prog.ty(self.prog.adt_by_path[v.a[0]])
                fts = [x[1] for x in tt["variants"][v.a[1]]["fields"]]
            its = []
            for i, x in enumerate(v.a[2]):
                pl = None
                if place is not None:
                    pl = (place[0], place[1] + ((("v", v.a[1]),) if v.a[1] else ()) + (("f", i, str(i)),))
                its.append(("val", x, pl, fts[i] if fts and i < len(fts) else None))
            st.set_top(items=rest + tuple(reversed(its)))
            if v.a[0] not in ("tuple", "array", OPT, RES, POLL) and not v.a[0].startswith("closure:"):
                self.emit(st, "dropadt", v, tid)
            return [st]
        # a symbolic value
        if t.get("k") == "adt" and t["path"] == OPT and t.get("args"):
            d = st.discr(v)
            inner = self.prog.tys(t["args"][0])
            if d.t == "k" and kv(d) == 0:
                return [st]
            if d.t == "k":
                st.set_top(items=rest + (("val", project(project(v, ("v", 1)), ("f", 0, "0")), None, t["args"][0]),))
                return [st]
            if "Waker" in inner or "Guard" in inner:
                out = []
                s2 = st.copy()
                if s2.assume(d, K(0)):
                    out.append(s2)
                if st.assume(d, K(1)):
                    st.set_top(items=rest + (("val", project(project(v, ("v", 1)), ("f", 0, "0")), None, t["args"][0]),))
                    out.append(st)
                return out
        if v.t == "ov" or (t.get("k") == "adt" and t.get("local") and t.get("kind") == "struct" and t.get("variants")):
            if t.get("variants"):
                its = []
                for i, (n, x) in enumerate(t["variants"][0]["fields"]):
                    pl = (place[0], place[1] + (("f", i, n),)) if place is not None else None
                    its.append(("val", project(v, ("f", i, n)), pl, x))
                st.set_top(items=rest + tuple(reversed(its)))
                return [st]
        self.emit(st, "drop", v, tid)
        return [st]

    # ---- locks
    def lock(self, st, lockid, how, line):
        """acquire: the protected data is now anything other threads left there"""
        self.emit(st, "lock", lockid, how, line)
        root = mk("D",) if False else mk("D", lockid[0], lockid[1])
        s = self.fresh(st, "locked")
        st.mem[root] = mk("data", root, s)
        g = mk("guard", lockid[0], lockid[1], s)
        st.locks = st.locks + ((lockid, s),)
        self.emit(st, "locked", lockid, how, line)
        return g

    def unlock(self, st, g):
        lockid = (g.a[0], g.a[1])
        root = mk("D", g.a[0], g.a[1])
        self.emit(st, "unlock", lockid, st.rd(root), g)
        st.mem.pop(root, None)
        st.locks = tuple(x for x in st.locks if not (x[0] == lockid and x[1] is g.a[2]))
        self.emit(st, "unlocked", lockid)

    # ---- exploration
    def run(self, body, args, obs=None, init=None, name=None):
        """explore every path of body from a symbolic entry state"""
        self.entry = name or body.path
        st = State()
        if obs:
            st.obs.update(obs)
        self.push(st, body, args, None, None)
        if init:
            init(st)
        return self.explore(st)

    def run_drop(self, value, tid, obs=None, init=None, name="drop", root=None):
        """explore dropping a value"""
        self.entry = name
        st = State()
        if obs:
            st.obs.update(obs)
        root = root or mk("T", 0, "dropped")
        st.mem[root] = value
        st.frames = (Frame(None, 0, 0, self.ctx("drop", name), None, None, None, None, (("val", value, (root, ()), tid),)),)
        if init:
            init(st)
        return self.explore(st)

    def explore(self, st):
        work = [st]
        seen = set()
        unsettled = None
        n = 0
        while work:
            st = work.pop()
            n += 1
            if n > self.budget:
                self.truncated += 1
                raise Unsupported("state budget exceeded in " + self.entry)
            # execute until a join point
            nxt = self.step(st)
            for s in nxt:
                if s.obs.get("stop"):
                    continue  # (goes round for ever)
                fr = s.top
                if fr.items is None and fr.body.join[fr.bb]:
                    s.gc()
                    k = s.key()
                    if k in seen:
                        continue
                    seen.add(k)
                    if fr.bb in loop_heads(fr.body):
                        k = (len(s.frames), fr.body.key, fr.bb)
                        r = s.rounds.get(k, 0) + 1
                        if r > self.max_rounds:
                            unsettled = fr.body.key
                            continue
                        s.rounds = {**s.rounds, k: r}
                work.append(s)
        self.stats["states"] += len(seen)
        self.stats["steps"] += n
        if unsettled:
            raise Unsupported("a loop in %s does not settle" % unsettled)
        return self


def depth_of(v, d=0):
    if v.t != "op" or d > 6:
        return 0
    return 1 + max([depth_of(x, d + 1) for x in v.a[1:] if isinstance(x, V)] or [0])
