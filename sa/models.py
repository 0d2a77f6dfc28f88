"""Semantics of the library functions the crate uses, as abstract transformers (see DESIGN.md)."""
import copy
from .values import *
from .engine import Call, Engine, Trail, Frame, short, project, Unsupported, nonempty

MODELS = {}
OPAQUE_PURE = {}


def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f

    return d


def ret(eng, st, c, v):
    return eng.ret_value(st, c, v)


def forks(eng, st, c, alts):
    """alts: list of (list of (term, const) to assume, value or callable(st)->value, label)"""
    out = []
    for conds, val, label in alts:
        s2 = st.copy()
        ok_ = True
        for t, k in conds:
            if not s2.assume(t, k):
                ok_ = False
                break
        if not ok_:
            continue
        v = val(s2) if callable(val) else val
        if label:
            s2.trail = Trail(s2.trail, (c.line, label))
        out += ret(eng, s2, c, v)
    return out


def choice(eng, st, c, alts):
    """nondeterministic alternatives: list of (value or callable(st), label)"""
    out = []
    for val, label in alts:
        s2 = st.copy()
        v = val(s2) if callable(val) else val
        if v is None:
            continue
        if label:
            s2.trail = Trail(s2.trail, (c.line, label))
        out += ret(eng, s2, c, v)
    return out


def aty(eng, c, i):
    return eng.prog.ty(c.atys[i]) if i < len(c.atys) else {}


def peel(eng, t):
    while t.get("k") == "ref":
        t = eng.prog.ty(t["args"][0])
    return t


def tmp(eng, st, v, label):
    """a fresh memory cell holding v; reference to it"""
    root = mk("T", st.top.ctx, eng.site(st) + "#" + label)
    st.mem[root] = v
    return ref(root)


def after_call(eng, st, c, fv, args, after):
    return eng.call_fnlike(st, c, fv, agg("tuple", 0, args), after)


# ---------------------------------------------------------------- pointers
def pointee(eng, st, v):
    """v: a value of a smart-pointer type; a plain reference to its target"""
    while v.t == "agg" and v.a[0] == PIN:
        v = v.a[2][0]
    if v.t == "guard":
        return ref(mk("D", v.a[0], v.a[1]))
    if v.t == "refmut":
        return v.a[0]
    if v.t in ("arc", "box"):
        return ref(v.a[0])
    return None


@m("Deref::deref", "DerefMut::deref_mut")
def deref(eng, st, c, info):
    a = c.args[0]
    if peel(eng, aty(eng, c, 0)).get("path", "").endswith(("::LazyLock", "::Lazy")):
        return once(eng, st, c, info)
    x = st.load(a)
    p = pointee(eng, st, x)
    if p is not None:
        return ret(eng, st, c, p)
    if x.t == "ref":
        return ret(eng, st, c, x)
    rp = info.get("respath") or ""
    t = peel(eng, aty(eng, c, 0)).get("path", "")
    if info.get("reslocal"):
        return None
    if x.t == "bag" or t.endswith("::Vec") or t.endswith("String") or t.endswith("PathBuf"):
        return ret(eng, st, c, a)
    if x.t == "agg" and x.a[0] == PIN:
        return ret(eng, st, c, x.a[2][0])
    if t == PIN and x.t != "agg":
        return ret(eng, st, c, project(x, ("f", 0, "pointer")))
    if t.endswith("MutexGuard"):
        return ret(eng, st, c, ref(star(x)))
    return ret(eng, st, c, x)


@m("Arc::new", "Rc::new", "Arc::from", "Rc::from")
def arc_new(eng, st, c, info):
    root = mk("T", st.top.ctx, c.site + "#arc")
    st.mem[root] = c.args[0]
    return ret(eng, st, c, mk("arc", root))


@m("Box::new", "Box::pin")
def box_new(eng, st, c, info):
    root = mk("T", st.top.ctx, c.site + "#box")
    st.mem[root] = c.args[0]
    v = mk("box", root)
    return ret(eng, st, c, pin(v) if c.name == "Box::pin" else v)


@m("Arc::ptr_eq")
def arc_ptr_eq(eng, st, c, info):
    a, b = st.load(c.args[0]), st.load(c.args[1])
    return ret(eng, st, c, eng.cmp(st, "eq", a, b))


@m("Arc::as_ptr", "Arc::get_mut", "Arc::try_unwrap", "Arc::into_inner", "Arc::strong_count")
def arc_misc(eng, st, c, info):
    return None


@m("Pin::new", "Pin::new_unchecked")
def pin_new(eng, st, c, info):
    return ret(eng, st, c, pin(c.args[0]))


@m("pin::pin_new_unchecked_in_helper")
def pin_helper(eng, st, c, info):
    """std::pin::pin!: a pin of the helper's only field"""
    v = c.args[0]
    r, p = st.deref(v)
    x = st.rd(r, p)
    n = x.t == "agg" and x.a[0].endswith("PinMacroHelper")
    return ret(eng, st, c, pin(mk("ref", r, tuple(p) + (("f", 0, "value"),)) if n else v))


@m("Pin::get_mut", "Pin::get_unchecked_mut", "Pin::get_ref", "Pin::into_inner", "Pin::into_ref", "Pin::into_inner_unchecked")
def pin_get(eng, st, c, info):
    v = c.args[0]
    p = v.a[2][0] if v.t == "agg" and v.a[0] == PIN else project(v, ("f", 0, "pointer"))
    if c.name == "Pin::into_ref":
        p = pin(p)
    return ret(eng, st, c, p)


@m("Pin::as_mut", "Pin::as_ref")
def pin_as_mut(eng, st, c, info):
    v = st.load(c.args[0])
    if v.t == "agg" and v.a[0] == PIN:
        p = v.a[2][0]
        q = pointee(eng, st, p)
        return ret(eng, st, c, pin(q if q is not None else p))
    return ret(eng, st, c, v)


@m("Pin::set")
def pin_set(eng, st, c, info):
    v = st.load(c.args[0])
    r, p = st.deref(v)
    old = st.rd(r, p)
    eng.write(st, r, p, c.args[1], c.line)
    st.set_top(bb=c.target)
    st.wr(c.dest[0], c.dest[1], UNIT)
    return eng.start_drop(st, [("val", old, None, c.atys[1] if len(c.atys) > 1 else None)], c.line)


@m("Pin::map_unchecked_mut", "Pin::map_unchecked")
def pin_map(eng, st, c, info):
    v = c.args[0]
    p = v.a[2][0] if v.t == "agg" and v.a[0] == PIN else project(v, ("f", 0, "pointer"))
    return eng.call_fnlike(st, c, c.args[1], agg("tuple", 0, (p,)), ("pin",))


Engine.after_handlers = dict(Engine.after_handlers)
Engine.after_handlers["pin"] = lambda eng, st, a, v: pin(v)
Engine.after_handlers["catch"] = lambda eng, st, a, v: ok(v)


@m("Borrow::borrow", "BorrowMut::borrow_mut")
def borrow(eng, st, c, info):
    if info.get("reslocal"):
        return None
    x = st.load(c.args[0])
    p = pointee(eng, st, x)
    return ret(eng, st, c, p if p is not None else x)


@m("AsRef::as_ref", "AsMut::as_mut")
def as_ref(eng, st, c, info):
    if info.get("reslocal"):
        return None
    x = st.load(c.args[0])
    return ret(eng, st, c, op("asref", x))


@m("ToOwned::to_owned", "Path::as_os_str", "OsStrExt::as_bytes", "Path::to_path_buf", "PathBuf::as_path", "Path::new",
   "OsStr::as_encoded_bytes", "OsStr::to_os_string", "OsStr::new", "OsString::as_os_str", "str::as_bytes", "OsStr::as_bytes")
def same_string(eng, st, c, info):
    x = c.args[0]
    while x.t == "ref":
        x = st.load(x)
    return ret(eng, st, c, op("str", x) if not (x.t == "op" and x.a[0] == "str") else x)


def seq_first(eng, st, c, x, what):
    """Option of an element / sub-slice of an opaque sequence, as a deterministic function of it"""
    o = op(what, x, *[y for y in c.args[1:]])
    d = op("discr", o)
    eng.nvar[d] = 2
    if nonempty(o):
        # the functions that say whether the sequence is empty agree
        for t, v in list(st.eqf.items()):
            if t is not d and t.t == "op" and t.a[0] == "discr" and nonempty(t.a[1]) and t.a[1].a[1] is x and v.t == "k":
                st.assume(d, v)
                break
        else:
            e = st.evalb(op("lt", op("len", x), K(1)))
            if e.t == "k":
                st.assume(d, K(1 - kv(e)))
    return ret(eng, st, c, o)


@m("[T]::contains", "slice::contains")
def slice_contains(eng, st, c, info):
    a = c.args[0]
    x = st.load(a) if a.t == "ref" else a
    if x.t == "agg" and x.a[0] == "array":
        y = st.load(c.args[1])
        t = FALSE
        for z in x.a[2]:
            t = st.evalb(op("or", t, st.evalb(op("eq", *sorted((st.norm(z), st.norm(y)))))))
        return ret(eng, st, c, t)
    return ret(eng, st, c, eng.fresh(st, "contains"))


@m("slice::first", "[T]::first", "[T]::get", "[T]::split_first", "[T]::last", "[u8]::first", "[T]::first_chunk",
   "[T]::starts_with", "[T]::is_empty", "[T]::len", "[T]::strip_prefix", "str::len")
def slice_get(eng, st, c, info):
    a = c.args[0]
    x = st.load(a) if a.t == "ref" else a
    what = c.name.rsplit("::", 1)[-1]
    if x.t == "agg" and x.a[0] == "array":
        n = len(x.a[2])
        if what == "len":
            return ret(eng, st, c, K(n))
        if what == "is_empty":
            return ret(eng, st, c, K(n == 0))
        if what == "get" and len(c.args) > 1:
            i = st.norm(c.args[1])
            r, p = st.deref(a)
            if i.t == "k" and i.a[0] == "int":
                return ret(eng, st, c, some(ref(r, p + (("i", i),))) if kv(i) < n else NONE)
            # any element or none
            if i.t != "agg":
                return choice(eng, st, c, [(NONE, "index out of range"), (some(tmp(eng, st, op("elem", x), "elem")), "index in range")])
        if what in ("first", "last"):
            r, p = st.deref(a)
            return ret(eng, st, c, some(ref(r, p + (("i", K(0 if what == "first" else n - 1)),))) if n else NONE)
    if x.t in ("bag", "lit"):
        return None
    if what in ("len", "is_empty"):
        ln = op("len", x)
        return ret(eng, st, c, ln if what == "len" else st.evalb(op("lt", ln, K(1))))
    return seq_first(eng, st, c, x, what)


def ranged(eng, st, x, k):
    """is the range k certain to lie within the sequence x"""
    n = st.minlen(x)
    name = k.a[0].rsplit("::", 1)[-1]
    if name == "RangeFull":
        return True
    fs = [st.norm(y) for y in k.a[2][:2]]
    if any(y.t != "k" for y in fs):
        return False
    fs = [kv(y) for y in fs]
    if name in ("RangeFrom", "RangeTo"):
        return fs[0] <= n
    if name == "Range":
        return fs[0] <= fs[1] <= n
    return name == "RangeToInclusive" and fs[0] < n


@m("[T]::split_at")
def slice_split_at(eng, st, c, info):
    x = st.load(c.args[0]) if c.args[0].t == "ref" else c.args[0]
    if x.t in ("agg", "bag", "lit"):
        return None
    n = st.norm(c.args[1])
    to, frm = agg("core::ops::range::RangeTo", 0, (n,)), agg("core::ops::range::RangeFrom", 0, (n,))
    if not ranged(eng, st, x, frm):
        eng.emit(st, "panics", "a slice index is out of range", c.line, True)
    return ret(eng, st, c, agg("tuple", 0, (op("get", x, to), op("get", x, frm))))


# ---------------------------------------------------------------- clone etc.
def wid(v):
    """identity of a waker value: a clone wakes the same task"""
    while v.t == "op" and v.a[0] == "wclone":
        v = v.a[1]
    return v


def is_waker_ty(t):
    return t.get("path") == "core::task::wake::Waker"


def has_waker(eng, tid, depth=0):
    t = eng.prog.ty(tid)
    if "Waker" not in t.get("s", ""):
        return False
    return True


@m("Clone::clone")
def clone(eng, st, c, info):
    if info.get("reslocal"):
        return None
    rp = info.get("respath") or ""
    x = st.load(c.args[0])
    t = aty(eng, c, 0)
    inner = eng.prog.ty(t["args"][0]) if t.get("k") == "ref" else {}
    if is_waker_ty(inner) or "Waker as" in rp or x.t in ("waker", "wk"):
        eng.emit(st, "wclone", x, c.line)
        return ret(eng, st, c, op("wclone", wid(x)))
    if rp.startswith("<core::option::Option"):
        if has_waker(eng, c.atys[0]):
            d = st.discr(x)
            inner_v = project(project(x, ("v", 1)), ("f", 0, "0"))
            return forks(eng, st, c, [([(d, K(0))], NONE, None), ([(d, K(1))], some(op("wclone", wid(inner_v))), None)]) if d.t != "k" else ret(
                eng, st, c, NONE if kv(d) == 0 else some(op("wclone", wid(inner_v))))
        return ret(eng, st, c, x)
    return ret(eng, st, c, x)


@m("Clone::clone_from")
def clone_from(eng, st, c, info):
    """Waker::clone_from and friends: *self = source.clone(), dropping the old value"""
    r, p = st.deref(c.args[0])
    x = st.load(c.args[1])
    t = peel(eng, aty(eng, c, 0))
    old = st.rd(r, p)
    v = op("wclone", wid(x)) if is_waker_ty(t) else x
    eng.write(st, r, p, v, c.line)
    st.set_top(bb=c.target)
    st.wr(c.dest[0], c.dest[1], UNIT)
    # a waker that already wakes the same task is kept: dropping it loses nothing
    if is_waker_ty(t) and wid(old) is not wid(x):
        return eng.start_drop(st, [("val", mk("displaced", old), None, None)], c.line)
    return [st]


@m("Waker::wake")
def wake(eng, st, c, info):
    eng.emit(st, "wake", c.args[0], c.line, False)
    return wake_unwinds(eng, st, c) + ret(eng, st, c, UNIT)


@m("Waker::wake_by_ref")
def wake_by_ref(eng, st, c, info):
    eng.emit(st, "wake", st.load(c.args[0]), c.line, True)
    return wake_unwinds(eng, st, c) + ret(eng, st, c, UNIT)


def wake_unwinds(eng, st, c):
    """user-provided wakers may panic"""
    if not eng.wakers_panic:
        return []
    s2 = st.copy()
    s2.trail = Trail(s2.trail, (c.line, "the waker panics"))
    return eng.start_unwind(s2, c.uw)


@m("Waker::will_wake")
def will_wake(eng, st, c, info):
    a, b = wid(st.load(c.args[0])), wid(st.load(c.args[1]))
    return ret(eng, st, c, eng.cmp(st, "eq", a, b))


@m("Context::waker")
def ctx_waker(eng, st, c, info):
    x = st.load(c.args[0])
    if x.t == "agg" and x.a[0].endswith("Context"):
        return ret(eng, st, c, x.a[2][0])
    r, p = st.deref(c.args[0])
    return ret(eng, st, c, ref(r, p + (("f", 0, "waker"),)))


@m("Context::from_waker")
def ctx_from(eng, st, c, info):
    return ret(eng, st, c, agg("core::task::wake::Context", 0, (c.args[0],)))


@m("From::from", "Into::into")
def from_into(eng, st, c, info):
    if info.get("reslocal"):
        return None
    rp = info.get("respath") or ""
    x = c.args[0]
    ts = eng.prog.tys(c.dty)
    if rp.startswith("<T as core::convert::From<T>>") or (c.atys and eng.prog.tys(c.atys[0]) == ts):
        return ret(eng, st, c, x)
    if same_error(eng, st, c):
        return ret(eng, st, c, x)
    if ts == "core::task::wake::Waker":
        return ret(eng, st, c, mk("waker", x))
    if "Arc<" in ts and "Arc" in rp:
        return arc_new(eng, st, c, info)
    # conversions into a local type go to its From impl
    if c.name == "Into::into":
        b = conv_impl(eng, "core::convert::From", c.dty, c.atys[0] if c.atys else None)
        if b is not None:
            return [eng.push(st, b, c.args, c.dest, c.target, c.uw)]
    return ret(eng, st, c, op("into", x, short_ty(ts)))


def same_error(eng, st, c):
    """is this the conversion of `?` between results that have the same error type"""
    if eng.prog.ty(c.dty).get("k") != "param" or len(st.frames) < 2 or st.top.body is None or "from_residual" not in st.top.body.path:
        return False
    f = st.frames[-2]
    t = f.body.blocks[f.bb]["t"] if f.body is not None else None
    if t is None or t["k"] != "call" or not t["aty"]:
        return False
    a, b = eng.prog.ty(t["aty"][0]), eng.prog.ty(t["dty"])
    if a.get("path") != RES or b.get("path") != RES:
        return False
    return eng.prog.tys(a["args"][-1]) == eng.prog.tys(b["args"][-1]) and eng.prog.ty(a["args"][-1]).get("k") != "param"


def short_ty(s):
    return s


def conv_impl(eng, trait, dst, src):
    """the crate's conversion into a type of its own, from that type"""
    t = eng.prog.ty(dst)
    if not t.get("path"):
        return None
    best = None
    for k, b in sorted(eng.prog.bodies.items()):
        if b.trait != trait or not b.local or b.self_ty is None or b.argc != 1 or b.name not in ("from", "try_from"):
            continue
        if eng.prog.ty(b.self_ty).get("path") != t["path"]:
            continue
        same = src is not None and eng.prog.tys(b.locals[1]) == eng.prog.tys(src)
        rank = (same, eng.prog.tys(b.self_ty) == eng.prog.tys(dst))
        generic = eng.prog.ty(b.locals[1]).get("k") == "param"
        if not same and not generic and src is not None and eng.prog.ty(src).get("k") not in ("param", "alias"):
            continue
        if best is None or rank > best[0]:
            best = (rank, b)
    return best[1] if best else None


@m("TryInto::try_into")
def try_into(eng, st, c, info):
    t = eng.prog.ty(c.dty)
    if info.get("reslocal") or t.get("path") != RES or not t.get("args"):
        return None
    b = conv_impl(eng, "core::convert::TryFrom", t["args"][0], c.atys[0] if c.atys else None)
    if b is None:
        return None
    return [eng.push(st, b, c.args, c.dest, c.target, c.uw)]


@m("SocketAddr::is_ipv4", "SocketAddr::is_ipv6")
def sockaddr_is(eng, st, c, info):
    d = op("discr", st.load(c.args[0]))
    eng.nvar[d] = 2
    return ret(eng, st, c, eng.cmp(st, "eq", d, K(0 if c.name.endswith("4") else 1)))


# ---------------------------------------------------------------- memory
@m("mem::drop")
def mem_drop(eng, st, c, info):
    st.set_top(bb=c.target)
    st.wr(c.dest[0], c.dest[1], UNIT)
    return eng.start_drop(st, [("val", c.args[0], None, c.atys[0] if c.atys else None)], c.line)


@m("mem::forget", "ManuallyDrop::new")
def mem_forget(eng, st, c, info):
    eng.emit(st, "forget", c.args[0], c.line)
    return ret(eng, st, c, UNIT if c.name == "mem::forget" else agg("core::mem::ManuallyDrop", 0, (c.args[0],)))


def read_place(st, ptr):
    r, p = st.deref(ptr)
    return r, p, st.rd(r, p)


@m("mem::replace")
def mem_replace(eng, st, c, info):
    r, p, old = read_place(st, c.args[0])
    eng.write(st, r, p, c.args[1], c.line)
    return ret(eng, st, c, old)


def default_of(eng, t, depth=0):
    k, s, path = t.get("k"), t.get("s", ""), t.get("path", "")
    if path == OPT:
        return NONE
    if path.endswith("::Vec") or path.endswith("VecDeque"):
        return mk("bag", frozenset())
    if path.endswith("BTreeMap"):
        return mk("map", ())
    if path.endswith("slab::Slab") or path == "slab::Slab":
        return mk("slab0")
    if s in ("usize", "u64", "u32", "i32", "i64", "u8", "u16", "isize"):
        return K(0)
    if s == "bool":
        return FALSE
    if s == "()":
        return UNIT
    if path == "core::time::Duration":
        return dur(0)
    if k == "array" and t.get("len") is not None and t["len"] <= 8 and depth < 4:
        x = default_of(eng, eng.prog.ty(t["args"][0]), depth + 1)
        return agg("array", 0, (x,) * t["len"]) if x is not None else None
    if path.endswith("mutex::Mutex"):
        x = default_of(eng, eng.prog.ty(t["args"][0]), depth + 1)
        return agg("mutex", 0, (x if x is not None else mk("default", s),))
    if k == "adt" and t.get("local") and t.get("variants") and len(t["variants"]) == 1 and depth < 4:
        vs = [default_of(eng, eng.prog.ty(x), depth + 1) for _, x in t["variants"][0]["fields"]]
        if all(v is not None for v in vs):
            return agg(path, 0, vs)
    return None


@m("mem::take")
def mem_take(eng, st, c, info):
    r, p, old = read_place(st, c.args[0])
    d = default_of(eng, eng.prog.ty(c.dty))
    if d is None:
        d = eng.fresh(st, "default")
    eng.write(st, r, p, d, c.line)
    return ret(eng, st, c, old)


@m("mem::swap")
def mem_swap(eng, st, c, info):
    r1, p1, a = read_place(st, c.args[0])
    r2, p2, b = read_place(st, c.args[1])
    eng.write(st, r1, p1, b, c.line)
    eng.write(st, r2, p2, a, c.line)
    return ret(eng, st, c, UNIT)


@m("Default::default")
def default(eng, st, c, info):
    if info.get("reslocal"):
        return None
    d = default_of(eng, eng.prog.ty(c.dty))
    return ret(eng, st, c, d) if d is not None else None


# ---------------------------------------------------------------- locks, cells, atomics
def lock_place(eng, st, c):
    r, p = st.deref(c.args[0])
    t = peel(eng, aty(eng, c, 0))
    if t.get("args"):
        x = t["args"][0]
        k = eng.prog.ty(x)
        if k.get("k") == "param":
            x = (st.top.sub or {}).get(k["name"])
        if x is not None:
            eng.lock_ty[(r, p)] = x
            eng.lock_tys[eng.prog.tys(x)] = x
    return (r, p)


@m("Mutex::lock")
def mutex_lock(eng, st, c, info):
    lp = lock_place(eng, st, c)
    if any(x[0] == lp for x in st.locks):
        eng.emit(st, "relock", lp, c.line)
        return []
    g = eng.lock(st, lp, "lock", c.line)
    return ret(eng, st, c, ok(g))


@m("Mutex::try_lock")
def mutex_try_lock(eng, st, c, info):
    lp = lock_place(eng, st, c)
    held = any(x[0] == lp for x in st.locks)
    out = []
    s2 = st.copy()
    if not held:
        g = eng.lock(s2, lp, "try_lock", c.line)
        s2.trail = Trail(s2.trail, (c.line, "try_lock succeeds"))
        out += ret(eng, s2, c, ok(g))
    eng.emit(st, "trylock_failed", lp, c.line)
    st.trail = Trail(st.trail, (c.line, "try_lock fails"))
    out += ret(eng, st, c, err(mk("const", "WouldBlock")))
    return out


@m("Mutex::new", "RwLock::new")
def mutex_new(eng, st, c, info):
    return ret(eng, st, c, agg("mutex", 0, (c.args[0],)))


@m("Mutex::get_mut")
def mutex_get_mut(eng, st, c, info):
    r, p = st.deref(c.args[0])
    return ret(eng, st, c, ok(ref(r, p + (("f", 0, "data"),))))


@m("RefCell::new", "Cell::new", "UnsafeCell::new", "OnceCell::new", "OnceLock::new")
def cell_new(eng, st, c, info):
    return ret(eng, st, c, agg(c.name.split("::")[0], 0, tuple(c.args)))


F0 = ("f", 0, "value")


def inner_place(st, ptr):
    r, p = st.deref(ptr)
    return r, p + (F0,)


@m("RefCell::try_borrow_mut", "RefCell::try_borrow")
def refcell_try(eng, st, c, info):
    r, p = inner_place(st, c.args[0])
    how = "mut" if c.name.endswith("mut") else "shared"

    def free(s):
        eng.emit(s, "borrow", (r, p), how, True, c.line)
        return ok(mk("refmut", ref(r, p), how))

    return choice(eng, st, c, [(free, "cell free"), (err(mk("const", "BorrowMutError")), "cell already borrowed")])


@m("RefCell::borrow_mut", "RefCell::borrow")
def refcell_borrow(eng, st, c, info):
    r, p = inner_place(st, c.args[0])
    how = "mut" if c.name.endswith("mut") else "shared"
    eng.emit(st, "may_panic", c.name, c.line)
    eng.emit(st, "borrow", (r, p), how, False, c.line)
    return ret(eng, st, c, mk("refmut", ref(r, p), how))


@m("Cell::get")
def cell_get(eng, st, c, info):
    r, p = inner_place(st, c.args[0])
    return ret(eng, st, c, st.rd(r, p))


@m("Cell::set")
def cell_set(eng, st, c, info):
    r, p = inner_place(st, c.args[0])
    eng.emit(st, "cellset", ref(r, p), c.args[1], c.line)
    st.wr(r, p, c.args[1])
    return ret(eng, st, c, UNIT)


@m("Cell::replace", "Cell::take")
def cell_replace(eng, st, c, info):
    r, p = inner_place(st, c.args[0])
    old = st.rd(r, p)
    v = c.args[1] if len(c.args) > 1 else default_of(eng, eng.prog.ty(c.dty)) or eng.fresh(st, "default")
    eng.emit(st, "cellset", ref(r, p), v, c.line)
    st.wr(r, p, v)
    return ret(eng, st, c, old)


def tls_init(eng, st, c, root, key):
    """first use of a thread-local in this analysis: find its initialiser"""
    for b in eng.prog.bodies.values():
        if b.path == key + "::__rust_std_internal_init_fn":
            return b
    return None


def tls_access(eng, st, c, key):
    """the values of a thread are destroyed at its end, where other destructors can still run"""
    if eng.tls_drop.get(key) and key not in st.obs.get("tlsalive", ()):
        eng.emit(st, "panics", "the thread-local is destroyed", c.line, True)
        st.obs["tlsalive"] = st.obs.get("tlsalive", ()) + (key,)


@m("models::tls_gone", "tls_gone")
def tls_gone(eng, st, c, info):
    x = st.load(c.args[0])
    if x.t != "tlskey":
        return None
    k = x.a[0]
    if not eng.tls_drop.get(k) or k in st.obs.get("tlsalive", ()):
        return ret(eng, st, c, FALSE)

    def alive(s):
        s.obs["tlsalive"] = s.obs.get("tlsalive", ()) + (k,)
        return FALSE

    return choice(eng, st, c, [(alive, None), (lambda s: TRUE, "the thread-local is destroyed")])


@m("models::tls_error", "tls_error")
def tls_error(eng, st, c, info):
    return ret(eng, st, c, eng.fresh(st, "accesserror"))


@m("LocalKey::with")
def localkey_with(eng, st, c, info):
    kx = c.args[0]
    x = st.load(kx)
    if x.t != "tlskey":
        return None
    root = mk("tls", x.a[0])
    tls_access(eng, st, c, x.a[0])
    if root not in st.mem:
        b = tls_init(eng, st, c, root, x.a[0])
        if b is not None:
            # run the initialiser, then call `with` again
            return [eng.push(st, b, [], None, None, None, ("tls", root, c.args[1], CallBox(c)))]
        st.mem[root] = eng.tls_initial(x.a[0])
    return eng.call_fnlike(st, c, c.args[1], agg("tuple", 0, (ref(root),)))


class CallBox:
    """a call carried in a frame"""

    def __init__(self, c):
        self.c = c

    def __hash__(self):
        return hash((self.c.site, "box"))

    def __eq__(self, o):
        return isinstance(o, CallBox) and self.c.site == o.c.site and self.c.dest == o.c.dest


@m("LocalKey::set", "LocalKey::get", "LocalKey::take", "LocalKey::replace")
def localkey_cell(eng, st, c, info):
    x = st.load(c.args[0])
    if x.t != "tlskey":
        return None
    root = mk("tls", x.a[0])
    tls_access(eng, st, c, x.a[0])
    if root not in st.mem:
        st.mem[root] = eng.tls_initial(x.a[0])
    name = c.name.split("::")[1]
    r, p = root, (F0,)
    old = st.rd(r, p)
    if name == "get":
        return ret(eng, st, c, old)
    v = c.args[1] if len(c.args) > 1 else default_of(eng, eng.prog.ty(c.dty)) or eng.fresh(st, "default")
    eng.emit(st, "cellset", ref(r, p), v, c.line)
    st.wr(r, p, v)
    return ret(eng, st, c, UNIT if name == "set" else old)


@m("OnceCell::get_or_init_blocking", "OnceLock::get_or_init", "OnceCell::get_or_init", "LazyLock::force", "Lazy::force")
def once(eng, st, c, info):
    r, p = st.deref(c.args[0])
    init = c.args[1] if len(c.args) > 1 else None
    if init is None and r.t == "static":
        # a LazyLock: the closure its static was made with
        b = [b for b in eng.prog.bodies.values() if b.local and b.closure and b.path == str(r.a[0]) + "::{closure#0}"]
        if len(b) == 1:
            init = agg("closure:" + b[0].key, 0, ())
    eng.emit(st, "once", (r, p), init, c.line)
    return ret(eng, st, c, ref(r, p + (("f", 0, "once"),)))


@m("Atomic::new", "AtomicUsize::new", "AtomicBool::new", "AtomicU64::new", "AtomicU32::new")
def atomic_new(eng, st, c, info):
    return ret(eng, st, c, agg("Atomic", 0, tuple(c.args)))


@m("Atomic::load")
def atomic_load(eng, st, c, info):
    r, p = st.deref(c.args[0])
    v = eng.fresh(st, "load")
    eng.emit(st, "atomic", "load", (r, p), v, c.args[1:], c.line)
    return ret(eng, st, c, v)


@m("Atomic::store")
def atomic_store(eng, st, c, info):
    r, p = st.deref(c.args[0])
    eng.emit(st, "atomic", "store", (r, p), c.args[1], c.args[2:], c.line)
    return ret(eng, st, c, UNIT)


@m("Atomic::fetch_add", "Atomic::fetch_sub", "Atomic::swap", "Atomic::fetch_or", "Atomic::fetch_and", "Atomic::fetch_max", "Atomic::fetch_min")
def atomic_rmw(eng, st, c, info):
    r, p = st.deref(c.args[0])
    v = eng.fresh(st, "old")
    eng.emit(st, "atomic", c.name.split("::")[1], (r, p), v, c.args[1:], c.line, peel(eng, aty(eng, c, 0)).get("s", ""))
    return ret(eng, st, c, v)


@m("Atomic::compare_exchange", "Atomic::compare_exchange_weak")
def atomic_cas(eng, st, c, info):
    r, p = st.deref(c.args[0])
    eng.emit(st, "atomic", "cas", (r, p), None, c.args[1:], c.line)
    return choice(eng, st, c, [(ok(c.args[1]), "exchange succeeds"), (lambda s: err(eng.fresh(s, "cas")), "exchange fails")])


@m("Atomic::fetch_update")
def atomic_update(eng, st, c, info):
    return None


@m("Atomic::get_mut", "Atomic::into_inner")
def atomic_other(eng, st, c, info):
    return None


@m("usize::wrapping_add", "u64::wrapping_add", "<impl usize>::wrapping_add")
def wrapping_add(eng, st, c, info):
    return ret(eng, st, c, eng.binop(st, "Add", c.args[0], c.args[1]))


@m("usize::saturating_add", "usize::saturating_sub", "usize::wrapping_sub", "u64::saturating_add", "u64::saturating_sub", "u64::wrapping_sub",
   "usize::pow", "u64::pow", "u32::saturating_add")
def int_misc(eng, st, c, info):
    n = c.name.split("::")[1]
    a, b = st.norm(c.args[0]), st.norm(c.args[1])
    if "add" in n:
        return ret(eng, st, c, eng.binop(st, "Add", a, b))
    if "sub" in n and a.t == b.t == "k" and kv(a) >= kv(b):
        return ret(eng, st, c, K(kv(a) - kv(b)))
    if "sub" in n:
        return ret(eng, st, c, op("sub", a, b))
    return ret(eng, st, c, op(n, a, b))


# ---------------------------------------------------------------- comparisons
def derived(eng, key):
    """an implementation of cmp that #[derive] wrote: the fields one after the other"""
    b = eng.prog.bodies.get(key)
    return b is not None and b.derived


def lex_lt(eng, st, a, b):
    if a.t == "agg" and b.t == "agg" and a.a[0] == b.a[0] and a.a[0] not in (OPT, "array") and len(a.a[2]) == len(b.a[2]):
        own = (("core::cmp::Ord", "cmp", a.a[0], False) in eng.prog.trait_impls) and eng.prog.trait_impls[("core::cmp::Ord", "cmp", a.a[0], False)]
        if own and not derived(eng, own):
            raise Unsupported("%s is compared by code of its own" % a.a[0])
        acc = FALSE
        for x, y in reversed(list(zip(a.a[2], b.a[2]))):
            l = lex_lt(eng, st, x, y)
            e = st.evalb(op("eq", *sorted((st.norm(x), st.norm(y)))))
            if acc is TRUE:
                # x <= y
                acc = st.evalb(op("not", lex_lt(eng, st, y, x)))
                continue
            acc = st.evalb(op("or", l, st.evalb(op("and", e, acc))))
        return acc
    return lt_term(eng, st, a, b)


def lt_term(eng, st, a, b):
    a, b = st.norm(a), st.norm(b)
    if b is K(0) or a is K(2 ** 64 - 1):
        return FALSE
    if b is K(2 ** 64 - 1):
        return TRUE  # (an identifier; they count up from one)
    # clock values are whole nanoseconds: x < now + 1ns  <=>  !(now < x)
    if b.t == "op" and b.a[0] == "iadd" and b.a[2] is dur(1):
        return st.evalb(op("not", op("lt", b.a[1], a)))
    if a.t == "op" and a.a[0] == "isub" and a.a[2] is dur(1):
        # x - 1ns < b  <=>  !(b < x)
        return st.evalb(op("not", op("lt", b, a.a[1])))
    return st.evalb(op("lt", a, b))


@m("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def partial_ord(eng, st, c, info):
    if info.get("reslocal"):
        return None
    rp = info.get("respath") or ""
    if "tracing_core" in rp:
        return ret(eng, st, c, FALSE)
    a, b = st.load(c.args[0]), st.load(c.args[1])
    while a.t == "ref" and b.t == "ref":
        a, b = st.load(a), st.load(b)
    n = c.name.split("::")[1]
    v = {"lt": lambda: lex_lt(eng, st, a, b), "gt": lambda: lex_lt(eng, st, b, a),
         "le": lambda: st.evalb(op("not", lex_lt(eng, st, b, a))), "ge": lambda: st.evalb(op("not", lex_lt(eng, st, a, b)))}[n]()
    return ret(eng, st, c, v)


ORDERING = "core::cmp::Ordering"


@m("Ord::cmp", "PartialOrd::partial_cmp")
def ord_cmp(eng, st, c, info):
    if info.get("reslocal"):
        return None
    a, b = st.load(c.args[0]), st.load(c.args[1])
    w = some if c.name.endswith("partial_cmp") else (lambda x: x)
    lt, gt = lex_lt(eng, st, a, b), lex_lt(eng, st, b, a)
    return forks(eng, st, c, [
        ([(lt, TRUE)], w(agg(ORDERING, 0, ())), None),
        ([(gt, TRUE)], w(agg(ORDERING, 2, ())), None),
        ([(lt, FALSE), (gt, FALSE)], w(agg(ORDERING, 1, ())), None)])


@m("Ord::min", "Ord::max", "cmp::min", "cmp::max")
def ord_min(eng, st, c, info):
    a, b = c.args[0], c.args[1]
    lt = lex_lt(eng, st, b, a)
    n = c.name.split("::")[1]
    x, y = (b, a) if n == "min" else (a, b)
    return forks(eng, st, c, [([(lt, TRUE)], x, None), ([(lt, FALSE)], y, None)])


@m("PartialEq::eq", "PartialEq::ne")
def partial_eq(eng, st, c, info):
    if info.get("reslocal"):
        return None
    a, b = st.load(c.args[0]), st.load(c.args[1])
    while a.t == "ref" and b.t == "ref":
        a, b = st.load(a), st.load(b)
    return ret(eng, st, c, eng.cmp(st, "eq" if c.name.endswith("eq") else "ne", st.norm(a), st.norm(b)))


# ---------------------------------------------------------------- time
@m("Instant::now")
def now(eng, st, c, info):
    v = eng.fresh(st, "now")
    eng.emit(st, "now", v, c.line)
    return ret(eng, st, c, v)


@m("Instant::checked_add")
def checked_add(eng, st, c, info):
    a, d = st.load(c.args[0]) if c.args[0].t == "ref" else c.args[0], c.args[1]
    fits = op("fits", a, d)
    if d.t == "dur" and d.a[0] >= 2 ** 63 * 10 ** 9:
        # the seconds of an Instant are 64 bits, signed
        return ret(eng, st, c, NONE)
    alts = [([(fits, TRUE)], some(op("iadd", a, d)), "deadline representable")]
    alts.append(([(fits, FALSE)], NONE, "deadline overflows"))
    return forks(eng, st, c, alts)


@m("Add::add", "AddAssign::add_assign", "Sub::sub")
def add_op(eng, st, c, info):
    if info.get("reslocal"):
        return None
    rp = info.get("respath") or ""
    if c.name == "AddAssign::add_assign":
        r, p, old = read_place(st, c.args[0])
        o = "iadd" if "Instant" in eng.prog.tys(c.atys[0]) else "add"
        if o == "iadd":
            eng.emit(st, "may_panic", "Instant + Duration", c.line, c.args[1])
        eng.write(st, r, p, op(o, old, c.args[1]), c.line)
        return ret(eng, st, c, UNIT)
    a, d = c.args
    ta = eng.prog.tys(c.atys[0]) if c.atys else ""
    if "Instant" in ta:
        if c.name == "Sub::sub" and "Instant" in eng.prog.tys(c.atys[1]):
            return ret(eng, st, c, op("dsince", a, d))
        eng.emit(st, "may_panic", "Instant arithmetic", c.line, d)
        return ret(eng, st, c, op("iadd" if c.name == "Add::add" else "isub", a, d))
    if "Duration" in ta:
        eng.emit(st, "may_panic", "Duration arithmetic", c.line, d)
        if a.t == d.t == "dur":
            return ret(eng, st, c, dur(a.a[0] + d.a[0] if c.name == "Add::add" else max(0, a.a[0] - d.a[0])))
        return ret(eng, st, c, op("dadd" if c.name == "Add::add" else "dsub", a, d))
    return ret(eng, st, c, eng.binop(st, "Add" if c.name == "Add::add" else "Sub", a, d))


@m("Instant::saturating_duration_since", "Instant::duration_since")
def dsince(eng, st, c, info):
    a = st.load(c.args[0])
    return ret(eng, st, c, op("dsince", a, c.args[1]))


@m("Instant::checked_duration_since")
def cdsince(eng, st, c, info):
    a, b = st.load(c.args[0]), c.args[1]
    lt = st.evalb(op("lt", a, b))
    return forks(eng, st, c, [([(lt, TRUE)], NONE, None), ([(lt, FALSE)], some(op("dsince", a, b)), None)])


@m("Instant::elapsed")
def elapsed(eng, st, c, info):
    v = eng.fresh(st, "now")
    eng.emit(st, "elapsed", v, c.line)
    return ret(eng, st, c, op("dsince", v, st.load(c.args[0])))


def dur_from(mul):
    def f(eng, st, c, info):
        x = st.norm(c.args[0])
        return ret(eng, st, c, dur(kv(x) * mul) if x.t == "k" else op("dur", x, K(mul)))
    return f


MODELS["Duration::from_secs"] = dur_from(10**9)
MODELS["Duration::from_millis"] = dur_from(10**6)
MODELS["Duration::from_micros"] = dur_from(10**3)
MODELS["Duration::from_nanos"] = dur_from(1)


@m("Duration::new")
def dur_new(eng, st, c, info):
    a, b = c.args
    return ret(eng, st, c, dur(kv(a) * 10**9 + kv(b)) if a.t == b.t == "k" else op("dnew", a, b))


@m("Duration::is_zero")
def dur_is_zero(eng, st, c, info):
    x = st.load(c.args[0])
    return ret(eng, st, c, eng.cmp(st, "eq", st.norm(x), dur(0)))


@m("Duration::saturating_sub", "Duration::saturating_add", "Duration::checked_sub", "Duration::checked_add")
def dur_sat(eng, st, c, info):
    n = c.name.split("::")[1]
    a, b = c.args
    t = op("d" + n.split("_")[1], a, b)
    if n.startswith("checked"):
        return choice(eng, st, c, [(some(t), None), (NONE, None)])
    return ret(eng, st, c, t)


# ---------------------------------------------------------------- panics
@m("panic::catch_unwind")
def catch_unwind(eng, st, c, info):
    f = c.args[0]
    if f.t == "agg" and f.a[0].endswith("AssertUnwindSafe"):
        f = f.a[2][0]
    return eng.call_fnlike(st, c, f, agg("tuple", 0, ()), ("catch",))


@m("panic::resume_unwind")
def resume_unwind(eng, st, c, info):
    st.trail = Trail(st.trail, (c.line, "the panic goes on"))
    return eng.start_unwind(st, c.uw)


@m("AssertUnwindSafe::into_inner")
def aus(eng, st, c, info):
    return ret(eng, st, c, project(c.args[0], ("f", 0, "0")))


# ---------------------------------------------------------------- ErrorKind / io::Error
@m("Error::kind", "Error::raw_os_error")
def err_kind(eng, st, c, info):
    x = st.load(c.args[0])
    o = op(c.name.split("::")[1], x)
    if x.t == "op" and x.a[0] == "into" and c.name.endswith("kind"):
        pass
    return ret(eng, st, c, o)


# ---------------------------------------------------------------- queue
@m("ConcurrentQueue::push", "ConcurrentQueue::force_push")
def q_push(eng, st, c, info):
    r, p = st.deref(c.args[0])
    out = []
    s2 = st.copy()
    eng.emit(s2, "qpush", (r, p), c.args[1], c.line)
    s2.trail = Trail(s2.trail, (c.line, "queue push accepted"))
    out += ret(eng, s2, c, ok(UNIT) if c.name.endswith("::push") else ok(NONE))
    st.trail = Trail(st.trail, (c.line, "queue full"))
    eng.emit(st, "qfull", (r, p), c.args[1], c.line)
    if c.name.endswith("force_push"):
        eng.emit(st, "qforced", (r, p), c.args[1], c.line)
        out += ret(eng, st, c, ok(some(eng.fresh(st, "evicted"))))
    else:
        out += ret(eng, st, c, err(agg("concurrent_queue::PushError", 0, (c.args[1],))))
    return out


@m("PushError::into_inner")
def push_err(eng, st, c, info):
    return ret(eng, st, c, project(c.args[0], ("f", 0, "0")))


@m("ConcurrentQueue::pop")
def q_pop(eng, st, c, info):
    r, p = st.deref(c.args[0])
    out = []
    s2 = st.copy()
    v = eng.fresh(s2, "popped")
    eng.emit(s2, "qpop", (r, p), v, c.line)
    s2.trail = Trail(s2.trail, (c.line, "queue yields an operation"))
    out += ret(eng, s2, c, ok(v))
    eng.emit(st, "qempty", (r, p), c.line)
    st.trail = Trail(st.trail, (c.line, "queue empty"))
    out += ret(eng, st, c, err(mk("const", "PopError")))
    return out


@m("ConcurrentQueue::try_iter")
def q_try_iter(eng, st, c, info):
    return ret(eng, st, c, mk("qit", ref(*st.deref(c.args[0]))))


@m("ConcurrentQueue::capacity", "ConcurrentQueue::len")
def q_cap(eng, st, c, info):
    r, p = st.deref(c.args[0])
    t = op(c.name.split("::")[1], ref(r, p))
    if c.name.endswith("capacity"):
        n = queue_capacity(eng.prog)
        return ret(eng, st, c, some(K(n) if n is not None else t))
    return ret(eng, st, c, t)


def queue_capacity(prog):
    """the constant capacity every queue of the program is created with, if there is one"""
    if not hasattr(prog, "_qcap"):
        n = set()
        for b in prog.bodies.values():
            for bl in b.blocks:
                t = bl["t"]
                if t["k"] == "call" and t["f"][0] == "const" and (t["f"][1].get("fn") or {}).get("path", "").endswith("ConcurrentQueue::<T>::bounded"):
                    a = t["a"][0]
                    v = a[1].get("v") if a[0] == "const" else None
                    n.add(int(v["int"]) if v and "int" in v else None)
        prog._qcap = n.pop() if len(n) == 1 else None
    return prog._qcap


@m("ConcurrentQueue::is_empty", "ConcurrentQueue::is_full")
def q_empty(eng, st, c, info):
    return ret(eng, st, c, eng.fresh(st, "qbool"))


@m("models::leaked", "leaked")
def leaked(eng, st, c, info):
    return ret(eng, st, c, ref(mk("constmem", c.args[0])))


@m("models::limit_reached", "limit_reached")
def limit_reached(eng, st, c, info):
    return choice(eng, st, c, [(lambda s: (eng.emit(s, "progress", c.site, None), FALSE)[1], None),
                               (lambda s: (eng.emit(s, "limit", c.args[0], c.line), eng.emit(s, "exhausted", c.site), TRUE)[2], "limit reached")])


# ---------------------------------------------------------------- slab
ANON = ("a0", "a1")


def slab_base(v):
    return v.a[0] if v.t == "ov" else v


def slab_keys(st, v):
    """keys a full iteration visits"""
    keys = []
    base = slab_base(v)
    over = dict(v.a[1]) if v.t == "ov" else {}
    seen = set()
    for p, x in over.items():
        if p[0] == "i":
            seen.add(p[1])
            if x is not ABSENT:
                keys.append(p[1])
    if base.t != "slab0":
        for a in ANON:
            k = K(a)
            if k not in seen:
                keys.append(k)
        # the slot of the wait being polled exists for as long as the wait does
        own = st.obs.get("ownkey")
        if own is not None and own[0] not in seen and own[0] not in keys:
            b = base
            while b.t == "prj":
                if b.a[1] == ("i", own[1]):
                    h = st.evalb(op("has", base, own[0]))
                    if h is TRUE or h.t != "k" and st.assume(h, TRUE):
                        keys.append(own[0])
                    break
                b = b.a[0]
    return sorted(keys)


ABSENT = mk("absent")


@m("Slab::new", "Slab::with_capacity")
def slab_new(eng, st, c, info):
    return ret(eng, st, c, mk("slab0"))


@m("Slab::insert")
def slab_insert(eng, st, c, info):
    r, p = st.deref(c.args[0])
    k = None
    # a key reserved by vacant_entry on the unchanged slab
    for x in st.obs.get("vacant", ()):
        if x[0] == (r, p) and x[1] is st.rd(r, p):
            k = x[2]
    if k is None:
        k = eng.fresh(st, "key")
    eng.emit(st, "slab", "insert", (r, p), k, c.args[1], c.line)
    st.wr(r, p + (("i", k),), c.args[1])
    return ret(eng, st, c, k)


@m("Slab::vacant_entry")
def slab_vacant(eng, st, c, info):
    r, p = st.deref(c.args[0])
    k = eng.fresh(st, "key")
    st.obs["vacant"] = ((((r, p)), st.rd(r, p), k),)
    return ret(eng, st, c, mk("vacant", ref(r, p), k))


@m("Slab::vacant_key")
def slab_vacant_key(eng, st, c, info):
    r, p = st.deref(c.args[0])
    k = eng.fresh(st, "key")
    st.obs["vacant"] = ((((r, p)), st.rd(r, p), k),)
    return ret(eng, st, c, k)


@m("VacantEntry::key")
def vacant_key(eng, st, c, info):
    v = st.load(c.args[0])
    if v.t != "vacant":
        return None
    return ret(eng, st, c, v.a[1])


@m("VacantEntry::insert")
def vacant_insert(eng, st, c, info):
    v = c.args[0]
    if v.t != "vacant":
        return None
    r, p = v.a[0].a
    eng.emit(st, "slab", "insert", (r, p), v.a[1], c.args[1], c.line)
    st.wr(r, p + (("i", v.a[1]),), c.args[1])
    return ret(eng, st, c, ref(r, p + (("i", v.a[1]),)))


def slab_at(st, r, p, k):
    return st.rd(r, p + (("i", k),))


def has_key(st, r, p, k):
    """TRUE / FALSE / a term"""
    v = st.rd(r, p)
    if v.t != "slab0" and not (v.t == "ov" and ("i", k) in dict(v.a[1])):
        for kk, root in st.obs.get("slab", ()):
            if kk is k:
                # a live source is in the table, under its own key
                st.wr(r, p + (("i", k),), mk("arc", root))
                return TRUE
    x = project(v, ("i", k)) if v.t != "slab0" else ABSENT
    if x is ABSENT:
        return FALSE
    if v.t == "ov" and ("i", k) in dict(v.a[1]):
        return TRUE
    base = slab_base(v)
    if base.t == "slab0":
        return FALSE
    # (see PanicObs)
    if ((r, p), k) in st.obs.get("slots", ()):
        return TRUE
    # the slot of the wait being polled or dropped exists for as long as the wait does (no other code removes it: see C26)
    own = st.obs.get("ownkey")
    if own is not None and own[0] is k:
        b = base
        while b.t == "prj":
            if b.a[1] == ("i", own[1]):
                st.assume(op("has", base, k), TRUE)
                break
            b = b.a[0]
    return st.evalb(op("has", base, k))


@m("Slab::contains")
def slab_contains(eng, st, c, info):
    r, p = st.deref(c.args[0])
    return ret(eng, st, c, has_key(st, r, p, st.norm(c.args[1])))


@m("Slab::get", "Slab::get_mut", "Slab::try_remove")
def slab_get(eng, st, c, info):
    r, p = st.deref(c.args[0])
    k = st.norm(c.args[1])
    h = has_key(st, r, p, k)
    rm = c.name.endswith("try_remove")

    def hit(s):
        s.assume(h, TRUE)
        if rm:
            return removed(eng, s, c, r, p, k, True)
        return some(ref(r, p + (("i", k),)))

    alts = []
    if h is not FALSE:
        alts.append(([(h, TRUE)] if h.t != "k" else [], hit, "slab has the key"))
    if h is not TRUE:
        alts.append(([(h, FALSE)] if h.t != "k" else [], NONE, "slab lacks the key"))
    return forks(eng, st, c, alts)


def removed(eng, st, c, r, p, k, opt):
    x = slab_at(st, r, p, k)
    eng.emit(st, "slab", "remove", (r, p), k, x, c.line)
    st.wr(r, p + (("i", k),), ABSENT)
    x = mk("removed", x) if x.t != "arc" and x.t != "k" else x
    return some(x) if opt else x


@m("Slab::remove")
def slab_remove(eng, st, c, info):
    r, p = st.deref(c.args[0])
    k = st.norm(c.args[1])
    h = has_key(st, r, p, k)
    if h is not TRUE:
        eng.emit(st, "panics", "a slab has no entry for the key", c.line, h is not FALSE)
    if h is FALSE:
        return []
    st.assume(h, TRUE)
    return ret(eng, st, c, removed(eng, st, c, r, p, k, False))


@m("Index::index", "IndexMut::index_mut")
def index(eng, st, c, info):
    if info.get("reslocal"):
        return None
    r, p = st.deref(c.args[0])
    t = peel(eng, aty(eng, c, 0))
    k = st.norm(c.args[1])
    if t.get("path") == "slab::Slab":
        h = has_key(st, r, p, k)
        if h is not TRUE:
            eng.emit(st, "panics", "a slab has no entry for the key", c.line, h is not FALSE)
        if h is FALSE:
            return []
        if h.t != "k":
            st.assume(h, TRUE)
    elif k.t == "agg":
        x = st.rd(r, p)
        o = op("get", x, k)
        if not ranged(eng, st, x, k):
            eng.emit(st, "panics", "a slice index is out of range", c.line, True)
        return ret(eng, st, c, o)
    return ret(eng, st, c, ref(r, p + (("i", k),)))


@m("Slab::len", "Slab::is_empty")
def slab_len(eng, st, c, info):
    r, p = st.deref(c.args[0])
    v = st.rd(r, p)
    if c.name.endswith("len"):
        return ret(eng, st, c, op("slablen", v))
    if v.t == "ov" and any(q[0] == "i" and x is not ABSENT for q, x in v.a[1]):
        return ret(eng, st, c, FALSE)
    base = slab_base(v)
    if base.t == "slab0":
        return ret(eng, st, c, TRUE)
    t = op("slabempty", base)
    out = []
    s2 = st.copy()
    if s2.assume(t, TRUE):
        good = True
        for a in ANON:
            x = project(base, ("i", K(a)))
            d = s2.discr(x)
            if not s2.assume(d, K(0)):
                good = False
        if good:
            out += ret(eng, s2, c, TRUE)
    if st.assume(t, FALSE):
        out += ret(eng, st, c, FALSE)
    return out


@m("Slab::clear")
def slab_clear(eng, st, c, info):
    r, p = st.deref(c.args[0])
    v = st.rd(r, p)
    items = []
    for k in slab_keys(st, v):
        items.append(("val", project(v, ("i", k)), None, None))
    eng.emit(st, "slab", "clear", (r, p), None, v, c.line)
    st.wr(r, p, mk("slab0"))
    st.set_top(bb=c.target)
    st.wr(c.dest[0], c.dest[1], UNIT)
    t = peel(eng, aty(eng, c, 0))
    et = t["args"][0] if t.get("args") else None
    return eng.start_drop(st, [(a, b, d, et) for a, b, d, _ in items], c.line)


@m("Slab::iter", "Slab::iter_mut")
def slab_iter(eng, st, c, info):
    r, p = st.deref(c.args[0])
    v = st.rd(r, p)
    return ret(eng, st, c, mk("slabit", ref(r, p), tuple(slab_keys(st, v))))


@m("Slab::drain")
def slab_drain(eng, st, c, info):
    r, p = st.deref(c.args[0])
    v = st.rd(r, p)
    items = tuple(project(v, ("i", k)) for k in slab_keys(st, v))
    st.wr(r, p, mk("slab0"))
    return ret(eng, st, c, mk("lit", items))


@m("Slab::retain")
def slab_retain(eng, st, c, info):
    return None


# ---------------------------------------------------------------- Vec (as a bag)
def vec_ref(st, a):
    r, p = st.deref(a)
    return r, p, st.rd(r, p)


def abstract_item(v):
    """a waker put into a list: what matters is only where it came from"""
    w = v
    if w.t == "op" and w.a[0] == "wclone":
        return w
    if w.t in ("wk", "waker", "W", "k", "ref", "arc", "removed"):
        return w
    if w.t == "op" and w.a[0] == "tw":
        return mk("wk", "timer")
    if w.t in ("sym",):
        return mk("wk", "unknown")
    return mk("wk", "io")


def elem_type(eng, st, tid):
    """the type of a list's elements; inside a library body, the one its caller uses it with"""
    if tid is None or eng.prog.ty(tid).get("k") != "param":
        return tid
    for f in reversed(st.frames):
        if f.body is None or f.body.model:
            continue
        t = f.body.blocks[f.bb]["t"]
        if t["k"] != "call":
            return tid
        for x in list(t["aty"]) + [t["dty"]]:
            y = peel(eng, eng.prog.ty(x))
            if y.get("k") == "adt" and y.get("path", "").split("::")[-1] in ("Vec", "VecDeque") and y.get("args"):
                return y["args"][0]
        return tid
    return tid


def bag_add(eng, st, b, v, tid):
    if b.t != "bag":
        return b
    tid = elem_type(eng, st, tid)
    if tid is not None and is_waker_ty(eng.prog.ty(tid)):
        eng.emit(st, "collect", v)
        v = abstract_item(v)
    elif tid is not None and has_waker(eng, tid) and v.t == "agg" and v.a[0] == "tuple":
        v = agg("tuple", 0, tuple(abstract_item(x) if wakerlike(x) else x for x in v.a[2]))
    elif v.t == "k" or len(b.a[0]) > 6:
        v = mk("elem")
    return mk("bag", b.a[0] | {v})


def wakerlike(x):
    return x.t == "op" and x.a[0] in ("tw", "wclone")


@m("Vec::new", "Vec::with_capacity", "VecDeque::new", "VecDeque::with_capacity", "SmallVec::new")
def vec_new(eng, st, c, info):
    return ret(eng, st, c, mk("bag", frozenset()))


@m("Vec::push", "VecDeque::push_back", "VecDeque::push_front")
def vec_push(eng, st, c, info):
    r, p, b = vec_ref(st, c.args[0])
    tid = c.atys[1] if len(c.atys) > 1 else None
    nb = bag_add(eng, st, b, c.args[1], tid)
    st.wr(r, p, nb)
    return ret(eng, st, c, UNIT)


@m("Vec::pop", "VecDeque::pop_front", "VecDeque::pop_back")
def vec_pop(eng, st, c, info):
    r, p, b = vec_ref(st, c.args[0])
    if b.t != "bag":
        return None
    if not b.a[0]:
        eng.emit(st, "exhausted", c.site)
        return ret(eng, st, c, NONE)
    eng.emit(st, "progress", c.site, r)
    # an element of the bag stands for any number of values
    out = []
    for x in sorted(b.a[0]):
        s2 = st.copy()
        out += ret(eng, s2, c, some(x))
        s2 = st.copy()
        s2.wr(r, p, mk("bag", b.a[0] - {x}))
        out += ret(eng, s2, c, some(x))
    return out


@m("Vec::swap_remove", "Vec::remove")
def vec_remove(eng, st, c, info):
    r, p, b = vec_ref(st, c.args[0])
    if b.t != "bag" or not b.a[0]:
        return None
    out = []
    for x in sorted(b.a[0]):
        s2 = st.copy()
        out += ret(eng, s2, c, x)
        s2 = st.copy()
        s2.wr(r, p, mk("bag", b.a[0] - {x}))
        out += ret(eng, s2, c, x)
    return out


@m("Vec::len", "Vec::is_empty", "VecDeque::len", "VecDeque::is_empty")
def vec_len(eng, st, c, info):
    r, p, b = vec_ref(st, c.args[0])
    if b.t == "lazyvec":
        return ret(eng, st, c, eng.fresh(st, "vecbool" if c.name.endswith("is_empty") else "veclen"))
    if b.t == "bag":
        if c.name.endswith("is_empty"):
            return ret(eng, st, c, K(not b.a[0]))
        if not b.a[0]:
            return ret(eng, st, c, K(0))
    return ret(eng, st, c, eng.fresh(st, "len"))


@m("Vec::reserve", "Vec::shrink_to_fit", "Vec::capacity", "Vec::dedup", "Vec::reverse", "Vec::reserve_exact", "[T]::reverse")
def vec_nop(eng, st, c, info):
    return ret(eng, st, c, UNIT if not c.name.endswith("capacity") else eng.fresh(st, "cap"))


@m("Vec::clear", "Vec::truncate", "VecDeque::clear")
def vec_clear(eng, st, c, info):
    r, p, b = vec_ref(st, c.args[0])
    if b.t != "bag":
        return None
    out = []
    if c.name.endswith("truncate"):
        s2 = st.copy()
        s2.trail = Trail(s2.trail, (c.line, "already short enough"))
        out += ret(eng, s2, c, UNIT)
        st.wr(r, p, b)
    else:
        st.wr(r, p, mk("bag", frozenset()))
    st.set_top(bb=c.target)
    st.wr(c.dest[0], c.dest[1], UNIT)
    out += eng.start_drop(st, [("val", x, None, None) for x in sorted(b.a[0])], c.line)
    return out


@m("Vec::drain", "VecDeque::drain")
def vec_drain(eng, st, c, info):
    r, p, b = vec_ref(st, c.args[0])
    if b.t != "bag":
        return None
    full = "RangeFull" in eng.prog.tys(c.atys[1]) if len(c.atys) > 1 else True
    if full:
        st.wr(r, p, mk("bag", frozenset()))
    return ret(eng, st, c, mk("lit", tuple(sorted(b.a[0]))))


@m("Vec::append")
def vec_append(eng, st, c, info):
    r, p, b = vec_ref(st, c.args[0])
    r2, p2, b2 = vec_ref(st, c.args[1])
    if b.t != "bag" or b2.t != "bag":
        return None
    st.wr(r, p, mk("bag", b.a[0] | b2.a[0]))
    st.wr(r2, p2, mk("bag", frozenset()))
    return ret(eng, st, c, UNIT)


@m("Vec::split_off")
def vec_split_off(eng, st, c, info):
    r, p, b = vec_ref(st, c.args[0])
    if b.t != "bag":
        return None
    return ret(eng, st, c, b)


@m("Vec::retain", "Vec::retain_mut")
def vec_retain(eng, st, c, info):
    return None


@m("Extend::extend")
def extend(eng, st, c, info):
    out = []
    for s, a in split_opts(eng, st, c, 1):
        it = as_iter(eng, s, c, a[1])
        if it is None:
            return None
        out += model_call(eng, s, c, "vec_extend", [a[0], it])
    return out


@m("Iterator::collect", "FromIterator::from_iter")
def collect(eng, st, c, info):
    t = eng.prog.ty(c.dty).get("path", "")
    if t.endswith("::Vec"):
        if lazy_events(c.args[0]):
            # going through the collected events is going through the events
            return ret(eng, st, c, mk("lazyvec", c.args[0]))
        return model_call(eng, st, c, "collect_vec", [c.args[0]])
    return None


def lazy_events(v):
    """an iterator over the events of the OS wait, changed at most by functions that capture nothing"""
    if v.t == "agg" and v.a[0].startswith("models::") and v.a[2]:
        return lazy_events(v.a[2][0]) and all(x.t == "fn" or x.t == "agg" and not x.a[2] for x in v.a[2][1:])
    return v.t == "evit"


# ---------------------------------------------------------------- ordered map
def map_mat(eng, st, r, p):
    """the entries of an ordered map: at most two stand for any number (cut-off, see DESIGN.md)"""
    v = st.rd(r, p)
    if v.t == "map":
        return [(st, v)]
    out = []
    size = op("mapsize", v)
    for n in (0, 1, 2):
        s2 = st.copy()
        if not s2.assume(size, K(n)):
            continue
        es = []
        for i in range(n):
            es.append((map_key(eng, r, p, op("when", K(i), v), op("tid", K(i), v)), op("tw", K(i), v)))
        if n == 2:
            s2.assume(op("lt", op("when", K(1), v), op("when", K(0), v)), FALSE)
        mv = mk("map", tuple(es))
        s2.wr(r, p, mv)
        s2.trail = Trail(s2.trail, (None, "map holds %s entries" % ("0", "1", "2 (or more)")[n]))
        eng.emit(s2, "mapmat", v, n)
        out.append((s2, mv))
    return out


def map_key(eng, r, p, when, tid):
    """an entry's key, as the type of keys has it"""
    t = type_at(eng, r, p)
    k = t["args"][0] if t and t.get("path", "").endswith("BTreeMap") else None
    left = [when, tid]

    def make(x):
        t = eng.prog.ty(x)
        if t.get("k") == "tuple":
            return agg("tuple", 0, tuple(make(y) for y in t["args"]))
        if t.get("k") == "adt" and t.get("local") and len(t.get("variants") or ()) == 1:
            if not all((tr, f, t["path"], False) in eng.prog.trait_impls for tr, f in (("core::cmp::Ord", "cmp"),)):
                raise Unsupported("a map sorted by %s" % t["path"])
            return agg(t["path"], 0, tuple(make(y) for _, y in t["variants"][0]["fields"]))
        w = when if "Instant" in t.get("s", "") else tid
        if w not in left:
            raise Unsupported("the key of a map has more than a deadline and an identity")
        left.remove(w)
        return w
    return agg("tuple", 0, (when, tid)) if k is None else make(k)


@m("BTreeMap::new")
def map_new(eng, st, c, info):
    return ret(eng, st, c, mk("map", ()))


@m("BTreeMap::insert", "BTreeMap::remove", "BTreeMap::remove_entry")
def map_ins(eng, st, c, info):
    r, p = st.deref(c.args[0])
    what = c.name.split("::")[1].split("_")[0]
    v = st.rd(r, p)
    k = c.args[1] if what == "insert" else st.load(c.args[1])
    if what == "insert" and r.t == "L" and v.t == "map" and len(v.a[0]) < 4 and all(kk is not k for kk, _ in v.a[0]):
        # a local map
        st.wr(r, p, mk("map", v.a[0] + ((k, c.args[2]),)))
        return ret(eng, st, c, NONE)
    if what == "insert":
        eng.emit(st, "map", "insert", (r, p), k, c.args[2], c.line)
        st.wr(r, p, eng.fresh(st, "timers"))
        return ret(eng, st, c, NONE)
    # removal of a materialised entry by its own key
    if what == "remove":
        eng.emit(st, "progress", c.site, r)
    if v.t == "map":
        for i, (kk, w) in enumerate(v.a[0]):
            if kk is k:
                st.wr(r, p, mk("map", v.a[0][:i] + v.a[0][i + 1:]))
                eng.emit(st, "map", "take", (r, p), kk, w, c.line)
                return ret(eng, st, c, some(agg("tuple", 0, (kk, w)) if "entry" in c.name else w))
    eng.emit(st, "map", "remove", (r, p), k, None, c.line)
    st.wr(r, p, eng.fresh(st, "timers"))
    return choice(eng, st, c, [(NONE, None), (some(mk("removed", mk("const", "entry"))), None)])


@m("BTreeMap::is_empty", "BTreeMap::len")
def map_len(eng, st, c, info):
    r, p = st.deref(c.args[0])
    out = []
    for s, v in map_mat(eng, st, r, p):
        n = len(v.a[0])
        if n >= 2:
            # two or more
            ln = op("maplen", v)
            for i in range(n):
                s.exclude(ln, K(i))
                s.assume(op("lt", K(i), ln), TRUE)
                s.assume(op("lt", ln, K(i)), FALSE)
            s.assume(op("lt", ln, K(n)), FALSE)
        out += ret(eng, s, c, K(n == 0) if c.name.endswith("is_empty") else (K(n) if n < 2 else ln))
    return out


@m("BTreeMap::first_key_value", "BTreeMap::last_key_value")
def map_first(eng, st, c, info):
    r, p = st.deref(c.args[0])
    out = []
    for s, v in map_mat(eng, st, r, p):
        es = v.a[0]
        if not es:
            out += ret(eng, s, c, NONE)
            continue
        k, w = es[0 if "first" in c.name else -1]
        out += ret(eng, s, c, some(agg("tuple", 0, (ref(mk("constmem", k)), ref(mk("constmem", w))))))
    return out


@m("BTreeMap::pop_first", "BTreeMap::pop_last")
def map_pop(eng, st, c, info):
    r, p = st.deref(c.args[0])
    out = []
    for s, v in map_mat(eng, st, r, p):
        es = v.a[0]
        if not es:
            eng.emit(s, "exhausted", c.site)
            out += ret(eng, s, c, NONE)
            continue
        eng.emit(s, "progress", c.site, r)
        i = 0 if "first" in c.name else len(es) - 1
        k, w = es[i]
        s.wr(r, p, mk("map", es[:i] + es[i + 1:]))
        eng.emit(s, "map", "take", (r, p), k, w, c.line)
        out += ret(eng, s, c, some(agg("tuple", 0, (k, w))))
    return out


@m("BTreeMap::first_entry", "BTreeMap::last_entry")
def map_first_entry(eng, st, c, info):
    r, p = st.deref(c.args[0])
    out = []
    for s, v in map_mat(eng, st, r, p):
        es = v.a[0]
        out += ret(eng, s, c, some(mk("mapentry", ref(r, p), K(0 if "first" in c.name else len(es) - 1))) if es else NONE)
    return out


@m("OccupiedEntry::key", "OccupiedEntry::get", "OccupiedEntry::remove", "OccupiedEntry::remove_entry")
def entry_ops(eng, st, c, info):
    e = c.args[0]
    if e.t == "ref":
        e = st.load(e)
    if e.t != "mapentry":
        return None
    r, p = e.a[0].a
    v = st.rd(r, p)
    i = kv(e.a[1])
    k, w = v.a[0][i]
    n = c.name.split("::")[1]
    if n == "key":
        return ret(eng, st, c, ref(mk("constmem", k)))
    if n == "get":
        return ret(eng, st, c, ref(mk("constmem", w)))
    st.wr(r, p, mk("map", v.a[0][:i] + v.a[0][i + 1:]))
    eng.emit(st, "progress", c.site, r)
    eng.emit(st, "map", "take", (r, p), k, w, c.line)
    return ret(eng, st, c, w if n == "remove" else agg("tuple", 0, (k, w)))


@m("BTreeMap::split_off")
def map_split(eng, st, c, info):
    r, p = st.deref(c.args[0])
    k = st.load(c.args[1])
    out = []
    for s, v in map_mat(eng, st, r, p):
        es = v.a[0]
        work = [(s, 0)]
        # entries are sorted: the first i stay
        for i in range(len(es) + 1):
            s2 = s.copy()
            good = True
            for j, (kk, w) in enumerate(es):
                if not s2.assume(lex_lt(eng, s2, kk, k), K(j < i)):
                    good = False
                    break
            if not good:
                continue
            s2.wr(r, p, mk("map", es[:i]))
            s2.trail = Trail(s2.trail, (c.line, "split: %d entries before the bound, %d after" % (i, len(es) - i)))
            out += ret(eng, s2, c, mk("map", es[i:]))
    return out


@m("BTreeMap::clear")
def map_clear(eng, st, c, info):
    r, p = st.deref(c.args[0])
    out = []
    for s, v in map_mat(eng, st, r, p):
        s.wr(r, p, mk("map", ()))
        s.set_top(bb=c.target)
        s.wr(c.dest[0], c.dest[1], UNIT)
        out += eng.start_drop(s, [("val", w, None, None) for _, w in v.a[0]], c.line)
    return out


@m("BTreeMap::append")
def map_append(eng, st, c, info):
    r, p = st.deref(c.args[0])
    r2, p2 = st.deref(c.args[1])
    out = []
    for s, v in map_mat(eng, st, r, p):
        for s2, v2 in map_mat(eng, s, r2, p2):
            s2.wr(r, p, mk("map", v.a[0] + v2.a[0]))
            s2.wr(r2, p2, mk("map", ()))
            out += ret(eng, s2, c, UNIT)
    return out


@m("BTreeMap::iter", "BTreeMap::iter_mut", "BTreeMap::keys", "BTreeMap::values", "BTreeMap::into_keys", "BTreeMap::into_values")
def map_iter(eng, st, c, info):
    n = c.name.split("::")[1]
    out = []
    if n.startswith("into"):
        root = mk("T", st.top.ctx, c.site + "#m")
        st.mem[root] = c.args[0]
        r, p = root, ()
    else:
        r, p = st.deref(c.args[0])
    for s, v in map_mat(eng, st, r, p):
        cm = lambda x: ref(mk("constmem", x))
        if n in ("iter", "iter_mut"):
            its = tuple(agg("tuple", 0, (cm(k), cm(w))) for k, w in v.a[0])
        elif n == "keys":
            its = tuple(cm(k) for k, w in v.a[0])
        elif n == "values":
            its = tuple(cm(w) for k, w in v.a[0])
        elif n == "into_keys":
            its = tuple(k for k, w in v.a[0])
        else:
            its = tuple(w for k, w in v.a[0])
        out += ret(eng, s, c, mk("lit", its))
    return out


@m("BTreeMap::range", "BTreeMap::range_mut")
def map_range(eng, st, c, info):
    r, p = st.deref(c.args[0])
    b = c.args[1]
    tn = eng.prog.ty(c.atys[1]).get("path", "") if len(c.atys) > 1 else ""
    out = []
    for s, v in map_mat(eng, st, r, p):
        es = v.a[0]

        def inside(s, k):
            lo = hi = None
            f = b.a[2] if b.t == "agg" else ()
            if tn.endswith("RangeTo") or tn.endswith("RangeToInclusive"):
                hi = f[0]
            elif tn.endswith("RangeFrom"):
                lo = f[0]
            elif tn.endswith("Range") and len(f) == 2:
                lo, hi = f
            elif tn.endswith("RangeFull"):
                return TRUE
            else:
                return None
            t = TRUE
            if hi is not None:
                x = lex_lt(eng, s, k, hi) if not tn.endswith("Inclusive") else s.evalb(op("not", lex_lt(eng, s, hi, k)))
                t = s.evalb(op("and", t, x))
            if lo is not None:
                t = s.evalb(op("and", t, s.evalb(op("not", lex_lt(eng, s, k, lo)))))
            return t

        combos = [(s, ())]
        for k, w in es:
            nxt = []
            for s1, acc in combos:
                for val in (TRUE, FALSE):
                    s2 = s1.copy()
                    t = inside(s2, k)
                    if t is None:
                        return None
                    if s2.assume(t, val):
                        nxt.append((s2, acc + (((k, w),) if val is TRUE else ())))
            combos = nxt
        cm = lambda x: ref(mk("constmem", x))
        for s2, acc in combos:
            out += ret(eng, s2, c, mk("lit", tuple(agg("tuple", 0, (cm(k), cm(w))) for k, w in acc)))
    return out


@m("BTreeMap::get", "BTreeMap::contains_key", "BTreeMap::entry", "BTreeMap::retain", "BTreeMap::get_mut")
def map_other(eng, st, c, info):
    return None


# ---------------------------------------------------------------- iterators
ITER_TAGS = ("lit", "slabit", "qit", "evit", "rangeit", "anyit")


def as_iter(eng, st, c, v):
    """iterator value for an IntoIterator value (or None)"""
    if v.t in ITER_TAGS:
        return v
    if v.t == "lazyvec":
        return v.a[0]
    if v.t == "bag":
        return mk("lit", tuple(sorted(v.a[0])))
    if v.t == "map":
        return mk("lit", tuple(agg("tuple", 0, (k, w)) for k, w in v.a[0]))
    if v.t == "agg" and v.a[0] == OPT:
        return mk("lit", tuple(v.a[2]))
    if v.t == "agg" and v.a[0] == "array":
        return mk("lit", tuple(v.a[2]))
    if v.t == "agg" and v.a[0] in ("core::ops::range::Range", "core::ops::range::RangeInclusive") and len(v.a[2]) >= 2:
        a, b = st.norm(v.a[2][0]), st.norm(v.a[2][1])
        if a.t == b.t == "k" and kv(b) - kv(a) <= 64:
            inc = 1 if v.a[0].endswith("Inclusive") else 0
            return mk("lit", tuple(K(i) for i in range(kv(a), kv(b) + inc)))
        return mk("rangeit", a, b)
    if v.t == "agg" and ("core::iter::traits::iterator::Iterator", "next", v.a[0], False) in eng.prog.trait_impls:
        return v
    if v.t == "ref":
        x = st.load(v)
        r, p = st.deref(v)
        if x.t == "agg" and x.a[0] == "array":
            return mk("lit", tuple(ref(r, p + (("i", K(i)),)) for i in range(len(x.a[2]))))
        if x.t == "lazyvec":
            return agg("models::ByRef", 0, (x.a[0],))
        if x.t == "bag":
            return mk("lit", tuple(ref(mk("constmem", y)) for y in sorted(x.a[0])))
        if x.t in ITER_TAGS or (x.t == "agg" and ("core::iter::traits::iterator::Iterator", "next", x.a[0], False) in eng.prog.trait_impls):
            return v
        if x.t == "agg" and x.a[0] == OPT:
            return mk("lit", tuple(ref(r, p + (("v", 1), ("f", 0, "0"))) for _ in x.a[2]))
        if x.t == "slab0" or r.t == "D" and is_slab_place(eng, r, p):
            return mk("slabit", ref(r, p), tuple(slab_keys(st, x)))
        n = array_len(eng, st, r, p, v)
        if n:
            return mk("lit", tuple(ref(r, p + (("i", K(i)),)) for i in range(n)))
        if x.t == "events" or x.t == "sym" and "events" in str(x.a):
            return mk("evit", v)
    return None


def is_slab_place(eng, r, p):
    t = type_at(eng, r, p)
    return t is not None and t.get("path") == "slab::Slab"


def type_at(eng, r, p):
    """static type of a place inside lock-protected data"""
    if r.t != "D":
        return None
    tid = eng.lock_ty.get((r.a[0], r.a[1]))
    if tid is None:
        return None
    t = eng.prog.ty(tid)
    var = 0
    for q in p:
        if q[0] == "i":
            if t.get("k") in ("array", "slice") or t.get("path") == "slab::Slab":
                t = eng.prog.ty(t["args"][0])
            else:
                return None
        elif q[0] == "v":
            var = q[1]
        elif q[0] == "f":
            if t.get("variants"):
                t = eng.prog.ty(t["variants"][var]["fields"][q[1]][1])
                var = 0
            elif t.get("k") == "tuple":
                t = eng.prog.ty(t["args"][q[1]])
            else:
                return None
        else:
            return None
    return t


def array_len(eng, st, r, p, v):
    t = type_at(eng, r, p)
    if t is not None and t.get("k") == "array":
        return t.get("len")
    return None


def opt_iter(eng, st, c, x):
    """into_iter of a symbolic Option"""
    d = st.discr(x)
    if d.t == "k":
        return ret(eng, st, c, mk("lit", () if kv(d) == 0 else (project(project(x, ("v", 1)), ("f", 0, "0")),)))
    return forks(eng, st, c, [([(d, K(0))], mk("lit", ()), None), ([(d, K(1))], mk("lit", (project(project(x, ("v", 1)), ("f", 0, "0")),)), None)])


@m("IntoIterator::into_iter", "[T]::iter", "[T]::iter_mut", "Vec::iter", "Vec::iter_mut", "Option::iter", "Option::iter_mut",
   "slice::iter", "iter::once", "iter::empty", "once::once", "empty::empty", "Once::into_iter")
def into_iter(eng, st, c, info):
    if info.get("reslocal"):
        return None
    if c.name in ("iter::once", "once::once"):
        return ret(eng, st, c, mk("lit", (c.args[0],)))
    if c.name in ("iter::empty", "empty::empty"):
        return ret(eng, st, c, mk("lit", ()))
    v = c.args[0]
    it = as_iter(eng, st, c, v)
    if it is not None:
        return ret(eng, st, c, it)
    t = aty(eng, c, 0)
    if t.get("path") == OPT:
        return opt_iter(eng, st, c, v)
    if t.get("path", "").endswith("BTreeMap"):
        root = mk("T", st.top.ctx, c.site + "#m")
        st.mem[root] = v
        out = []
        for s, mv in map_mat(eng, st, root, ()):
            out += ret(eng, s, c, as_iter(eng, s, c, mv))
        return out
    if t.get("k") == "ref":
        inner = eng.prog.ty(t["args"][0])
        r, p = st.deref(v)
        x = st.rd(r, p)
        ip = inner.get("path", "")
        if ip.endswith("BTreeMap"):
            c2name = c.name
            c.name = "BTreeMap::iter"
            o = map_iter(eng, st, c, info)
            c.name = c2name
            return o
        if ip == "slab::Slab":
            return ret(eng, st, c, mk("slabit", ref(r, p), tuple(slab_keys(st, x))))
        if ip == OPT:
            d = st.discr(x)
            e = ref(r, p + (("v", 1), ("f", 0, "0")))
            return forks(eng, st, c, [([(d, K(0))], mk("lit", ()), None), ([(d, K(1))], mk("lit", (e,)), None)])
        if inner.get("k") == "array" and inner.get("len") is not None and inner["len"] <= 8:
            return ret(eng, st, c, mk("lit", tuple(ref(r, p + (("i", K(i)),)) for i in range(inner["len"]))))
        if ip.endswith("polling::Events") or "Events" in inner.get("s", ""):
            return ret(eng, st, c, mk("evit", v))
        if ip.endswith("ConcurrentQueue"):
            return ret(eng, st, c, mk("qit", v))
        return ret(eng, st, c, v if "Iter" in inner.get("s", "") else mk("anyit", v))
    return ret(eng, st, c, v if v.t != "sym" else mk("anyit", v))


@m("Events::iter")
def events_iter(eng, st, c, info):
    return ret(eng, st, c, mk("evit", c.args[0]))


@m("Events::clear")
def events_clear(eng, st, c, info):
    eng.emit(st, "events", "clear", c.args[0], c.line)
    return ret(eng, st, c, UNIT)


@m("Events::new", "Events::with_capacity")
def events_new(eng, st, c, info):
    return ret(eng, st, c, mk("events", K(c.site)))


@m("Events::len", "Events::is_empty")
def events_len(eng, st, c, info):
    return ret(eng, st, c, eng.fresh(st, "evlen"))


@m("Iterator::next", "DoubleEndedIterator::next_back")
def it_next(eng, st, c, info):
    back = c.name.endswith("back")
    a = c.args[0]
    r, p = st.deref(a)
    v = st.rd(r, p)
    for _ in range(4):
        if v.t in ("ref", "box") or (v.t == "agg" and v.a[0] == PIN):
            r, p = st.deref(v)
            v = st.rd(r, p)
    if v.t == "bag" or (v.t == "agg" and v.a[0].startswith("core::ops::range::Range")):
        v2 = as_iter(eng, st, c, v)
        if v2 is not None:
            v = v2
    if v.t in ("lit", "slabit", "evit", "rangeit", "anyit"):
        eng.emit(st, "progress", c.site, r if r.t == "L" else None)
    if v.t == "lit":
        if not v.a[0]:
            eng.emit(st, "exhausted", c.site)
            return ret(eng, st, c, NONE)
        x = v.a[0][-1 if back else 0]
        out = []
        if x.t == "wk":
            # stands for any number of wakers: more of them may follow
            out += ret(eng, st.copy(), c, some(x))
        st.wr(r, p, mk("lit", v.a[0][:-1] if back else v.a[0][1:]))
        return out + ret(eng, st, c, some(x))
    if v.t == "slabit":
        ks = v.a[1]
        if not ks:
            eng.emit(st, "exhausted", c.site)
            return ret(eng, st, c, NONE)
        k = ks[-1 if back else 0]
        st.wr(r, p, mk("slabit", v.a[0], ks[:-1] if back else ks[1:]))
        sr, sp = v.a[0].a
        return ret(eng, st, c, some(agg("tuple", 0, (k, ref(sr, sp + (("i", k),))))))
    if v.t == "qit":
        qr, qp = v.a[0].a
        s2 = st.copy()
        x = eng.fresh(s2, "popped")
        eng.emit(s2, "qpop", (qr, qp), x, c.line)
        s2.trail = Trail(s2.trail, (c.line, "queue yields an operation"))
        out = ret(eng, s2, c, some(x))
        eng.emit(st, "qempty", (qr, qp), c.line)
        st.trail = Trail(st.trail, (c.line, "queue empty"))
        return out + ret(eng, st, c, NONE)
    if v.t == "evit":
        s2 = st.copy()
        x = eng.fresh(s2, "event")
        eng.emit(s2, "ev", x, c.line)
        s2.trail = Trail(s2.trail, (c.line, "next event"))
        out = ret(eng, s2, c, some(x))
        st.trail = Trail(st.trail, (c.line, "no more events"))
        eng.emit(st, "evdone", c.line)
        eng.emit(st, "exhausted", c.site)
        return out + ret(eng, st, c, NONE)
    if v.t in ("rangeit", "anyit"):
        s2 = st.copy()
        x = eng.fresh(s2, "item")
        out = ret(eng, s2, c, some(x))
        if v.t == "rangeit" and v.a[0] in (K(0), K(1)):
            eng.emit(st, "limit", v.a[1], c.line)
        eng.emit(st, "exhausted", c.site)
        return out + ret(eng, st, c, NONE)
    if v.t == "agg" and ("core::iter::traits::iterator::Iterator", "next", v.a[0], False) in eng.prog.trait_impls:
        b = eng.prog.bodies[eng.prog.trait_impls[("core::iter::traits::iterator::Iterator", "next", v.a[0], False)]]
        return [eng.push(st, b, [ref(r, p)], c.dest, c.target, c.uw)]
    return None


def model_call(eng, st, c, name, args):
    b = eng.prog.bodies.get("models::" + name)
    if b is None:
        return None
    return [eng.push(st, b, args, c.dest, c.target, c.uw)]


def via_model(name):
    def f(eng, st, c, info):
        args = list(c.args)
        a = args[0]
        if a.t in ("bag", "map"):
            args[0] = as_iter(eng, st, c, a)
        return model_call(eng, st, c, name, args)
    return f


for _n in ("all", "any", "for_each", "find", "find_map", "position", "fold", "count", "last", "nth", "map", "filter", "filter_map",
           "flat_map", "map_while", "skip", "reduce", "take_while", "skip_while", "take", "enumerate", "inspect", "peekable", "try_for_each"):
    MODELS["Iterator::" + _n] = via_model(_n)
MODELS["Iterator::min"] = via_model("iter_min")
MODELS["Iterator::max"] = via_model("iter_max")
MODELS["Peekable::peek"] = via_model("peek")
MODELS["iter::from_fn"] = MODELS["from_fn::from_fn"] = via_model("from_fn")
MODELS["LocalKey::try_with"] = via_model("try_with")
MODELS["future::poll_fn"] = via_model("poll_fn")
MODELS["poll_fn::poll_fn"] = via_model("poll_fn")


def split_opts(eng, st, c, idx=0):
    """the cases of symbolic Options handed over where any iterable goes: [(state, args)]"""
    out = [(st, list(c.args))]
    for i in range(idx, len(c.args)):
        if aty(eng, c, i).get("path") != OPT:
            continue
        nxt = []
        for s, a in out:
            if a[i].t == "agg":
                nxt.append((s, a))
                continue
            d = s.discr(a[i])
            for n in (0, 1):
                s2 = s.copy()
                if s2.assume(d, K(n)):
                    s2.trail = Trail(s2.trail, (c.line, "%s == %s" % (show(d)[:160], n)))
                    nxt.append((s2, a[:i] + [some(project(project(a[i], ("v", 1)), ("f", 0, "0"))) if n else NONE] + a[i + 1:]))
        out = nxt
    return out


@m("[T; N]::map")
def array_map(eng, st, c, info):
    n = aty(eng, c, 0).get("len")
    if n is None and c.args[0].t == "agg":
        n = len(c.args[0].a[2])
    return model_call(eng, st, c, "array_map%s" % n, list(c.args))


@m("array::from_fn")
def array_from_fn(eng, st, c, info):
    n = eng.prog.ty(c.dty).get("len") if c.dty is not None else None
    return model_call(eng, st, c, "array_from_fn%s" % n, list(c.args))


@m("Iterator::flatten")
def it_flatten(eng, st, c, info):
    """(of Options that are not known: case by case)"""
    v = as_iter(eng, st, c, c.args[0])
    if v is not None and v.t == "lit" and "<core::option::Option<" in aty(eng, c, 0).get("s", ""):
        out = [(st, ())]
        for x in v.a[0]:
            nxt = []
            for s, xs in out:
                if x.t == "agg" or x.t == "ref":
                    nxt.append((s, xs + (x,)))
                    continue
                d = s.discr(x)
                for n in (0, 1):
                    s2 = s.copy()
                    if s2.assume(d, K(n)):
                        s2.trail = Trail(s2.trail, (c.line, "%s == %s" % (show(d)[:160], n)))
                        nxt.append((s2, xs + (some(project(project(x, ("v", 1)), ("f", 0, "0"))) if n else NONE,)))
            out = nxt
        r = []
        for s, xs in out:
            r += model_call(eng, s, c, "flatten", [mk("lit", xs)])
        return r
    return via_model("flatten")(eng, st, c, info)


@m("Iterator::chain", "Iterator::zip")
def it_chain(eng, st, c, info):
    out = []
    for s, a in split_opts(eng, st, c):
        out += model_call(eng, s, c, c.name.split("::")[1], a)
    return out


@m("Iterator::rev", "Iterator::by_ref", "Iterator::fuse", "Iterator::copied", "Iterator::cloned")
def it_rev(eng, st, c, info):
    v = c.args[0]
    n = c.name.split("::")[1]
    if n == "rev":
        if v.t == "lit":
            return ret(eng, st, c, mk("lit", tuple(reversed(v.a[0]))))
        it = as_iter(eng, st, c, v)
        if it is not None and it.t == "lit":
            return ret(eng, st, c, mk("lit", tuple(reversed(it.a[0]))))
        return ret(eng, st, c, v)
    if n in ("copied", "cloned") and v.t == "lit":
        return ret(eng, st, c, mk("lit", tuple(st.load(x) for x in v.a[0])))
    return ret(eng, st, c, v)


@m("Iterator::min_by_key", "Iterator::sum", "Iterator::size_hint", "ExactSizeIterator::len")
def it_misc(eng, st, c, info):
    return None


@m("Future::poll")
def fut_poll(eng, st, c, info):
    """polling a future whose value is known"""
    a = c.args[0]
    r, p = st.deref(a)
    v = st.rd(r, p)
    for _ in range(4):
        if v.t in ("ref", "box") or (v.t == "agg" and v.a[0] == PIN):
            r, p = st.deref(v)
            v = st.rd(r, p)
    if v.t == "coro":
        c.args[0] = pin(ref(r, p))
        return eng.poll_coroutine(st, c)
    if v.t == "agg":
        k = eng.prog.trait_impls.get(("core::future::future::Future", "poll", v.a[0], False))
        if k is not None:
            key = info.get("res")
            if key and key in eng.prog.bodies and info.get("reslocal"):
                k = key
            return [eng.push(st, eng.prog.bodies[k], [pin(ref(r, p))] + list(c.args[1:]), c.dest, c.target, c.uw)]
    return None


@m("IntoFuture::into_future")
def into_future(eng, st, c, info):
    return ret(eng, st, c, c.args[0])


# ---------------------------------------------------------------- polling crate
def poller(what):
    def f(eng, st, c, info):
        # the interest handed over is split into its cases
        for i, a in enumerate(c.args):
            if a.t == "agg" and a.a[0] == "polling::Event":
                for j, x in enumerate(a.a[2]):
                    if x.t == "op":
                        out = []
                        for s2, k in eng.decide(st, x, c.line):
                            c2 = copy.copy(c)
                            fs = list(a.a[2])
                            fs[j] = k
                            c2.args = c.args[:i] + [agg(a.a[0], a.a[1], fs)] + c.args[i + 1:]
                            if k.t != "k":
                                raise Unsupported("cannot split on %s" % show(k)[:200])
                            out += f(eng, s2, c2, info)
                        return out
        eng.emit(st, "poller", what, tuple(c.args[1:]), c.line)
        out = []
        for good in (True, False):
            s2 = st.copy()
            if good:
                v = ok(eng.fresh(s2, "nevents") if what == "wait" else UNIT)
            else:
                v = err(eng.fresh(s2, "oserr"))
            s2.trail = Trail(s2.trail, (c.line, "poller.%s %s" % (what, "ok" if good else "fails")))
            eng.emit(s2, "poller_done", what, good, tuple(c.args[1:]), c.line, v)
            out += ret(eng, s2, c, v)
        return out
    return f


for _n in ("add", "modify", "delete", "wait", "notify", "add_with_mode", "modify_with_mode"):
    MODELS["Poller::" + _n] = poller(_n)


def event(eng, key, r, w):
    t = next(t for t in eng.prog.types if t.get("path") == "polling::Event" and t.get("variants"))
    fs = {"key": key, "readable": r, "writable": w}
    return agg("polling::Event", 0, [fs.get(n) or mk("const", "EventExtra") for n, _ in t["variants"][0]["fields"]])


def poller_ext(what, kind):
    """the extensions of other platforms: a filter or waitable handle instead of a descriptor"""
    g = poller(what + ":" + kind)

    def f(eng, st, c, info):
        c2 = copy.copy(c)
        if kind == "filter" and what != "delete":
            # (a filter has no directions: its one event is reported as both asked for)
            c2.args = [c.args[0], c.args[1], event(eng, c.args[2], TRUE, TRUE), c.args[3]]
        return g(eng, st, c2, info)
    return f


for _n, _k in (("add", "filter"), ("modify", "filter"), ("delete", "filter"), ("add", "waitable"), ("modify", "waitable"), ("remove", "waitable")):
    MODELS["PollerKqueueExt::%s_%s" % (_n, _k) if _k == "filter" else "PollerIocpExt::%s_%s" % (_n, _k)] = poller_ext("delete" if _n == "remove" else _n, _k)


@m("os::kqueue::Process::from_pid", "Process::from_pid")
def process_from_pid(eng, st, c, info):
    if info.get("reslocal"):
        return None
    return ret(eng, st, c, op("process", c.args[0], c.args[1]))


@m("QueueableSealed::registration")
def queueable(eng, st, c, info):
    if info.get("reslocal"):
        return None
    return ret(eng, st, c, op("registration", st.load(c.args[0])))


def ev_new(r, w):
    def f(eng, st, c, info):
        t = eng.prog.ty(c.dty)
        fs = []
        for n, _ in t["variants"][0]["fields"]:
            if n == "key":
                fs.append(c.args[0])
            elif n == "readable":
                fs.append(c.args[1] if r is None else K(r))
            elif n == "writable":
                fs.append(c.args[2] if w is None else K(w))
            else:
                fs.append(mk("const", "EventExtra"))
        return ret(eng, st, c, agg("polling::Event", 0, fs))
    return f


MODELS["Event::none"] = ev_new(False, False)
MODELS["Event::readable"] = ev_new(True, False)
MODELS["Event::writable"] = ev_new(False, True)
MODELS["Event::all"] = ev_new(True, True)
MODELS["Event::new"] = ev_new(None, None)


# ---------------------------------------------------------------- fds
@m("AsFd::as_fd", "AsRawFd::as_raw_fd", "AsSocket::as_socket", "AsRawSocket::as_raw_socket", "AsHandle::as_handle", "AsRawHandle::as_raw_handle")
def as_fd(eng, st, c, info):
    if info.get("reslocal"):
        return None
    x = st.load(c.args[0])
    while x.t in ("ref",):
        x = st.load(x)
    if x.t == "op" and x.a[0] == "fd":
        return ret(eng, st, c, x)
    return ret(eng, st, c, op("fd", x))


@m("BorrowedFd::borrow_raw", "BorrowedSocket::borrow_raw", "BorrowedHandle::borrow_raw")
def borrow_raw(eng, st, c, info):
    return ret(eng, st, c, c.args[0])


# ---------------------------------------------------------------- parking
@m("parking::pair")
def pk_pair(eng, st, c, info):
    s = eng.fresh(st, "parkpair")
    return ret(eng, st, c, agg("tuple", 0, (mk("parker", s), mk("unparker", s))))


@m("Parker::new")
def pk_new(eng, st, c, info):
    return ret(eng, st, c, mk("parker", eng.fresh(st, "parkpair")))


@m("Parker::unparker")
def pk_unparker(eng, st, c, info):
    x = st.load(c.args[0])
    return ret(eng, st, c, mk("unparker", x.a[0] if x.t == "parker" else x))


@m("Parker::park", "Parker::park_timeout", "Parker::park_deadline")
def pk_park(eng, st, c, info):
    x = st.load(c.args[0])
    n = c.name.split("::")[1]
    if n == "park":
        eng.emit(st, "park", x, None, None, c.line)
        return ret(eng, st, c, UNIT)
    out = []
    for v in (TRUE, FALSE):
        s2 = st.copy()
        s2.trail = Trail(s2.trail, (c.line, "%s: %s" % (n, "notified" if v is TRUE else "not notified")))
        eng.emit(s2, "park", x, c.args[1], v, c.line)
        out += ret(eng, s2, c, v)
    return out


@m("Unparker::unpark", "Parker::unpark")
def pk_unpark(eng, st, c, info):
    x = st.load(c.args[0])
    out = []
    for v in (TRUE, FALSE):
        s2 = st.copy()
        s2.trail = Trail(s2.trail, (c.line, "unpark: %s" % ("newly notified" if v is TRUE else "was already notified")))
        eng.emit(s2, "unpark", x, v, c.line)
        out += ret(eng, s2, c, v)
    return out


# ---------------------------------------------------------------- tracing (treated as disabled)
@m("__macro_support::__is_enabled")
def trc(eng, st, c, info):
    return ret(eng, st, c, FALSE)


@m("ops::BitOr::bitor", "BitOr::bitor")
def bitor(eng, st, c, info):
    if info.get("reslocal"):
        return None
    a, b = c.args
    return ret(eng, st, c, op("bitor", *sorted((a, b))))


@m("FdFlags::contains", "OFlags::contains", "FdFlags::union", "OFlags::union", "SocketFlags::union", "FdFlags::insert", "OFlags::insert", "SocketFlags::insert",
   "BitOrAssign::bitor_assign", "bitor_assign", "FdFlags::intersects", "OFlags::intersects")
def flags_ops(eng, st, c, info):
    if info.get("reslocal"):
        return None
    n = c.name.split("::")[-1]
    a, b = c.args
    if n == "union":
        return ret(eng, st, c, op("bitor", *sorted((a, b))))
    if n in ("insert", "bitor_assign"):
        if a.t != "ref":
            return None
        r, p = st.deref(a)
        st.wr(r, p, op("bitor", *sorted((st.rd(r, p), b))))
        return ret(eng, st, c, UNIT)
    return ret(eng, st, c, op("hasbits", st.load(a), b))


@m("slice::from_ref")
def from_ref(eng, st, c, info):
    return ret(eng, st, c, tmp(eng, st, agg("array", 0, (st.load(c.args[0]),)), "s"))


# ---------------------------------------------------------------- drops of modelled values
def drop_bag(eng, st, v, place, tid):
    eng.emit(st, "dropbag", v)
    return [("val", x, None, None) for x in sorted(v.a[0])]


def drop_lit(eng, st, v, place, tid):
    return [("val", x, None, None) for x in v.a[0] if x.t not in ("ref",)]


def drop_map(eng, st, v, place, tid):
    return [("val", w, None, None) for _, w in v.a[0]]


def drop_nothing(eng, st, v, place, tid):
    return []


def drop_refmut(eng, st, v, place, tid):
    eng.emit(st, "unborrow", (v.a[0].a[0], v.a[0].a[1]), v.a[1])
    return []


def drop_removed(eng, st, v, place, tid):
    eng.emit(st, "dropremoved", v.a[0], tid)
    return []


def drop_displaced(eng, st, v, place, tid):
    eng.emit(st, "drop", v.a[0], None)
    return []


Engine.drop_models = {"lazyvec": drop_nothing, "bag": drop_bag, "lit": drop_lit, "map": drop_map, "refmut": drop_refmut, "removed": drop_removed, "absent": drop_nothing,
                      "displaced": drop_displaced, "slabit": drop_nothing, "qit": drop_nothing, "evit": drop_nothing, "events": drop_nothing}


def tls_after(eng, st, a, v):
    """the initialiser of a thread-local returned: perform the `with` call that needed it"""
    raise Unsupported("tls")
