"""C17 and C22: what safe programs can do with the handle, decided on the type-checked crate and by witness programs.

  exposure   every function of the crate that can mutate, replace, move or drop the handle inside an Async; each must be
             unsafe, consume the Async, be Async's destructor, be private (then its callers count), or be restricted to
             I/O-safe handle types and hand the mutable reference only to Read and Write methods
  signatures no safe public function hands out mutable access to the handle of an Async it has borrowed
  marker     IoSafe is unsafe to implement, and every implementation is for a type known to keep its handle
  witnesses  programs that must be rejected, with twins that must compile, and programs that must compile (sa/witness.py)
"""
import glob
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .common import *
from . import witness

# handle types of std whose Read and Write implementations neither drop nor replace the handle
KEEP = {"File", "Stderr", "Stdin", "Stdout", "StderrLock", "StdinLock", "StdoutLock", "TcpStream", "TcpListener", "UdpSocket",
        "ChildStdin", "ChildStdout", "ChildStderr", "UnixStream", "UnixListener", "UnixDatagram", "PipeReader", "PipeWriter"}
# std wrappers that keep the handle when the type they wrap does
WRAP = {"BufReader", "BufWriter", "LineWriter", "Box", "Cow"}


def last(p):
    return p.rsplit("::", 1)[-1]


class Types:
    def __init__(self, c):
        self.c, self.prog = c, c.prog
        self.raw = json.load(open(c.mir))
        self.T = self.raw["types"]
        self.bodies = {k: b for k, b in self.raw["bodies"].items() if b["local"]}
        c.looked = {b["path"] for b in self.bodies.values()}
        a = [t for t in self.T if t.get("k") == "adt" and t.get("local") and t["path"] == "Async" and t.get("variants")
             and self.T[t["args"][0]].get("k") == "param"]
        if not a:
            raise Missing("the type Async")
        self.adt = a[0]
        par = self.T[self.adt["args"][0]]["s"]
        fs = self.adt["variants"][0]["fields"]
        self.io = [i for i, (n, f) in enumerate(fs) if self.mentions(f, par) and "PhantomData" not in self.T[f]["s"]]
        if not self.io:
            raise Missing("the field of Async that holds the handle")
        self.vis = [fs[i][0] for i in self.io if self.adt["variants"][0]["vis"][i]]

    # ---- types
    def s(self, t):
        """a type's text without its regions"""
        return re.sub(r"'\w+ ", "", re.sub(r"<'\w+>", "", re.sub(r"'\w+, ", "", self.T[t]["s"])))

    def mentions(self, t, what, seen=()):
        if t in seen:
            return False
        if self.s(t) == what:
            return True
        return any(self.mentions(x, what, seen + (t,)) for x in self.T[t].get("args") or ())

    def asyncs(self, t, own=True, seen=()):
        """(handle type, owned) for every Async in a type"""
        if t in seen:
            return
        x = self.T[t]
        if x.get("k") == "adt" and x.get("path") == "Async" and x.get("local"):
            yield self.s(x["args"][0]), own
            return
        o = own and x.get("k") in ("adt", "tuple", "closure", "coroutine") and x.get("path") not in (
            "alloc::sync::Arc", "alloc::rc::Rc")
        for y in x.get("args") or ():
            yield from self.asyncs(y, o, seen + (t,))
        if x.get("k") == "adt" and x.get("local") and x.get("path") != "Async":
            for v in x.get("variants") or ():
                for _, f in v["fields"]:
                    yield from self.asyncs(f, o, seen + (t,))

    def root(self, b):
        for _ in range(8):
            p = b.get("parent")
            if p is None or p not in self.bodies:
                return b
            b = self.bodies[p]
        return b

    # ---- walks
    def places(self, b):
        """(place, how, line) with how in read, write, mut, move, drop"""
        def op(o, ln):
            if o[0] in ("copy", "move"):
                yield o[1], o[0], ln

        for bb in b["blocks"]:
            if bb.get("c"):
                pass
            for st in bb["s"]:
                if st[0] == "=":
                    yield st[1], "write", st[3]
                    r = st[2]
                    if r[0] == "ref":
                        yield r[2], "mut" if r[1] else "read", st[3]
                    else:
                        for o in self.operands(r):
                            yield from op(o, st[3])
                elif st[0] == "setdiscr":
                    yield st[1], "write", st[3]
            t = bb["t"]
            if t["k"] == "drop" and t.get("nd"):
                yield t["p"], "drop", t["ln"]
            elif t["k"] == "call":
                yield t["d"], "write", t["ln"]
                for o in t["a"]:
                    yield from op(o, t["ln"])
                yield from op(t["f"], t["ln"])

    def operands(self, r):
        if isinstance(r, list):
            if len(r) == 2 and r[0] in ("copy", "move", "const"):
                yield r
            else:
                for x in r:
                    yield from self.operands(x)

    def consts(self, b):
        """the function items a body mentions: (info, line)"""
        for bb in b["blocks"]:
            for st in bb["s"]:
                if st[0] == "=":
                    for o in self.operands(st[2]):
                        if o[0] == "const" and o[1].get("fn"):
                            yield o[1]["fn"], st[3]
            t = bb["t"]
            if t["k"] == "call":
                for o in t["a"] + [t["f"]]:
                    if o[0] == "const" and o[1].get("fn"):
                        yield o[1]["fn"], t["ln"]

    def io_of(self, place):
        """does a place lie in the handle field of an Async"""
        for p in place[1]:
            if p[0] == "f" and p[1] in self.io and isinstance(p[3], int):
                t = self.T[p[3]]
                if t.get("k") == "adt" and t.get("path") == "Async" and t.get("local"):
                    return True
        return False


def param_iosafe(ty, b, x):
    """is the handle type x restricted to I/O-safe types in function b"""
    for p in b.get("preds") or ():
        if last(p["trait"]) == "IoSafe" and not p.get("proj") and ty.s(p["args"][0]) == x:
            return True
    # a concrete handle type
    return last(x.split("<")[0]) in KEEP


def plain(ty, t, seen=()):
    """is a type plain data: no operating system resource, whatever is done to its value"""
    x = ty.T[t]
    if t in seen or x.get("k") == "prim":
        return True
    if x.get("k") == "adt" and not x.get("local"):
        return x["path"] in ("core::num::nonzero::NonZero", "core::option::Option", "core::marker::PhantomData") and all(plain(ty, a, seen + (t,)) for a in x.get("args") or ())
    if x.get("k") == "adt":
        if any(last(im.get("tpath") or "") in ("Drop", "AsFd", "AsRawFd", "AsHandle", "AsSocket") and ty.T[im["self"]].get("path") == x["path"] for im in ty.raw["impls"]):
            return False
        return bool(x.get("variants")) and all(plain(ty, f, seen + (t,)) for v in x["variants"] for _, f in v["fields"])
    return x.get("k") == "tuple" and all(plain(ty, a, seen + (t,)) for a in x.get("args") or ())


def param_plain(ty, b, x):
    """is the handle type x restricted to types that hold no handle: through a trait that only such types of this crate implement"""
    tr = {t["path"]: t for t in ty.raw["traits"]}

    def sealed(p, seen=()):
        t = tr.get(p)
        return t is not None and p not in seen and (not t["exported"] or any(sealed(s, seen + (p,)) for s in t["supers"]))

    for p in b.get("preds") or ():
        if not p.get("proj") and ty.s(p["args"][0]) == x and sealed(p["trait"]):
            ims = [im for im in ty.raw["impls"] if im.get("tpath") == p["trait"]]
            if ims and all(plain(ty, im["self"]) for im in ims):
                return True
    return False


def exposure(c, ty):
    direct = {}
    calls = {}
    roots = {}
    for b in ty.bodies.values():
        r = ty.root(b)
        roots[r["key"]] = r
        for place, how, ln in ty.places(b):
            if how in ("write", "mut", "move", "drop") and ty.io_of(place):
                direct.setdefault(r["key"], []).append((how, ln))
            if how in ("write", "mut") and place[1] and place[1][0][0] == "*":
                lt = ty.T[b["locals"][place[0]]]
                if lt.get("k") == "ptr":
                    hs = {x for i in r.get("inputs") or () for x, _ in ty.asyncs(i)}
                    if ty.s(lt["args"][0]) in hs:
                        direct.setdefault(r["key"], []).append((how + " through a raw pointer", ln))
        for f, ln in ty.consts(b):
            k = f.get("res") or f["key"]
            if k in ty.bodies:
                calls.setdefault(r["key"], []).append((ty.root(ty.bodies[k])["key"], ln))
    c.ob("C17", "the handle's field is private")
    for f in ty.vis:
        c.fail("C17", "public-field:%s" % f, "the field %s of Async, which holds the handle, is public" % f, entry="Async")

    def takes_async(r):
        return any(True for i in r.get("inputs") or () for _ in ty.asyncs(i))

    def consumes(r):
        return any(o for i in r.get("inputs") or () for _, o in ty.asyncs(i))

    def is_drop(r):
        return last(r.get("trait") or "") == "Drop" and any(True for _ in ty.asyncs(r["self_ty"]))

    def builds(r):
        """constructors write the handle into the Async they make, by an aggregate; they take no Async"""
        return not takes_async(r)

    # functions that give, or use, mutable access
    mut = {k: v for k, v in direct.items()}
    work = list(mut)
    why = {k: "%s of the handle at line %s" % v[0] for k, v in direct.items()}
    terminal = {}
    while work:
        k = work.pop()
        r = roots[k]
        c.ob("C17", "a function that can change the handle of an Async is unsafe, consumes the Async, is its destructor, is private, or is for I/O-safe handles only")
        if r.get("unsafe"):
            terminal[k] = "unsafe"
        elif is_drop(r):
            terminal[k] = "destructor"
        elif consumes(r):
            terminal[k] = "consumes"
        elif builds(r):
            terminal[k] = "builds"
        # the callers
        if terminal.get(k) in ("destructor", "consumes", "builds"):
            continue
        for k2, cs in calls.items():
            for callee, ln in cs:
                if callee == k and k2 not in mut and k2 != k:
                    mut[k2] = []
                    why[k2] = "calls %s at line %s" % (roots[k]["path"], ln)
                    work.append(k2)
    # what each function does with the mutable reference
    bad = {}
    n = 0
    for k in mut:
        r = roots[k]
        if terminal.get(k) in ("destructor", "consumes", "builds"):
            continue
        n += 1
        exported = not r.get("unsafe") and (r.get("pub") or r.get("trait"))
        hs = sorted({x for i in r.get("inputs") or () for x, _ in ty.asyncs(i)})
        for b in ty.bodies.values():
            if ty.root(b)["key"] != k:
                continue
            for place, how, ln in ty.places(b):
                if how in ("write", "drop", "move") and (ty.io_of(place) or deref_of(ty, b, place, hs)):
                    bad.setdefault(k, []).append(("replaces", "replaces, moves or drops the handle inside a live Async", ln))
            for bb in b["blocks"]:
                t = bb["t"]
                if t["k"] != "call":
                    continue
                f = t["f"][1].get("fn") if t["f"][0] == "const" else None
                for at in t["aty"]:
                    if not passes_mut(ty, at, hs):
                        continue
                    c.ob("C17", "the mutable reference goes only to Read and Write methods")
                    if not fine_use(ty, f, at, t["aty"], not exported):
                        bad.setdefault(k, []).append(("leaks-mut", "passes mutable access to the handle to %s" % (f["path"] if f else "a function value"), t["ln"]))
    for k in mut:
        r = roots[k]
        if k in terminal or not (r.get("pub") or r.get("trait")):
            continue
        hs = sorted({x for i in r.get("inputs") or () for x, _ in ty.asyncs(i)})
        for x in hs:
            c.ob("C17", "safe code gets at the handle's mutable side only for I/O-safe handle types")
            if not param_iosafe(ty, r, x) and not param_plain(ty, r, x):
                c.fail("C17", "safe-mut:%s" % r["path"], "%s is safe, not restricted to I/O-safe handles, and can change the handle of an Async (%s)" % (r["path"], why[k]),
                       line=r["span"], entry=r["path"])
        seen, todo = {k}, [k]
        while todo:
            x = todo.pop()
            for key, what, ln in bad.get(x, ()):
                via = "" if x == k else " through %s" % roots[x]["path"]
                c.fail("C17", "%s:%s" % (key, r["path"]), "%s is safe and%s %s" % (r["path"], via, what), line=ln, entry=r["path"])
            for y, _ in calls.get(x, ()):
                if y in mut and y not in seen and terminal.get(y) not in ("destructor", "consumes", "builds"):
                    seen.add(y)
                    todo.append(y)
    return len(mut), n


def deref_of(ty, b, place, hs):
    """is a place the whole of what a `&mut handle` local points to"""
    if len(place[1]) == 1 and place[1][0][0] == "*":
        lt = ty.T[b["locals"][place[0]]]
        return lt.get("k") == "ref" and lt.get("mut") and ty.s(lt["args"][0]) in hs
    return False


def passes_mut(ty, at, hs):
    x = ty.T[at]
    if x.get("k") == "ref" and x.get("mut"):
        s = ty.s(x["args"][0])
        return s in hs or any(s == w % h for h in hs for w in ("core::option::Option<%s>",))
    if x.get("k") == "tuple":
        return any(passes_mut(ty, y, hs) for y in x.get("args") or ())
    return False


# ways of turning `&mut Option<T>` or `&mut T` into another reference to the same value
REBORROW = {"as_mut", "as_deref_mut", "iter_mut", "deref_mut", "borrow_mut", "new", "get_mut", "as_ref", "is_some", "is_none", "by_ref", "deref",
            "new_unchecked", "unwrap_unchecked", "from", "into"}


def fine_use(ty, f, at, aty, param):
    if f is None:
        return False
    tr = last(f.get("trait") or "")
    if tr in ("Read", "Write", "BufRead", "Seek"):
        return True
    k = f.get("res") or f["key"]
    if k in ty.bodies:
        return True                     # analysed itself
    if tr in ("Fn", "FnMut", "FnOnce"):
        t0 = ty.T[aty[0]]
        while t0.get("k") == "ref":
            t0 = ty.T[t0["args"][0]]
        return t0.get("k") in ("closure", "fndef") or param and t0.get("k") == "param"
    return f.get("name") in REBORROW


def signatures(c, ty):
    """no safe public function hands out mutable access to, or the value of, the handle of a borrowed Async"""
    n = 0
    for b in ty.bodies.values():
        if b.get("inputs") is None or b.get("unsafe") or not (b.get("pub") or b.get("trait")):
            continue
        hs = {}
        for i in b["inputs"]:
            for x, o in ty.asyncs(i):
                hs[x] = hs.get(x, False) or o
        if not hs:
            continue
        n += 1
        c.ob("C17", "a safe public function gives no mutable access to the handle through its result or its closures")
        for x, owned in hs.items():
            if param_plain(ty, b, x):
                continue
            if gives_mut(ty, b["output"], x):
                c.fail("C17", "returns-mut:%s" % b["path"], "%s is safe and returns mutable access to the handle" % b["path"], line=b["span"], entry=b["path"])
            for p in b.get("preds") or ():
                if last(p["trait"]) in ("Fn", "FnMut", "FnOnce", "AsyncFn", "AsyncFnMut", "AsyncFnOnce") and not p.get("proj") and len(p["args"]) > 1:
                    if gives_mut(ty, p["args"][1], x):
                        c.fail("C17", "closure-mut:%s" % b["path"], "%s is safe and gives its closure mutable access to the handle" % b["path"], line=b["span"], entry=b["path"])
    return n


def gives_mut(ty, t, x, seen=()):
    if t in seen:
        return False
    y = ty.T[t]
    if y.get("k") == "ref" and y.get("mut") and ty.s(y["args"][0]) == x:
        return True
    for p in y.get("bounds") or ():
        if last(p["trait"]) in ("DerefMut", "AsMut", "BorrowMut") and any(ty.mentions(z, x) for z in p["args"]):
            return True
        if p.get("proj") and p.get("term") is not None and gives_mut(ty, p["term"], x, seen + (t,)):
            return True
    if any(gives_mut(ty, z, x, seen + (t,)) for z in y.get("args") or ()):
        return True
    if y.get("k") == "adt" and y.get("local") and y.get("path") != "Async":
        return any(gives_mut(ty, f, x, seen + (t,)) for v in y.get("variants") or () for _, f in v["fields"])
    return False


def marker(c, ty):
    tr = [t for t in ty.raw["traits"] if last(t["path"]) == "IoSafe"]
    if not tr:
        raise Missing("the trait IoSafe")
    c.ob("C17", "IoSafe is an unsafe trait")
    if not tr[0]["unsafe"]:
        c.fail("C17", "marker-safe", "IoSafe can be implemented without unsafe", entry="IoSafe")
    n = 0
    for im in ty.raw["impls"]:
        if not im.get("tpath") or last(im["tpath"]) != "IoSafe":
            continue
        n += 1
        t = ty.T[im["self"]]
        safe = {ty.s(p["args"][0]) for p in im["preds"] if last(p["trait"]) == "IoSafe" and not p.get("proj")}
        c.ob("C17", "every type marked I/O-safe keeps its handle when it is read or written")
        if not keeps(ty, t, safe):
            c.fail("C17", "marker:%s" % ty.s(im["self"]), "%s is marked I/O-safe, but its reads and writes may drop or replace the handle, or it is not known to keep it" % ty.s(im["self"]),
                   line=im["ln"], entry="IoSafe")
    return n


def keeps(ty, t, safe):
    if t["s"] in safe:
        return True
    k = t.get("k")
    if k == "ref":
        return not t.get("mut") or keeps(ty, ty.T[t["args"][0]], safe)
    if k == "adt" and not t.get("local"):
        n = last(t["path"])
        if n in KEEP:
            return True
        if n in WRAP:
            return any(keeps(ty, ty.T[a], safe) for a in t["args"][:1])
    if k == "adt" and t.get("local"):
        # the platform handles of the os module: no Read or Write implementation in the crate
        for im in ty.raw["impls"]:
            if im.get("tpath") and last(im["tpath"]) in ("Read", "Write") and ty.s(im["self"]).split("<")[0] == t["path"]:
                return False
        return not any(ty.T[a].get("k") == "param" for a in t["args"])
    return False


# ---- witnesses
def rustc(c):
    B = os.path.join(VERIF, ".build", "harness", "debug")
    dirs = sorted({os.path.dirname(x) for x in glob.glob(B + "/**/*.rmeta", recursive=True)})
    cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "w", "--emit=metadata", "-"]
    for n in ("async_io", "futures_io"):
        x = sorted(glob.glob((c.rmeta if n == "async_io" else B) + "/**/lib%s-*.rmeta" % n, recursive=True), key=os.path.getmtime)
        if not x:
            raise Missing("the compiled %s" % n)
        cmd += ["--extern", "%s=%s" % (n, x[-1])]
    for d in dirs:
        cmd += ["-L", "dependency=" + d]
    return cmd


def compile_(cmd, src):
    with tempfile.TemporaryDirectory() as d:
        r = subprocess.run(cmd + ["--out-dir", d], input=witness.PRE + src, text=True, capture_output=True)
    return r.returncode == 0, re.sub(r"\s+", " ", "; ".join(re.findall(r"^error.*$", r.stderr, re.M)[:2]))


def witnesses(c, pid):
    cmd = rustc(c)
    ok, err = compile_(cmd, "")
    if not ok:
        raise Missing("the public API the witnesses import: " + err)

    def do(w):
        return [compile_(cmd, w[3])] + ([compile_(cmd, w[5])] if len(w) > 4 else [])

    ws = [w for w in witness.BAD + witness.GOOD if w[0] == pid]
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(do, ws))
    for w, r in zip(ws, rs):
        name, what = w[1], w[2]
        if len(w) > 4:
            c.ob(pid, "rejected: " + what)
            if r[0][0]:
                c.fail(pid, "accepted:" + name, "the compiler accepts a program that must not exist (%s): %s" % (what, w[3]), entry=name)
            elif not r[1][0]:
                if pid == "C22":
                    c.fail(pid, "rejected:" + name, "the compiler rejects a program that must be possible (%s): %s [%s]" % (what, w[5], r[1][1]), entry=name)
                else:
                    raise Missing("a valid use of the API (%s): %s [%s]" % (name, w[5], r[1][1]))
        else:
            c.ob(pid, "accepted: " + what)
            if not r[0][0]:
                c.fail(pid, "rejected:" + name, "the compiler rejects a program that must be possible (%s): %s [%s]" % (what, w[3], r[0][1]), entry=name)
    return len(ws)


def analyse_safety(c):
    ty = Types(c)
    m, n = exposure(c, ty)
    s = signatures(c, ty)
    k = marker(c, ty)
    # (the witness programs are built for the host)
    w = witnesses(c, "C17") if c.plat.target is None else 0
    print("C17: %d functions reach the handle's mutable side, %d of them leave an Async behind; %d signatures; %d implementations of IoSafe; %d witnesses" % (m, n, s, k, w))


def analyse_auto(c):
    ty = Types(c)
    for im in ty.raw["impls"]:
        if im.get("tpath") in ("core::marker::Send", "core::marker::Sync") or (im.get("tpath") or "").endswith(("UnwindSafe",)):
            c.ob("C22", "hand-written Send and Sync implementations are conditional on the handle")
            tr = last(im["tpath"])
            t = ty.T[im["self"]]
            hs = [ty.s(a) for a in t.get("args") or () if ty.T[a].get("k") == "param"]
            for h in hs:
                if not any(last(p["trait"]) in ("Send", "Sync") and ty.s(p["args"][0]) == h for p in im["preds"]):
                    c.fail("C22", "unconditional-%s:%s" % (tr, ty.s(im["self"])), "%s is made %s for every %s" % (ty.s(im["self"]), tr, h), line=im["ln"], entry=ty.s(im["self"]))
    w = witnesses(c, "C22")
    print("C22: %d witnesses" % w)
