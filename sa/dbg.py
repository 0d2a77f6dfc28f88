import sys, time, traceback
from .engine import *
from .models import MODELS
class Pr:
    def on(self, eng, st, ev):
        print("   " * len(st.frames), ev[0], " ".join(show(x)[:200] if not isinstance(x, Call) else "" for x in ev[1:]))
def main():
    prog = Program(".build/mir.json", ".build/models.json")
    if len(sys.argv) == 1:
        for k, b in prog.bodies.items():
            if b.local: print(k, b.argc, b.name, b.trait, "pub" if b.pub else "", "cor" if b.coroutine else "")
        return
    names = [k for k, b in prog.bodies.items() if b.local and not b.closure and not b.coroutine] if sys.argv[1] == "all" else [sys.argv[1]]
    for n in names:
        b = prog.bodies[n]
        e = Engine(prog, MODELS, budget=60000)
        if sys.argv[1] != "all": e.observers.append(Pr())
        t = time.time()
        args = [mk("sym", 0, "entry", b.names.get(i + 1, "a%d" % i), 0) for i in range(b.argc)]
        try:
            e.run(b, args)
            print("%-70s ok states %d steps %d paths %d  %.1fs opaque %s" % (n, e.stats["states"], e.stats["steps"], e.stats["paths"], time.time() - t, sorted(short(x) for x in e.stats["calls_opaque"])))
        except Exception as ex:
            print("%-70s FAIL %.1fs %r" % (n, time.time() - t, ex))
            if sys.argv[1] != "all": traceback.print_exc()
main()
