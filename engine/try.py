import sys, os, importlib, time
sys.path.insert(0, "/verif/engine"); sys.path.insert(0, "/verif/specs")
import spec, ir
from ir import *
def main():
    mod = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ""
    m = importlib.import_module(mod)
    us = [u for u in spec.UNITS if pat in u.name and u.fn.__module__ == mod]
    contracts = getattr(m, "CONTRACTS", {})
    files = sorted({f for u in us for f in u.files})
    t=time.time()
    prog = ir.extract(files)
    print("extract %.1f" % (time.time()-t))
    t=time.time()
    res, used = spec.run_units(us, contracts, prog, verbose=True)
    for r in res:
        n = len(r.obls); ok = sum(o.result=="proved" for o in r.obls)
        print("== %s: %s %d/%d gen %.2fs %s" % (r.unit.name, r.status, ok, n, r.gen_s, r.err or ""))
        if r.ex and r.ex.havocked: print("   havocked", r.ex.havocked)
        for o in r.obls:
            if o.result != "proved" or "-v" in sys.argv:
                print("   [%s] %s (%s) %s %s %.1fs" % (o.result, o.name, o.kind, o.where, o.backend, o.secs or 0))
                if "-g" in sys.argv: print("      GOAL", o.goal.sexpr()[:6000])
                if "-m" in sys.argv and o.model: print("      MODEL", o.model[:3000])
    print("solve %.1f" % (time.time()-t), used)
main()
