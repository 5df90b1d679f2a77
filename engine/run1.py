import sys, time
sys.path.insert(0, "/verif/engine")
import llvmir, engine, builtins_, solver
from term import *
m = llvmir.Module(sys.argv[1])
for fn in sys.argv[2:]:
    E = engine.Engine(m, {"debug": 1})
    t0 = time.time()
    import re
    import stdcontracts; E.contracts = [(re.compile(a), b) for a, b, c in stdcontracts.STD]
    E.call_function(m.fns[fn], [], TRUE)
    print(fn, "exec", round(time.time() - t0, 2), "obs", len(E.obs), "facts", len(E.facts), E.loops, E.launches)
    for o in E.obs:
        if o.status == "trivial":
            print("  trivial", o.kind, o.label, o.loc); continue
        g = and_(o.guard, not_(o.goal))
        fs = engine.relevant(E.facts[:o.nf] + (o.scope or []), g)
        r, mm, by = solver.check(fs + [g], 10, model=[t for n, t in E.syms if not isinstance(t, engine.Region)])
        print("  ", r, by, o.kind, o.label, o.loc, mm[:300].replace("\n", " ") if r == "sat" else "")
