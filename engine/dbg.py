"""dev: dump a failing obligation: dbg.py ID vc_fn [index-of-failing]"""
import sys, glob, os, re
sys.path.insert(0, "/verif/engine"); sys.setrecursionlimit(20000)
import llvmir, engine, builtins_, solver, stdcontracts, check
from term import *
pid, fn = sys.argv[1:3]
which = int(sys.argv[3]) if len(sys.argv) > 3 else 0
bcs = sorted(glob.glob("/verif/build/vc_%s_*/o.bc" % pid), key=os.path.getmtime)
M = check.meta("/verif/contracts/%s.cpp" % pid)
o = dict(M["opts"]); o["debug"] = 1
E = engine.Engine(llvmir.Module(bcs[-1]), o)
E.contracts = [(re.compile(a), b) for a, b, c in stdcontracts.STD]
E.call_function(E.m.fns[fn], [], TRUE)
n = 0
for ob in E.obs:
    if ob.status == "trivial" or ob.kind == "reach": continue
    g = and_(ob.guard, not_(ob.goal))
    fs = engine.relevant(E.facts[:ob.nf] + (ob.scope or []), g)
    r, mm, by = solver.check(fs + [g], 10, model=[t for nm, t in E.syms if not isinstance(t, engine.Region)])
    if r == "unsat": continue
    if n == which:
        print(r, ob.kind, ob.label, ob.loc)
        print("GOAL", ob.goal); print("GUARD", ob.guard); print("FACTS")
        for f in fs: print("   ", f)
        print(mm)
        break
    n += 1
