"""SMT back ends: z3 (z3-new) first, cvc5 second."""
import os
import subprocess
import tempfile
import time
from term import *

STATS = {"queries": 0, "time": 0.0, "z3": 0, "cvc5": 0}
Z3 = "z3-new"


def _run(cmd, text, to):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, input=text, capture_output=True, text=True, timeout=to + 2)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    STATS["time"] += time.time() - t0
    STATS["queries"] += 1
    return out


def build(assertions):
    s = Smt()
    for a in assertions:
        if a is not TRUE:
            s.assert_(a)
    return s


def check(assertions, timeout=10, model=None, both=True):
    """returns 'unsat'|'sat'|'unknown' (and model text when sat and model given)"""
    if any(a is FALSE for a in assertions):
        return "unsat", "", "syntactic"
    s = build(assertions)
    body = s.text()
    mt = ""
    if model:
        m = Smt()
        m.decls, m.names, m.lines = s.decls, s.names, s.lines
        names = [s.names[x] if x in s.names else s.term(x) for x in model]
        body = s.text()
        mt = "(get-value (%s))\n" % " ".join(names) if names else ""
    txt = "(set-option :timeout %d)\n%s(check-sat)\n%s" % (int(timeout * 1000), body, mt)
    out = _run([Z3, "-in"], txt, timeout)
    r = out.split("\n", 1)
    if r[0].strip() in ("unsat", "sat"):
        STATS["z3"] += 1
        return r[0].strip(), (r[1] if len(r) > 1 else ""), "z3"
    if both:
        txt = "(set-logic ALL)\n(set-option :produce-models true)\n" + body + "(check-sat)\n" + mt
        out2 = _run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(timeout * 1000), "-"], txt, timeout)
        r = out2.split("\n", 1)
        if r[0].strip() in ("unsat", "sat"):
            STATS["cvc5"] += 1
            return r[0].strip(), (r[1] if len(r) > 1 else ""), "cvc5"
    if "error" in out and not out.lstrip().startswith(("unknown", "timeout")):
        raise RuntimeError("z3: " + out[:400])
    return "unknown", "", "none"
