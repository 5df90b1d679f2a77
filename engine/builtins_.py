"""Meaning of runtime, compiler, SYCL and harness calls (assumed dependency contracts)."""
import re
from fractions import Fraction
import term as TM
from term import *
import engine as EN
from engine import Ptr, PtrSet, PtrInt, Fn, NULL, NULLR, Unsupported, vite, tykey, Region
import llvmir as IR

STOP = object()
EXACT = {}
PREFIX = []


def bi(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def bp(*names):
    def d(f):
        for n in names:
            PREFIX.append((n, f))
        return f
    return d


_cache = {}


def lookup(n):
    if n in _cache:
        return _cache[n]
    r = EXACT.get(n)
    if r is None:
        for p, f in PREFIX:
            if n.startswith(p):
                r = f
                break
    _cache[n] = r
    return r


def cstr(E, p):
    if not isinstance(p, Ptr) or p.r.init is None:
        return "?"
    c = p.r.init
    if c.kind != "agg":
        return ""
    s = ""
    for x in c.v[p.off.args:]:
        if x.v == 0:
            break
        s += chr(x.v & 0xff)
    return s


@bp("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant", "llvm.prefetch", "llvm.stacksave", "llvm.stackrestore", "llvm.va_")
@bi("__cxa_atexit", "__npv_free", "_ZdlPv", "_ZdlPvm", "free", "_ZdaPv", "_ZdaPvm", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_end_catch")
def nop(E, I, a, g):
    return None if I.ty.kind == "void" else E.undef(I.ty)


@bi("__cxa_guard_acquire")
def ga(E, I, a, g):
    return ONE


@bi("llvm.assume")
def lassume(E, I, a, g):
    if a[0] is not None:
        E.fact(a[0], g)


@bi("llvm.expect.i1", "llvm.expect.i64")
def lexpect(E, I, a, g):
    return a[0]


@bp("llvm.umul.with.overflow", "llvm.uadd.with.overflow", "llvm.usub.with.overflow")
def uov(E, I, a, g):
    w = I.ops[0].ty.width
    x, y = E.ubits(a[0], w), E.ubits(a[1], w)
    e = mul(x, y) if "mul" in I.x.v.name else (add(x, y) if "add" in I.x.v.name else sub(x, y))
    if "sub" in I.x.v.name:
        ov = lt(e, ZERO)
    else:
        ov = lt(num((1 << w) - 1), e)
    r = E.wrapped(e, w, and_(g, not_(ov)), "ov", "")
    return (r, ov)


@bp("llvm.smul.with.overflow", "llvm.sadd.with.overflow", "llvm.ssub.with.overflow")
def sov(E, I, a, g):
    w = I.ops[0].ty.width
    x, y = a[0], a[1]
    e = mul(x, y) if "mul" in I.x.v.name else (add(x, y) if "add" in I.x.v.name else sub(x, y))
    h = 1 << (w - 1)
    ov = not_(and_(le(num(-h), e), le(e, num(h - 1))))
    return (E.wrapped(e, w, and_(g, not_(ov)), "ov", ""), ov)


@bi("abort", "exit", "_exit", "MPI_Abort", "llvm.trap", "__cxa_throw", "_ZSt9terminatev", "__clang_call_terminate", "_ZSt17__throw_bad_allocv", "__cxa_rethrow", "__cxa_pure_virtual")
@bp("_ZSt", "_ZNSt") if False else (lambda f: f)
def stop(E, I, a, g):
    return STOP


@bp("_ZSt20__throw", "_ZSt24__throw", "_ZSt19__throw", "_ZSt16__throw", "_ZSt17__throw", "_ZSt21__throw", "_ZSt28__throw", "_ZSt25__throw", "_ZSt22__throw", "_ZSt26__throw", "_ZSt18__throw", "_ZSt23__throw")
def stop2(E, I, a, g):
    return STOP


@bi("ldiv", "lldiv", "div")
def cdiv(E, I, a, g):
    x, y = a
    E.ob("div", "division by zero", g, not_(eq(y, ZERO)), E.loc(I))
    q = E.sdiv(x, y, g)
    r = sub(x, mul(q, y))
    if I.x.v.name != "div":
        return (q, r)
    # two 32-bit halves in one register
    if not E.prove(g, and_(le(ZERO, q), le(ZERO, r), lt(q, num(1 << 31)), lt(r, num(1 << 31)))):
        raise Unsupported("div of negative values")
    qv, rv = E.fresh("quot", "I", 0, (1 << 31) - 1), E.fresh("rem", "I", 0, (1 << 31) - 1)
    E.fact(and_(eq(qv, q), eq(rv, r)), g)
    E.fact(implies(and_(lt(ZERO, y), le(ZERO, x)), and_(lt(rv, y), eq(x, add(mul(qv, y), rv)))), g)
    return add(qv, scale(1 << 32, rv))


def minmax(fn):
    def f(E, I, a, g):
        x, y = a
        if "umax" in I.x.v.name or "umin" in I.x.v.name:
            c = E.icmp(36, x, y, I.ty.width)
        else:
            c = lt(x, y)
        return fn(c, x, y)
    return f


for n in ("smax", "umax"):
    PREFIX.append(("llvm.%s." % n, minmax(lambda c, x, y: mk_minmax(c, y, x))))
for n in ("smin", "umin"):
    PREFIX.append(("llvm.%s." % n, minmax(lambda c, x, y: mk_minmax(c, x, y, True))))


def mk_minmax(c, a, b, mn=False):
    t = ite(c, a, b)
    if t.op == "ite":
        los = [x.lo for x in (a, b)]
        his = [x.hi for x in (a, b)]
        if mn:
            hs = [h for h in his if h is not None]
            if hs and (t.hi is None or min(hs) < t.hi):
                t.hi = min(hs)
        else:
            ls = [h for h in los if h is not None]
            if ls and (t.lo is None or max(ls) > t.lo):
                t.lo = max(ls)
    return t


@bp("llvm.abs.")
def labs(E, I, a, g):
    t = ite(le(ZERO, a[0]), a[0], neg(a[0]))
    if t.op == "ite":
        t.lo = 0
    return t


@bp("llvm.usub.sat.")
def usat(E, I, a, g):
    c = E.icmp(36, a[1], a[0], I.ty.width)
    return ite(c, sub(a[0], a[1]), ZERO)


# ---------------------------------------------------------------- float functions
@bp("llvm.fabs.")
@bi("fabs")
def fabs(E, I, a, g):
    return ite(le(num(0, "R"), a[0]), a[0], neg(a[0]))


@bp("llvm.floor.")
@bi("floor")
def ffloor(E, I, a, g):
    return toreal(toint(a[0]))


@bp("llvm.ceil.")
@bi("ceil")
def fceil(E, I, a, g):
    return neg(toreal(toint(neg(a[0]))))


@bp("llvm.trunc.")
@bi("trunc")
def ftrunc(E, I, a, g):
    return toreal(E.trunc_to_int(a[0]))


@bp("llvm.round.", "llvm.rint.", "llvm.nearbyint")
@bi("round")
def fround(E, I, a, g):
    x = a[0]
    h = num(Fraction(1, 2), "R")
    return ite(le(num(0, "R"), x), toreal(toint(add(x, h))), neg(toreal(toint(sub(h, x)))))


@bi("fmod")
def ffmod(E, I, a, g):
    E.assumptions.add("floating-point arithmetic treated as real arithmetic")
    return E.fmod(a[0], a[1])


@bp("llvm.minnum.")
@bi("fmin")
def ffmin(E, I, a, g):
    return ite(lt(a[1], a[0]), a[1], a[0])


@bp("llvm.maxnum.")
@bi("fmax")
def ffmax(E, I, a, g):
    return ite(lt(a[0], a[1]), a[1], a[0])


@bp("llvm.fmuladd.", "llvm.fma.")
@bi("fma")
def ffma(E, I, a, g):
    return add(mul(a[0], a[1]), a[2])


@bp("llvm.copysign.")
def fcs(E, I, a, g):
    x = ite(le(num(0, "R"), a[0]), a[0], neg(a[0]))
    return ite(le(num(0, "R"), a[1]), x, neg(x))


@bp("llvm.is.fpclass")
def fpc(E, I, a, g):
    return FALSE


@bp("llvm.sqrt.")
@bi("sqrt")
def fsqrt(E, I, a, g):
    r = app("sqrt", (a[0],), "R", Fraction(0), None)
    E.fact(implies(le(num(0, "R"), a[0]), and_(le(num(0, "R"), r), eq(mul(r, r), a[0]))))
    return r


def uf(name):
    def f(E, I, a, g):
        return app(name, tuple(a), "R")
    return f


for n in ("exp", "log", "sin", "cos", "tan", "pow", "log2", "log10", "atan2", "hypot", "acos", "asin", "atan", "tgamma", "cbrt", "sinh", "cosh", "tanh"):
    EXACT[n] = uf(n)
    PREFIX.append(("llvm.%s.f" % n, uf(n)))


# ---------------------------------------------------------------- memory
@bp("llvm.memcpy.", "llvm.memmove.")
@bi("memcpy", "memmove")
def mcpy(E, I, a, g):
    copy(E, a[0], a[1], a[2], g, E.loc(I))
    return a[0] if I.ty.kind == "ptr" else None


def copy(E, dst, src, ln, g, loc):
    if ln is ZERO:
        return
    g = and_(g, lt(ZERO, ln)) if ln.op != "num" else g
    for gd, d in E.alts(dst, g):
        if gd is FALSE:
            continue
        E.access("W", d, ln.args if ln.op == "num" else ln, gd, loc)
        for gs, s in E.alts(src, gd):
            E.access("R", s, ln.args if ln.op == "num" else ln, gs, loc)
        if d.r is NULLR:
            continue
        # small constant copies between typed objects are element copies
        E.node("copy", r=d.r, idx=d.idx, off=d.off, guard=gd, x=(src, ln))


@bp("llvm.memset.")
@bi("memset")
def mset(E, I, a, g):
    ln = a[2]
    if ln is ZERO:
        return a[0] if I.ty.kind == "ptr" else None
    for gd, d in E.alts(a[0], g):
        E.access("W", d, ln.args if ln.op == "num" else ln, gd, E.loc(I))
        if d.r is not NULLR:
            E.node("fill", r=d.r, idx=d.idx, off=d.off, guard=gd, val=a[1], x=ln)
    return a[0] if I.ty.kind == "ptr" else None


@bi("malloc", "_Znwm", "_Znam", "__npv_malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "aligned_alloc")
def malloc(E, I, a, g):
    n = a[0] if I.x.v.name != "aligned_alloc" else a[1]
    return Ptr(E.new_region("heap", "heap", n))


@bi("memcmp", "bcmp", "strcmp", "strncmp")
def mcmp(E, I, a, g):
    if isinstance(a[0], Ptr) and isinstance(a[1], Ptr) and len(a) > 2 and a[2].op == "num" and a[2].args <= 64:
        res = ZERO
        for i in range(a[2].args - 1, -1, -1):
            x = E.read(E.mem, a[0].r, a[0].idx, add(a[0].off, num(i)), ("i", 1), g)
            y = E.read(E.mem, a[1].r, a[1].idx, add(a[1].off, num(i)), ("i", 1), g)
            res = ite(eq(x, y), res, ite(lt(x, y), num(-1), ONE))
        return res
    return E.fresh("cmp", "I", -1, 1)


@bi("strlen")
def slen(E, I, a, g):
    s = cstr(E, a[0])
    if s == "?":
        return E.fresh("strlen", "I", 0, 1 << 40)
    return num(len(s))


# ---------------------------------------------------------------- SYCL shim
@bi("__npv_launch")
def launch(E, I, a, g):
    kind = a[0].args
    F = a[1].f
    E.launch(kind, F, a[2], [a[4], a[5], a[6]], [a[7], a[8], a[9]], g, I)
    E.nevent += 1
    return num(E.nevent)


@bi("__npv_memcpy_async")
def mcpya(E, I, a, g):
    copy(E, a[0], a[1], a[2], g, E.loc(I))
    E.nevent += 1
    return num(E.nevent)


@bi("__npv_fill_async")
def filla(E, I, a, g):
    es = a[2].args
    ln = mul(a[2], a[3])
    # element value
    ty = {1: ("i", 1), 2: ("i", 2), 4: ("i", 4), 8: ("i", 8)}[es]
    vp = a[1]
    w = E.mem
    vty = ty
    while w is not None:
        if w.kind == "W" and w.r is vp.r and w.off is vp.off and w.ty[1] == es:
            vty = w.ty
            break
        w = w.prev
    v = E.read(E.mem, vp.r, vp.idx, vp.off, vty, g)
    for gd, d in E.alts(a[0], g):
        E.access("W", d, ln.args if ln.op == "num" else ln, gd, E.loc(I))
        if d.r is not NULLR:
            E.node("fillv", r=d.r, idx=d.idx, off=d.off, guard=gd, x=(v, vty, ln))
    E.nevent += 1
    return num(E.nevent)


@bi("__npv_wait", "__npv_wait_all")
def wait(E, I, a, g):
    return None


@bi("__npv_local_alloc")
def lalloc(E, I, a, g):
    r = E.new_region("local", "local", a[0])
    return Ptr(r)


@bi("__npv_joint_scan_i32", "__npv_joint_scan_i64")
def jscan(E, I, a, g):
    es = 4 if I.x.v.name.endswith("32") else 8
    first, last, out, incl = a[1], a[2], a[3], a[4]
    k = E.kernel_scope()
    if k is None:
        raise Unsupported("group scan outside kernel")
    n, _ = divmod_(E.pdiff(last, first, g), num(es))
    # uniform over the local items: arguments must not depend on the local id
    loc = [v for v in k.vs if v.args[0].startswith("x")]
    for t in (n, first.off, out.off) + tuple(first.idx) + tuple(out.idx):
        if fv(t) & set(loc):
            raise Unsupported("non-uniform group scan")
    E.barrier(g, I)
    # collective: performed once per group (attributed to item 0 of the group)
    E.fresh_n += 1
    j = app("j%d" % E.fresh_n, (), "I", 0, None)
    ty = ("i", es)
    h = 1 << (8 * es - 1)
    sc = EN.Scope([j], False)
    sc.facts0 = len(E.facts)
    sc.mem0 = E.mem
    sc.range = and_(le(ZERO, j), lt(j, n))
    n0 = E.nnode
    lead = and_(*[eq(v, ZERO) for v in loc])
    E.scopes.append(sc)
    gg = and_(g, lead, sc.range)
    for f in E.alts(first, g):
        first = f[1]
    for f in E.alts(out, g):
        out = f[1]
    src = Ptr(first.r, add(first.off, scale(es, j)), first.idx)
    E.access("R", src, es, gg, E.loc(I))
    gval = E.read(E.mem, first.r, first.idx, src.off, ty, gg)
    S = E.ghost_sum(gval, j, j if incl is ZERO else add(j, ONE))
    if E.o["overflow"]:
        E.ob("overflow", "scan result in range", gg, and_(le(num(-h), S), le(S, num(h - 1))), E.loc(I))
    dst = Ptr(out.r, add(out.off, scale(es, j)), out.idx)
    E.access("W", dst, es, gg, E.loc(I))
    E.node("W", r=dst.r, idx=dst.idx, off=dst.off, ty=ty, val=S, guard=gg)
    E.scopes.remove(sc)
    # the scan itself is one collective operation: no conflict between its elements
    last = E.mem
    E.mem = sc.mem0
    E.node("par", x={"vars": [j], "range": sc.range, "last": last, "regions": {dst.r}, "facts": E.facts[sc.facts0:], "n0": n0, "allvars": {j}, "uid": None})
    E.barrier(g, I)
    return None


@bp("__npv_reduce_over_group")
def rog(E, I, a, g):
    raise Unsupported("reduce_over_group")


@bi("__npv_barrier")
def barrier(E, I, a, g):
    E.barrier(g, I)
    return None


# ---------------------------------------------------------------- harness
def cint(t):
    if t.op != "num":
        raise Unsupported("harness constant expected")
    return t.args


@bi("__npv_sym_i64")
def symi(E, I, a, g):
    nm = cstr(E, a[0])
    t = E.fresh("in_" + nm, "I", cint(a[1]), cint(a[2]))
    E.syms.append((nm, t))
    return t


@bi("__npv_sym_f64")
def symf(E, I, a, g):
    t = E.fresh("in_" + cstr(E, a[0]), "R")
    E.syms.append((cstr(E, a[0]), t))
    return t


@bi("__npv_sym_f64r")
def symfr(E, I, a, g):
    t = E.fresh("in_" + cstr(E, a[0]), "R", Fraction(cint(a[1])), Fraction(cint(a[2])))
    E.syms.append((cstr(E, a[0]), t))
    return t


@bi("__npv_any")
def anyi(E, I, a, g):
    """a universally quantified index in [lo,hi)"""
    t = E.fresh("any_" + cstr(E, a[0]), "I")
    E.fact(and_(le(a[1], t), lt(t, a[2])), g)
    E.syms.append(("any_" + cstr(E, a[0]), t))
    return t


@bi("__npv_assume")
def nassume(E, I, a, g):
    c = a[0]
    if c.sort == "I":
        c = not_(eq(c, ZERO))
    E.fact(c, g)


@bi("__npv_neso_assert")
def nesoassert(E, I, a, g):
    c = a[0]
    if c.sort == "I":
        c = not_(eq(c, ZERO))
    E.fact(c, g)


@bi("__npv_check")
def ncheck(E, I, a, g):
    c = a[0]
    if c.sort == "I":
        c = not_(eq(c, ZERO))
    E.ob("post", cstr(E, a[1]), g, c, E.loc(I))


@bi("__npv_reach")
def nreach(E, I, a, g):
    o = E._ob("reach", cstr(E, a[0]), g, FALSE, E.loc(I))


@bi("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm")
def str_create(E, I, a, g):
    n = E.read(E.mem, a[1].r, a[1].idx, a[1].off, ("i", 8), g)
    return Ptr(E.new_region("string", "heap", add(n, ONE)))


def std_string(E, p, g):
    """contents of a std::string object if constant"""
    try:
        d = E.read(E.mem, p.r, p.idx, p.off, ("p", 8), g)
        n = E.read(E.mem, p.r, p.idx, add(p.off, num(8)), ("i", 8), g)
        if n.op != "num" or n.args > 200:
            return None
        s = ""
        for i in range(n.args):
            c = E.read(E.mem, d.r, d.idx, add(d.off, num(i)), ("i", 1), g)
            if c.op != "num":
                return None
            s += chr(c.args & 255)
        return s
    except Exception as e:
        return None


ELEM = {1: ("i", 1), 4: ("i", 4), 8: ("i", 8), 108: ("f", 8), 104: ("f", 4)}


@bi("__npv_sym_array")
def symarr(E, I, a, g):
    """(name, elemcode, count, lo, hi)"""
    el = ELEM[cint(a[1])]
    r = Region("in_" + cstr(E, a[0]), "sym", scale(el[1], a[2]), elem=el, lo=None, hi=None)
    if el[0] == "i":
        r.lo, r.hi = cint(a[3]), cint(a[4])
        TM.FUN_RANGE["%s#%d" % (r.name, r.id)] = (r.lo, r.hi)
    E.syms.append((cstr(E, a[0]), r))
    return Ptr(r)


@bi("__npv_sym_table")
def symtab(E, I, a, g):
    """(name, elemcode, depth, n0, n1, n2, lo, hi): pointer table of given depth; sizes<0 unbounded"""
    el = ELEM[cint(a[1])]
    depth = cint(a[2])
    ns = [a[3], a[4], a[5], num(-1)]
    nm = cstr(E, a[0])

    def size(k, es):
        n = ns[k]
        if n.op == "num" and n.args < 0:
            return None
        return scale(es, n)
    r = Region("in_" + nm, "sym", size(depth, el[1]), nidx=depth, elem=el, lo=cint(a[6]), hi=cint(a[7]))
    if el[0] == "i":
        TM.FUN_RANGE["%s#%d" % (r.name, r.id)] = (r.lo, r.hi)
    leaf = r
    for d in range(depth - 1, -1, -1):
        r = Region("in_%s_t%d" % (nm, d), "const", size(d, 8), nidx=d, child=r)
        r.kind = "sym"
        r.table = True
    E.syms.append((nm, leaf))
    return Ptr(r)


@bi("__npv_row_bound")
def rowb(E, I, a, g):
    """(table ptr, array ptr i32): leaf (c,...) has array[c] elements"""
    r = a[0].r
    while r.child is not None:
        r = r.child
    ar, mem = a[1], E.mem
    el = r.elem[1]
    es = ar.r.elem[1]
    r.size = lambda idx: scale(el, E.read(mem, ar.r, ar.idx, add(ar.off, scale(es, idx[0])), ar.r.elem, TRUE))


@bi("__npv_row_bound_at")
def rowbat(E, I, a, g):
    """(table ptr, level, array ptr i32, k): level `level` of the table has array[index k] elements"""
    r = a[0].r
    for _ in range(cint(a[1])):
        r = r.child
    ar, mem, k = a[2], E.mem, cint(a[3])
    el = 8 if r.child is not None else r.elem[1]
    es = ar.r.elem[1]
    r.size = lambda idx: scale(el, E.read(mem, ar.r, ar.idx, add(ar.off, scale(es, idx[k])), ar.r.elem, TRUE))


@bi("__npv_array_pred")
def apred(E, I, a, g):
    """(ptr, fn(ctx, i0,i1,i2, v)->bool, ctx): a property of every initial element"""
    r = a[0].r
    while r.child is not None:
        r = r.child
    F = a[1].f
    ctx = a[2]
    mem = E.mem
    busy = []

    def hook(args, v):
        if len(busy) > 3:
            return
        busy.append(1)
        save, sm = E.scopes, E.mem
        E.mem = mem
        xs = list(args) + [ZERO] * (3 - len(args))
        n0 = len(E.obs)
        sov = dict(E.o)
        E.o["overflow"] = E.o["bounds"] = False
        t, _ = E.call_function(F, [ctx] + xs[:3] + [v], TRUE)
        E.o.update(sov)
        del E.obs[n0:]
        if t.sort == "I":
            t = not_(eq(t, ZERO))
        E.facts.append(t)
        E.mem = sm
        busy.pop()
    r.pred = (r.pred or []) + [hook]


@bi("__npv_array_inj")
def ainj(E, I, a, g):
    """(ptr, n): the initial elements 0..n-1 are pairwise distinct"""
    r = a[0].r
    n = a[1]
    nm = "inj_%s#%d" % (r.name, r.id)

    def hook(args, v):
        i = args[-1]
        E.facts.append(implies(and_(le(ZERO, i), lt(i, n)), eq(app(nm, args[:-1] + (v,), "I"), i)))
    r.pred = (r.pred or []) + [hook]


@bi("__npv_sum")
def nsum(E, I, a, g):
    """(ptr, elemcode, n): sum of the first n elements at this point"""
    p = a[0]
    el = ELEM[cint(a[1])]
    j = app("j", (), "I", 0, None)
    v = E.read(E.mem, p.r, p.idx, add(p.off, scale(el[1], j)), el, TRUE)
    # only the elements below n count: drop the cases that lie outside
    w = and_(g, le(ZERO, j), lt(j, a[2]))
    return E.ghost_sum(E.drop_cases(v, w, j), j, a[2])


@bi("__npv_abstract")
def abstract_(E, I, a, g):
    """the obligations that follow depend on the harness' description of the execution"""
    E.abstract = True


@bi("__npv_havoc")
def havoc(E, I, a, g):
    for gg, q in (E.alts(a[0], g) if not isinstance(a[0], Ptr) else [(g, a[0])]):
        if isinstance(q, Ptr) and q.r is not None:
            E.node("havoc", r=q.r, idx=(), off=None, x="@h%d" % E.nnode, guard=gg)
    E.abstract = True
