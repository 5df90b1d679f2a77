"""Deductive verifier over LLVM IR: symbolic execution with path merging; every
`check`, memory-bounds, arithmetic-overflow, division, nd_range and data-race
condition becomes a proof obligation valid for all inputs, sizes and schedules.

Loops: complete unrolling when the trip count is decided, otherwise an exact
generic-iteration summary (closed forms for induction variables, ghost sums for
additive recurrences, ghost step functions otherwise; disjointness of the
iterations' footprints is itself checked).  Kernels (`__npv_launch`) use the same
summary with an arbitrary work item; race freedom over two distinct items is an
obligation, hence the result holds for every schedule."""
import re
import subprocess
import time
from fractions import Fraction
import solver
import term as TM
from term import *
import llvmir as IR


class Unsupported(Exception):
    pass


class Region:
    cnt = 0

    def __init__(self, name, kind, size=None, nidx=0, child=None, elem=None, lo=None, hi=None, depth=0):
        Region.cnt += 1
        self.id = Region.cnt
        self.name, self.kind, self.size, self.nidx = name, kind, size, nidx
        self.child, self.elem, self.lo, self.hi = child, elem, lo, hi
        self.pred = None
        self.init = None      # constant initialiser (IR Const)
        self.depth = depth    # generic-scope depth at creation
        self.zero = False
        self.freed = None

    def __repr__(self):
        return "%s#%d" % (self.name, self.id)


class Ptr:
    __slots__ = ("r", "idx", "off")

    def __init__(self, r, off=ZERO, idx=()):
        self.r, self.off, self.idx = r, off, idx

    def __repr__(self):
        return "&%s%s+%s" % (self.r, list(self.idx) if self.idx else "", self.off)


class PtrSet:
    """guarded alternatives, tested in order; the last one is the default"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "PS%s" % self.alts


class Fn:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class PtrInt:
    """ptrtoint result: address(region) + off"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


NULLR = Region("null", "null")
NULL = Ptr(NULLR)


def pv(x):
    return isinstance(x, (Ptr, PtrSet, Fn))


def peq(a, b):
    """equality of pointers as a term"""
    if isinstance(a, PtrSet):
        r = peq(a.alts[-1][1], b)
        for c, p in reversed(a.alts[:-1]):
            r = ite(c, peq(p, b), r)
        return r
    if isinstance(b, PtrSet):
        return peq(b, a)
    if isinstance(a, Fn) or isinstance(b, Fn):
        return boolc(isinstance(a, Fn) and isinstance(b, Fn) and a.f is b.f)
    if a.r is not b.r:
        return FALSE
    if a.r is NULLR:
        return eq(a.off, b.off)
    return and_(eq(a.off, b.off), *[eq(x, y) for x, y in zip(a.idx, b.idx)])


def same_ptr(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and a.off is b.off and a.idx == b.idx
    return a is b or (isinstance(a, Fn) and isinstance(b, Fn) and a.f is b.f)


def vite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, tuple):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, PtrInt) or isinstance(b, PtrInt):
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return PtrInt(vite(c, a.p, b.p))
        if a is ZERO:
            return PtrInt(vite(c, NULL, b.p))
        if b is ZERO:
            return PtrInt(vite(c, a.p, NULL))
        raise Unsupported("merge of integer and address")
    if pv(a) or pv(b):
        if not (pv(a) and pv(b)):
            raise Unsupported("merge of pointer and scalar")
        if same_ptr(a, b):
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.r is not NULLR:
            return Ptr(a.r, ite(c, a.off, b.off), tuple(ite(c, x, y) for x, y in zip(a.idx, b.idx)))
        aa = [(and_(c, g), p) for g, p in (a.alts if isinstance(a, PtrSet) else [(TRUE, a)])]
        bb = b.alts if isinstance(b, PtrSet) else [(TRUE, b)]
        out = []
        for g, p in aa + list(bb):
            if g is FALSE:
                continue
            out.append((g, p))
            if g is TRUE:
                break
        if len(out) == 1:
            return out[0][1]
        return PtrSet(out)
    return ite(c, a, b)


class Node:
    __slots__ = ("prev", "kind", "r", "idx", "off", "ty", "val", "guard", "x", "n")


class Scope:
    def __init__(self, vs, kernel):
        self.vs = vs
        self.kernel = kernel
        self.acc = []      # (kind, region, idx, off, size, guard, loc)
        self.facts0 = 0
        self.inner = []    # vars of nested scopes


class Ob:
    __slots__ = ("kind", "label", "guard", "goal", "loc", "nf", "abstract", "status", "model", "by", "time", "scope")


TYN = {"int": "I", "double": "R", "float": "R"}


class Engine:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.o = {"unroll": 40, "bounds": True, "overflow": True}
        self.o.update(opts or {})
        self.facts = []
        self.obs = []
        self.mem = None
        self.nnode = 0
        self.scopes = []
        self.fresh_n = 0
        self.contracts = []   # (regex, fn)
        self.globals = {}
        self.instm = set()
        self.sums = {}
        self.sum_def = {}
        self.max_def = {}
        self.sum_nneg = {}
        self.max_name = {}
        self.sum_inst = {}
        self.abstract = False
        self.kern = None
        self.dem = {}
        self.used_contracts = set()
        self.fns_seen = {}
        self.loops = {"unrolled": 0, "generic": 0}
        self.launches = 0
        self.depth = 0
        self.syms = []
        self.tickets = []
        self.tk = {}
        self.inv = {}
        self.hints = []
        self.t_end = time.time() + self.o.get("budget", 300)
        self.assumptions = set()
        TM.DEF_HOOK[0] = self._def_div
        self.divs = {}
        self.loopcache = {}
        self.gmode = 0
        self.pending = []
        self.nevent = 0
        self.simp_cache = {}
        self.known, self.spec, self.steps = {}, [], {}

    # ---------------------------------------------------------------- utils
    def _def_div(self, d, m, a, b):
        if (a, b) in self.divs:
            return
        self.divs[(a, b)] = (d, m)
        pos = lt(ZERO, b)
        self.facts.append(implies(pos, and_(eq(a, add(mul(b, d), m)), le(ZERO, m), lt(m, b))))
        self.facts.append(implies(and_(pos, le(ZERO, a)), le(ZERO, d)))
        self.facts.append(implies(and_(pos, le(ZERO, a), lt(a, b)), and_(eq(d, ZERO), eq(m, a))))
        self.facts.append(implies(and_(pos, le(ZERO, a)), le(d, a)))

    def bvars(self):
        return tuple(v for s in self.scopes for v in s.vs)

    def fresh(self, name, sort="I", lo=None, hi=None):
        self.fresh_n += 1
        return app("%s!%d" % (name, self.fresh_n), self.bvars(), sort, lo, hi)

    def fact(self, f, guard=None):
        if f is TRUE:
            return
        f = implies(guard, f) if guard is not None else f
        if f is TRUE:
            return
        self.facts.append(f)

    def demangle(self, n):
        d = self.dem.get(n)
        if d is None:
            d = subprocess.run(["c++filt", n], capture_output=True, text=True).stdout.strip()
            self.dem[n] = d
        return d

    def ob(self, kind, label, guard, goal, loc):
        if goal is TRUE or guard is FALSE:
            # decided by the normaliser
            if kind == "post" or goal is TRUE:
                o = self._ob(kind, label, guard, TRUE, loc)
            return
        if implied(goal, guard):
            goal = TRUE
        self._ob(kind, label, guard, goal, loc)

    def _ob(self, kind, label, guard, goal, loc):
        o = Ob()
        o.kind, o.label, o.guard, o.goal, o.loc = kind, label, guard, goal, loc
        o.nf = len(self.facts)
        o.abstract = self.abstract
        o.status = "trivial" if goal is TRUE else None
        o.model, o.by, o.time, o.scope = "", "", 0.0, None
        self.obs.append(o)
        return o

    def prove(self, guard, goal, timeout=3, extra=()):
        g = and_(guard, not_(goal))
        if g is FALSE:
            return True
        fs = relevant(list(self.facts) + list(extra), g)
        r, _, _ = solver.check(fs + [g] + lemmas(fs + [g], 30), timeout, both=False)
        return r == "unsat"

    def feasible(self, guard):
        if guard is FALSE:
            return False
        fs = relevant(list(self.facts), guard)
        r, _, _ = solver.check(fs + [guard], 2, both=False)
        return r != "unsat"

    # ---------------------------------------------------------------- memory
    def node(self, kind, **kw):
        n = Node()
        n.prev, n.kind = self.mem, kind
        n.r = n.idx = n.off = n.ty = n.val = n.x = None
        n.guard = TRUE
        for k, v in kw.items():
            setattr(n, k, v)
        self.nnode += 1
        n.n = self.nnode
        self.mem = n
        return n

    def new_region(self, name, kind, size=None, **kw):
        r = Region(name, kind, size, depth=len(self.scopes), **kw)
        return r

    def access(self, kind, p, size, guard, loc):
        """p: Ptr.  Bounds obligations and footprint recording."""
        r = p.r
        if r is NULLR:
            if guard is not FALSE:
                self.ob("bounds", "null dereference", guard, FALSE, loc)
            return
        if r.kind == "const":
            return
        if self.o["bounds"] and r.size is not None and r.kind not in ("global",):
            sz = r.size(p.idx) if callable(r.size) else r.size
            szt = num(size) if isinstance(size, int) else size
            goal = and_(le(ZERO, p.off), le(add(p.off, szt), sz))
            if not isinstance(size, int):
                goal = implies(lt(ZERO, szt), goal)
            self.ob("bounds", "%s of %s" % ("write" if kind != "R" else "read", r.name), guard, goal, loc)
        for s in reversed(self.scopes):
            if r.depth >= self.scopes.index(s) + 1:
                break
            s.acc.append((kind, r, p.idx, p.off, size, guard, loc))

    def alts(self, p, guard):
        if isinstance(p, Ptr) and p.r.kind == "local" and not p.idx:
            k = self.kernel_scope()
            if k is not None and k.groups:
                p = Ptr(p.r, p.off, tuple(k.groups))
        if isinstance(p, PtrSet):
            out = []
            g = guard
            for c, q in p.alts:
                gg = and_(g, c)
                if gg is not FALSE:
                    out.append((gg, q))
                g = and_(g, not_(c))
            return out
        return [(guard, p)]

    def tidy(self, q, g):
        """the address, its case distinctions decided by the guard dropped"""
        def cases(t):
            return t.op == "ite" or t.op == "poly" and any(a.op == "ite" for m, _ in t.args for a in m)
        if g is TRUE or not any(cases(t) for t in q.idx + (q.off,)):
            return q
        return Ptr(q.r, TM.under(q.off, g), tuple(TM.under(t, g) for t in q.idx))

    def store(self, p, val, ty, guard, loc):
        for g, q in self.alts(p, guard):
            if g is FALSE:
                continue
            if isinstance(q, Fn):
                raise Unsupported("store to function")
            q = self.tidy(q, g)
            self.access("W", q, ty.size, g, loc)
            if q.r is NULLR:
                continue
            if isinstance(val, tuple):
                self.store_agg(q, val, ty, g)
            else:
                self.node("W", r=q.r, idx=q.idx, off=q.off, ty=tykey(ty), val=val, guard=g)

    def store_agg(self, q, val, ty, g):
        for i, v in enumerate(val):
            et = ty.elems[i] if ty.kind == "struct" else ty.elem
            o = ty.offs[i] if ty.kind == "struct" else i * ty.elem.size
            qq = Ptr(q.r, add(q.off, num(o)), q.idx)
            if isinstance(v, tuple):
                self.store_agg(qq, v, et, g)
            elif v is not None:
                self.node("W", r=q.r, idx=q.idx, off=qq.off, ty=tykey(et), val=v, guard=g)

    def load(self, p, ty, guard, loc):
        res = None
        al = self.alts(p, guard)
        for i, (g, q) in enumerate(reversed(al)):
            if isinstance(q, Fn):
                continue
            q = self.tidy(q, g)
            self.access("R", q, ty.size, g, loc)
            if q.r is NULLR:
                continue
            v = self.load1(q, ty, g)
            res = v if res is None else vite(g_only(g, guard), v, res)
        if res is None:
            res = self.undef(ty)
        return res

    def load1(self, q, ty, g):
        if ty.kind == "struct":
            return tuple(self.load1(Ptr(q.r, add(q.off, num(o)), q.idx), e, g) for e, o in zip(ty.elems, ty.offs))
        if ty.kind == "array":
            return tuple(self.load1(Ptr(q.r, add(q.off, num(i * ty.elem.size)), q.idx), ty.elem, g) for i in range(ty.n))
        return self.read(self.mem, q.r, q.idx, q.off, tykey(ty), g)

    def undef(self, ty):
        k = ty.kind
        if k == "int":
            if ty.width == 1:
                return self.fresh("undef", "B")
            h = 1 << (ty.width - 1)
            return self.fresh("undef", "I", -h, h - 1)
        if k in ("double", "float"):
            return self.fresh("undef", "R")
        if k == "ptr":
            return NULL
        if k == "struct":
            return tuple(self.undef(e) for e in ty.elems)
        if k in ("array", "vector"):
            return tuple(self.undef(ty.elem) for _ in range(ty.n))
        return None

    def read(self, node, r, idx, off, ty, guard, stop=None, vars_=(), depth=0):
        """value of (r, idx, off) as seen from `node`"""
        cands = []
        done = False
        n = node
        while n is not stop and n is not None:
            for c, v in self.match(n, r, idx, off, ty, guard):
                if c is FALSE:
                    continue
                cands.append((c, v))
                if c is TRUE or implied(c, guard):
                    done = True
                    break
            if done:
                break
            n = n.prev
        if done:
            res = cands[-1][1]
            cands = cands[:-1]
        else:
            try:
                if ty == ("i", 1) and cands and r.name.startswith("alloca") and self.prove_cached(guard, or_(*[c for c, _ in cands])):
                    raise Unsupported("covered")
                res = self.initial(r, idx, off, ty)
            except Unsupported:
                # unwritten memory without a value: the writes must cover the guard of the read
                if not cands or not self.prove_cached(guard, or_(*[c for c, _ in cands])):
                    raise
                res = cands[-1][1]
                cands = cands[:-1]
        for c, v in reversed(cands):
            res = vite(c, v, res)
        return res

    def match(self, n, r, idx, off, ty, guard):
        k = n.kind
        if k == "par":
            if r in n.x["regions"]:
                yield from self.match_par(n, r, idx, off, ty, guard)
            return
        if n.r is not r:
            return
        if k == "atom":
            return
        if k == "cnt":
            old = self.read(n.prev, r, idx, off, ty, guard)
            yield TRUE, add(old, self.ticket_count(n.x, idx + (off,), old))
            return
        same = and_(*[eq(a, b) for a, b in zip(n.idx, idx)]) if n.idx else TRUE
        if same is FALSE:
            return
        if k == "W":
            c = and_(n.guard, same)
            if n.ty[1] == ty[1]:
                c = and_(c, eq(n.off, off))
                if c is FALSE:
                    return
                yield c, self.conv(n.val, n.ty, ty)
            else:
                ov = and_(c, lt(n.off, add(off, num(ty[1]))), lt(off, add(n.off, num(n.ty[1]))))
                if ov is FALSE:
                    return
                d = sub(off, n.off)
                if d.op == "num" and 0 <= d.args and d.args + ty[1] <= n.ty[1] and n.val is not None and not pv(n.val) \
                        and n.ty[0] == "i" and n.val.op == "num":
                    v = (n.val.args >> (8 * d.args)) & ((1 << (8 * ty[1])) - 1)
                    if v >= 1 << (8 * ty[1] - 1):
                        v -= 1 << (8 * ty[1])
                    yield c, (num(v) if ty[0] == "i" else self.conv(num(v), ("i", ty[1]), ty))
                    return
                if d.op == "num" and 0 <= d.args and d.args + ty[1] <= n.ty[1] and n.val is not None and not pv(n.val) \
                        and n.ty[0] == "i" and n.val.sort == "I" and not isinstance(n.val, PtrInt):
                    M = 1 << (8 * ty[1])
                    v = divmod_(n.val, num(1 << (8 * d.args)))[0] if d.args else n.val
                    v = divmod_(add(v, num(M // 2)), num(M))[1]
                    v = sub(v, num(M // 2))
                    yield c, (v if ty[0] == "i" else self.conv(v, ("i", ty[1]), ty))
                    return
                if d.op == "num" and n.ty == ("i", 4) and ty == ("i", 8) and d.args in (0, -4):
                    # a wide integer load over two narrower fields: compose it from the two halves
                    # as they are seen from this node
                    lo_ = self.read(n, r, idx, off, ("i", 4), guard)
                    hi_ = self.read(n, r, idx, add(off, num(4)), ("i", 4), guard)
                    if all(x is not None and not pv(x) and x.sort == "I" for x in (lo_, hi_)):
                        lo_ = divmod_(lo_, num(1 << 32))[1]
                        yield c, add(lo_, scale(1 << 32, hi_) if hi_.op != "num" else num(hi_.args << 32))
                        return
                if not self.prove(guard, not_(ov), 2):
                    # partial overlap: value unknown (counted as abstraction)
                    self.abstract = True
                    yield ov, self.unknown(ty)
        elif k == "fill":
            ln = n.x
            c = and_(n.guard, same, le(n.off, off), lt(off, add(n.off, ln)))
            if c is FALSE:
                return
            b = n.val
            if b is None:
                self.abstract = True
                yield c, self.unknown(ty)
            elif ty[0] == "p":
                yield c, NULL
            elif b.op == "num":
                v = b.args & 0xff
                w = 0
                for _ in range(ty[1]):
                    w = (w << 8) | v
                if w >= 1 << (8 * ty[1] - 1):
                    w -= 1 << (8 * ty[1])
                yield c, self.conv(num(w), ("i", ty[1]), ty)
            else:
                yield c, self.unknown(ty)
        elif k == "copy":
            srcs, ln = n.x
            c = and_(n.guard, same, le(n.off, off), lt(off, add(n.off, ln)))
            if c is FALSE:
                return
            v = None
            for g, s in reversed(self.alts(srcs, TRUE)):
                if s.r is NULLR:
                    continue
                vv = self.read(n.prev, s.r, s.idx, add(s.off, sub(off, n.off)), ty, and_(guard, c))
                v = vv if v is None else vite(g, vv, v)
            yield c, v
        elif k == "havoc":
            c = and_(n.guard, same)
            yield c, self.content(n.x, r, idx, off, ty)
        elif k == "fillv":  # element fill
            val, vty, ln = n.x
            c = and_(n.guard, same, le(n.off, off), lt(off, add(n.off, ln)))
            if c is FALSE:
                return
            if vty[1] != ty[1]:
                yield c, self.unknown(ty)
            else:
                yield c, self.conv(val, vty, ty)
        elif k == "sum":  # additive update by all items of a kernel (integer or real)
            f, argix = n.x
            c = and_(n.guard, same)
            raise Unsupported("sum node")

    def unknown(self, ty):
        if ty[0] == "p":
            raise Unsupported("unknown pointer content")
        if ty[0] == "f":
            return self.fresh("unk", "R")
        if ty[0] == "b":
            return self.fresh("unk", "B")
        h = 1 << (8 * ty[1] - 1)
        return self.fresh("unk", "I", -h, h - 1)

    def conv(self, v, a, b):
        if a[0] == b[0]:
            return v
        if v is None:
            return self.unknown(b)
        if a[0] == "b" and b[0] == "i":
            return ite(v, ONE, ZERO)
        if a[0] == "i" and b[0] == "b":
            return not_(eq(v, ZERO))
        if a[0] == "f" and b[0] == "i":
            if v.op == "app" and v.args[0] == "b2r%d" % a[1]:
                return v.args[1]
            if v.op == "num":
                import struct
                return num(struct.unpack("<q" if a[1] == 8 else "<i", struct.pack("<d" if a[1] == 8 else "<f", float(v.args)))[0])
            if v.op == "ite":
                return ite(v.args[0], self.conv(v.args[1], a, b), self.conv(v.args[2], a, b))
            h = 1 << (8 * a[1] - 1)
            return app("r2b%d" % a[1], (v,), "I", -h, h - 1)
        if a[0] == "i" and b[0] == "f":
            if v.op == "app" and v.args[0] == "r2b%d" % a[1]:
                return v.args[1]
            if v.op == "num":
                import struct
                x = struct.unpack("<d" if a[1] == 8 else "<f", struct.pack("<q" if a[1] == 8 else "<i", v.args))[0]
                if x != x or x in (float("inf"), float("-inf")):
                    return app("fpc!%d" % v.args, (), "R")
                return num(Fraction(x), "R")
            if v.op == "ite":
                return ite(v.args[0], self.conv(v.args[1], a, b), self.conv(v.args[2], a, b))
            return app("b2r%d" % a[1], (v,), "R")
        if a[0] == "p" and b[0] == "i":
            if isinstance(v, PtrInt):
                return v
            if isinstance(v, (Ptr, PtrSet)):
                return PtrInt(v)
        if a[0] == "i" and b[0] == "p":
            if isinstance(v, PtrInt):
                return v.p
            if v is ZERO:
                return NULL
        raise Unsupported("memory reinterpretation %s->%s of %s" % (a, b, getattr(v, "name", v)))

    # generic (parallel) blocks -------------------------------------------------
    def match_par(self, n, r, idx, off, ty, guard, vs=(), rng=TRUE, outer_blocks=()):
        blk = n.x
        vs = tuple(vs) + tuple(blk["vars"])
        rng = and_(rng, blk["range"])
        blocks = tuple(outer_blocks) + (n,)
        w = blk["last"]
        while w is not n.prev and w is not None:
            if w.kind == "par":
                if r in w.x["regions"]:
                    yield from self.match_par(w, r, idx, off, ty, guard, vs, rng, blocks)
            elif w.r is r and not any(w.kind == "W" and c.r is r and c.pidx == w.idx and c.off is w.off and c.tk[1] == w.ty[1] for c in blk.get("cells", ())):
                # (a carried location is overwritten with its final value after the block)
                yield from self.match_w(w, n, vs, rng, blocks, idx, off, ty, guard)
            w = w.prev

    def solve_vars(self, pairs, vs, blocks):
        """solve [(term over vs, target)] for vs -> (sigma, residual conditions) or None"""
        vset = set(vs)
        sig = {}
        conds = []
        todo = list(pairs)
        progress = True
        while progress and len(sig) < len(vs):
            progress = False
            for k, (a, t) in enumerate(todo):
                if a is None:
                    continue
                a2 = subst(a, sig) if sig else a
                p = TM._poly(a2)
                # a single unsolved var, linear with constant coefficient
                mon = [(m, c) for m, c in p.items() if any((fv(x) & vset) - set(sig) for x in m)]
                mon = [(m, c) for m, c in mon]
                un = set()
                for m, c in mon:
                    for x in m:
                        un |= (fv(x) & vset) - set(sig)
                if len(un) == 0:
                    continue
                if len(un) == 1:
                    v = next(iter(un))
                    if len(mon) == 1 and mon[0][0] == (v,):
                        c = mon[0][1]
                        rest = sub(t, sub(a2, scale(c, v)))
                        if c in (1, -1):
                            sig[v] = scale(c, rest)
                        else:
                            q, rm = divmod_(scale(1 if c > 0 else -1, rest), num(abs(c)))
                            conds.append(eq(rm, ZERO))
                            sig[v] = q
                        todo[k] = (None, None)
                        progress = True
                        continue
                    # v times a positive quantity that divides everything else
                    if len(mon) == 1 and len(mon[0][0]) == 2 and v in mon[0][0]:
                        m, c = mon[0]
                        w = m[0] if m[1] is v else m[1]
                        rest = TM._poly(sub(t, sub(a2, mul(scale(c, v), w))))
                        if w is not v and w.lo is not None and w.lo >= 1 and not fv(w) & vset and all(w in mm and cc % abs(c) == 0 for mm, cc in rest.items()):
                            sg = 1 if c > 0 else -1
                            q = ZERO
                            for mm, cc in rest.items():
                                mm = list(mm)
                                mm.remove(w)
                                f = num(sg * cc // abs(c))
                                for x in mm:
                                    f = mul(f, x)
                                q = add(q, f)
                            sig[v] = q
                            todo[k] = (None, None)
                            progress = True
                            continue
                    # ticket or inverse function around the variable
                    if len(mon) == 1 and len(mon[0][0]) == 1 and mon[0][1] in (1, -1) and mon[0][0][0].op == "app":
                        atom = mon[0][0][0]
                        inv = self.inverse_of(atom)
                        if inv is not None:
                            c = mon[0][1]
                            rest = scale(c, sub(t, sub(a2, scale(c, atom))))
                            s2 = inv(atom, rest, v, todo)
                            if s2 is not None:
                                sig[v] = s2
                                progress = True
                                continue
                # factored form  v1*N + v2 with 0<=v2<N
                if len(un) == 2 and len(mon) == 2:
                    r2 = self.solve_flat(a2, mon, un, t, blocks)
                    if r2 is not None:
                        sig.update(r2)
                        progress = True
        if len(sig) < len(vs):
            return None
        return sig, conds

    def solve_flat(self, a, mon, un, t, blocks):
        for i in (0, 1):
            m1, c1 = mon[i]
            m2, c2 = mon[1 - i]
            if len(m2) != 1 or m2[0] not in un:
                continue
            v2 = m2[0]
            v1s = [x for x in m1 if x in un]
            if len(v1s) != 1 or v1s[0] is v2:
                continue
            v1 = v1s[0]
            rest1 = list(m1)
            rest1.remove(v1)
            # address = c1*v1*N + c2*v2 + rest ;  need c2 | c1 and c2 | everything
            if c2 <= 0 or c1 <= 0 or c1 % c2:
                continue
            N = num(c1 // c2)
            for x in rest1:
                N = mul(N, x)
            tgt = sub(t, sub(a, add(scale(c2, v2), mul(mul(num(c1), v1), mulall(rest1)))))
            q, rm = divmod_(tgt, num(c2))
            if rm is not ZERO:
                continue
            rngs = and_(*[b.x["range"] for b in blocks])
            # 0 <= v2 < N for every item
            if self.prove(rngs, and_(le(ZERO, v2), lt(v2, N)), 3):
                d, m = divmod_(q, N)
                return {v1: d, v2: m}
        return None

    def simp_div(self, x, guard):
        """replace div(B,N), mod(B,N) by 0, B when the guard gives 0 <= B < N"""
        ds = [t for t in TM.subterms(x) if t.op == "app" and t.args[0] in ("npv_div", "npv_mod")]
        if not ds:
            return x
        mp = {}
        for d in ds:
            B, N = d.args[1], d.args[2]
            key = (guard, B, N)
            r = self.simp_cache.get(key)
            if r is None:
                r = self.simp_cache[key] = self.prove(guard, and_(le(ZERO, B), lt(B, N)), 2)
            if r:
                mp[app("npv_div", (B, N), "I")] = ZERO
                mp[app("npv_mod", (B, N), "I")] = B
        return TM.replace(x, mp) if mp else x

    def inverse_of(self, atom):
        return self.inv.get(atom.args[0]) if hasattr(self, "inv") else None

    def match_w(self, w, n, vs, rng, blocks, idx, off, ty, guard):
        pairs = [(a, b) for a, b in zip(w.idx, idx)]
        ranged = w.kind in ("copy", "fill", "fillv")
        if not ranged:
            if w.kind == "W" and w.ty[1] == ty[1]:
                pairs.append((w.off, off))
            elif w.kind == "W":
                d = sub(w.off, off)
                if d.op == "num" and (d.args >= ty[1] or d.args <= -w.ty[1]):
                    return
                raise Unsupported("width mismatch in parallel block")
        if w.kind == "havoc":
            raise Unsupported("havoc in parallel block")
        vset = set(vs)
        used = set()
        for a, b in pairs:
            used |= fv(a) & vset
        s = self.solve_vars(pairs, vs, blocks)
        if s is None:
            ext = [(c.args[0], ZERO) for c in conj(and_(w.guard, rng)) if c.op == "eq0" and fv(c) & vset]
            if ext:
                s = self.solve_vars(pairs + ext, vs, blocks)
        if s is None:
            # Skolem witness for the writing item
            sg = {}
            un = [v for v in vs]
            for v in un:
                self.fresh_n += 1
                key = ("wit", w.n, v.args[0])
                args = tuple(x for a, b in pairs for x in (b,)) if not ranged else tuple(b for a, b in pairs) + (off,)
                sg[v] = app("wit_%d_%s" % (w.n, v.args[0]), args, "I")
            args = tuple(b for a, b in pairs) if not ranged else tuple(b for a, b in pairs) + (off,)
            W = app("wr_%d" % w.n, args, "B")
            conds = []
            c = and_(bounds(sg), subst(and_(w.guard, rng), sg), *[eq(subst(a, sg), b) for a, b in pairs])
            if ranged:
                ln = w.x[1] if w.kind == "copy" else (w.x if w.kind == "fill" else w.x[2])
                c = and_(c, le(subst(w.off, sg), off), lt(off, subst(add(w.off, ln), sg)))
            self.instantiate(blocks, sg)
            # not written: no item (of the hinted ones) writes here
            key = ("wn", w.n) + args
            if key not in self.instm:
                self.instm.add(key)
                self.fact(implies(W, c))
                fresh = {v: app("q_" + v.args[0], (), "I") for v in vs}
                body = and_(bounds(fresh), subst(and_(w.guard, rng), fresh))
                hit = and_(body, *[eq(subst(a, fresh), b) for a, b in pairs])
                if ranged:
                    hit = and_(hit, le(subst(w.off, fresh), off), lt(off, subst(add(w.off, ln), fresh)))
                self.fact(forall(list(fresh.values()), implies(hit, W)))
                if not ranged and not pv(w.val) and w.val is not None:
                    self.fact(forall(list(fresh.values()), implies(hit, eq(subst(self.conv(w.val, w.ty, ty), fresh), subst(self.conv(w.val, w.ty, ty), sg)))))
            cond, sig = W, sg
        else:
            sig, conds = s
            if guard is not TRUE:
                sig = {v: self.simp_div(x, guard) for v, x in sig.items()}
            g = and_(*[c for c in conj(bounds(sig)) if not self.prove_cached(guard, c)], subst(and_(w.guard, rng), sig))
            # residual equations (also those not used for solving)
            res = [eq(subst(a, sig), b) for a, b in pairs]
            cond = and_(g, *conds, *res)
            if ranged:
                ln = w.x[1] if w.kind == "copy" else (w.x if w.kind == "fill" else w.x[2])
                o2, l2 = subst(w.off, sig), subst(ln, sig)
                cond = and_(cond, le(o2, off), lt(off, add(o2, l2)))
            if cond is FALSE:
                return
            self.instantiate(blocks, sig)
        if w.kind == "W":
            v = vsubst(w.val, sig)
            if self.sum_def and isinstance(v, TM.T) and not any(x.args[0].startswith(("k", "g", "q_", "j")) for x in fv(v)):
                self.renew_sums(v)
            yield cond, self.conv(v, w.ty, ty)
        elif w.kind == "fillv":
            yield cond, self.conv(vsubst(w.x[0], sig), w.x[1], ty)
        elif w.kind == "fill":
            b = w.val
            if b is not None and b.op == "num" and b.args == 0:
                yield cond, (NULL if ty[0] == "p" else self.conv(ZERO, ("i", ty[1]), ty))
            else:
                yield cond, self.unknown(ty)
        elif w.kind == "copy":
            src = vsubst(w.x[0], sig)
            v = None
            delta = sub(off, subst(w.off, sig))
            for g, q in reversed(self.alts(src, TRUE)):
                # content of the source before this write, seen by that item
                vv = self.read_sub(w.prev, sig, blocks, q.r, q.idx, add(q.off, delta), ty, and_(guard, cond))
                v = vv if v is None else vite(g, vv, v)
            yield cond, v

    def read_sub(self, node, sig, blocks, r, idx, off, ty, guard):
        """read as seen by the item sig inside the generic block(s)"""
        cands = []
        inner = blocks[-1]
        nd = node
        while nd is not None:
            if nd.kind != "par" and nd.r is r and nd.n > blocks[0].x["n0"] and nd.kind == "W" and nd.ty[1] == ty[1]:
                c = and_(subst(nd.guard, sig), *[eq(subst(a, sig), b) for a, b in zip(nd.idx, idx)], eq(subst(nd.off, sig), off))
                if c is not FALSE:
                    cands.append((c, self.conv(vsubst(nd.val, sig), nd.ty, ty)))
                    if c is TRUE:
                        break
            elif nd.n <= blocks[0].x["n0"]:
                cands.append((TRUE, self.read(nd, r, idx, off, ty, guard)))
                break
            elif nd.kind == "par" and r in nd.x["regions"] or (nd.kind != "W" and nd.r is r):
                raise Unsupported("copy source written in same parallel block")
            nd = nd.prev
        else:
            cands.append((TRUE, self.initial(r, idx, off, ty)))
        res = cands[-1][1]
        for c, v in reversed(cands[:-1]):
            res = vite(c, v, res)
        return res

    def prove_cached(self, guard, c):
        key = (guard, c, None)
        r = self.simp_cache.get(key)
        if r is None:
            r = self.simp_cache[key] = self.prove(guard, c, 2)
        return r

    def instantiate(self, blocks, sig):
        if all(k is v for k, v in sig.items()):
            return
        for b in blocks:
            key = (b.n,) + tuple(sorted((k.id, v.id) for k, v in sig.items()))
            if key in self.instm:
                continue
            self.instm.add(key)
            # the facts of the body hold for the items of the block only
            rng = and_(bounds(sig), subst(and_(*[c.x["range"] for c in blocks[:blocks.index(b) + 1]]), sig))
            for f in b.x["facts"]:
                f2 = subst(f, sig)
                if f2 is not f:
                    self.fact(implies(rng, f2))

    def initial(self, r, idx, off, ty):
        if r.init is not None:
            v = self.const_read(r.init, off, ty)
            if v is not None:
                return v
        if r.zero:
            return NULL if ty[0] == "p" else self.conv(ZERO, ("i", ty[1]), ty)
        return self.content("", r, idx, off, ty)

    def content(self, tag, r, idx, off, ty):
        if r.child is not None:
            q, m = divmod_(off, num(8))
            return Ptr(r.child, ZERO, idx + (q,))
        nm = "%s%s#%d" % (r.name, tag, r.id)
        if r.elem is not None and not (r.elem[1] == 1 and ty[1] > 1 and ty[0] in "if"):
            ek, es = r.elem
            if es == ty[1]:
                q, m = divmod_(off, num(es))
                args = idx + (q,)
            else:
                return self.unknown(ty)
            if ek == "f":
                v = app(nm, args, "R")
            else:
                h = 1 << (8 * es - 1)
                lo = -h if r.lo is None else r.lo
                hi = h - 1 if r.hi is None else r.hi
                v = app(nm, args, "I", lo, hi)
                if tag == "":
                    self.touch(r, args, v)
            return self.conv(v, r.elem, ty)
        if ty[0] == "p":
            # untyped object: a pointer field never written; treat as invalid
            raise Unsupported("read of uninitialised pointer in %s+%s" % (r, off))
        args = idx + (off,)
        if ty[0] == "f":
            return app(nm + "f%d" % ty[1], args, "R")
        if ty[0] == "b":
            return app(nm + "b", args, "B")
        h = 1 << (8 * ty[1] - 1)
        return app(nm + "i%d" % ty[1], args, "I", -h, h - 1)

    def touch(self, r, args, v):
        key = ("t", v)
        if key in self.instm:
            return
        self.instm.add(key)
        for hook in (r.pred or ()):
            hook(args, v)

    def const_read(self, c, off, ty):
        """read from a constant initialiser"""
        if off.op != "num":
            # symbolic index into constant table
            if c.ty and c.ty.kind == "array" and c.ty.elem.size == ty[1] and c.ty.n <= 64:
                q, m = divmod_(off, num(ty[1]))
                r = None
                for i in range(c.ty.n):
                    v = self.const_read(c, num(i * ty[1]), ty)
                    r = v if r is None else vite(eq(q, num(i)), v, r)
                return r
            return None
        o = off.args
        while True:
            if c.kind in ("zero", "null"):
                return NULL if ty[0] == "p" else self.conv(ZERO, ("i", ty[1]), ty)
            if c.kind == "undef":
                return None
            if c.kind == "agg":
                t = c.ty
                if t.kind == "struct":
                    for i in range(len(t.elems) - 1, -1, -1):
                        if t.offs[i] <= o:
                            c, o = c.v[i], o - t.offs[i]
                            break
                else:
                    es = t.elem.size
                    if o // es >= t.n:
                        return None
                    c, o = c.v[o // es], o % es
                continue
            if o != 0:
                return None
            v = self.const(c)
            if c.ty is not None and c.ty.size != ty[1]:
                return None
            return self.conv(v, tykey(c.ty) if c.ty else ("p", 8), ty)

    # ---------------------------------------------------------------- values
    def const(self, c):
        k = c.kind
        if k == "int":
            if c.ty.width == 1:
                return boolc(c.v & 1)
            return num(c.v)
        if k == "fp":
            if c.v != c.v or c.v in (float("inf"), float("-inf")):
                return app("fpc!%s" % c.v, (), "R")
            return num(Fraction(c.v), "R")
        if k == "null":
            return NULL
        if k in ("undef",):
            return self.undef(c.ty)
        if k == "zero":
            return self.zero_of(c.ty)
        if k == "agg":
            return tuple(self.const(x) for x in c.v)
        if k == "func":
            return Fn(c.v)
        if k == "global":
            return Ptr(self.global_region(c.v))
        if k == "expr":
            ops, srct = c.extra
            if c.v == "gep":
                return self.gep(self.const(ops[0]), srct, [self.const(o) for o in ops[1:]])
            if c.v in ("bitcast", "addrspacecast"):
                return self.const(ops[0])
            if c.v == "ptrtoint":
                return PtrInt(self.const(ops[0]))
            if c.v == "icmp":
                return self.icmp(srct, self.const(ops[0]), self.const(ops[1]), ops[0].ty.width if ops[0].ty is not None else None)
        raise Unsupported("constant %s" % k)

    def zero_of(self, t):
        if t.kind == "struct":
            return tuple(self.zero_of(e) for e in t.elems)
        if t.kind in ("array", "vector"):
            return tuple(self.zero_of(t.elem) for _ in range(t.n))
        if t.kind == "ptr":
            return NULL
        if t.kind == "int":
            return FALSE if t.width == 1 else ZERO
        return num(0, "R")

    def global_region(self, name):
        r = self.globals.get(name)
        if r is None:
            g = self.m.globals[name]
            t = self.m.ty(IR.gv_type(g.extra))
            const = bool(IR.gv_const(g.extra))
            r = Region(name, "const" if const else "global", num(t.size))
            r.gty = t
            ini = IR.gv_init(g.extra)
            if ini:
                r.init = self.m.val(ini)
                if r.init.ty is None:
                    r.init = Const_wrap(r.init, t)
            if name == "__libc_single_threaded":
                r.init = IR.Const("int", 1, t)
                r.kind = "const"
            self.globals[name] = r
        return r

    def gep(self, p, srct, idx):
        if isinstance(p, PtrSet):
            return PtrSet([(c, self.gep(q, srct, idx)) for c, q in p.alts])
        if isinstance(p, Fn):
            raise Unsupported("gep on function")
        off = p.off
        t = srct
        for k, i in enumerate(idx):
            if k == 0:
                off = add(off, scale(t.size, i))
            elif t.kind == "struct":
                off = add(off, num(t.offs[i.args]))
                t = t.elems[i.args]
            elif t.kind in ("array", "vector"):
                off = add(off, scale(t.elem.size, i))
                t = t.elem
            else:
                raise Unsupported("gep type")
        return Ptr(p.r, off, p.idx)

    def val(self, v, env):
        if isinstance(v, IR.Const):
            return self.const(v)
        r = env.get(v)
        if r is None:
            if isinstance(v, IR.Inst):
                raise KeyError(v.text())
            raise KeyError("arg")
        return r

    # integers are canonical signed values
    def wrapped(self, e, w, guard, kind, loc, nsw=False, nuw=False):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if e.lo is not None and e.hi is not None and e.lo >= lo and e.hi <= hi:
            return e
        if nsw:
            if self.o["overflow"]:
                self.ob("overflow", kind, guard, and_(le(num(lo), e), le(e, num(hi))), loc)
            return e
        # no UB: try to show that it stays in range, else exact wrap
        g = and_(le(num(lo), e), le(e, num(hi)))
        if g is TRUE:
            return e
        key = ("w", g, guard)
        if self.prove(guard, g, 2):
            return e
        q, m = divmod_(add(e, num(-lo)), num(1 << w))
        return add(m, num(lo))

    def ubits(self, a, w):
        if a.lo is not None and a.lo >= 0:
            return a
        return ite(le(ZERO, a), a, add(a, num(1 << w)))

    def fromu(self, a, w):
        h = (1 << (w - 1)) - 1
        if a.hi is not None and a.hi <= h:
            return a
        return ite(le(a, num(h)), a, sub(a, num(1 << w)))

    def occurring(self, v, guard):
        """the cases of a pointer that occur where guard holds"""
        if not isinstance(v, PtrSet):
            return v
        al = []
        for c, p in v.alts:
            if not self.prove(guard, not_(c), 5):
                al.append((c, p))
            guard = and_(guard, not_(c))
        return al[0][1] if len(al) == 1 else PtrSet(al) if al else v

    def icmp(self, pred, a, b, w):
        if pv(a) or pv(b):
            if not pv(a):
                a = NULL if a is ZERO else a
            if not pv(b):
                b = NULL if b is ZERO else b
            e = peq(a, b)
            if pred == 32:
                return e
            if pred == 33:
                return not_(e)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                x, y = a.off, b.off
                return {34: lt(y, x), 35: le(y, x), 36: lt(x, y), 37: le(x, y), 38: lt(y, x), 39: le(y, x), 40: lt(x, y), 41: le(x, y)}[pred]
            raise Unsupported("pointer comparison %s %s" % (a, b))
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.icmp(pred, a.p, b.p, 64)
            x, y = (a, b) if isinstance(a, PtrInt) else (b, a)
            if pred in (32, 33) and y is ZERO:
                e = peq(x.p, NULL)
                return e if pred == 32 else not_(e)
            raise Unsupported("address comparison")
        if a.sort == "B":
            if pred == 32:
                return eq(a, b)
            if pred == 33:
                return not_(eq(a, b))
            a, b = ite(a, ONE, ZERO), ite(b, ONE, ZERO)
        if pred == 32:
            return eq(a, b)
        if pred == 33:
            return not_(eq(a, b))
        if pred in (38, 39, 40, 41):
            return {38: lt(b, a), 39: le(b, a), 40: lt(a, b), 41: le(a, b)}[pred]
        if pred in (34, 35):
            a, b = b, a
            pred += 2
        # unsigned a < b / a <= b
        f = lt if pred == 36 else le
        an = a.lo is not None and a.lo >= 0
        bn = b.lo is not None and b.lo >= 0
        if an and bn:
            return f(a, b)
        if bn:
            return and_(le(ZERO, a), f(a, b))
        if an:
            return or_(lt(b, ZERO), f(a, b))
        az, bz = le(ZERO, a), le(ZERO, b)
        return ite(az, ite(bz, f(a, b), TRUE), ite(bz, FALSE, f(a, b)))

    def nonneg(self, a, guard):
        if a.lo is not None and a.lo >= 0:
            return True
        return self.prove(guard, le(ZERO, a), 2)

    def bitand(self, a, b, w):
        for x, y in ((a, b), (b, a)):
            if y.op == "num":
                k = y.args
                if k == -1:
                    return x
                if k == 0:
                    return ZERO
                if k > 0 and (k & (k + 1)) == 0:  # low mask
                    return divmod_(x, num(k + 1))[1]
                if k < 0 and ((-k) & (-k - 1)) == 0:  # clear low bits
                    return sub(x, divmod_(x, num(-k))[1])
                if k > 0 and (k & (k - 1)) == 0:
                    q, _ = divmod_(x, num(k))
                    return scale(k, divmod_(q, num(2))[1])
                # contiguous high mask within
                low = (k & -k)
                if k > 0 and ((k // low) & (k // low + 1)) == 0:
                    q, _ = divmod_(x, num(low))
                    return scale(low, divmod_(q, num(k // low + 1))[1])
        if a.op != "num" and b.op != "num" and all(x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= 1 for x in (a, b)):
            return ite(and_(not_(eq(a, ZERO)), not_(eq(b, ZERO))), ONE, ZERO)  # one bit each
        # x & (p-1) where p is a power of two symbol
        h = 1 << (w - 1)
        lo = 0 if (a.lo is not None and a.lo >= 0) or (b.lo is not None and b.lo >= 0) else -h
        his = [x.hi for x in (a, b) if x.lo is not None and x.lo >= 0 and x.hi is not None]
        if a.id > b.id:
            a, b = b, a
        r = app("bitand%d" % w, (a, b), "I", None, None)
        for x in (a, b):
            if x.lo is not None and x.lo >= 0:
                self.fact(and_(le(ZERO, r), le(r, x)))
        self.fact(and_(le(num(-h), r), le(r, num(h - 1))))
        return r

    def bin(self, I, a, b, guard, w, loc):
        op = I.op
        if isinstance(a, tuple):
            raise Unsupported("vector op")
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == "sub" and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.pdiff(a.p, b.p, guard)
            if op == "add":
                if isinstance(b, PtrInt):
                    a, b = b, a
                if not isinstance(b, PtrInt):
                    return PtrInt(self.padd(a.p, b))
            if op == "sub" and isinstance(a, PtrInt):
                return PtrInt(self.padd(a.p, neg(b)))
            raise Unsupported("address arithmetic " + op)
        if w == 1:
            if a.sort != "B":
                a = not_(eq(a, ZERO))
            if b.sort != "B":
                b = not_(eq(b, ZERO))
            if op in ("and", "mul"):
                return and_(a, b)
            if op == "or":
                return or_(a, b)
            if op in ("xor", "add", "sub"):
                return not_(eq(a, b))
            raise Unsupported("i1 " + op)
        x = I.x or (False, False)
        if op == "add":
            return self.wrapped(add(a, b), w, guard, "add", loc, x[0])
        if op == "sub":
            return self.wrapped(sub(a, b), w, guard, "sub", loc, x[0])
        if op == "mul":
            return self.wrapped(mul(a, b), w, guard, "mul", loc, x[0])
        if op == "shl":
            if b.op == "num":
                return self.wrapped(scale(1 << b.args, a), w, guard, "shl", loc, x[0])
            p = self.pow2(b)
            return self.wrapped(mul(a, p), w, guard, "shl", loc, x[0])
        if op in ("udiv", "urem"):
            self.ob("div", "division by zero", guard, not_(eq(b, ZERO)), loc)
            if not (a.lo is not None and a.lo >= 0) and self.prove(guard, le(ZERO, a), 2):
                ua = a
            else:
                ua = self.ubits(a, w)
            if not (b.lo is not None and b.lo >= 0) and self.prove(guard, le(ZERO, b), 2):
                ub = b
            else:
                ub = self.ubits(b, w)
            q, m = divmod_(ua, ub)
            if op == "udiv":
                if q.hi is None and (ua.hi is None or ua.hi > (1 << (w - 1)) - 1):
                    if ua is a:
                        return q
                    return self.fromu(q, w)
                return self.fromu(q, w) if q.hi is not None else q
            return m if ub is b else self.fromu(m, w)
        if op in ("sdiv", "srem"):
            self.ob("div", "division by zero", guard, not_(eq(b, ZERO)), loc)
            q = self.sdiv(a, b, guard)
            if op == "sdiv":
                return q
            m = sub(a, mul(b, q))
            if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 1:
                TM.tighten(m, 0, None if b.hi is None else b.hi - 1)
            return m
        if op == "lshr":
            if b.op == "num":
                q, m = divmod_(a if self.nonneg(a, guard) else self.ubits(a, w), num(1 << b.args))
                return q
            if self.nonneg(a, guard):
                return divmod_(a, self.pow2(b))[0]
        if op == "ashr":
            if b.op == "num":
                return divmod_(a, num(1 << b.args))[0]
        if op == "and":
            return self.bitand(a, b, w)
        if op == "or":
            # disjoint or: low bits of one are zero
            for p, q in ((a, b), (b, a)):
                if q.lo is not None and q.lo >= 0 and q.hi is not None:
                    k = 1
                    while k <= q.hi:
                        k *= 2
                    if divmod_(p, num(k))[1] is ZERO:
                        return add(p, q)
            if a is ZERO:
                return b
            if b is ZERO:
                return a
        if op == "xor":
            if b.op == "num" and b.args == -1:
                return sub(num(-1), a)
            if a is b:
                return ZERO
        if a.op == "num" and b.op == "num":
            f = {"and": a.args & b.args, "or": a.args | b.args, "xor": a.args ^ b.args}.get(op)
            if f is not None:
                return num(f)
        if op in ("or", "xor", "and") and all(x.lo is not None and x.lo >= 0 and x.hi is not None and x.hi <= 1 for x in (a, b)):
            # one bit each
            p, q = not_(eq(a, ZERO)), not_(eq(b, ZERO))
            return ite({"or": or_, "and": and_}.get(op, lambda x, y: not_(eq(a, b)))(p, q), ONE, ZERO)
        h = 1 << (w - 1)
        t = app("bit_%s%d" % (op, w), (a, b), "I", -h, h - 1)
        na, nb, nt = lt(a, ZERO), lt(b, ZERO), lt(t, ZERO)
        if op == "or":
            self.fact(eq(nt, or_(na, nb)))
            self.fact(implies(not_(nt), and_(le(a, t), le(b, t), le(t, add(a, b)))))
        elif op == "and":
            self.fact(eq(nt, and_(na, nb)))
            self.fact(implies(not_(na), le(t, a)))
            self.fact(implies(not_(nb), le(t, b)))
        elif op == "xor":
            self.fact(eq(nt, not_(eq(na, nb))))
        return t

    def pow2(self, b):
        p = app("npv_pow2", (b,), "I")
        self.fact(and_(le(ONE, p), implies(eq(b, ZERO), eq(p, ONE))))
        return p

    def sdiv(self, a, b, guard):
        if b.op == "num":
            if b.args == -1:
                return neg(a)
            if b.args < 0:
                return neg(self.sdiv(a, num(-b.args), guard))
        else:
            if not (b.lo is not None and b.lo >= 1):
                if not self.prove(guard, lt(ZERO, b), 2):
                    s = self.sdiv_abs(a, b)
                    return s
        if a.lo is not None and a.lo >= 0 or self.prove(guard, le(ZERO, a), 2):
            return divmod_(a, b)[0]
        if a.hi is not None and a.hi <= 0:
            return neg(divmod_(neg(a), b)[0])
        return ite(le(ZERO, a), divmod_(a, b)[0], neg(divmod_(neg(a), b)[0]))

    def sdiv_abs(self, a, b):
        ab = ite(le(ZERO, b), b, neg(b))
        aa = ite(le(ZERO, a), a, neg(a))
        q = divmod_(aa, ab)[0]
        return ite(eq(le(ZERO, a), le(ZERO, b)), q, neg(q))

    def pdiff(self, a, b, guard):
        if isinstance(a, PtrSet) or isinstance(b, PtrSet):
            A, B = self.alts(a, TRUE), self.alts(b, TRUE)
            res = None
            for g, p in reversed(A):
                for h, q in reversed(B):
                    gg = and_(g, h)
                    if gg is FALSE or p.r is not q.r:
                        if and_(gg, guard) is FALSE:
                            continue
                        if p.r is not q.r:
                            continue
                    v = self.pdiff(p, q, guard)
                    res = v if res is None else vite(gg, v, res)
            if res is None:
                raise Unsupported("difference of unrelated pointers")
            return res
        if a.r is not b.r:
            raise Unsupported("difference of unrelated pointers %s %s" % (a, b))
        return sub(a.off, b.off)

    def padd(self, p, d):
        if isinstance(p, PtrSet):
            return PtrSet([(c, self.padd(q, d)) for c, q in p.alts])
        return Ptr(p.r, add(p.off, d), p.idx)

    # ---------------------------------------------------------------- floats
    def fbin(self, op, a, b):
        if isinstance(a, tuple):
            raise Unsupported("vector")
        self.assumptions.add("floating-point arithmetic treated as real arithmetic")
        if op == "fadd":
            return add(a, b)
        if op == "fsub":
            return sub(a, b)
        if op == "fmul":
            return mul(a, b)
        if op == "fdiv":
            return rdiv(a, b)
        if op == "frem":
            return self.fmod(a, b)
        raise Unsupported(op)

    def fmod(self, a, b):
        # a - b*trunc(a/b)
        q = rdiv(a, b)
        t = toint(q)
        tr = ite(le(num(0, "R"), q), t, neg(toint(neg(q))))
        return sub(a, mul(b, toreal(tr)))

    def fcmp(self, p, a, b):
        p &= 7
        r = {0: FALSE, 1: None, 2: None, 3: None, 4: None, 5: None, 6: None, 7: TRUE}
        if p == 1:
            return eq(a, b)
        if p == 2:
            return lt(b, a)
        if p == 3:
            return le(b, a)
        if p == 4:
            return lt(a, b)
        if p == 5:
            return le(a, b)
        if p == 6:
            return not_(eq(a, b))
        return None

    def trunc_to_int(self, a):
        if a.lo is not None and a.lo >= 0:
            return toint(a)
        return ite(le(num(0, "R"), a), toint(a), neg(toint(neg(a))))

    # ---------------------------------------------------------------- functions
    def loc(self, I):
        try:
            fn = IR.dbg_file(I.h)
        except Exception:
            fn = ""
        return "%s:%d" % (fn, I.line())

    def call_function(self, F, args, guard):
        F.build()
        if F.decl:
            raise Unsupported("call to external " + F.name)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        self.fns_seen[F.name] = self.fns_seen.get(F.name, 0) + 1
        env = {}
        for a, v in zip(F.args, args):
            env[a] = v
        loops = self.loopcache.get(F.name)
        if loops is None:
            loops = self.loopcache[F.name] = find_loops(F)
        rets = []
        fr = {"F": F, "env": env, "loops": loops, "rets": rets}
        self.run(fr, set(F.blocks), F.blocks[0], [(None, guard)], None)
        self.depth -= 1
        rv = None
        g = FALSE
        for rg, v in rets:
            rv = v if (rv is None and g is FALSE) else (None if v is None else vite(rg, v, rv))
            g = or_(g, rg)
        return rv, g

    def run(self, fr, blocks, entry, entry_edges, cur, phis=None):
        """execute an acyclic region (inner loops collapsed).  Returns edges leaving
        `blocks` or going back to header `cur`: list of (from, to, guard)."""
        inc = {entry: list(entry_edges)}
        out = []
        order = fr["loops"]["rpo"]
        env = fr["env"]
        done = set()
        lo = fr["loops"]
        for b in order:
            if b not in blocks or b in done or b not in inc:
                continue
            edges = [(p, g) for p, g in inc[b] if g is not FALSE]
            if not edges:
                continue
            if time.time() > self.t_end:
                raise Unsupported("time budget")
            L = lo["header"].get(b)
            if L is not None and b is not cur:
                done |= L["blocks"]
                res = self.loop(fr, L, edges)
                for f, t, g in res:
                    if t in blocks and t is not cur:
                        inc.setdefault(t, []).append((f, g))
                    else:
                        out.append((f, t, g))
                continue
            guard = or_(*[g for p, g in edges])
            if b is entry and phis is not None:
                env.update(phis)
                skip_phi = True
            else:
                skip_phi = False
            res = self.block(fr, b, edges, guard, skip_phi)
            for t, g in res:
                if t in blocks and t is not cur:
                    inc.setdefault(t, []).append((b, g))
                else:
                    out.append((b, t, g))
        return out

    def block(self, fr, b, edges, guard, skip_phi):
        env = fr["env"]
        newphi = {}
        for I in b.insts:
            op = I.op
            if op == "phi":
                if skip_phi:
                    continue
                v = None
                first = True
                for p, g in reversed(edges):
                    for bb, x in I.x:
                        if bb is p:
                            xv = self.val(x, env)
                            v = xv if first else vite(g, xv, v)
                            first = False
                            break
                newphi[I] = v
                continue
            if newphi:
                env.update(newphi)
                newphi = {}
            if op == "br":
                if len(b.succ) == 1:
                    return [(b.succ[0], guard)]
                c = self.val(I.ops[0], env)
                if self.known:
                    c = TM.replace(c, self.known)
                g1, g2 = and_(guard, c), and_(guard, not_(c))
                if b.succ[0] is b.succ[1]:
                    return [(b.succ[0], guard)]
                return [(b.succ[0], g1), (b.succ[1], g2)]
            if op == "switch":
                v = self.val(I.ops[0], env)
                res = {}
                rest = guard
                for c, t in I.x[1]:
                    e = eq(v, self.const(c)) if v.sort == "I" else eq(v, self.const(c))
                    res[t] = or_(res.get(t, FALSE), and_(guard, e))
                    rest = and_(rest, not_(e))
                res[I.x[0]] = or_(res.get(I.x[0], FALSE), rest)
                return list(res.items())
            if op == "ret":
                fr["rets"].append((guard, self.val(I.ops[0], env) if I.ops else None))
                return []
            if op in ("unreachable", "resume"):
                # execution stops here (abort / assertion failure): assume not taken
                self.fact(not_(guard))
                return []
            if op == "invoke":
                v, g = self.call(fr, I, guard)
                env[I] = v
                return [(b.succ[0], g)]
            if op in ("call",):
                v, g = self.call(fr, I, guard)
                env[I] = v
                if g is not guard:
                    guard = g
                    if g is FALSE:
                        return []
                continue
            env[I] = self.inst(I, env, guard)
        raise Unsupported("block without terminator")

    def inst(self, I, env, guard):
        op = I.op
        loc = None
        if op in ("load", "store", "atomicrmw", "cmpxchg", "add", "sub", "mul", "shl", "udiv", "sdiv", "urem", "srem", "fptosi", "fptoui"):
            loc = self.loc(I)
        if op == "load":
            return self.load(self.val(I.ops[0], env), I.ty, guard, loc)
        if op == "store":
            v = self.val(I.ops[0], env)
            t = I.ops[0].ty if not (isinstance(I.ops[0], IR.Const) and I.ops[0].ty is None) else PTR_TY
            self.store(self.val(I.ops[1], env), v, t, guard, loc)
            return None
        if op == "gep":
            return self.gep(self.val(I.ops[0], env), I.x, [self.val(o, env) for o in I.ops[1:]])
        if op == "alloca":
            n = self.val(I.ops[0], env)
            return Ptr(self.new_region("alloca_" + str(I.block.fn.name)[:20], "alloca", scale(I.x.size, n)))
        if op in ("add", "sub", "mul", "shl", "udiv", "sdiv", "urem", "srem", "lshr", "ashr", "and", "or", "xor"):
            return self.bin(I, self.val(I.ops[0], env), self.val(I.ops[1], env), guard, I.ty.width, loc)
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            return self.fbin(op, self.val(I.ops[0], env), self.val(I.ops[1], env))
        if op == "fneg":
            return neg(self.val(I.ops[0], env))
        if op == "icmp":
            a, b = self.val(I.ops[0], env), self.val(I.ops[1], env)
            w = I.ops[0].ty.width if I.ops[0].ty is not None else None
            if I.x > 33 and (isinstance(a, PtrSet) or isinstance(b, PtrSet)):
                a, b = self.occurring(a, guard), self.occurring(b, guard)
            return self.icmp(I.x, a, b, w)
        if op == "fcmp":
            r = self.fcmp(I.x, self.val(I.ops[0], env), self.val(I.ops[1], env))
            if r is None:
                # ordered / unordered tests: no NaN
                r = TRUE if I.x == 7 else FALSE
            if I.x == 15:
                r = TRUE
            if I.x == 8:
                r = FALSE
            return r
        if op == "select":
            c = self.val(I.ops[0], env)
            return vite(c, self.val(I.ops[1], env), self.val(I.ops[2], env))
        if op == "zext":
            v = self.val(I.ops[0], env)
            if isinstance(v, PtrInt):
                return v
            if v.sort == "B":
                return ite(v, ONE, ZERO)
            return self.ubits(v, I.ops[0].ty.width)
        if op == "sext":
            v = self.val(I.ops[0], env)
            if v.sort == "B":
                return ite(v, num(-1), ZERO)
            return v
        if op == "trunc":
            v = self.val(I.ops[0], env)
            w = I.ty.width
            if w == 1:
                return eq(divmod_(v, num(2))[1], ONE)
            return self.wrapped(v, w, guard, "trunc", loc)
        if op == "freeze":
            return self.val(I.ops[0], env)
        if op in ("bitcast", "addrspacecast"):
            v = self.val(I.ops[0], env)
            if pv(v):
                return v
            return self.conv(v, tykey(I.ops[0].ty), tykey(I.ty))
        if op == "ptrtoint":
            v = self.val(I.ops[0], env)
            return ZERO if v is NULL else PtrInt(v)
        if op == "inttoptr":
            v = self.val(I.ops[0], env)
            if isinstance(v, PtrInt):
                return v.p
            if v is ZERO:
                return NULL
            raise Unsupported("inttoptr")
        if op == "sitofp":
            return toreal(self.val(I.ops[0], env))
        if op == "uitofp":
            v = self.val(I.ops[0], env)
            if v.sort == "B":
                v = ite(v, ONE, ZERO)
            return toreal(self.ubits(v, I.ops[0].ty.width))
        if op in ("fptosi", "fptoui"):
            v = self.val(I.ops[0], env)
            r = self.trunc_to_int(v)
            w = I.ty.width
            if op == "fptosi" and self.o["overflow"]:
                self.ob("overflow", "float to int", guard, and_(le(num(-(1 << (w - 1))), r), le(r, num((1 << (w - 1)) - 1))), loc)
            return r
        if op in ("fpext", "fptrunc"):
            return self.val(I.ops[0], env)
        if op == "extractvalue":
            v = self.val(I.ops[0], env)
            for k in I.x:
                v = v[k]
            return v
        if op == "insertvalue":
            a, v = self.val(I.ops[0], env), self.val(I.ops[1], env)
            return ins(a, I.x, v)
        if op == "atomicrmw":
            return self.rmw(I, self.val(I.ops[0], env), self.val(I.ops[1], env), guard, loc)
        if op in ("landingpad",):
            return self.undef(I.ty)
        if op == "fence":
            return None
        raise Unsupported("instruction " + I.op + ": " + I.text()[:120])

    # atomics --------------------------------------------------------------------
    def rmw(self, I, p, v, guard, loc):
        op = I.x  # 0 xchg 1 add 2 sub 3 and 5 or 7 max 8 min 9 umax 10 umin 11 fadd
        k = self.kernel_scope()
        res = None
        ty = I.ops[1].ty
        for g, q in reversed(self.alts(p, guard)):
            if q.r is NULLR:
                continue
            if k is None or q.r.depth > 0:
                self.access("W", q, ty.size, g, loc)
                old = self.read(self.mem, q.r, q.idx, q.off, tykey(ty), g)
                new = {0: lambda: v, 1: lambda: add(old, v), 2: lambda: sub(old, v), 7: lambda: ite(le(old, v), v, old),
                       8: lambda: ite(le(v, old), v, old), 11: lambda: add(old, v)}.get(op)
                if new is None:
                    raise Unsupported("atomic op")
                self.node("W", r=q.r, idx=q.idx, off=q.off, ty=tykey(ty), val=new(), guard=g)
                r = old
            else:
                if op not in (1, 7, 8, 11, 2):
                    raise Unsupported("atomic op %d in kernel" % op)
                self.access("A", q, ty.size, g, loc)
                r = self.kernel_atomic(op, q, v, ty, g, loc)
            res = r if res is None else vite(g_only(g, guard), r, res)
        return res if res is not None else self.undef(ty)

    def kernel_scope(self):
        for s in self.scopes:
            if s.kernel:
                return s
        return None

    def kernel_atomic(self, op, q, v, ty, g, loc):
        """concurrent fetch-op by all items: tickets (add of 1) are distinct and fill
        an interval; only the base value and the count are visible afterwards"""
        if op != 1 or not (v.op == "num" and v.args == 1):
            n = self.node("atom", r=q.r, idx=q.idx, off=q.off, ty=tykey(ty), val=v, guard=g)
            n.x = (op, None)
            self.abstract_atomic = True
            return self.unknown(tykey(ty))
        self.fresh_n += 1
        nm = "ticket!%d" % self.fresh_n
        bv = self.bvars()
        h = 1 << (8 * ty.size - 1)
        base = self.read(self.kern["mem0"], q.r, q.idx, q.off, tykey(ty), g)
        t = app(nm, bv, "I")
        cn = app(nm + "_cnt", q.idx + (q.off,), "I")
        inv = [app("%s_inv%d" % (nm, i), q.idx + (q.off, t), "I") for i in range(len(bv))]
        self.fact(and_(le(base, t), lt(t, add(base, cn)), *[eq(iv, x) for iv, x in zip(inv, bv)]), g)
        self.fact(le(ZERO, cn))
        n = self.node("atom", r=q.r, idx=q.idx, off=q.off, ty=tykey(ty), val=v, guard=g)
        n.x = (op, nm)
        addr = q.idx + (q.off,)
        if not hasattr(self, "inv"):
            self.inv = {}

        def invf(atom, rest, var, todo, nm=nm, addr=addr, bv=bv):
            # solve ticket(x)=rest : x = inv(addr, rest); the address must not
            # depend on x unless it is one of the matched components
            ad = []
            for a in addr:
                if not (fv(a) & set(bv)):
                    ad.append(a)
                    continue
                hit = None
                for (l, t2) in todo:
                    if l is not None:
                        k = match_affine(a, l, t2)
                        if k is not None:
                            hit = k
                if hit is None:
                    return None
                ad.append(hit)
            i = bv.index(var)
            return app("%s_inv%d" % (nm, i), tuple(ad) + (rest,), "I")
        self.inv[nm] = invf
        self.tk[nm] = (q, bv, base, g, t, tykey(ty), cn)
        return t

    def ticket_count(self, nm, addr, base):
        q, bv, b0, g, t, ty, cn0 = self.tk[nm]
        cn = app(nm + "_cnt", addr, "I")
        self.fact(le(ZERO, cn))
        # every ticket value was drawn by an item
        for v in (base, add(base, cn, num(-1))):
            self.ticket_item(nm, addr, v, base, cn)
        return cn

    def ticket_item(self, nm, addr, v, base, cn):
        q, bv, b0, g, t, ty, cn0 = self.tk[nm]
        key = ("ti", nm) + tuple(addr) + (v,)
        if key in self.instm:
            return
        self.instm.add(key)
        sig = {x: app("%s_inv%d" % (nm, i), tuple(addr) + (v,), "I") for i, x in enumerate(bv)}
        ad = q.idx + (q.off,)
        rngs = TRUE
        self.fact(implies(and_(le(base, v), lt(v, add(base, cn))),
                          and_(subst(g, sig), eq(subst(t, sig), v), *[eq(subst(a, sig), b) for a, b in zip(ad, addr)])))

    # ---------------------------------------------------------------- loops
    def snapshot(self):
        return (self.mem, len(self.facts), len(self.obs), [len(s.acc) for s in self.scopes], self.abstract, len(self.tickets))

    def rollback(self, s):
        self.mem = s[0]
        del self.facts[s[1]:]
        del self.obs[s[2]:]
        for sc, n in zip(self.scopes, s[3]):
            del sc.acc[n:]
        self.abstract = s[4]
        self.instm = set()
        # division definitions may have been dropped with the facts
        self.divs = {}
        for t in list(TM._tab.values()):
            pass
        self.redefine_divs()

    def redefine_divs(self):
        # (re)assert definitional facts for all symbolic divisions seen so far
        for key, t in list(TM._tab.items()):
            if t.op == "app" and t.args[0] == "npv_div":
                a, b = t.args[1], t.args[2]
                if (a, b) not in self.divs:
                    self._def_div(t, app("npv_mod", (a, b), "I"), a, b)

    def loop(self, fr, L, edges):
        env = fr["env"]
        h = L["h"]
        phis = [I for I in h.insts if I.op == "phi"]
        guard = or_(*[g for p, g in edges])
        init = {}
        for I in phis:
            v = None
            first = True
            for p, g in reversed(edges):
                for bb, x in I.x:
                    if bb is p:
                        xv = self.val(x, env)
                        v = xv if first else vite(g, xv, v)
                        first = False
                        break
            init[I] = v
        # ---- try complete unrolling
        snap = self.snapshot()
        senv = dict(env)
        try:
            r = self.unroll(fr, L, phis, dict(init), guard)
        except Unsupported:
            if self.o.get("debug"):
                print("unroll unsupported")
            r = None
            if self.o.get("debug"):
                import traceback
                traceback.print_exc()
        if r is not None:
            self.loops["unrolled"] += 1
            return r
        self.rollback(snap)
        env.clear()
        env.update(senv)
        self.loops["generic"] += 1
        return self.generic_loop(fr, L, phis, init, guard)

    def iteration(self, fr, L, phis, vals, guard):
        """one walk of the body; returns (back edges, exit edges)"""
        env = fr["env"]
        out = self.run(fr, L["blocks"], L["h"], [(None, guard)], L["h"], phis=vals)
        back = [(f, g) for f, t, g in out if t is L["h"]]
        exits = [(f, t, g) for f, t, g in out if t is not L["h"]]
        return back, exits

    def next_vals(self, fr, phis, back):
        env = fr["env"]
        nv = {}
        for I in phis:
            v = None
            first = True
            for f, g in reversed(back):
                for bb, x in I.x:
                    if bb is f:
                        xv = self.val(x, env)
                        v = xv if first else vite(g, xv, v)
                        first = False
            nv[I] = v
        return nv

    def unroll(self, fr, L, phis, vals, guard):
        exits_all = []
        g = guard
        limit = self.o["unroll"]
        env = fr["env"]
        joined = {}
        outs = []
        for it in range(limit):
            back, exits = self.iteration(fr, L, phis, vals, g)
            back = [(f, x) for f, x in back if x is not FALSE]
            bg = or_(*[x for _, x in back]) if back else FALSE
            live = [(f, t, x) for f, t, x in exits if x is not FALSE]
            # record values defined in the loop that are visible outside
            for f, t, x in live:
                outs.append((f, t, x, dict((v, env[v]) for v in L["liveout"] if v in env)))
            if bg is FALSE:
                break
            if live and it >= self.o.get("symunroll", 4):
                # trip count is symbolic: only continue when bounded by intervals
                return None
            if live and it < 3 and self.o.get("smallloops") and not self.feasible(bg):
                break  # provably the last iteration
            if live and it == 0 and not self.bounded_hint(fr, L, phis, vals, bg, back) and not self.o.get("smallloops"):
                return None
            if live and self.o.get("smallloops") and it >= self.o["smallloops"]:
                return None
            vals = self.next_vals(fr, phis, back)
            g = bg
        else:
            return None
        # merge values over the exits
        m = {}
        for v in L["liveout"]:
            r = None
            first = True
            for f, t, x, e in reversed(outs):
                if v in e:
                    r = e[v] if first else vite(x, e[v], r)
                    first = False
            if not first:
                m[v] = r
        env.update(m)
        # outgoing phi operands are evaluated from env: for several exits through the
        # same edge the merged values are right because guards are disjoint
        ed = {}
        for f, t, x, e in outs:
            ed[(f, t)] = or_(ed.get((f, t), FALSE), x)
        return [(f, t, g) for (f, t), g in ed.items()]

    def bounded_hint(self, fr, L, phis, vals, bg, back):
        """is the trip count below the symbolic-unroll limit? decided by intervals:
        every symbol in the back-edge condition has a small range"""
        lim = self.o.get("symunroll", 4)
        for c in conj(bg):
            if c.op == "le":
                t = c.args[0]
                for a in fv_atoms(t):
                    if a.lo is None or a.hi is None or a.hi - a.lo > 2 * lim:
                        break
                else:
                    return True
        return False

    def generic_loop(self, fr, L, phis, init, guard):
        """summary of a loop; locations of memory that every iteration reads and
        updates (an accumulator that stays in memory) are carried like loop variables"""
        cells = []
        env = fr["env"]
        while True:
            snap, envs, scs = self.snapshot(), dict(env), list(self.scopes)
            ci = {}
            try:
                for c in cells:
                    ci[c] = self.read(self.mem, c.r, c.pidx, c.off, c.tk, guard)
                return self.generic_loop1(fr, L, phis, init, guard, ci)
            except Conflict as e:
                new = self.carried(e, cells)
                e.cells = []
                if not new or len(cells) > 12:
                    raise
                cells += new
                self.rollback(snap)
                self.scopes[:] = scs
                env.clear()
                env.update(envs)

    def carried(self, e, cells):
        new = []
        for r, idx, off, size in e.cells:
            if any(c.r is r and c.pidx == idx and c.off is off for c in cells + new):
                return []
            n, tk = self.mem, None
            while n is not None and tk is None:
                if n.kind == "W" and n.r is r and n.idx == idx and n.off is off and n.ty[0] in "if" and n.ty[1] == size:
                    tk = n.ty
                n = n.prev
            if tk is None:
                return []
            new.append(Cell(r, idx, off, tk))
        return new

    def generic_loop1(self, fr, L, phis, init, guard, cells):
        env = fr["env"]
        env0 = dict(env)
        init = dict(init)
        init.update(cells)
        phis0, phis = phis, list(phis) + list(cells)
        self.fresh_n += 1
        uid = self.fresh_n
        K = self.fresh("K%d" % uid, "I", 0, None)
        k = app("k%d" % uid, (), "I", 0, None)
        bv_out = self.bvars()
        forms = {}
        ph = {}
        for I in phis:
            init[I] = self.occurring(init[I], guard)
            ph[I] = self.placeholder(I, init[I], uid, k, bv_out)
        rounds = 0
        ghosts = {}
        pre = None
        inv = []
        unw = {}
        speced = False
        while True:
            rounds += 1
            snap = self.snapshot()
            env.clear()
            env.update(env0)
            vals = {I: forms.get(I, ph[I]) for I in phis}
            sc, back, exits, nv, n0 = self.gen_walk(fr, L, phis0, vals, guard, k, K, cells, inv + list(pre or ()))
            new = {}
            unresolved = [I for I in phis if I not in forms]
            if unresolved:
                bad = set()
                for I in unresolved:
                    bad |= atoms_of(ph[I])
                for I in unresolved:
                    f = self.up_to_bound(I, init[I], ph[I], nv[I], k, bad, back, guard, inv, unw)
                    if f is None:
                        v = nv[I]
                        if isinstance(v, TM.T) and v.sort == "I" and dep(v, k) and back:
                            bk = TM.replace(or_(*[x for _, x in back]), unw)
                            v = self.drop_cases(v, and_(guard, le(ZERO, k), lt(k, K), *self.reached(bk, k)), k, 1)
                        elif isinstance(v, Ptr) and dep(v.off, k) and back:
                            bk = TM.replace(or_(*[x for _, x in back]), unw)
                            c = self.drop_cases(sub(v.off, ph[I].off), and_(guard, le(ZERO, k), lt(k, K), *self.reached(bk, k)), k, 1)
                            v = Ptr(v.r, add(ph[I].off, c), v.idx)
                        f = self.closed_form(I, init[I], ph[I], v, k, bad, uid)
                    if f is not None:
                        new[I] = f
                if not new and rounds < 8:
                    # ghost step function for the remaining ones
                    for I in unresolved:
                        ghosts[I] = True
                        new[I] = ph[I]
                if new:
                    forms.update(new)
                    self.rollback(snap)
                    self.pop_scope_after_rollback(sc)
                    continue
            if pre is None:
                # iteration k is reached: the earlier iterations did not leave the loop
                pre = self.reached(TM.replace(or_(*[x for _, x in back]), unw) if back else FALSE, k)
                if pre:
                    self.rollback(snap)
                    self.pop_scope_after_rollback(sc)
                    continue
            todo = [I for u, I in self.spec if u == uid]
            if todo and not speced:
                # the cases in which a pointer leaves its region do not occur
                speced = True
                w = and_(guard, le(ZERO, k), le(k, K), *[x for x in list(pre or ()) + inv])
                for I in todo:
                    for c in eq_atoms(nv[I]) if isinstance(nv[I], PtrSet) else ():
                        if dep(c, k) and c not in self.known and self.prove(w, not_(c), 5):
                            self.known[c] = FALSE
                            self.known[subst(c, {k: K})] = FALSE
                self.rollback(snap)
                self.pop_scope_after_rollback(sc)
                continue
            for I in todo:
                w = and_(guard, le(ZERO, k), lt(k, K), *[x for x in list(pre or ()) + inv])
                if not isinstance(nv[I], Ptr) or nv[I].r is not ph[I].r or nv[I].idx != ph[I].idx or not self.prove(w, eq(nv[I].off, subst(forms[I].off, {k: add(k, ONE)})), 5):
                    raise Unsupported("pointer recurrence changes region")
            break
        # conflict analysis: iterations must not depend on each other through memory
        blk = self.close_scope(sc, [k], uid, n0)
        # b(k) holds for all k < K   (recorded inside the walk)
        # values at K
        mp = {k: K}
        env.clear()
        env.update(env0)
        vK = {}
        for I in phis:
            f = forms[I]
            vK[I] = vsubst(f, mp)
        for I in ghosts:
            # unfold the ghost step function at 0 and at K-1
            st = nv[I]
            P = ph[I]
            if isinstance(P, Ptr):
                P, st = P.off, st.off
            Pz = init[I].off if isinstance(init[I], Ptr) else init[I]
            f = self.step_atom(P)
            if f is None:
                continue
            self.fact(eq(subst(f, {k: ZERO}), Pz), guard)
            body = implies(and_(guard, le(ZERO, k), lt(k, K)), eq(subst(f, {k: add(k, ONE)}), st))
            km = sub(K, ONE)
            for s in (k, km):
                self.fact(implies(le(ZERO, s), subst(body, {k: s})))
                if blk is not None and s is km:
                    self.instantiate((blk,), {k: s})
            self.abstract = True
        # the (K-1)th iteration continued
        bk = or_(*[g for f, g in back]) if back else FALSE
        self.fact(implies(and_(guard, lt(ZERO, K)), subst(self.back_cond, {k: sub(K, ONE)})))
        for f in pre:
            self.fact(implies(guard, subst(f, mp)))
        for f in inv:
            self.fact(implies(guard, subst(f, mp)))
        for m, x in unw.items(): # the last step does not wrap either
            m, x = subst(m, mp), subst(x, mp)
            if m is not x and self.prove(guard, lt(x, num(m.args[1].args)), 5):
                self.fact(eq(m, x), guard)
        for I, f in vK.items(): # nor does a sum of numbers
            if isinstance(f, TM.T) and f.op == "poly" and forms[I] in self.steps:
                x, h = self.steps[forms[I]]
                x = subst(x, mp)
                if self.prove(guard, and_(le(num(-h), x), lt(x, num(h))), 5):
                    vK[I] = x
        for c in cells:
            self.node("W", r=c.r, idx=c.pidx, off=c.off, ty=c.tk, val=vK[c], guard=guard)
        for f in vK.values():
            self.renew_sums(f)
        b2, e2 = self.iteration(fr, L, phis0, {I: vK[I] for I in phis0}, guard)
        self.fact(or_(*[g for f, t, g in e2]) if e2 else FALSE, guard)
        res = []
        for f, t, g in e2:
            res.append((f, t, g))
        return res

    def drop_cases(self, v, w, k, depth=6):
        """v with the cases left out that do not occur where w holds"""
        if v.op == "poly":
            for x in [y for m, c in v.args for y in m if y.op == "ite" and dep(y, k)]:
                y = self.drop_cases(x, w, k, depth)
                if y is not x:
                    v = TM.replace(v, {x: y})
            return v
        if v.op != "ite" or not depth or not dep(v, k):
            return v
        c, a, b = v.args
        if self.prove(w, c, 2):
            return self.drop_cases(a, w, k, depth)
        if self.prove(w, not_(c), 2):
            return self.drop_cases(b, w, k, depth)
        a = self.drop_cases(a, and_(w, c), k, depth - 1)
        b = self.drop_cases(b, and_(w, not_(c)), k, depth - 1)
        if a is b:
            return a
        if c.op == "eq0" and c.args[0].sort == "I": # k = s ? b at s : b
            p = c.args[0]
            d = sub(subst(p, {k: add(k, ONE)}), p)
            if d.op == "num" and abs(d.args) == 1:
                sol = {k: scale(-d.args, sub(p, scale(d.args, k)))}
                if subst(a, sol) is subst(b, sol):
                    return b
        return ite(c, a, b)

    def reached(self, bk, k):
        """consequences, at iteration k, of the back condition of all iterations j < k"""
        out = []
        if bk is FALSE or bk is TRUE:
            return out
        for c in conj(bk):
            if not dep(c, k):
                continue
            if c.op == "le" or c.op == "or" and len(c.args) <= 3 and all(x.op == "le" for x in c.args):
                out.append(or_(le(k, ZERO), subst(c, {k: sub(k, ONE)})))
            elif c.op == "not" and c.args[0].op == "eq0":
                # p(j) != 0 for all j < k, p linear in j: its root is not in [0,k)
                p = c.args[0].args[0]
                if p.sort != "I":
                    continue
                a = subst(p, {k: ZERO})
                d = sub(subst(p, {k: add(k, ONE)}), p)
                if d.op != "num" or d.args == 0 or dep(a, k):
                    continue
                if sub(p, add(a, scale(d.args, k))) is not ZERO:
                    continue
                if abs(d.args) != 1:
                    if a.op == "num":
                        if a.args % d.args:
                            continue
                    elif a.op != "poly" or any(cc % d.args for m, cc in a.args):
                        continue
                root = scale(Fraction(-1, d.args), a)
                out.append(or_(lt(root, ZERO), le(k, root)))
        return out

    def step_atom(self, P):
        return P if P.op == "app" else None

    def placeholder(self, I, init, uid, k, bv):
        nm = "P%d_%d" % (uid, I.idx)
        if isinstance(init, Ptr):
            return Ptr(init.r, app(nm, bv + (k,), "I"), init.idx)
        if isinstance(init, PtrSet):
            # null or one region: keep the region when unique
            rs = {p.r for c, p in init.alts if isinstance(p, Ptr)}
            raise Unsupported("loop-carried pointer set")
        if init is None or isinstance(init, (tuple, PtrInt, Fn)):
            raise Unsupported("loop-carried aggregate")
        if init.sort == "I" and I.ty.kind == "int":
            h = 1 << (I.ty.width - 1)
            return app(nm, bv + (k,), "I", -h, h - 1)
        return app(nm, bv + (k,), init.sort)

    def gen_walk(self, fr, L, phis, vals, guard, k, K, cells=(), pre=()):
        sc = Scope([k], False)
        sc.facts0 = len(self.facts)
        n0 = self.nnode
        sc.mem0 = self.mem
        self.scopes.append(sc)
        rng = and_(le(ZERO, k), lt(k, K))
        g = and_(guard, rng)
        sc.range = rng
        for f in vals.values():
            self.renew_sums(f)
        for f in pre:
            self.fact(f, g)
        for c in cells:
            self.node("W", r=c.r, idx=c.pidx, off=c.off, ty=c.tk, val=vals[c], guard=g)
        back, exits = self.iteration(fr, L, phis, {I: vals[I] for I in phis}, g)
        nv = self.next_vals(fr, phis, back) if back else {I: vals[I] for I in phis}
        bk = or_(*[x for _, x in back]) if back else FALSE
        for c in cells:
            nv[c] = self.read(self.mem, c.r, c.pidx, c.off, c.tk, and_(g, bk))
        sc.cells = cells
        self.fact(bk, g)
        self.back_cond = implies(g, bk)
        # strip the back condition into the guards of this iteration's writes is not
        # needed: it holds for every k < K
        return sc, back, exits, nv, n0

    def pop_scope_after_rollback(self, sc):
        if sc in self.scopes:
            self.scopes.remove(sc)

    def up_to_bound(self, I, init, P, nv, k, bad, back, guard, inv, unw):
        """an unsigned counter without wrap flags that is incremented until it equals
        n: it starts below n, so it is below n whenever an iteration starts"""
        if not back or isinstance(P, (Ptr, PtrSet)) or isinstance(nv, (Ptr, PtrSet, PtrInt)) or nv is None or P.sort != "I" or I.ty.kind != "int":
            return None
        w = I.ty.width
        h = 1 << (w - 1)
        f = self.up_in_steps(init, P, nv, k, bad, back, guard, h, unw)
        if f is not None:
            return f
        q, m = divmod_(add(add(P, ONE), num(h)), num(1 << w))
        if nv is not sub(m, num(h)):
            return None
        for c in conj(or_(*[x for _, x in back])):
            if c.op != "not" or c.args[0].op != "eq0":
                continue
            p = c.args[0].args[0]
            for x, r in ((nv, lt), (P, le)):
                for n in (sub(x, p), add(x, p)):
                    if not atoms_in(n, bad) and not dep(n, k) and not atoms_in(n, atoms_of(nv)) and self.prove(guard, and_(r(init, n), le(n, num(h - 1))), 5):
                        inv.append(r(add(init, k), n))
                        return add(init, k)
        return None

    def up_in_steps(self, init, P, nv, k, bad, back, guard, h, unw):
        """an unsigned counter without wrap flags that advances by a positive invariant
        step while it is below a bound: the sum never wraps, by induction on k"""
        m = add(nv, num(h))
        if m.op != "mod" or m.args[1] is not num(2 * h):
            return None
        st = sub(sub(m.args[0], num(h)), P)
        if st is ONE or atoms_in(st, bad) or dep(st, k):
            return None
        bk = or_(*[x for _, x in back])
        # steps by a number: the sum modulo the width
        w = sub(divmod_(add(add(init, mul(k, st)), num(h)), num(2 * h))[1], num(h)) if st.op == "num" else None
        if w is not None:
            self.steps[w] = add(init, mul(k, st)), h
        if not self.prove(guard, and_(le(ZERO, init), lt(ZERO, st)), 5):
            return w
        if not self.prove(and_(bk, le(ZERO, P)), le(add(P, st), num(h - 1)), 5):
            return w
        f = add(init, mul(k, st))
        unw[divmod_(add(f, st, num(h)), num(2 * h))[1]] = add(f, st, num(h))
        return f

    def closed_form(self, I, init, P, nv, k, bad, uid):
        if isinstance(P, Ptr):
            if isinstance(nv, PtrSet):
                # speculation that it stays in its region; generic_loop1 proves it
                ps = {q.off.id: q for c, q in nv.alts if isinstance(q, Ptr) and q.r is P.r and q.idx == P.idx}
                if len(ps) == 1:
                    self.spec.append((uid, I))
                    nv = list(ps.values())[0]
            if not isinstance(nv, Ptr) or nv.r is not P.r or nv.idx != P.idx:
                raise Unsupported("pointer recurrence changes region")
            c = sub(nv.off, P.off)
            if atoms_in(c, bad) or dep(c, k):
                return None
            return Ptr(P.r, add(init.off, mul(c, k)), P.idx)
        if P.sort == "B":
            if nv is P:
                return init
            if not (atoms_in(nv, bad)) and not dep(nv, k):
                # constant after the first iteration
                return ite(eq(k, ZERO), init, nv)
            return None
        c = sub(nv, P) if not isinstance(nv, (Ptr, PtrSet, PtrInt)) else None
        if c is None:
            raise Unsupported("phi kind change")
        if not atoms_in(c, bad):
            if not dep(c, k):
                if c.sort == "I":
                    r = add(init, mul(c, k))
                    return r
                return add(init, mul(c, toreal(k)))
            return add(init, self.ghost_sum(c, k, k))
        g = self.running_max(nv, P, bad)
        if g is not None:
            g, up = g
            return self.ghost_max(init, g, k) if up else neg(self.ghost_max(neg(init), neg(g), k))
        if not atoms_in(nv, bad):
            # value of the previous iteration
            return ite(eq(k, ZERO), init, subst(nv, {k: sub(k, ONE)}))
        return None

    def running_max(self, nv, P, bad):
        """nv is max(P, g) or min(P, g) for a g that does not depend on the loop's state"""
        if nv.op != "ite":
            return None
        c, a, b = nv.args
        if a is not P and b is not P:
            return None
        g = b if a is P else a
        if g is P or atoms_in(g, bad):
            return None
        if c in (lt(b, a), le(b, a)):
            return g, True
        if c in (lt(a, b), le(a, b)):
            return g, False
        return None

    def ghost_max(self, init, g, k):
        """max of init and g(j) for 0 <= j < k"""
        cv = app("j", (), "I", 0, None)
        gc = subst(g, {k: cv})
        nm = self.max_name.get((init, gc))
        for (i2, g2), n2 in list(self.max_name.items()):
            if nm is None and i2 is init and self.prove(le(ZERO, cv), eq(g2, gc), 2):
                nm = self.max_name[init, gc] = n2
                gc = g2
        if nm is None:
            nm = self.max_name[init, gc] = "MAX!%d" % (len(self.max_name) + 1)
        ps = tuple(sorted((x for x in fv(gc) | fv(init) if x is not cv and x.args[0].startswith(("k", "g", "q_", "x", "c!", "any_"))), key=lambda x: x.args[0]))
        t = app(nm, ps + (k,), gc.sort, init.lo, None if init.hi is None or gc.hi is None else max(init.hi, gc.hi))
        self.max_def[nm] = (init, gc, cv, ps)
        return t

    def state_max(self, t):
        """state the properties of the running maxima in t"""
        for x in TM.subterms(t):
            if x.op != "app" or x.args[0] not in self.max_def or ("m", x) in self.instm:
                continue
            init, gc, cv, ps0 = self.max_def[x.args[0]]
            self.instm.add(("m", x))
            ps, at = tuple(x.args[1:-1]), x.args[-1]
            if ps:
                init, gc = (subst(y, dict(zip(ps0, ps))) for y in (init, gc))
            def m(i):
                return app(x.args[0], ps + (i,), x.sort, x.lo, x.hi)
            self.fact(eq(m(ZERO), init))
            self.fact(implies(le(ZERO, at), le(init, x)))
            nx, ga = m(add(at, ONE)), subst(gc, {cv: at})
            self.fact(implies(le(ZERO, at), and_(le(x, nx), le(ga, nx), or_(eq(nx, x), eq(nx, ga)))))
            if gc.hi is not None and init.hi is not None:
                self.fact(implies(le(ZERO, at), le(x, num(max(gc.hi, init.hi), x.sort))))
            offs = {ZERO}
            for y in TM.subterms(gc):
                if y.op == "poly" and y.sort == "I" and dep(y, cv):
                    o = sub(y, cv)
                    if not dep(o, cv):
                        offs.add(sub(o, num(dict(o.args).get((), 0))) if o.op == "poly" else ZERO if o.op == "num" else o)
            for s in [sub(s, o) for _, s in self.syms if isinstance(s, TM.T) and s.sort == "I" for o in offs]:
                self.fact(implies(and_(le(ZERO, s), lt(s, at)), le(subst(gc, {cv: s}), x)))

    # ghost sums --------------------------------------------------------------------
    def ghost_sum(self, g, var, upto):
        """Sum_{0<=j<upto} g[var:=j]"""
        if not dep(g, var):
            return mul(g, upto if g.sort == "I" else toreal(upto))
        if g.op == "poly":
            # linearity: split
            parts = []
            for m, c in g.args:
                parts.append(scale(c, self.ghost_sum(TM._frompoly({m: 1}, g.sort), var, upto)) if m != () else scale(c, upto if g.sort == "I" else toreal(upto)))
            return add(*parts)
        cv = app("j", (), "I", 0, None)
        gc = subst(g, {var: cv})
        ps = tuple(sorted((x for x in fv(gc) if x is not cv and x.args[0].startswith(("k", "g", "q_", "x", "c!", "any_"))), key=lambda x: x.args[0]))
        key = gc
        s = self.sums.get(key)
        if s is None:
            import itertools
            for k2, (n2, p2) in list(self.sums.items()):
                if len(p2) != len(ps):
                    continue
                for pm in itertools.permutations(ps):
                    k3 = subst(k2, dict(zip(p2, pm)))
                    if k3 is gc or (len(ps) <= 2 and self.prove(le(ZERO, cv), eq(k3, gc), 2)):
                        s = (n2, pm)
                        break
                if s is not None:
                    break
            if s is None:
                s = ("SUM!%d" % (len(self.sums) + 1), ps)
                self.sum_def[s[0]] = (gc, cv, ps)
            self.sums[key] = s
        nm, ps = s
        return self.sum_at(gc, cv, nm, ps, upto)

    def renew_sums(self, t):
        """state the properties of the ghost sums in t again (after a rollback)"""
        if isinstance(t, Ptr):
            t = t.off
        if t is None or pv(t) or isinstance(t, (tuple, PtrInt)):
            return
        if self.max_def:
            self.state_max(t)
        for x in TM.subterms(t):
            if x.op == "app" and x.args[0] in self.sum_def:
                gc, cv, ps0 = self.sum_def[x.args[0]]
                ps = tuple(x.args[1:-1])
                self.sum_at(subst(gc, dict(zip(ps0, ps))) if ps else gc, cv, x.args[0], ps, x.args[-1])

    def sum_at(self, gc, cv, nm, ps, at):
        so = gc.sort
        t = app(nm, ps + (at,), so)
        key = ("s", t)
        if key in self.instm:
            return t
        self.instm.add(key)
        ins = self.sum_inst.setdefault(nm, [])
        z = app(nm, ps + (ZERO,), so)
        self.fact(eq(z, num(0, so)))
        up = app(nm, ps + (add(at, ONE),), so)
        dn = app(nm, ps + (sub(at, ONE),), so)
        self.fact(implies(le(ZERO, at), eq(up, add(t, subst(gc, {cv: at})))))
        self.fact(implies(le(ONE, at), eq(t, add(dn, subst(gc, {cv: sub(at, ONE)})))))
        if so != "I":
            ins.append(ps + (at,))
            return t
        nneg = gc.lo is not None and gc.lo >= 0
        if not nneg and not ps and gc.sort == "I":
            nneg = self.sum_nneg.get(gc)
            if nneg is None:
                nneg = self.sum_nneg[gc] = bool(self.prove(le(ZERO, cv), le(ZERO, gc), 2))
        if nneg:
            self.fact(implies(le(ZERO, at), le(ZERO, t)))
            for o in ins:
                if o[:len(ps)] == ps:
                    a, b = o[-1], at
                    ta, tb = app(nm, ps + (a,), "I"), t
                    self.fact(implies(and_(le(ZERO, a), le(a, b)), le(ta, tb)))
                    self.fact(implies(and_(le(ZERO, b), le(b, a)), le(tb, ta)))
                    self.fact(implies(and_(le(ZERO, a), lt(a, b)), le(add(ta, subst(gc, {cv: a})), tb)))
                    self.fact(implies(and_(le(ZERO, b), lt(b, a)), le(add(tb, subst(gc, {cv: b})), ta)))
        if gc.hi is not None:
            self.fact(implies(le(ZERO, at), le(t, scale(gc.hi, at))))
        if gc.lo is not None:
            self.fact(implies(le(ZERO, at), le(scale(gc.lo, at), t)))
        ins.append(ps + (at,))
        return t

    # closing a generic scope ----------------------------------------------------------
    def close_scope(self, sc, vs, uid, n0):
        """end of a generic loop iteration: summarise for all iterations"""
        self.scopes.remove(sc)
        facts = self.facts[sc.facts0:]
        last = self.mem
        regs = set()
        n = last
        allvars = set(vs)
        while n is not None and n is not sc.mem0:
            if n.kind == "par":
                regs |= n.x["regions"]
                allvars |= set(n.x["allvars"])
            elif n.r.depth <= len(self.scopes):
                regs.add(n.r)
            n = n.prev
        cells = getattr(sc, "cells", ())
        acc = [a for a in sc.acc if not any(a[1] is c.r and a[2] == c.pidx and a[3] is c.off and a[4] == c.tk[1] for c in cells)]
        try:
            self.conflicts(acc, vs, allvars, facts, False)
        except Conflict:
            self.scopes.append(sc)
            raise
        self.mem = sc.mem0
        if not regs:
            return None
        return self.node("par", x={"vars": list(vs), "range": sc.range, "last": last, "regions": regs, "facts": facts, "n0": n0, "cells": cells,
                                   "allvars": allvars, "uid": uid})

    def conflicts(self, acc, vs, allvars, facts, kernel, same=()):
        """two distinct items/iterations must not touch the same location, unless both
        only read or both update atomically"""
        W = [a for a in acc if a[0] in ("W", "A")]
        if not W:
            return
        pr = {v: app(v.args[0] + "'", (), "I", v.lo, v.hi) for v in allvars}
        diff = and_(not_(and_(*[eq(v, pr[v]) for v in vs])), *[eq(v, pr[v]) for v in same])
        seen = set()
        pairs = []
        for w in W:
            for a in acc:
                if a[1] is not w[1]:
                    continue
                if a[0] == "A" and w[0] == "A":
                    continue
                key = (w[0] == "A", a[0], w[2], w[3], w[4], w[5], a[2], a[3], a[4], a[5])
                if key in seen:
                    continue
                seen.add(key)
                ai = [subst(x, pr) for x in a[2]]
                ao = subst(a[3], pr)
                asz = num(a[4]) if isinstance(a[4], int) else subst(a[4], pr)
                wsz = num(w[4]) if isinstance(w[4], int) else w[4]
                if isinstance(a[4], int) and isinstance(w[4], int) and a[4] == w[4]:
                    ov = eq(w[3], ao)
                    # equal-size accesses are aligned elements
                    c = ov
                else:
                    c = and_(lt(w[3], add(ao, asz)), lt(ao, add(w[3], wsz)))
                c = and_(w[5], subst(a[5], pr), c, *[eq(x, y) for x, y in zip(w[2], ai)], diff)
                if c is FALSE:
                    continue
                pairs.append((c, w, a))
        if not pairs:
            if kernel:
                self._ob("race", "kernel items write disjoint locations", TRUE, TRUE, W[0][6])
            return
        pf = [subst(f, pr) for f in facts]
        if kernel:
            for c, w, a in pairs:
                o = self._ob("race", "kernel race on %s (%s/%s)" % (w[1].name, w[0], a[0]), c, FALSE, w[6])
                o.scope = [f for f in pf if f not in self.facts]
            return
        allc = or_(*[c for c, w, a in pairs])
        if self.prove(allc, FALSE, 5, extra=pf):
            return
        regs = set()
        cells = {}
        for c, w, a in pairs:
            if not self.prove(c, FALSE, 5, extra=pf):
                regs.add(w[1])
                inv = not any(dep(x, v) for x in list(w[2]) + [w[3]] for v in allvars)
                same_ = a[2] == w[2] and a[3] is w[3] and a[4] == w[4] and isinstance(w[4], int)
                cells[(w[1], w[2], w[3], w[4])] = cells.get((w[1], w[2], w[3], w[4]), True) and inv and same_
        if regs:
            e = Conflict(regs, [(w[6], a[6]) for c, w, a in pairs if w[1] in regs])
            e.cells = list(cells) if all(cells.values()) else []
            raise e

    # ---------------------------------------------------------------- calls
    def call(self, fr, I, guard):
        env = fr["env"]
        callee = I.x
        if isinstance(callee, IR.Const) and callee.kind == "func":
            F = callee.v
        else:
            v = self.val(callee, env)
            if isinstance(v, PtrSet):
                al = [(g, q) for g, q in self.alts(v, guard) if isinstance(q, Fn)]
                if len(al) == 1:
                    v = al[0][1]
            if not isinstance(v, Fn):
                raise Unsupported("indirect call through %s at %s" % (v, self.loc(I)))
            F = v.f
        args = []
        for o in I.ops:
            try:
                args.append(self.val(o, env))
            except (Unsupported, KeyError) as e:
                args.append(None)
        return self.call_named(F, args, guard, I)

    def call_named(self, F, args, guard, I):
        n = F.name
        import builtins_ as B
        h = B.lookup(n)
        if h is not None:
            v = h(self, I, args, guard)
            if v is B.STOP:
                self.fact(not_(guard))
                return None, FALSE
            return v, guard
        if self.contracts:
            d = self.demangle(n)
            for rx, fn in self.contracts:
                if rx.search(d):
                    self.used_contracts.add(d)
                    return fn(self, I, args, guard), guard
        for rx, fn in self.o.get("replace", {}).items():
            # modular: the callee's contract is a function of the contract file
            d = self.demangle(n)
            if re.search(rx, d):
                self.used_contracts.add(d + " [contract %s]" % fn)
                R = self.m.fns[fn].build()
                return self.call_function(R, args[:len(R.args)], guard)
        if F.decl:
            raise Unsupported("call to external function " + self.demangle(n))
        return self.call_function(F, args, guard)

    # ---------------------------------------------------------------- kernels
    def launch(self, kind, F, closure, G, L, guard, I):
        """kind: 0 single, 1..3 range, 11..13 nd_range"""
        self.launches += 1
        loc = self.loc(I)
        if kind == 0:
            z = [ZERO] * 15
            self.call_function(F, [closure] + z, guard)
            return
        D = kind % 10
        nd = kind >= 10
        self.fresh_n += 1
        uid = self.fresh_n
        F.build()
        used = [IR.num_uses(IR.get_param(F.h, i)) > 0 for i in range(16)]
        bar = self.has_barrier(F)
        vs, rng, g, l, p = [], [], [], [], []
        one, zero = ONE, ZERO
        for d in range(3):
            if d >= D:
                g.append(ZERO)
                l.append(ZERO)
                p.append(ZERO)
                continue
            if nd:
                self.ob("nd_range", "local range positive", guard, lt(ZERO, L[d]), loc)
                ngr, rem = divmod_(G[d], L[d])
                self.ob("nd_range", "global range divisible by local range", guard, eq(rem, ZERO), loc)
            if nd and L[d] is ONE:
                v = app("c!%d_%d" % (uid, d), (), "I", 0, None)   # one item per group
                vs.append(v)
                rng.append(and_(le(ZERO, v), lt(v, G[d])))
                g.append(v)
                l.append(ZERO)
                p.append(v)
            elif nd and ngr is ONE:
                v = app("x%d_%d" % (uid, d), (), "I", 0, None)   # single group
                vs.append(v)
                rng.append(and_(le(ZERO, v), lt(v, L[d])))
                g.append(v)
                l.append(v)
                p.append(ZERO)
            elif not nd or not (used[4 + d] or used[7 + d] or bar):
                v = app("g%d_%d" % (uid, d), (), "I", 0, None)
                vs.append(v)
                rng.append(and_(le(ZERO, v), lt(v, G[d])))
                g.append(v)
                l.append(ZERO)
                p.append(ZERO)
            else:
                v = app("c!%d_%d" % (uid, d), (), "I", 0, None)   # group
                x = app("x%d_%d" % (uid, d), (), "I", 0, None)   # local
                vs += [v, x]
                rng += [and_(le(ZERO, v), lt(v, ngr)), and_(le(ZERO, x), lt(x, L[d]))]
                g.append(add(mul(v, L[d]), x))
                l.append(x)
                p.append(v)
        self.parallel(F, closure, vs, and_(*rng), g, l, p, L if nd else [ZERO] * 3, G, guard, loc)

    def has_barrier(self, F, depth=0):
        r = self.barc.get(F.name) if hasattr(self, "barc") else None
        if r is not None:
            return r
        if not hasattr(self, "barc"):
            self.barc = {}
        self.barc[F.name] = False
        F.build()
        r = False
        for b in (F.blocks if not F.decl else []):
            for I in b.insts:
                if I.op in ("call", "invoke") and isinstance(I.x, IR.Const) and I.x.kind == "func":
                    n = I.x.v.name
                    if n.startswith(("__npv_barrier", "__npv_joint_scan", "__npv_reduce_over_group")):
                        r = True
                    elif not I.x.v.decl and depth < 8 and self.has_barrier(I.x.v, depth + 1):
                        r = True
        self.barc[F.name] = r
        return r

    def barrier(self, guard, I):
        """all items of the group have completed the preceding phase"""
        sc = self.kernel_scope()
        if sc is None:
            raise Unsupported("barrier outside kernel")
        if self.scopes[-1] is not sc:
            raise Unsupported("barrier inside a loop")
        self.phase(sc)

    def phase(self, sc):
        lv = [v for v in sc.vs if v.args[0].startswith("x")]
        acc = sc.acc
        sc.allacc += acc
        sc.acc = []
        regs = set()
        allvars = set(sc.vs)
        last = self.mem
        n = last
        depth = self.scopes.index(sc) + 1
        private = []
        while n is not None and n is not sc.phase0:
            if n.kind == "par":
                mine = {r for r in n.x["regions"] if r.depth >= depth}
                if mine:
                    private.append((n, mine))
                regs |= n.x["regions"] - mine
                allvars |= set(n.x["allvars"])
            elif n.r.depth < depth:
                regs.add(n.r)
            else:
                private.append((n, None))
            n = n.prev
        if lv:
            self.conflicts(acc, lv, allvars, self.facts[sc.facts0:], True, same=[v for v in sc.vs if v not in lv])
        sc.allvars |= allvars
        if not regs:
            return
        self.mem = sc.phase0
        self.node("par", x={"vars": list(sc.vs), "range": sc.range, "last": last, "regions": regs, "facts": self.facts[sc.facts0:],
                            "n0": sc.n0, "allvars": allvars, "uid": None})
        sc.phase0 = self.mem
        # the item's own private objects keep their contents
        for n, mine in reversed(private):
            if mine is None:
                self.node(n.kind, r=n.r, idx=n.idx, off=n.off, ty=n.ty, val=n.val, x=n.x, guard=n.guard)
            else:
                self.node("par", x=dict(n.x, regions=mine))

    def parallel(self, F, closure, vs, rng, g, l, p, L, G, guard, loc):
        sc = Scope(vs, True)
        sc.facts0 = len(self.facts)
        sc.mem0 = sc.phase0 = self.mem
        sc.range = rng
        sc.n0 = self.nnode
        sc.allacc = []
        sc.allvars = set(vs)
        sc.groups = [v for v in vs if v.args[0].startswith("c!")]
        sc.loc = loc
        self.scopes.append(sc)
        okern = self.kern
        self.kern = {"mem0": self.mem, "tickets": [], "vs": vs}
        self.call_function(F, [closure] + g + l + p + list(L) + list(G), and_(guard, rng))
        lv = [v for v in vs if v.args[0].startswith("x")]
        self.phase(sc)
        atoms = []

        def collect(n, stop):
            while n is not None and n is not stop:
                if n.kind == "par":
                    collect(n.x["last"], n.prev)
                elif n.kind == "atom":
                    atoms.append(n)
                n = n.prev
        collect(self.mem, sc.mem0)
        self.kern = okern
        facts = self.facts[sc.facts0:]
        self.scopes.remove(sc)
        outer = sc.groups if lv else list(vs)
        if outer:
            self.conflicts(sc.allacc, outer, sc.allvars, facts, True)
        seen = set()
        for at in atoms:
            if at.x[1] is not None and at.x[1] in seen:
                continue
            seen.add(at.x[1])
            self.after_atomic(at, guard)

    def after_atomic(self, at, guard):
        op, nm = at.x
        if nm is not None:
            self.node("cnt", r=at.r, idx=None, off=None, ty=at.ty, x=nm, guard=guard)
        else:
            self.abstract = True
            self.node("havoc", r=at.r, idx=(), off=None, ty=at.ty, x="@%d" % self.nnode, guard=guard)


class Conflict(Unsupported):
    def __init__(self, regs, locs):
        Unsupported.__init__(self, "loop iterations conflict on %s at %s" % ([r.name for r in regs], locs[:3]))
        self.regs = regs
        self.cells = []


class Cell:
    """a location of memory carried through a loop"""
    def __init__(self, r, idx, off, tk):
        self.r, self.pidx, self.off, self.tk, self.idx = r, idx, off, tk, 1000000 + r.id
        self.ty = IR.Ty()
        self.ty.kind, self.ty.width, self.ty.size = ("int", 8 * tk[1], tk[1]) if tk[0] == "i" else ("float", None, tk[1])


PTR_TY = IR.Ty()
PTR_TY.kind, PTR_TY.size, PTR_TY.width = "ptr", 8, None


def tykey(t):
    if t is None or t.kind == "ptr":
        return ("p", 8)
    if t.kind == "int":
        if t.width == 1:
            return ("b", 1)
        return ("i", t.size)
    if t.kind in ("double", "float"):
        return ("f", t.size)
    raise Unsupported("access type " + t.kind)


def g_only(g, guard):
    s = set(conj(guard))
    return and_(*[c for c in conj(g) if c not in s])


def ins(a, path, v):
    a = list(a)
    if len(path) == 1:
        a[path[0]] = v
    else:
        a[path[0]] = ins(a[path[0]], path[1:], v)
    return tuple(a)


def eq_atoms(v):
    """the equalities in the conditions of a set of pointers"""
    out, seen, st = [], set(), [c for c, p in v.alts if isinstance(c, TM.T)]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "eq0":
            out.append(t)
        elif t.op in ("and", "or", "not"):
            st.extend(t.args)
    return out


def bounds(sig):
    """the images of the variables lie in the intervals of the variables (terms over a
    variable are simplified with its interval)"""
    c = TRUE
    for v, x in sig.items():
        if v.lo is not None:
            c = and_(c, le(num(v.lo), x))
        if v.hi is not None:
            c = and_(c, le(x, num(v.hi)))
    return c


def vsubst(v, mp):
    if v is None:
        return None
    if isinstance(v, Ptr):
        return Ptr(v.r, subst(v.off, mp), tuple(subst(x, mp) for x in v.idx))
    if isinstance(v, PtrSet):
        return PtrSet([(subst(c, mp), vsubst(p, mp)) for c, p in v.alts])
    if isinstance(v, Fn):
        return v
    if isinstance(v, PtrInt):
        return PtrInt(vsubst(v.p, mp))
    if isinstance(v, tuple):
        return tuple(vsubst(x, mp) for x in v)
    return subst(v, mp)


def mulall(xs):
    r = ONE
    for x in xs:
        r = mul(r, x)
    return r


def dep(t, k):
    return k in fv(t)


def atoms_of(P):
    t = P.off if isinstance(P, Ptr) else P
    return {t.args[0]}


def atoms_in(t, bad):
    """does t contain an application of one of the functions in bad?"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "app" and x.args[0] in bad:
            return True
        st.extend(children(x))
    return False


def fv_atoms(t):
    p = TM._poly(t)
    return [a for m in p for a in m]


def match_affine(a, l, t):
    """if l == c*a + d (c, d constants free of a) then solve l = t for a"""
    pl, pa = TM._poly(l), TM._poly(a)
    if l is a:
        return t
    d = sub(l, a)
    if d.op == "num":
        return sub(t, d)
    for c in (4, 8, 16, 24):
        d = sub(l, scale(c, a))
        if d.op == "num":
            q, r = divmod_(sub(t, d), num(c))
            return q
        if a.op == "poly" or True:
            d = sub(a, scale(c, l))
            if d.op == "num":
                return add(scale(c, t), d)
    return None


def relevant(facts, goal):
    """cone of influence over function symbols, transitive"""
    syms = set(symset(goal))
    rest = [(f, symset(f)) for f in facts if f is not TRUE]
    out = []
    changed = True
    while changed:
        changed = False
        nr = []
        for f, s in rest:
            if s & syms or not s:
                out.append(f)
                if not s <= syms:
                    syms |= s
                    changed = True
            else:
                nr.append((f, s))
        rest = nr
    return out


def staged(fs, g, timeout, model=None, both=True):
    """smaller fact sets first (unsat carries over), then everything"""
    gs = symset(g)
    n = len(fs)
    sets = []
    if n > 6:
        s1 = [f for f in fs if symset(f) <= gs]
        if 0 < len(s1) < n:
            sets.append(s1)
        g2 = set(gs)
        for f in fs:
            if symset(f) & gs and len(symset(f) - gs) <= 3:
                g2 |= symset(f)
        s2 = [f for f in fs if symset(f) <= g2]
        if len(s1) < len(s2) < n:
            sets.append(s2)
    t = 0.0
    for s in sets:
        r, m, by = solver.check(s + [g] + lemmas(s + [g]), min(timeout, 4), both=False)
        if r == "unsat":
            return r, m, by
    return solver.check(fs + [g] + lemmas(fs + [g]), timeout, model=model, both=both)


def divide(goal, fs, guard):
    """rewrite the real polynomial equations of goal with the equations that hold
    (multivariate division); valid wherever the facts and the guard hold"""
    eqs = []
    for f in list(fs) + [guard]:
        for c in TM.conj(TM.under(f, guard)) if f is not guard else TM.conj(guard):
            if c.op == "eq0" and c.args[0].sort == "R":
                eqs.append(dict(TM._poly(c.args[0])))
    if not eqs:
        return goal
    key = lambda m: (len(m), tuple(sorted((x.id for x in m), reverse=True)))
    rules = []
    for e in eqs[:40]:
        lead = max(e, key=key)
        if lead != ():
            rules.append((lead, e[lead], e))

    def div(m, d):
        mm = list(m)
        for x in d:
            if x not in mm:
                return None
            mm.remove(x)
        return tuple(mm)

    def reduce(p):
        p, out, n = dict(p), {}, 0
        while p and n < 3000:
            m = max(p, key=key)
            c = p.pop(m)
            for lead, lc, e in rules:
                r = div(m, lead)
                if r is None:
                    continue
                n += 1
                for em, ec in e.items():
                    if em == lead:
                        continue
                    k = tuple(sorted(r + em, key=lambda x: x.id))
                    v = p.get(k, 0) - Fraction(c) * ec / lc
                    if v == 0:
                        p.pop(k, None)
                    else:
                        p[k] = v
                break
            else:
                out[m] = c
        return None if n >= 3000 else out
    mp = {}
    for t in TM.subterms(goal):
        if t.op == "eq0" and t.args[0].sort == "R":
            q = reduce(TM._poly(t.args[0]))
            if q is not None:
                r = eq(TM._frompoly(q, "R") if q else num(0, "R"), num(0, "R"))
                if r is not t:
                    mp[t] = r
    return TM.replace(goal, mp) if mp else goal


def lemmas(ts, limit=60):
    """valid facts about products occurring in the (in)equations: help for nonlinear arithmetic"""
    out, seen = [], set()
    atoms = set()
    for t in ts:
        for x in TM.subterms(t, False):
            if x.op in ("le", "eq0") and x.args[0].sort == "I" and x.args[0].op == "poly":
                atoms.add(x.args[0])
    for p in sorted(atoms, key=lambda x: -x.id):
        ms = p.args
        for N in sorted({a for m, c in ms if len(m) == 2 for a in m}, key=lambda x: x.id):
            q = {}
            for m, c in ms:
                if N in m:
                    mm = list(m)
                    mm.remove(N)
                    q[tuple(mm)] = q.get(tuple(mm), 0) + c
            Q = TM._frompoly(q, "I")
            if Q.op == "num":
                continue
            first = min((m for m in q if m != ()), key=lambda m: tuple(x.id for x in m), default=None)
            if first is None:
                continue
            if q[first] < 0:
                Q = scale(-1, Q)
            if (N, Q) in seen:
                continue
            seen.add((N, Q))
            NQ = mul(N, Q)
            out.append(implies(and_(le(ZERO, N), le(ONE, Q)), le(N, NQ)))
            out.append(implies(and_(le(ZERO, N), le(Q, num(-1))), le(NQ, neg(N))))
            if len(out) > limit:
                return out
    return out


_symc = {}


def symset(t):
    r = _symc.get(t)
    if r is None:
        seen = set()
        st = [t]
        names = set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "app":
                names.add(x.args[0])
            st.extend(children(x))
        r = _symc[t] = frozenset(names)
    return r


def find_loops(F):
    F.build()
    # dominators (iterative) and natural loops
    blocks = F.blocks
    seen = set()
    post = []
    st = [(blocks[0], iter(blocks[0].succ))]
    seen.add(blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succ)))
                break
        else:
            post.append(b)
            st.pop()
    rpo = list(reversed(post))
    num_ = {b: i for i, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in b.preds:
                if p in idom and p in num_:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while num_[x] > num_[y]:
                                x = idom[x]
                            while num_[y] > num_[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) is not new:
                idom[b] = new
                ch = True

    def dominates(a, b):
        while True:
            if a is b:
                return True
            if idom[b] is b:
                return False
            b = idom[b]
    headers = {}
    for b in rpo:
        for s in b.succ:
            if s in num_ and dominates(s, b):
                headers.setdefault(s, []).append(b)
            elif s in num_ and num_[s] <= num_[b]:
                raise Unsupported("irreducible control flow in " + F.name)
    H = {}
    for h, latches in headers.items():
        body = {h}
        st = list(latches)
        while st:
            x = st.pop()
            if x in body:
                continue
            body.add(x)
            st.extend(p for p in x.preds if p in num_)
        H[h] = {"h": h, "blocks": body, "latches": latches}
    for h, L in H.items():
        lo = set()
        for b in rpo:
            if b in L["blocks"]:
                continue
            for I in b.insts:
                ops = [x for _, x in I.x] if I.op == "phi" else list(I.ops)
                for o in ops:
                    if isinstance(o, IR.Inst) and o.block in L["blocks"]:
                        lo.add(o)
        L["liveout"] = lo
    # RPO such that a loop's blocks precede its exits: process order uses rpo of the
    # collapsed graph; plain rpo is sufficient because exits are reached only after
    # the loop is collapsed at its header
    order = loop_rpo(F, rpo, H, num_)
    return {"rpo": order, "header": H}


def loop_rpo(F, rpo, H, num_):
    """topological order where every natural loop is contiguous"""
    # build: order blocks by repeatedly emitting; nested loops contiguous
    def order(blocks, entry, cur):
        # collapse the maximal inner loops
        rep = {}
        inner = []
        for h, L in sorted(H.items(), key=lambda x: len(x[1]["blocks"])):
            pass
        maxl = []
        for h, L in sorted(H.items(), key=lambda x: -len(x[1]["blocks"])):
            if h is cur or h not in blocks or not L["blocks"] <= blocks:
                continue
            if cur is not None and len(L["blocks"]) == len(blocks) and h is cur:
                continue
            if any(h in M["blocks"] for M in maxl):
                continue
            maxl.append(L)
        for L in maxl:
            for b in L["blocks"]:
                rep[b] = L["h"]
        nodes = [b for b in rpo if b in blocks and rep.get(b, b) is b]
        succ = {n: set() for n in nodes}
        for b in blocks:
            if b not in num_:
                continue
            r = rep.get(b, b)
            for s in b.succ:
                if s in blocks and s is not cur:
                    q = rep.get(s, s)
                    if q is not r:
                        succ[r].add(q)
        seen, post = set(), []

        def dfs(n):
            st = [(n, iter(sorted(succ[n], key=lambda x: num_[x])))]
            seen.add(n)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(sorted(succ[s], key=lambda x: num_[x]))))
                        break
                else:
                    post.append(x)
                    st.pop()
        dfs(rep.get(entry, entry))
        res = []
        for n in reversed(post):
            L = next((M for M in maxl if M["h"] is n), None)
            if L is not None:
                res.extend(order(L["blocks"], n, n))
            else:
                res.append(n)
        return res
    return order(set(rpo), rpo[0], None)


def Const_wrap(c, t):
    c2 = IR.Const(c.kind, c.v, t, c.extra)
    return c2
