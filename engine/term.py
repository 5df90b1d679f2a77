"""Hash-consed terms with polynomial normal form, intervals, substitution and an
SMT-LIB printer.  Sorts: I (mathematical integer), R (real), B (bool)."""
from fractions import Fraction

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "lo", "hi", "_fv", "__weakref__")

    def __repr__(self):
        return show(self)


FUN_RANGE = {}  # function name -> (lo, hi)
FUN_SORT = {}   # function name -> (argsorts, ressort)


def _mk(op, args, sort, lo=None, hi=None):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        _cnt[0] += 1
        t.id = _cnt[0]
        t.lo, t.hi = lo, hi
        t._fv = None
        _tab[key] = t
    return t


def num(v, sort="I"):
    if sort == "R":
        v = Fraction(v)
    return _mk("num", v, sort, v, v)


TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")
ZERO, ONE = num(0), num(1)


def boolc(b):
    return TRUE if b else FALSE


def sym(name, sort="I", lo=None, hi=None):
    return app(name, (), sort, lo, hi)


def app(name, args, sort="I", lo=None, hi=None):
    args = tuple(args)
    if name in FUN_RANGE and lo is None and hi is None:
        lo, hi = FUN_RANGE[name]
    elif lo is not None or hi is not None:
        FUN_RANGE.setdefault(name, (lo, hi))
    sg = (tuple(a.sort for a in args), sort)
    o = FUN_SORT.setdefault(name, sg)
    assert o == sg, (name, o, sg)
    return _mk("app", (name,) + args, sort, lo, hi)


# ---------- polynomials: dict monomial(tuple of atoms sorted by id) -> coef ----------
def _poly(t):
    if t.op == "num":
        return {(): t.args} if t.args != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    return {(t,): 1}


def _mono_iv(m):
    lo, hi = 1, 1
    for a in m:
        al, ah = a.lo, a.hi
        if lo is not None and hi is not None and al is not None and ah is not None:
            c = (lo * al, lo * ah, hi * al, hi * ah)
            lo, hi = min(c), max(c)
        elif lo is not None and lo >= 0 and al is not None and al >= 0:
            lo, hi = lo * al, None
        else:
            return None, None
    if len(m) == 2 and m[0] is m[1]:
        lo = 0 if lo is None or lo < 0 else lo
    return lo, hi


def _frompoly(p, sort):
    items = [(m, c) for m, c in p.items() if c != 0]
    if not items:
        return num(0, sort)
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c, sort)
        if c == 1 and len(m) == 1:
            return m[0]
    items.sort(key=lambda mc: tuple(a.id for a in mc[0]))
    lo = hi = 0
    for m, c in items:
        ml, mh = _mono_iv(m)
        if c < 0:
            ml, mh = mh, ml
        lo = None if (lo is None or ml is None) else lo + c * ml
        hi = None if (hi is None or mh is None) else hi + c * mh
    return _mk("poly", tuple(items), sort, lo, hi)


def tighten(t, lo, hi):
    """intersect the interval of a compound term with one it unconditionally has"""
    if t.op == "poly":
        if lo is not None and (t.lo is None or lo > t.lo):
            t.lo = lo
        if hi is not None and (t.hi is None or hi < t.hi):
            t.hi = hi
    return t


def _ivmul(a, b):
    if None in (a.lo, a.hi, b.lo, b.hi):
        return (a.lo * b.lo if None not in (a.lo, b.lo) and a.lo >= 0 and b.lo >= 0 else None), None
    c = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
    return min(c), max(c)


def add(*ts):
    s = ts[0].sort
    p = {}
    for t in ts:
        assert t.sort == s, ts
        for m, c in _poly(t).items():
            p[m] = p.get(m, 0) + c
    lo = hi = 0
    for t in ts:
        lo = None if lo is None or t.lo is None else lo + t.lo
        hi = None if hi is None or t.hi is None else hi + t.hi
    return tighten(_frompoly(p, s), lo, hi)


def scale(c, t):
    lo, hi = (t.lo, t.hi) if c > 0 else (t.hi, t.lo)
    return tighten(_frompoly({m: c * k for m, k in _poly(t).items()}, t.sort), None if lo is None else c * lo, None if hi is None else c * hi)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, scale(-1, b))


def mul(a, b):
    if a.op == "num":
        return scale(a.args, b)
    if b.op == "num":
        return scale(b.args, a)
    if a.op == "ite" and a.args[1].op == "num" and a.args[2].op == "num":
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == "ite" and b.args[1].op == "num" and b.args[2].op == "num":
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    p = {}
    for m1, c1 in _poly(a).items():
        for m2, c2 in _poly(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            p[m] = p.get(m, 0) + c1 * c2
    return tighten(_frompoly(p, a.sort), *_ivmul(a, b))


DEF_HOOK = [None]  # called with (q, m, a, b) for each symbolic division


def divmod_(a, b):
    """floor division; meaning is only used where b > 0"""
    if b.op == "num":
        bv = b.args
        if bv == 1:
            return a, ZERO
        if bv > 0:
            q, r = {}, {}
            for m, c in _poly(a).items():
                qq, rr = divmod(c, bv)
                if qq:
                    q[m] = qq
                if rr:
                    r[m] = rr
            q, r = _frompoly(q, "I"), _frompoly(r, "I")
            if r.op == "num":
                return q, r
            if r.lo is not None and r.hi is not None and r.lo // bv == r.hi // bv:
                d = r.lo // bv
                return add(q, num(d)), sub(r, num(d * bv))
            dl = None if r.lo is None else r.lo // bv
            dh = None if r.hi is None else r.hi // bv
            d = _mk("div", (r, b), "I", dl, dh)
            m = _mk("mod", (r, b), "I", 0, bv - 1 if r.hi is None or r.lo is None or r.lo < 0 else min(bv - 1, r.hi))
            return add(q, d), m
    # x - mod(x, b) = b * div(x, b)
    for m, c in _poly(a).items():
        if len(m) == 1 and m[0].op == "app" and m[0].args[0] == "npv_mod" and m[0].args[2] is b and m[0].args[1] is not a:
            x = m[0].args[1]
            if all(_poly(a).get(mm, 0) * c < 0 for mm in _poly(x) if mm != ()):
                y = add(a, scale(-c, m[0]), scale(c, sub(x, mul(b, app("npv_div", (x, b), "I")))))
                return divmod_(y, b)
    # symbolic divisor: extract exact multiples when b is a monomial
    pb = _poly(b)
    q, r = {}, dict(_poly(a))
    if len(pb) == 1:
        (mb, cb), = pb.items()
        for m, c in list(r.items()):
            rest = list(m)
            ok = True
            for x in mb:
                if x in rest:
                    rest.remove(x)
                else:
                    ok = False
                    break
            if ok and c % cb == 0:
                q[tuple(rest)] = q.get(tuple(rest), 0) + c // cb
                del r[m]
    q, r = _frompoly(q, "I"), _frompoly(r, "I")
    if r is ZERO:
        return q, ZERO
    if r is b:
        return add(q, ONE), ZERO
    lo = hi = None
    if r.lo is not None and r.lo >= 0 and b.lo is not None and b.lo >= 1:
        lo, hi = 0, r.hi if r.hi is None else r.hi // b.lo
    d = app("npv_div", (r, b), "I")
    m = app("npv_mod", (r, b), "I")
    if d.lo is None and lo is not None:
        d.lo, d.hi = lo, hi
    if DEF_HOOK[0]:
        DEF_HOOK[0](d, m, r, b)
    res = add(q, d)
    if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 1:
        tighten(res, 0, None if a.hi is None else a.hi // b.lo)
    return res, m


# ---------- booleans ----------
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":  # t <= 0  ->  t >= 1 -> 1 - t <= 0
        if a.args[0].sort == "I":
            return le0(sub(ONE, a.args[0]))
        return _mk("lt", (neg(a.args[0]),), "B")
    if a.op == "lt":
        return le0(neg(a.args[0]))
    return _mk("not", (a,), "B")


def and_(*xs):
    s = {}
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        for y in (x.args if x.op == "and" else (x,)):
            s[y.id] = y
    for y in list(s.values()):
        if not_(y).id in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return _mk("and", tuple(s[k] for k in sorted(s)), "B")


def or_(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        for y in (x.args if x.op == "or" else (x,)):
            s[y.id] = y
    for y in list(s.values()):
        if not_(y).id in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s.values()))
    # factor common conjuncts  (a&b)|(a&!b) -> a
    cs = [set(y.args) if y.op == "and" else {y} for y in s.values()]
    common = set.intersection(*cs)
    if common:
        rest = or_(*[and_(*[z for z in c if z not in common]) for c in cs])
        return and_(rest, *common)
    return _mk("or", tuple(s[k] for k in sorted(s)), "B")


def implies(a, b):
    return or_(not_(a), b)


def le0(t):
    """t <= 0"""
    if t.hi is not None and t.hi <= 0:
        return TRUE
    if t.lo is not None and t.lo > 0:
        return FALSE
    if t.op == "num":
        return boolc(t.args <= 0)
    if t.op == "ite" and t.args[1].op == "num" and t.args[2].op == "num":
        return ite(t.args[0], boolc(t.args[1].args <= 0), boolc(t.args[2].args <= 0))
    p = _poly(t)
    from math import gcd
    if t.sort == "I":
        g = 0
        for m, c in p.items():
            if m != ():
                g = gcd(g, abs(c))
        if g > 1:
            q = {m: c // g for m, c in p.items() if m != ()}
            k = p.get((), 0)
            q[()] = -((-k) // g)  # sum + k <= 0 -> sum/g <= floor(-k/g)
            t = _frompoly(q, "I")
    return _mk("le", (t,), "B")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    if a.sort == "R":
        return not_(le(b, a))
    return le0(add(sub(a, b), ONE))


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return _mk("eq", (a, b) if a.id < b.id else (b, a), "B")
    if a.op == "ite" and (b.op == "num") and (a.args[1].op == "num" or a.args[2].op == "num"):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (a.op == "num") and (b.args[1].op == "num" or b.args[2].op == "num"):
        return eq(b, a)
    d = sub(a, b)
    if d.op == "num":
        return boolc(d.args == 0)
    if (d.lo is not None and d.lo > 0) or (d.hi is not None and d.hi < 0):
        return FALSE
    p = dict(_poly(d))
    if a.sort == "I":
        from math import gcd
        g = 0
        for m, c in p.items():
            if m != ():
                g = gcd(g, abs(c))
        if p.get((), 0) % g != 0:
            return FALSE
        if g > 1:
            p = {m: c // g for m, c in p.items()}
    # common factors
    ms = list(p)
    if len(ms) > 1 and () not in p:
        com = list(ms[0])
        for m in ms[1:]:
            mm = list(m)
            nc = []
            for x in com:
                if x in mm:
                    mm.remove(x)
                    nc.append(x)
            com = nc
            if not com:
                break
        if com:
            q = {}
            for m, c in p.items():
                mm = list(m)
                for x in com:
                    mm.remove(x)
                q[tuple(mm)] = q.get(tuple(mm), 0) + c
            z = num(0, a.sort)
            return or_(*[eq(x, z) for x in set(com)], eq(_frompoly(q, a.sort), z))
    elif len(ms) == 1 and len(ms[0]) > 1:
        z = num(0, a.sort)
        return or_(*[eq(x, z) for x in set(ms[0])])
    # clear denominators: a rational identity holds wherever its denominators do not vanish
    if a.sort == "R":
        us = {x for m in p for x in m if x.op == "rdiv"}
        if us and len(p) < 400:
            c, dens = _frompoly(p, "R"), []
            for u in sorted(us, key=lambda x: -x.id):
                cp = _poly(c)
                if any(m.count(u) > 1 for m in cp) or len(cp) * len(_poly(u.args[1])) > 20000:
                    c = None
                    break
                A = _frompoly({tuple(x for x in m if x is not u): k for m, k in cp.items() if u in m}, "R")
                B = _frompoly({m: k for m, k in cp.items() if u not in m}, "R")
                c = add(mul(A, u.args[0]), mul(B, u.args[1]))
                dens.append(u.args[1])
            if c is not None and c.op == "num" and c.args == 0:
                z = num(0, "R")
                return or_(not_(or_(*[eq(d, z) for d in dens])), _mk("eq0", (_frompoly(p, "R"),), "B"))
    # sign-normalise
    first = min((m for m in p if m != ()), key=lambda m: tuple(x.id for x in m))
    if p[first] < 0:
        p = {m: -c for m, c in p.items()}
    return _mk("eq0", (_frompoly(p, a.sort),), "B")


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort == "B":
        if a is TRUE:
            return or_(c, b)
        if b is FALSE:
            return and_(c, a)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
        return ite(c, a, b)
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    return _mk("ite", (c, a, b), a.sort, lo, hi)


def rdiv(a, b):
    if b.op == "num" and b.args != 0:
        return scale(1 / Fraction(b.args), a)
    if b.op not in ("num", "poly", "rdiv") and b.sort == "R":
        p = _poly(a)
        if p and all(b in m for m in p):  # cancel a common factor (where it is not zero)
            q = {}
            for m, c in p.items():
                mm = list(m)
                mm.remove(b)
                q[tuple(mm)] = q.get(tuple(mm), 0) + c
            return ite(eq(b, num(0, "R")), _mk("rdiv", (a, b), "R"), _frompoly(q, "R"))
    return _mk("rdiv", (a, b), "R")


def toreal(a):
    if a.op == "num":
        return num(a.args, "R")
    if a.op == "toint":
        pass
    return _mk("toreal", (a,), "R", a.lo, a.hi)


def toint(a):  # floor
    if a.op == "num":
        return num(a.args.__floor__())
    if a.op == "toreal":
        return a.args[0]
    if a.op == "poly" and all((m == () and c == int(c)) or (m != () and c == int(c) and all(x.op == "toreal" for x in m)) for m, c in a.args):
        return _frompoly({tuple(sorted((x.args[0] for x in m), key=lambda x: x.id)): int(c) for m, c in a.args}, "I")
    return _mk("toint", (a,), "I", None if a.lo is None else int(Fraction(a.lo).__floor__()),
               None if a.hi is None else int(Fraction(a.hi).__floor__()))


# ---------- traversal ----------
def children(t):
    if t.op in ("num", "true", "false"):
        return ()
    if t.op == "poly":
        return tuple(a for m, c in t.args for a in m)
    if t.op == "app":
        return t.args[1:]
    if t.op == "forall":
        return (t.args[1],)
    return t.args


def rebuild(t, ch):
    op = t.op
    if op == "poly":
        i = 0
        acc = {}
        r = None
        for m, c in t.args:
            x = num(c, t.sort)
            for _ in m:
                x = mul(x, ch[i])
                i += 1
            r = x if r is None else add(r, x)
        return r
    if op == "app":
        if t.args[0] == "npv_div":
            return divmod_(ch[0], ch[1])[0]
        if t.args[0] == "npv_mod":
            return divmod_(ch[0], ch[1])[1]
        return _mk("app", (t.args[0],) + tuple(ch), t.sort, *FUN_RANGE.get(t.args[0], (None, None)))
    if op == "div":
        return divmod_(*ch)[0]
    if op == "mod":
        return divmod_(*ch)[1]
    if op == "ite":
        return ite(*ch)
    if op == "and":
        return and_(*ch)
    if op == "or":
        return or_(*ch)
    if op == "not":
        return not_(ch[0])
    if op == "le":
        return le0(ch[0])
    if op == "lt":
        return not_(le0(neg(ch[0])))
    if op == "eq":
        return eq(*ch)
    if op == "eq0":
        return eq(ch[0], num(0, ch[0].sort))
    if op == "rdiv":
        return rdiv(*ch)
    if op == "toreal":
        return toreal(ch[0])
    if op == "toint":
        return toint(ch[0])
    if op == "forall":
        return forall(t.args[0], ch[-1])
    return t


def forall(vs, body):
    if body is TRUE:
        return TRUE
    return _mk("forall", (tuple(vs), body), "B")


def subst(t, mp, memo=None):
    if not mp:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(mp)

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        r = mp.get(t)
        if r is None:
            if not (fv(t) & keys):
                r = t
            elif t.op == "forall":
                r = forall(t.args[0], go(t.args[1]))
            else:
                r = rebuild(t, [go(c) for c in children(t)])
        memo[t] = r
        return r
    return go(t)


def replace(t, mp):
    """replace arbitrary subterms"""
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is None:
            r = mp.get(t)
            if r is None:
                ch = children(t)
                r = t if not ch or t.op == "forall" else rebuild(t, [go(c) for c in ch])
            memo[t] = r
        return r
    return go(t)


def subterms(t, inside=True):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "forall" and not inside:
            continue
        st.extend(children(x))
    return seen


def fv(t):
    """set of nullary symbols in t"""
    if t._fv is None:
        stack = [t]
        while stack:
            x = stack[-1]
            if x._fv is not None:
                stack.pop()
                continue
            ch = children(x) if x.op != "forall" else (x.args[1],)
            pend = [c for c in ch if c._fv is None]
            if pend:
                stack.extend(pend)
                continue
            if x.op == "app" and len(x.args) == 1:
                x._fv = frozenset((x,))
            else:
                s = frozenset()
                for c in ch:
                    if c._fv and not c._fv <= s:
                        s = s | c._fv
                if x.op == "forall":
                    s = s - frozenset(x.args[0])
                x._fv = s
            stack.pop()
    return t._fv


def conj(t):
    return t.args if t.op == "and" else (t,)


def implied(g, by):
    """syntactic: every conjunct of g is a conjunct of by"""
    if g is TRUE:
        return True
    s = set(conj(by))
    return all(x in s for x in conj(g))


def under(t, guard):
    """t simplified with the conjuncts of guard taken as true"""
    mp = {}
    for c in conj(guard):
        if c.op == "not":
            mp[c.args[0]] = FALSE
        elif c.op not in ("true", "false") and c is not TRUE and c is not FALSE:
            mp[c] = TRUE
            mp[not_(c)] = FALSE
    if not mp or len(mp) > 400:
        return t
    return replace(t, mp)


# ---------- printing ----------
def show(t, depth=0):
    if depth > 12:
        return "..."
    d = depth + 1
    if t.op == "num":
        return str(t.args)
    if t.op in ("true", "false"):
        return t.op
    if t.op == "poly":
        return "(" + " + ".join(("" if c == 1 and m else str(c)) + "*".join([""] * (c != 1 and bool(m)) + [show(a, d) for a in m]) for m, c in t.args) + ")"
    if t.op == "app":
        return t.args[0] + ("(" + ",".join(show(a, d) for a in t.args[1:]) + ")" if len(t.args) > 1 else "")
    if t.op == "le":
        return show(t.args[0], d) + "<=0"
    if t.op == "lt":
        return show(t.args[0], d) + "<0"
    if t.op == "eq0":
        return show(t.args[0], d) + "==0"
    if t.op == "forall":
        return "forall%s.%s" % (list(t.args[0]), show(t.args[1], d))
    return t.op + "(" + ",".join(show(a, d) for a in t.args) + ")"


def _q(name):
    return "|" + name.replace("|", "!") + "|"


SORTN = {"I": "Int", "R": "Real", "B": "Bool"}


class Smt:
    """prints a set of assertions as SMT-LIB with sharing"""

    def __init__(self):
        self.decls = {}
        self.lines = []
        self.names = {}
        self.ranges = set()

    def lit(self, v, sort):
        if sort == "I":
            return str(v) if v >= 0 else "(- %d)" % -v
        v = Fraction(v)
        n = "%d.0" % abs(v.numerator)
        s = n if v.denominator == 1 else "(/ %s %d.0)" % (n, v.denominator)
        return s if v >= 0 else "(- %s)" % s

    def term(self, t, bound=frozenset()):
        # iterative to avoid deep recursion
        if t in self.names:
            return self.names[t]
        stack = [(t, False)]
        while stack:
            x, done = stack.pop()
            if x in self.names:
                continue
            if x.op == "forall":
                self.names[x] = self._forall(x)
                continue
            ch = children(x)
            if not done:
                stack.append((x, True))
                stack.extend((c, False) for c in ch if c not in self.names)
                continue
            s = self._render(x)
            if len(s) > 60 and not (fv(x) & self.bv):
                n = "t!%d" % x.id
                self.lines.append("(define-fun %s () %s %s)" % (n, SORTN[x.sort], s))
                s = n
            self.names[x] = s
            self._range(x)
        return self.names[t]

    bv = frozenset()

    def _range(self, x):
        if x.op == "app" and (x.lo is not None or x.hi is not None) and not (fv(x) & self.bv) and x.sort == "I":
            if x.lo is not None:
                self.lines.append("(assert (<= %s %s))" % (self.lit(x.lo, x.sort), self.names[x]))
            if x.hi is not None:
                self.lines.append("(assert (<= %s %s))" % (self.names[x], self.lit(x.hi, x.sort)))
        elif x.op == "app" and x.sort == "R" and not (fv(x) & self.bv):
            # bounds of real inputs, without literals of extreme size
            if x.lo is not None and x.lo >= 0:
                tiny = 0 < x.lo < Fraction(1, 10**30)
                self.lines.append("(assert (%s %s %s))" % ("<" if tiny else "<=", self.lit(0 if tiny else x.lo, "R"), self.names[x]))
            if x.lo is not None and 0 > x.lo > -10**30:
                self.lines.append("(assert (<= %s %s))" % (self.lit(x.lo, "R"), self.names[x]))
            if x.hi is not None and abs(x.hi) < 10**30:
                self.lines.append("(assert (<= %s %s))" % (self.names[x], self.lit(x.hi, "R")))

    def _forall(self, x):
        old = self.bv
        bs = frozenset(x.args[0])
        hidden = {k: v for k, v in self.names.items() if fv(k) & bs}
        for k in hidden:
            del self.names[k]
        self.bv = self.bv | bs
        for v in x.args[0]:
            self.names[v] = _q(v.args[0])
        b = self.term(x.args[1])
        guards = []
        for v in x.args[0]:
            if v.lo is not None:
                guards.append("(<= %s %s)" % (self.lit(v.lo, "I"), self.names[v]))
            if v.hi is not None:
                guards.append("(<= %s %s)" % (self.names[v], self.lit(v.hi, "I")))
        if guards:
            b = "(=> (and %s) %s)" % (" ".join(guards), b)
        vs = " ".join("(%s %s)" % (_q(v.args[0]), SORTN[v.sort]) for v in x.args[0])
        self.bv = old
        self.names = {k: v for k, v in self.names.items() if not (fv(k) & bs)}
        self.names.update(hidden)
        return "(forall (%s) %s)" % (vs, b)

    def _render(self, x):
        n = self.names
        op = x.op
        if op == "num":
            return self.lit(x.args, x.sort)
        if op in ("true", "false"):
            return op
        if op == "poly":
            parts = []
            for m, c in x.args:
                fs = [n[a] for a in m]
                if c != 1 or not fs:
                    fs = [self.lit(c, x.sort)] + fs
                parts.append(fs[0] if len(fs) == 1 else "(* %s)" % " ".join(fs))
            return parts[0] if len(parts) == 1 else "(+ %s)" % " ".join(parts)
        if op == "app":
            name = x.args[0]
            if len(x.args) == 1 and x in self.bv:
                return _q(name)
            if name not in self.decls:
                self.decls[name] = "(declare-fun %s (%s) %s)" % (
                    _q(name), " ".join(SORTN[a.sort] for a in x.args[1:]), SORTN[x.sort])
            if len(x.args) == 1:
                return _q(name)
            return "(%s %s)" % (_q(name), " ".join(n[a] for a in x.args[1:]))
        c = [n[a] for a in x.args]
        z = "0" if x.args and x.args[0].sort == "I" else "0.0"
        if op == "le":
            return "(<= %s %s)" % (c[0], z)
        if op == "lt":
            return "(< %s %s)" % (c[0], z)
        if op == "eq0":
            return "(= %s %s)" % (c[0], z)
        m = {"eq": "=", "and": "and", "or": "or", "not": "not", "ite": "ite", "div": "div", "mod": "mod", "rdiv": "/",
             "toreal": "to_real", "toint": "to_int"}[op]
        return "(%s %s)" % (m, " ".join(c))

    def assert_(self, t):
        s = self.term(t)
        self.lines.append("(assert %s)" % s)

    def text(self):
        return "\n".join(self.decls.values()) + "\n" + "\n".join(self.lines) + "\n"
