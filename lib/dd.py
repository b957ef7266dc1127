"""Values of the abstract domain and multi-terminal decision diagrams over them.

A guarded value is a decision diagram whose inner nodes test a *condition variable*
(sign of an irreducible polynomial, integer threshold, opaque boolean, opaque enum tag)
and whose leaves are values.  Guards are diagrams with leaves True/False."""
import sys, hashlib
from fractions import Fraction
from alg import Rat, C, A, ZERO, ONE, atom, factors, sys_atoms, kname, pstr, aname

sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- values


class Undef:
    def __repr__(self):
        return "undef"

    def __hash__(self):
        return 77


UNDEF = Undef()


class V:
    """immutable structured value: class tag + tuple of parts (values, strings, tuples)"""
    __slots__ = ("tag", "parts", "_h")

    def __init__(self, tag, *parts):
        self.tag = tag
        self.parts = parts
        self._h = hash((tag, parts))

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self._h == o._h and self.tag == o.tag and self.parts == o.parts)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


def Struct(kind, *fields):
    return V("struct", kind, tuple(fields))


def Enum(adt, discr, variants):
    """variants: dict idx -> tuple(fields)"""
    return V("enum", adt, discr, tuple(sorted(variants.items())))


def Ref(root, path=()):
    return V("ref", root, tuple(path))


def Str(s):
    return V("str", s)


def FnItem(n, m, ref):
    return V("fn", n, m, ref)


def Closure(d, caps, env):
    return V("closure", d, tuple(caps), env)


def Opq(key, ty=None):
    return V("opq", key, ty)


def is_tag(v, t):
    return isinstance(v, V) and v.tag == t


UNIT = Struct("tuple")

# ---------------------------------------------------------------- condition variables
VARS = []
_var_ids = {}


def cvar(key, n):
    i = _var_ids.get(key)
    if i is None:
        i = len(VARS)
        _var_ids[key] = i
        VARS.append((key, n))
    return i


class D:
    __slots__ = ("var", "ch", "_h")

    def __repr__(self):
        return show(self)


_dtab = {}


def mk(var, ch):
    ch = tuple(ch)
    c0 = ch[0]
    if all(same(c, c0) for c in ch[1:]):
        return c0
    # don't-care children take the value of any defined sibling
    d = [c for c in ch if c is not UNDEF]
    if len(d) < len(ch) and d and all(same(c, d[0]) for c in d[1:]):
        return d[0]
    k = (var, ch)
    n = _dtab.get(k)
    if n is None:
        n = D()
        n.var, n.ch = var, ch
        n._h = hash(("D", k))
        _dtab[k] = n
    return n


def _dh(self):
    return self._h


D.__hash__ = _dh


def _deq(self, o):
    return self is o


D.__eq__ = _deq


def same(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    return type(a) is type(b) and a == b


def top(*vs):
    m = None
    for v in vs:
        if isinstance(v, D) and (m is None or v.var < m):
            m = v.var
    return m


def cof(v, var, i):
    return v.ch[i] if isinstance(v, D) and v.var == var else v


def lift(f, *vs):
    """apply f leafwise"""
    memo = {}

    def go(vs):
        if not any(isinstance(v, D) for v in vs):
            if any(v is UNDEF for v in vs):
                return UNDEF
            return f(*vs)
        k = vs
        r = memo.get(k)
        if r is None:
            t = top(*vs)
            n = VARS[t][1]
            r = mk(t, [go(tuple(cof(v, t, i) for v in vs)) for i in range(n)])
            memo[k] = r
        return r
    return go(tuple(_hk(v) for v in vs))


def lift2(f, *vs):
    """like lift, but f may itself return a diagram"""
    memo = {}

    def go(vs):
        if not any(isinstance(v, D) for v in vs):
            if any(v is UNDEF for v in vs):
                return UNDEF
            return f(*vs)
        r = memo.get(vs)
        if r is None:
            t = top(*vs)
            n = VARS[t][1]
            r = test(t, [go(tuple(cof(v, t, i) for v in vs)) for i in range(n)])
            memo[vs] = r
        return r
    return go(tuple(_hk(v) for v in vs))


def _hk(v):
    return v


_gmemo = {}


def g_and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a is b:
        return a
    if id(a) > id(b):
        a, b = b, a
    k = ("&", a, b)
    r = _gmemo.get(k)
    if r is None:
        t = top(a, b)
        r = mk(t, [g_and(cof(a, t, i), cof(b, t, i)) for i in range(VARS[t][1])])
        _gmemo[k] = r
    return r


def g_not(a):
    if a is True:
        return False
    if a is False:
        return True
    if a is UNDEF:
        return UNDEF
    k = ("!", a)
    r = _gmemo.get(k)
    if r is None:
        r = mk(a.var, [g_not(c) for c in a.ch])
        _gmemo[k] = r
    return r


def g_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a is b:
        return a
    k = ("|", a, b)
    r = _gmemo.get(k)
    if r is None:
        t = top(a, b)
        r = mk(t, [g_or(cof(a, t, i), cof(b, t, i)) for i in range(VARS[t][1])])
        _gmemo[k] = r
    return r


def g_all(xs):
    r = True
    for x in xs:
        r = g_and(r, x)
    return r


def g_any(xs):
    r = False
    for x in xs:
        r = g_or(r, x)
    return r


_imemo = {}


def dite(g, a, b):
    """leaf-level if-then-else"""
    if g is True:
        return a
    if g is False:
        return b
    if g is UNDEF:
        return a
    if same(a, b):
        return a
    k = (g, a, b)
    r = _imemo.get(k)
    if r is None:
        t = top(g, a, b)
        r = mk(t, [dite(cof(g, t, i), cof(a, t, i), cof(b, t, i)) for i in range(VARS[t][1])])
        _imemo[k] = r
    return r


def test(var, ch):
    """diagram testing var with children ch (which may test smaller variables)"""
    n = VARS[var][1]
    r = ch[n - 1]
    for i in range(n - 2, -1, -1):
        lit = mk(var, [j == i for j in range(n)])
        r = ite(lit, ch[i], r)
    return r


_rmemo = {}


def restrict(v, g):
    """simplify diagram v given that g holds"""
    if g is True or not isinstance(v, D):
        return v
    if g is False:
        return UNDEF
    k = (v, g)
    r = _rmemo.get(k)
    if r is not None:
        return r
    t = top(v, g)
    n = VARS[t][1]
    gs = [cof(g, t, i) for i in range(n)]
    if v.var != t:
        r = restrict(v, g_any(gs))
    else:
        live = [i for i in range(n) if gs[i] is not False]
        ch = [restrict(v.ch[i], gs[i]) for i in range(n)]
        if len(live) == 1:
            r = ch[live[0]]
        else:
            r = mk(t, ch)
    _rmemo[k] = r
    return r


def ite(g, a, b):
    if g is True:
        return a
    if g is False:
        return b
    if same(a, b):
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, V) and isinstance(b, V) and a.tag == b.tag:
        t = a.tag
        if t == "struct" and a.parts[0] == b.parts[0] and len(a.parts[1]) == len(b.parts[1]):
            return V("struct", a.parts[0], tuple(ite(g, x, y) for x, y in zip(a.parts[1], b.parts[1])))
        if t == "enum" and a.parts[0] == b.parts[0]:
            va, vb = dict(a.parts[2]), dict(b.parts[2])
            out = {}
            for k in set(va) | set(vb):
                if k not in va:
                    out[k] = vb[k]
                elif k not in vb:
                    out[k] = va[k]
                else:
                    out[k] = tuple(ite(g, x, y) for x, y in zip(va[k], vb[k]))
            return Enum(a.parts[0], dite(g, a.parts[1], b.parts[1]), out)
        if t == "closure" and a.parts[0] == b.parts[0] and len(a.parts[1]) == len(b.parts[1]):
            return V("closure", a.parts[0], tuple(ite(g, x, y) for x, y in zip(a.parts[1], b.parts[1])), a.parts[2])
        if t == "it" and a.parts[0] == b.parts[0] and len(a.parts[1]) == len(b.parts[1]):
            ok = True
            out = []
            for x, y in zip(a.parts[1], b.parts[1]):
                if same(x, y):
                    out.append(x)
                elif isinstance(x, (Rat, D)) or isinstance(x, V) and isinstance(y, V) and x.tag == y.tag and x.tag in ("it", "struct", "closure"):
                    out.append(ite(g, x, y))
                else:
                    ok = False
            if ok:
                return V("it", a.parts[0], tuple(out))
        if t == "lit" and len(a.parts[0]) == len(b.parts[0]):
            return V("lit", tuple(ite(g, x, y) for x, y in zip(a.parts[0], b.parts[0])))
    return dite(g, a, b)


# ---------------------------------------------------------------- comparisons

def sign_var(poly):
    k = ("sgn", tuple(sorted(poly.items())))
    return cvar(k, 3)


_sgcache = {}
NEG1 = C(-1)


SG = {-1: C(-1), 0: C(0), 1: C(1)}


def sign_of(r):
    """diagram with leaves C(-1), C(0), C(1): sign of the rational r"""
    c = r.const()
    if c is not None:
        return SG[(c > 0) - (c < 0)]
    v = _sgcache.get(r)
    if v is not None:
        return v
    ang = angles(r)
    if ang is not None:
        _sgcache[r] = ang
        return ang
    s, fl = factors(r.num)
    s2, fl2 = factors(r.den)
    res = SG[s * s2]
    for part, fs in (("n", fl), ("d", fl2)):
        for p, e in fs:
            if positive_form(p):
                d = SG[1] if p.get((), 0) > 0 else nonneg_sign(p)
            else:
                d = mk(sign_var(p), (SG[-1], SG[0], SG[1]))
            if part == "d":
                # a denominator is non-zero
                d = lift(lambda x: UNDEF if x == ZERO else x, d)
            if e % 2 == 0:
                d = lift(lambda x: x * x, d)
            res = lift(lambda x, y: x * y, res, d)
    _sgcache[r] = res
    return res


def quadrant(y, x):
    """(-pi,0) -> 0, 0 -> 1, (0,pi) -> 2, pi -> 3"""
    return lift2(lambda sy, sx: C(0) if sy.const() < 0 else C(2) if sy.const() > 0 else C(3) if sx.const() < 0 else C(1),
                 sign_of(y), sign_of(x))


def angles(r):
    """sign of an angle or of the difference of two angles, decided from their vectors"""
    n = r.num
    if len(n) > 2 or not n:
        return None
    sd = {(): 1}
    if r.den != sd and len(r.den) != 1:
        return None
    ks = []
    for m, c in n.items():
        if len(m) != 1 or m[0][1] != 1 or sys_atoms[m[0][0]].key[0] != "atan2":
            return None
        ks.append((sys_atoms[m[0][0]].key, c))
    (dk,) = r.den.items() if len(r.den) == 1 else (None,)
    if dk is None or dk[0] != () or dk[1] < 0:
        return None
    if len(ks) == 1:
        (_, y, x), c = ks[0]
        s = 1 if c > 0 else -1
        return lift(lambda q: SG[s * (-1 if q.const() == 0 else 0 if q.const() == 1 else 1)], quadrant(y, x))
    if ks[0][1] != -ks[1][1]:
        return None
    if ks[0][1] < 0:
        ks.reverse()
    (_, y1, x1), (_, y2, x2) = ks[0][0], ks[1][0]

    def f(p, q):
        p, q = int(p.const()), int(q.const())
        if p != q:
            return SG[1 if p > q else -1]
        return SG[0] if p in (1, 3) else sign_of(x2 * y1 - x1 * y2)
    return lift2(f, quadrant(y1, x1), quadrant(y2, x2))


def s_lt(r):
    return lift(lambda s: s.const() < 0, sign_of(r))


def s_gt(r):
    return lift(lambda s: s.const() > 0, sign_of(r))


def s_eq(r):
    return lift(lambda s: s.const() == 0, sign_of(r))


def positive_form(p):
    """every monomial non-negative by construction (nonneg atoms / even powers, positive coefficient)"""
    for m, c in p.items():
        if c < 0:
            return False
        for v, e in m:
            if e % 2 and not sys_atoms[v].nonneg:
                return False
    return True


def nonneg_sign(p):
    v = sign_var(p)
    return mk(v, (UNDEF, SG[0], SG[1]))


def int_ge0(r):
    """guard: integer-valued r >= 0"""
    c = r.const()
    if c is not None:
        return c >= 0
    n = dict(r.num)
    k = n.pop((), Fraction(0))
    # primitive, positive lead
    from math import gcd
    g = 0
    for c in n.values():
        g = gcd(g, int(c))
    lead = max(n)
    sgn = 1 if n[lead] > 0 else -1
    L = {m: c / g * sgn for m, c in n.items()}
    # g*sgn*L + k >= 0
    if sgn > 0:
        # L >= ceil(-k/g)
        t = -((k) // g)
        return ge_var(L, int(t))
    # -g*L + k >= 0  <=>  L <= floor(k/g)  <=> not L >= floor(k/g)+1
    t = k // g + 1
    return g_not(ge_var(L, int(t)))


THRESH = {}


def ge_var(L, t):
    if positive_form(L) and t <= 0:
        return True
    key = tuple(sorted(L.items()))
    v = cvar(("ge", key, t), 2)
    THRESH.setdefault(key, set()).add(t)
    return mk(v, (False, True))


def is_intval(r):
    return r.is_int()


def cmp_lt(a, b):
    def f(x, y):
        d = y - x
        if is_intval(d):
            return int_ge0(d - ONE)
        return s_gt(d)
    return lift2(f, a, b)


def cmp_le(a, b):
    return g_not(cmp_lt(b, a))


def cmp_eq(a, b):
    def f(x, y):
        if not isinstance(x, Rat):
            return generic_eq(x, y)
        d = x - y
        if is_intval(d):
            return g_and(int_ge0(d), int_ge0(-d))
        return s_eq(d)
    return lift2(f, a, b)


def generic_eq(x, y):
    if same(x, y):
        return True
    if isinstance(x, bool) and isinstance(y, bool):
        return x == y
    a, b = sorted((x, y), key=lambda v: (hash(v), repr(v)))
    return mk(cvar(("bool", ("eq", a, b)), 2), (False, True))


def boolvar(key):
    return mk(cvar(("bool", key), 2), (False, True))


def enumvar(key, n):
    return mk(cvar(("enum", key, n), n), tuple(C(i) for i in range(n)))


# ---------------------------------------------------------------- printing

_budget = [None]


def brief(v, n=4000):
    """show(v), giving up on detail after n nodes"""
    _budget[0] = n
    try:
        return show(v)
    finally:
        _budget[0] = None


def show(v, depth=0):
    if depth > 12:
        return "..."
    if _budget[0] is not None:
        _budget[0] -= 1
        if _budget[0] < 0:
            return "..."
    if isinstance(v, D):
        key, n = VARS[v.var]
        ch = [show(c, depth + 1) for c in v.ch]
        return "%s?[%s]" % (vname(v.var), " | ".join(ch))
    if isinstance(v, Rat):
        return repr(v)
    if isinstance(v, V):
        t = v.tag
        if t == "struct":
            return "%s(%s)" % (v.parts[0].split("::")[-1], ", ".join(show(x, depth + 1) for x in v.parts[1]))
        if t == "enum":
            return "%s{tag=%s; %s}" % (v.parts[0].split("::")[-1], show(v.parts[1], depth + 1), "; ".join(
                "%d:(%s)" % (k, ", ".join(show(x, depth + 1) for x in fs)) for k, fs in v.parts[2]))
        if t == "ref":
            return "&%s%s" % (kname(v.parts[0]), "".join(".%s" % "/".join(str(y) for y in x) for x in v.parts[1]))
        if t == "str":
            return repr(v.parts[0])
        if t == "opq":
            return "?" + kname(v.parts[0])
        if t == "closure":
            return "closure(%s)" % v.parts[0].split("::")[-2:]
        return "%s(%s)" % (t, ", ".join(show(x, depth + 1) if not isinstance(x, (tuple, str)) else
                                        ("[" + ", ".join(show(y, depth + 1) for y in x) + "]" if isinstance(x, tuple) else x)
                                        for x in v.parts))
    return str(v)


_dg = {}


def digest(v):
    """content hash of a value (shared parts are hashed once)"""
    if isinstance(v, (D, V, Rat)) or (isinstance(v, tuple) and v):
        r = _dg.get(v)
        if r is None:
            r = _dg[v] = hashlib.sha1(_dgs(v).encode()).hexdigest()
        return r
    return str(v)


def _dgs(v):
    if isinstance(v, D):
        key, n = VARS[v.var]
        if key[0] == "sgn":
            t = "sgn" + _dgp(key[1])
        elif key[0] == "ge":
            t = "ge%d" % key[2] + _dgp(key[1])
        else:
            t = digest(key)
        return "D" + t + "".join("," + digest(c) for c in v.ch)
    if isinstance(v, Rat):
        return "R" + _dgp(v.num.items()) + "/" + _dgp(v.den.items())
    if isinstance(v, V):
        return "V" + v.tag + "".join("," + digest(x) for x in v.parts)
    return "T" + "".join("," + digest(x) for x in v)


def _dgp(items):
    out = []
    for m, c in items:
        out.append("%s*%s" % (c, "*".join(sorted("%s^%d" % (digest(sys_atoms[a].key), e) for a, e in m))))
    return "+".join(sorted(out))


def vname(i):
    key, n = VARS[i]
    if _budget[0] is not None:
        _budget[0] -= 10
    if key[0] == "sgn":
        return "sgn(%s)" % pstr(dict(key[1]))
    if key[0] == "ge":
        return "[%s >= %d]" % (pstr(dict(key[1])), key[2])
    return "%s" % kname(key[1])


def leaves(v):
    out, seen = [], set()

    def go(x):
        if isinstance(x, D):
            if x in seen:
                return
            seen.add(x)
            for c in x.ch:
                go(c)
        else:
            if not any(same(x, y) for y in out):
                out.append(x)
    go(v)
    return out


def cells(v, limit=100000):
    """enumerate (assignment {var: child}, leaf) of a diagram"""
    def go(x, asg):
        if isinstance(x, D):
            for i, c in enumerate(x.ch):
                asg[x.var] = i
                yield from go(c, asg)
            del asg[x.var]
        else:
            yield dict(asg), x
    yield from go(v, {})
