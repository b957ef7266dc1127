"""Transfer functions for calls: crate-local callees are expanded, the library vocabulary the
crate is written in is interpreted, everything else is an uninterpreted application."""
from vg import *
import vg
from dd import *
from alg import *

DIVERGE = object()
ULPS = "ulps"
ITER = "it"


# ------------------------------------------------------------------ helpers

def val(eng, c, x):
    """value behind any number of references"""
    n = 0
    while n < 6:
        if is_tag(x, "ref") or is_tag(x, "refv"):
            x = eng.read(c.st, x)
        elif isinstance(x, D) and any(is_tag(y, "ref") or is_tag(y, "refv") for y in leaves(x)):
            x = eng.read(c.st, x)
        else:
            return x
        n += 1
    return x


def lastref(eng, c, x):
    """innermost reference of a chain of references"""
    for _ in range(6):
        if not is_tag(x, "ref"):
            return x
        v = eng.read(c.st, x)
        if is_tag(v, "ref"):
            x = v
        elif is_tag(v, "refv"):
            return v
        else:
            return x
    return x


def under(eng, c, guard, thunk):
    """evaluate thunk on the part of the state where guard holds; merge afterwards"""
    if guard is True:
        return thunk()
    g0 = c.g
    g1 = eng.conj(g0, guard)
    if g1 is False or guard is UNDEF:
        return UNDEF
    if g1 is g0:
        return thunk()
    gn = eng.conj(g0, g_not(guard))
    if gn is False:
        return thunk()
    st0 = c.st
    c.st, c.g = dict(st0), g1
    v = thunk()
    if v is DIVERGE or c.g is False:
        c.st, c.g = st0, gn
        return UNDEF
    c.g, c.st = merge_states([(gn, st0), (c.g, c.st)])
    return v


def vec(d, xs):
    return Struct("V%d" % d, *xs)


def isvec(v):
    return is_tag(v, "struct") and v.parts[0] in ("V2", "V3")


def vmap(f, *vs):
    return V("struct", vs[0].parts[0], tuple(f(*xs) for xs in zip(*[v.parts[1] for v in vs])))


def add(a, b):
    return num2(lambda x, y: x + y, a, b)


def sub(a, b):
    return num2(lambda x, y: x - y, a, b)


def mul(a, b):
    return num2(lambda x, y: x * y, a, b)


def div(a, b):
    return num2(rdiv, a, b)


def dot(a, b):
    r = ZERO
    for x, y in zip(a.parts[1], b.parts[1]):
        r = add(r, mul(x, y))
    return r


def perp(a, b):
    (ax, ay), (bx, by) = a.parts[1][:2], b.parts[1][:2]
    return sub(mul(ax, by), mul(ay, bx))


def cross(a, b):
    ax, ay, az = a.parts[1]
    bx, by, bz = b.parts[1]
    return vec(3, [sub(mul(ay, bz), mul(az, by)), sub(mul(az, bx), mul(ax, bz)), sub(mul(ax, by), mul(ay, bx))])


def arith(op, a, b):
    f = {"add": add, "sub": sub, "mul": mul, "div": div}[op]
    if isvec(a) and isvec(b):
        return vmap(f, a, b)
    if isvec(a):
        return vmap(lambda x: f(x, b), a)
    if isvec(b):
        return vmap(lambda x: f(a, x), b)
    return f(a, b)


def sqrt(x):
    return lift2(f_sqrt, x)


def fabs(x):
    return lift2(f_abs, x)


def finite(x):
    def f(v):
        if v.const() is not None:
            return True
        return boolvar(("finite", v))
    return lift2(lambda v: f(toR(v)), x)


def finite_all(v):
    if isvec(v):
        return g_all([finite(x) for x in v.parts[1]])
    return finite(v)


DEFEPS = lambda: A(atom(("const", "default_epsilon"), "real", True))
DEFULPS = lambda: A(atom(("const", "default_max_ulps"), "int", True))


def tol(eps=None, ulps=None):
    return Struct("tol", eps if eps is not None else DEFEPS(), ulps if ulps is not None else DEFULPS())


def const(x):
    return C(x)


def is_int_ty(t):
    return t and t.get("k") == "prim" and t["n"][0] in "ui" and t["n"] != "unit"


def strip_ref(t):
    while t and t.get("k") == "ref":
        t = t["t"]
    return t


# ------------------------------------------------------------------ uninterpreted applications

def app(eng, c, name, args=None, kind="app", sym=False):
    """deterministic uninterpreted application; &mut arguments are overwritten by fresh results.
    kind "ufn": a function the obligation deliberately leaves uninterpreted"""
    args = c.args if args is None else args
    vals = tuple(deepval(eng, c, a) for a in args)
    if kind == "app":
        eng.unknown.append(name)
    key = (kind, name) + vals
    for i, (a, t) in enumerate(zip(args, c.atys)):
        if t.get("k") == "ref" and t.get("mut") and is_tag(a, "ref"):
            tt = t["t"]
            old = eng.read(c.st, a)
            new = eng.sym(tt, ("post", i) + key)
            if is_tag(new, "opq") or is_seq(new):
                new = eng.like(old, ("post", i) + key) if isinstance(old, V) and old.tag in ("struct",) else new
            eng.write(c.st, a, new)
    if c.rty.get("k") == "never":
        return DIVERGE
    if kind == "ufn" and eng.inst:
        return lift_deep(lambda vs: eng.sym(c.rty, (kind, name) + (tuple(sorted(vs, key=repr)) if sym else vs)), vals)
    return eng.sym(c.rty, key)


def deep_vars(v, out):
    if isinstance(v, D):
        out.add(v.var)
    elif isinstance(v, V):
        for p in v.parts:
            deep_vars(p, out)
    elif isinstance(v, tuple):
        for p in v:
            deep_vars(p, out)
    return out


def deep_cof(v, t, i):
    if isinstance(v, D):
        return cof(v, t, i)
    if isinstance(v, V):
        return V(v.tag, *[deep_cof(p, t, i) for p in v.parts])
    if isinstance(v, tuple):
        return tuple(deep_cof(p, t, i) for p in v)
    return v


def lift_deep(f, vals):
    """f applied case by case to values whose components are diagrams"""
    memo = {}

    def go(vs):
        r = memo.get(vs)
        if r is None:
            ts = deep_vars(vs, set())
            if not ts:
                r = UNDEF if any(v is UNDEF for v in vs) else f(vs)
            else:
                t = min(ts)
                r = test(t, [go(deep_cof(vs, t, i)) for i in range(VARS[t][1])])
            memo[vs] = r
        return r
    return go(vals)


def deepval(eng, c, x, depth=0):
    if depth > 5:
        return x
    if is_tag(x, "ref") or is_tag(x, "refv"):
        return deepval(eng, c, eng.read(c.st, x), depth + 1)
    if isinstance(x, V):
        if x.tag in ("struct", "it", "closure"):
            return V(x.tag, x.parts[0], tuple(deepval(eng, c, y, depth + 1) if isinstance(y, V) else y for y in x.parts[1]), *x.parts[2:])
    if isinstance(x, D) and any(isinstance(y, V) and y.tag in ("ref", "refv") for y in leaves(x)):
        return deepval(eng, c, eng.read(c.st, x), depth + 1)
    return x


# ------------------------------------------------------------------ iterators
# V("it","ix",(src, lo, hi))  src: V(tag, ...) describing item(i)
# V("it","filter",(inner, f)) | ("fmap",...) | ("chain",(a,b)) | ("flat",(inner,)) | ("twhile",(inner,f)) | ("stepby"...)

def ix(src, lo, hi):
    return V("it", "ix", (src, lo, hi))


def src_item(eng, c, s, i):
    t = s.tag
    if t == "s_ref":
        return eng.extend(c.st, s.parts[0], ("i", i))
    if t == "s_val":
        return eng.seq_at(s.parts[0], i, c.st)
    if t == "s_win":
        return eng.extend(c.st, s.parts[0], ("ss", i, s.parts[1]))
    if t == "s_chunk":
        return eng.extend(c.st, s.parts[0], ("ss", mul(i, s.parts[1]), s.parts[1]))
    if t == "s_chunks":
        at = mul(i, s.parts[1])
        return eng.extend(c.st, s.parts[0], ("ss", at, f_min(s.parts[1], sub(s.parts[2], at))))
    if t == "s_step":
        return src_item(eng, c, s.parts[0], mul(i, s.parts[1]))
    if t == "s_range":
        return i
    if t == "s_enum":
        return Struct("tuple", sub(i, s.parts[1]), src_item(eng, c, s.parts[0], i))
    if t == "s_map":
        return call_value(eng, c, s.parts[1], [src_item(eng, c, s.parts[0], i)])
    if t == "s_copied":
        return val(eng, c, src_item(eng, c, s.parts[0], i))
    if t == "s_rev":
        return src_item(eng, c, s.parts[0], sub(s.parts[1], i))
    if t == "s_user":
        return user_step(eng, c, s, i, add(i, ONE))[1]
    if t == "s_off":
        return src_item(eng, c, s.parts[0], add(i, s.parts[1]))
    if t == "s_zip":
        a = src_item(eng, c, s.parts[0], i)
        b = src_item(eng, c, s.parts[1], i)
        return Struct("tuple", a, b)
    raise Unsupported("iterator source %s" % t)


def normalise(it):
    """indexable iterator rebased so that it starts at 0: (src, count)"""
    src, lo, hi = it.parts[1]
    if lo == ZERO:
        return src, hi
    return V("s_off", src, lo), sub(hi, lo)


def isix(it):
    return is_tag(it, "it") and it.parts[0] == "ix"


def optionlike(v):
    return is_tag(v, "enum") and v.parts[0] in (OPT, RES)


def user_step(eng, c, s, lo, hi):
    """one call of a crate-defined next() whose only iterator field is at (lo, hi) of its source:
    (guard that it yields, item, state after)"""
    src, fnname, tmpl, k, env = s.parts
    fn = eng.crate.fns[fnname]
    fs = list(tmpl.parts[1])
    fs[k] = ix(src, lo, hi)
    r = fresh_root(eng, c, Struct(tmpl.parts[0], *fs))
    rv, st, g = eng.eval_body(fn, [r], dict(c.st), c.g, dict(env), 0)
    if g is False:
        return False, UNDEF, UNDEF
    c.st, c.g = st, g
    rv = val(eng, c, rv)
    if not is_tag(rv, "enum") or rv.parts[0] != OPT:
        return UNDEF, UNDEF, UNDEF
    gs, item = vis(rv, 1), vfield(rv, 1)
    return gs, item, eng.read(c.st, r)


def user_iter(eng, c, x, ty=None):
    """a struct with an Iterator implementation in the crate whose next() steps exactly one inner
    iterator field: item i of the user iterator is next() on that field at position i"""
    fs = x.parts[1]
    ks = [k for k, f in enumerate(fs) if isix(f)]
    if len(ks) != 1:
        return None
    im = [q for q in eng.crate.impls if q.get("trait") == "std::iter::Iterator" and
          isinstance(q.get("t"), dict) and q["t"].get("n") == x.parts[0]]
    if len(im) != 1:
        return None
    pth = dict((a, b) for a, b in im[0].get("items", [])).get("next")
    fn = eng.crate.fns.get(pth)
    if fn is None or fn.name in eng.stack:
        return None
    env = {}
    if isinstance(ty, dict) and ty.get("k") == "adt":
        env = bodies_env(eng, fn, ty.get("a", []))
    k = ks[0]
    src, lo, hi = fs[k].parts[1]
    s = V("s_user", src, pth, x, k, FrozenEnv(env))
    st0, g0 = c.st, c.g
    try:
        gs, _, after = user_step(eng, c, s, lo, hi)
    finally:
        c.st, c.g = st0, g0
    if gs is UNDEF or not (gs == cmp_lt(lo, hi) or gs == g_not(cmp_le(hi, lo))):
        return None
    want = list(fs)
    want[k] = ix(src, add(lo, ONE), hi)
    more = [y for y in leaves(after)] if isinstance(after, D) else [after]
    if any(y != Struct(x.parts[0], *want) and y != x for y in more):
        return None
    return ix(s, lo, hi)


class FrozenEnv(dict):
    """type environment as part of a value: compared and hashed by content"""

    def __init__(self, d):
        dict.__init__(self, d)
        self._k = repr(sorted(d.items()))

    def __hash__(self):
        return hash(self._k)

    def __eq__(self, o):
        return isinstance(o, FrozenEnv) and o._k == self._k

    def __ne__(self, o):
        return not self == o


def is_seqs(v):
    return is_seq(v) or isinstance(v, D) and all(is_seq(y) for y in leaves(v))


def into_iter(eng, c, x, ty=None):
    """iterator over x (owned value, reference to a sequence, range, iterator)"""
    if is_tag(x, "it"):
        return x
    if is_tag(x, "struct"):
        u = user_iter(eng, c, x, ty)
        if u is not None:
            return u
    if is_tag(x, "ref"):
        v = eng.read(c.st, x)
        if is_tag(v, "it"):
            return V("it", "byref", (x,))
        if is_tag(v, "ref") or is_tag(v, "refv"):
            return into_iter(eng, c, v)
        if is_seqs(v):
            return ix(V("s_ref", x), ZERO, eng.seq_len(v))
        if is_tag(v, "struct") and v.parts[0] == "std::ops::Range":
            return V("it", "byref", (x,))
        if optionlike(v):
            return V("it", "opt", (v.parts[1] if v.parts[0] == OPT else UNDEF, x, False))
    if is_tag(x, "refv"):
        v = x.parts[0]
        if is_seqs(v):
            return ix(V("s_ref", x), ZERO, eng.seq_len(v))
    if is_seqs(x):
        return ix(V("s_val", x), ZERO, eng.seq_len(x))
    if is_tag(x, "struct") and x.parts[0] == "std::ops::Range":
        return ix(V("s_range"), x.parts[1][0], x.parts[1][1])
    if is_tag(x, "struct") and x.parts[0] == "std::ops::RangeInclusive":
        return ix(V("s_range"), x.parts[1][0], add(x.parts[1][1], ONE))
    if is_tag(x, "struct") and x.parts[0] == "std::ops::RangeFrom":
        return ix(V("s_range"), x.parts[1][0], A(atom(("const", "usize::MAX"), "int", True)))
    return None


def it_next(eng, c, it):
    """-> (guard, item, newit) or None if not modelled"""
    if isix(it):
        src, lo, hi = it.parts[1]
        g = cmp_lt(lo, hi)
        item = under(eng, c, g, lambda: src_item(eng, c, src, lo))
        return g, item, ix(src, add(lo, ONE), hi)
    if is_tag(it, "it"):
        k = it.parts[0]
        if k == "chain":
            a, b = it.parts[1]
            ra = it_next(eng, c, a)
            if ra is None:
                return None
            ga, xa, na = ra
            rb = it_next(eng, c, b)
            if rb is None:
                return None
            gb, xb, nb = rb
            return g_or(ga, gb), ite(ga, xa, xb), V("it", "chain", (na, ite(ga, b, nb)))
        if k == "map":
            inner, f = it.parts[1]
            r = it_next(eng, c, inner)
            if r is None:
                return None
            g, x, n = r
            y = under(eng, c, g, lambda: call_value(eng, c, f, [x]))
            return g, y, V("it", "map", (n, f))
        if k == "enum":
            inner, cnt = it.parts[1]
            r = it_next(eng, c, inner)
            if r is None:
                return None
            g, x, n = r
            return g, Struct("tuple", cnt, x), V("it", "enum", (n, add(cnt, ONE)))
        if k == "copied":
            r = it_next(eng, c, it.parts[1][0])
            if r is None:
                return None
            g, x, n = r
            return g, val(eng, c, x), V("it", "copied", (n,))
    return None


def drive(eng, c, it, body, tag):
    """push-style consumption.  body(item) runs in c and returns a guard 'stop' (False = go on);
    when stop may hold, the exits are split.  Returns guard under which the drive was stopped early,
    or None if the iterator is not modelled."""
    if is_tag(it, "it") and it.parts[0] == "map":
        inner, f = it.parts[1]
        return drive(eng, c, inner, lambda x: body(call_value(eng, c, f, [x])), tag)
    if is_tag(it, "it") and it.parts[0] == "copied":
        return drive(eng, c, it.parts[1][0], lambda x: body(val(eng, c, x)), tag)
    if is_tag(it, "it") and it.parts[0] == "filter":
        inner, f = it.parts[1]

        def fb(x):
            tmp = fresh_root(eng, c, x)
            p = call_value(eng, c, f, [tmp])
            if p is False:
                return False
            r = under(eng, c, p, lambda: body(x))
            return g_and(p, r) if r is not UNDEF else False
        return drive(eng, c, inner, fb, tag)
    if is_tag(it, "it") and it.parts[0] == "fmap":
        inner, f = it.parts[1]

        def fb(x):
            y = call_value(eng, c, f, [x])
            if not is_tag(y, "enum"):
                raise Unsupported("filter_map")
            p = vis(y, 1) if y.parts[0] == OPT else vis(y, 0)
            fld = vfield(y, 1 if y.parts[0] == OPT else 0)
            if p is False:
                return False
            r = under(eng, c, p, lambda: body(fld))
            return g_and(p, r) if r is not UNDEF else False
        return drive(eng, c, inner, fb, tag)
    if is_tag(it, "it") and it.parts[0] == "twhile":
        inner, f = it.parts[1]
        over = fresh_root(eng, c, False, {"k": "prim", "n": "bool"})

        def fb(x):
            tmp = fresh_root(eng, c, x)
            p = call_value(eng, c, f, [tmp])
            eng.write(c.st, over, g_not(p))
            if p is False:
                return True
            r = under(eng, c, p, lambda: body(x))
            return g_or(g_not(p), g_and(p, r) if r is not UNDEF else False)
        s = drive(eng, c, inner, fb, tag)
        return None if s is None else g_and(s, g_not(eng.read(c.st, over)))
    if is_tag(it, "it") and it.parts[0] == "swhile":
        inner, f = it.parts[1]
        on = fresh_root(eng, c, False, {"k": "prim", "n": "bool"})

        def fb(x):
            tmp = fresh_root(eng, c, x)
            p = g_or(eng.read(c.st, on), g_not(call_value(eng, c, f, [tmp])))
            eng.write(c.st, on, p)
            if p is False:
                return False
            r = under(eng, c, p, lambda: body(x))
            return g_and(p, r) if r is not UNDEF else False
        return drive(eng, c, inner, fb, tag)
    if is_tag(it, "it") and it.parts[0] == "enum" and not isix(it.parts[1][0]):
        return None
    if is_tag(it, "it") and it.parts[0] == "chain":
        a, b = it.parts[1]
        s1 = drive(eng, c, a, body, tag)
        if s1 is None:
            return None
        if s1 is True:
            return True
        res = []

        def go():
            res.append(drive(eng, c, b, body, tag))
            return UNIT
        under(eng, c, g_not(s1), go)
        s2 = res[0] if res else False
        if s2 is None:
            return None
        return g_or(s1, s2)
    if is_tag(it, "it") and it.parts[0] == "opt":
        d, ref, done = it.parts[1]
        v = eng.read(c.st, ref)
        p = vis(v, 1) if v.parts[0] == OPT else vis(v, 0)
        if p is False:
            return False
        k = 1 if v.parts[0] == OPT else 0
        pay = eng.extend(c.st, eng.extend(c.st, ref, ("d", k)), ("f", 0))
        r = under(eng, c, p, lambda: body(pay))
        return g_and(p, r) if r is not UNDEF else False
    if is_tag(it, "it") and it.parts[0] == "optv":
        v = it.parts[1][0]
        k = 1 if v.parts[0] == OPT else 0
        p = vis(v, k)
        if p is False:
            return False
        r = under(eng, c, p, lambda: body(vfield(v, k)))
        return g_and(p, r) if r is not UNDEF else False
    if is_tag(it, "it") and it.parts[0] == "flat":
        inner = it.parts[1][0]

        def fb(x):
            if is_tag(x, "enum"):
                sub_it = V("it", "optv", (x,))
            else:
                sub_it = into_iter(eng, c, x)
            if sub_it is None:
                raise Unsupported("flatten")
            r = drive(eng, c, sub_it, body, tag)
            if r is None:
                raise Unsupported("flatten")
            return r
        return drive(eng, c, inner, fb, tag)
    if not isix(it):
        return None
    src, lo, hi = it.parts[1]
    n = sub(hi, lo)
    eng.ntmp += 1
    root = ("it", eng.ntmp)
    c.st[root] = lo
    eng.roottypes[root] = ({"k": "prim", "n": "usize"}, {})

    def bodyfn(g2, st2):
        cst, cg = c.st, c.g
        c.st, c.g = dict(st2), g2
        i = c.st[root]
        more = cmp_lt(i, hi)
        exits = []
        gd = eng.conj(g2, g_not(more))
        if gd is not False:
            exits.append(("it", "done", gd, dict(st2)))
        back = []
        gm = eng.conj(g2, more)
        if gm is not False:
            c.g = gm
            x = src_item(eng, c, src, i)
            stop = body(x) if x is not DIVERGE else False
            if c.g is not False and stop is not DIVERGE:
                c.st[root] = add(i, ONE)
                gs = eng.conj(c.g, stop)
                if gs is not False:
                    exits.append(("it", "stop", gs, dict(c.st)))
                gn = eng.conj(c.g, g_not(stop))
                if gn is not False:
                    back.append((gn, c.st))
        c.st, c.g = cst, cg
        return back, exits
    exits = eng.run_loop(c.g, c.st, bodyfn, tag)
    exits = [x for x in exits if x[2] is not False]
    if not exits:
        c.g = False
        return False
    stop = g_any([x[2] for x in exits if x[1] == "stop"])
    c.g, c.st = merge_states([(x[2], x[3]) for x in exits])
    return stop


def fresh_root(eng, c, v, ty=None):
    eng.ntmp += 1
    r = ("T", eng.ntmp)
    c.st[r] = v
    if ty is not None:
        eng.roottypes[r] = (ty, {})
    return Ref(r)


# ------------------------------------------------------------------ calling values

def call_value(eng, c, fv, args):
    for _ in range(4):
        if is_tag(fv, "ref"):
            inner = eng.read(c.st, fv)
            if is_tag(inner, "closure"):
                return call_closure(eng, c, inner, fv, args)
            fv = inner
        elif is_tag(fv, "refv"):
            fv = fv.parts[0]
        else:
            break
    if is_tag(fv, "closure"):
        return call_closure(eng, c, fv, None, args)
    if is_tag(fv, "fn"):
        n, m, ref = fv.parts
        if n in (OPT + "::Some",) or n.endswith("::Option::Some"):
            return some(args[0])
        if n.endswith("::Result::Ok"):
            return ok(args[0])
        if n.endswith("::Result::Err"):
            return err(args[0])
        ref = dict(ref)
        cc = Call()
        cc.args, cc.frame, cc.st, cc.g, cc.sp = args, c.frame, c.st, c.g, c.sp
        cc.rty = c.rty
        cc.atys = [{"k": "other", "n": "?"}] * len(args)
        if "n" not in ref:
            ref["n"] = n
        cc.ref = ref
        v = call(eng, cc)
        c.st, c.g = cc.st, cc.g
        return v
    vals = tuple(deepval(eng, c, a) for a in args)
    if is_tag(fv, "opq") and isinstance(fv.parts[0], tuple) and isinstance(fv.parts[0][0], str) and fv.parts[0][0].startswith("a"):
        key = ("ufn", "callvalue", fv) + vals      # an operation the caller supplies: any function
    else:
        eng.unknown.append("callvalue")
        key = ("app", "callvalue", fv) + vals
    return eng.sym(c.rty, key)


def call_closure(eng, c, cl, ref, args):
    fn = eng.crate.fns.get(cl.parts[0])
    if fn is None:
        raise Unsupported("closure body %s" % cl.parts[0])
    env = cl.parts[2]
    selfty = fn.locals[1]
    if selfty.get("k") == "ref":
        a0 = ref if ref is not None else fresh_root(eng, c, cl)
    else:
        a0 = cl
    if eng.stack.count(fn.name) > 1 or len(eng.stack) > eng.MAXDEPTH:
        return app(eng, c, fn.disp, args)
    n = fn.argc - 1
    if len(args) != n:
        raise Unsupported("closure arity")
    rv, st, g = eng.eval_body(fn, [a0] + list(args), dict(c.st), c.g, env, 0)
    c.st, c.g = st, g
    return rv if g is not False else DIVERGE


# ------------------------------------------------------------------ dispatch

def bodies_env(eng, fn, ra):
    gen = [x for x in fn.generics if x and not x.startswith("'")]
    env = {}
    for n, t in zip(gen, ra):
        env[n] = t
    return env


def call(eng, c):
    r = c.ref
    fr = c.frame
    env = fr.env if fr is not None else {}
    name = r.get("r") or r["n"]
    m = r.get("m") or name.rsplit("::", 1)[-1]
    c.name, c.m = name, m
    c.trait = r.get("trait")
    a = [eng.rty(t, env) for t in (r.get("ra") if r.get("r") else r.get("a")) or []]
    fn = eng.crate.fns.get(name)
    if fn is None and c.trait and r.get("a"):
        # trait method on a type parameter that the caller's environment resolves
        fn, a2 = resolve_impl(eng, c, r, env)
        if fn is not None:
            a = a2
    if fn is not None and c.trait in ("std::iter::Iterator", "std::iter::ExactSizeIterator") and c.args:
        # method of a crate iterator that was already turned into an index iterator
        x = val(eng, c, c.args[0])
        if is_tag(x, "it"):
            f = TMODELS.get((c.trait.rsplit("::", 1)[-1], m))
            if f is not None:
                v = f(eng, c, *c.args)
                if v is not NotImplemented:
                    return v
    h = eng.hooks.get(fn.disp if fn is not None else name)
    if h is not None:
        v = h(eng, c)
        if v is not NotImplemented:
            return v
    if fn is not None:
        return inline(eng, c, fn, a)
    mod = MODELS.get(name)
    if mod is None and c.trait:
        mod = TMODELS.get((c.trait.rsplit("::", 1)[-1], m))
    if mod is None:
        mod = MODELS.get(short(name))
    if mod is None and c.trait is None:
        mod = TMODELS.get((owner(name), m))
    if mod is None and name == "<T as std::convert::Into<U>>::into":
        mod = TMODELS[("Into", "into")]
    if mod is not None:
        v = mod(eng, c, *c.args)
        if v is not NotImplemented:
            return v
    return app(eng, c, name)


def owner(name):
    parts = [p for p in name.split("::") if not p.startswith("<") or True]
    return parts[-2].split("<")[0] if len(parts) >= 2 else ""


def short(name):
    """Option::<T>::unwrap -> Option::unwrap ; core::slice::<impl [T]>::len -> slice::len"""
    out, depth = "", 0
    i = 0
    while i < len(name):
        ch = name[i]
        if ch == "<":
            depth += 1
        elif ch == ">" and name[i - 1:i + 1] != "->":
            depth -= 1
        elif depth == 0:
            out += ch
        i += 1
    segs = [s for s in out.split("::") if s]
    return "::".join(segs[-2:])


def unify(p, t, env):
    """match impl type pattern p against type t, binding the impl's type parameters"""
    if p is None or t is None:
        return True
    k = p.get("k")
    if k == "param":
        o = env.get(p["n"])
        if o is not None:
            return tjson(o) == tjson(t) or o.get("k") == "param"
        env[p["n"]] = t
        return True
    if k == "alias" or t.get("k") in ("param", "alias"):
        return t.get("k") in ("param", "alias", "prim", "adt", "other") and k not in ("array", "ref", "tuple", "slice")
    if k != t.get("k"):
        return False
    if k in ("array", "slice", "ref"):
        if k == "array" and str(p.get("len")) != str(t.get("len")):
            return False
        return unify(p["t"], t["t"], env)
    if k == "adt":
        return p["n"] == t["n"] and all(unify(x, y, env) for x, y in zip(p.get("a", []), t.get("a", []))
                                        if isinstance(x, dict) and isinstance(y, dict))
    if k == "tuple":
        return len(p["a"]) == len(t["a"]) and all(unify(x, y, env) for x, y in zip(p["a"], t["a"]))
    return p.get("n") == t.get("n")


def impl_fns(eng, trait, m, selfty):
    """[(fn, env)] implementations of trait method m in the crates for selfty"""
    out = []
    for im in eng.crate.impls:
        if im.get("trait") != trait:
            continue
        env = {}
        if not unify(im.get("t"), selfty, env):
            continue
        for nm, pth in im.get("items", []):
            fn = eng.crate.fns.get(pth)
            if nm == m and fn is not None:
                out.append((fn, env))
    return out


def gen_args(fn, env):
    return [env.get(n, {"k": "param", "n": n}) for n in fn.generics if n and not n.startswith("'")]


def resolve_impl(eng, c, r, env):
    t = eng.rty(r["a"][0], env)
    tr = r["trait"]
    if t.get("k") != "adt":
        return None, None
    for im in eng.crate.impls:
        it = im.get("trait")
        if not it or it != tr:
            continue
        sf = im.get("t")
        if isinstance(sf, dict) and sf.get("k") == "adt" and sf["n"] == t["n"]:
            for nm, pth in im.get("items", []):
                fn = eng.crate.fns.get(pth)
                if nm == r["m"] and fn is not None:
                    return fn, t.get("a", [])
    return None, None


def inline(eng, c, fn, a):
    if fn.disp in eng.stop or eng.stack.count(fn.name) > (8 if eng.inst else 0) or len(eng.stack) > eng.MAXDEPTH:
        if fn.disp in eng.stop:
            nm, sym = eng.stop[fn.disp]
            v = app(eng, c, nm, kind="ufn", sym=sym)
        else:
            v = app(eng, c, fn.disp)
        eng.calls.append((c.g, fn.disp, tuple(c.args), v))
        return v
    env = bodies_env(eng, fn, a)
    args = list(c.args)
    if fn.kind == "Closure":
        tup = val(eng, c, args[1]) if len(args) == 2 else None
        if not is_tag(tup, "struct"):
            raise Unsupported("direct closure call")
        return call_value(eng, c, args[0], list(tup.parts[1]))
    rv, st, g = eng.eval_body(fn, args, dict(c.st), c.g, env, 0)
    c.st, c.g = st, g
    return rv if g is not False else DIVERGE


MODELS, TMODELS = {}, {}


def M(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def T(trait, *ms):
    def d(f):
        for m in ms:
            TMODELS[(trait, m)] = f
        return f
    return d


# ---------------------------------------------------------------- operators

for _op in ("add", "sub", "mul", "div"):
    def _f(eng, c, a, b, _op=_op):
        a, b = val(eng, c, a), val(eng, c, b)
        if _op == "div" and (is_int_ty(strip_ref(c.atys[0])) or is_int_ty(strip_ref(c.rty))):
            return num2(idiv, a, b)
        return arith(_op, a, b)
    TMODELS[(_op.capitalize(), _op)] = _f

    def _g(eng, c, a, b, _op=_op):
        v = arith(_op, val(eng, c, a), val(eng, c, b))
        eng.write(c.st, lastref(eng, c, a), v)
        return UNIT
    TMODELS[(_op.capitalize() + "Assign", _op + "_assign")] = _g


@T("Rem", "rem")
def _(eng, c, a, b):
    return num2(irem, val(eng, c, a), val(eng, c, b))


@T("Neg", "neg")
def _(eng, c, a):
    a = val(eng, c, a)
    return vmap(lambda x: num1(lambda y: -y, x), a) if isvec(a) else num1(lambda y: -y, a)


@T("Not", "not")
def _(eng, c, a):
    a = val(eng, c, a)
    return g_not(a) if isboolish(a) else NotImplemented


def user_cmp(eng, c, a, b, trait, m):
    """PartialEq/Ord on a crate type: use the crate's implementation"""
    x = a
    if is_tag(x, "struct") and x.parts[0] in eng.crate.adts or is_tag(x, "enum") and x.parts[0] in eng.crate.adts:
        for im in eng.crate.impls:
            sf = im.get("t")
            if im.get("trait") == trait and isinstance(sf, dict) and sf.get("k") == "adt" and sf["n"] == x.parts[0]:
                for nm, pth in im["items"]:
                    fn = eng.crate.fns.get(pth)
                    if nm != m or fn is None:
                        continue
                    ra, rb = fresh_root(eng, c, a), fresh_root(eng, c, b)
                    cc = Call()
                    cc.args, cc.frame, cc.st, cc.g, cc.sp, cc.rty, cc.atys = [ra, rb], c.frame, c.st, c.g, c.sp, c.rty, []
                    v = inline(eng, cc, fn, sf.get("a", []))
                    c.st, c.g = cc.st, cc.g
                    return v
    return None


def behind(eng, c, v, depth=0):
    """v with the references inside options and tuples followed"""
    v = val(eng, c, v)
    if depth < 4 and is_tag(v, "enum"):
        return Enum(v.parts[0], v.parts[1], {k: tuple(behind(eng, c, x, depth + 1) for x in fs) for k, fs in v.parts[2]})
    if depth < 4 and is_tag(v, "struct") and v.parts[0] == "tuple":
        return Struct("tuple", *[behind(eng, c, x, depth + 1) for x in v.parts[1]])
    return v


@T("PartialEq", "eq")
def _(eng, c, a, b):
    a, b = behind(eng, c, a), behind(eng, c, b)
    r = user_cmp(eng, c, a, b, "std::cmp::PartialEq", "eq")
    return equal(a, b) if r is None else r


@T("PartialEq", "ne")
def _(eng, c, a, b):
    a, b = behind(eng, c, a), behind(eng, c, b)
    r = user_cmp(eng, c, a, b, "std::cmp::PartialEq", "eq")
    return g_not(equal(a, b) if r is None else r)


def _mkcmp(m, op):
    @T("PartialOrd", m)
    def _(eng, c, a, b):
        a, b = val(eng, c, a), val(eng, c, b)
        r = user_cmp(eng, c, a, b, "std::cmp::PartialOrd", "partial_cmp")
        if r is not None:
            o = vfield(r, 1)
            return g_and(vis(r, 1), ord_test(op, o)) if is_tag(o, "enum") else NotImplemented
        return compare(op, a, b)


for _m, _o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge")):
    _mkcmp(_m, _o)


@T("PartialOrd", "partial_cmp")
def _(eng, c, a, b):
    a, b = val(eng, c, a), val(eng, c, b)
    r = user_cmp(eng, c, a, b, "std::cmp::PartialOrd", "partial_cmp")
    return some(ordering(a, b)) if r is None else r


@T("Ord", "cmp")
def _(eng, c, a, b):
    a, b = val(eng, c, a), val(eng, c, b)
    r = user_cmp(eng, c, a, b, "std::cmp::Ord", "cmp")
    return ordering(a, b) if r is None else r


@M("f64::total_cmp", "f32::total_cmp")
@T("Float", "total_cmp")
def _(eng, c, a, b):
    return ordering(val(eng, c, a), val(eng, c, b))


@T("Ordering", "reverse")
@M("Ordering::reverse")
def _(eng, c, o):
    o = val(eng, c, o)
    return mkord(lift(lambda r: C(2) - r, o.parts[1]))


@M("Ordering::then")
def _(eng, c, o, p):
    o, p = val(eng, c, o), val(eng, c, p)
    return mkord(ite(lift(lambda r: r == C(1), o.parts[1]), p.parts[1], o.parts[1]))


@M("Ordering::then_with")
def _(eng, c, o, f):
    o = val(eng, c, o)
    e = lift(lambda r: r == C(1), o.parts[1])
    p = under(eng, c, e, lambda: call_value(eng, c, f, []))
    if p is UNDEF:
        return o
    return mkord(ite(e, p.parts[1], o.parts[1]))


def _ordq(m, ks):
    @M("Ordering::" + m)
    def _(eng, c, o):
        o = val(eng, c, o)
        return lift(lambda r: int(r.const()) in ks, o.parts[1])


for _m, _k in (("is_eq", (1,)), ("is_ne", (0, 2)), ("is_lt", (0,)), ("is_gt", (2,)), ("is_le", (0, 1)), ("is_ge", (1, 2))):
    _ordq(_m, _k)


# ---------------------------------------------------------------- scalars

def _minmax(f, name):
    def g(eng, c, a, b):
        return f(val(eng, c, a), val(eng, c, b))
    for tr in ("Float", "FloatCore", "Real", "Ord"):
        TMODELS[(tr, name)] = g
    for ty in ("f32", "f64", "usize", "cmp"):
        MODELS["%s::%s" % (ty, name)] = g


_minmax(f_min, "min")
_minmax(f_max, "max")


def _un(name, f, extra=()):
    def g(eng, c, a, *rest):
        return f(val(eng, c, a))
    for tr in ("Float", "FloatCore", "Real", "Signed"):
        TMODELS[(tr, name)] = g
    for ty in ("f32", "f64") + tuple(extra):
        MODELS["%s::%s" % (ty, name)] = g


_un("sqrt", sqrt)
_un("abs", fabs)
_un("is_finite", finite_all)
_un("is_nan", lambda v: False)
_un("recip", lambda v: div(ONE, v))
for _n in ("ceil", "floor", "round", "trunc", "fract", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "ln", "cbrt",
           "to_degrees", "to_radians"):
    _un(_n, lambda v, _n=_n: num1(lambda x: fnapp(_n, x), v))
_un("is_sign_negative", lambda v: lift2(lambda x: boolvar(("signneg", toR(x))), v))
_un("is_sign_positive", lambda v: g_not(lift2(lambda x: boolvar(("signneg", toR(x))), v)))
_un("is_infinite", lambda v: g_not(finite_all(v)))
_un("signum", lambda v: lift2(lambda x: sign_of(x), v))


@T("Float", "atan2")
@T("Real", "atan2")
def _(eng, c, a, b):
    return num2(lambda x, y: fnapp("atan2", x, y), val(eng, c, a), val(eng, c, b))


@T("Float", "hypot")
@T("Real", "hypot")
def _(eng, c, a, b):
    a, b = val(eng, c, a), val(eng, c, b)
    return sqrt(add(mul(a, a), mul(b, b)))


@T("Float", "mul_add")
@T("Real", "mul_add")
def _(eng, c, a, b, d):
    return add(mul(val(eng, c, a), val(eng, c, b)), val(eng, c, d))


@T("Float", "powi")
@T("Real", "powi")
@T("FloatCore", "powi")
def _(eng, c, a, n):
    a, n = val(eng, c, a), val(eng, c, n)
    k = n.const() if isinstance(n, Rat) else None
    if k is None or not 0 <= k <= 8:
        return NotImplemented
    r = ONE
    for _ in range(int(k)):
        r = mul(r, a)
    return r


def _cst(names, tr, v):
    for n in names:
        TMODELS[(tr, n)] = lambda eng, c, *a: v() if callable(v) else v


def _zero(eng, c, *a):
    d = eng.dims(c.rty)
    return vec(d, [ZERO] * d) if d in (2, 3) else ZERO


TMODELS[("Zero", "zero")] = _zero
TMODELS[("One", "one")] = lambda eng, c: ONE
TMODELS[("Zero", "is_zero")] = lambda eng, c, a: equal(val(eng, c, a), ZERO)
for _tr in ("Float", "FloatCore", "Real", "Bounded"):
    TMODELS[(_tr, "max_value")] = lambda eng, c: A(atom(("const", "max_value"), "real", True))
    TMODELS[(_tr, "min_value")] = lambda eng, c: -A(atom(("const", "max_value"), "real", True))
    TMODELS[(_tr, "infinity")] = lambda eng, c: A(atom(("const", "infinity"), "real", True))
    TMODELS[(_tr, "neg_infinity")] = lambda eng, c: -A(atom(("const", "infinity"), "real", True))
    TMODELS[(_tr, "nan")] = lambda eng, c: A(atom(("const", "nan"), "real"))
    TMODELS[(_tr, "epsilon")] = lambda eng, c: A(atom(("const", "epsilon"), "real", True))


@T("AsPrimitive", "as_")
def _(eng, c, a):
    a = val(eng, c, a)
    src, dst = strip_ref(c.atys[0]), c.rty
    if is_int_ty(dst) and not is_int_ty(src):
        return num1(lambda x: x if x.is_int() else fnapp("trunc", x, sort="int"), a)
    return a


@T("NumCast", "from")
@T("FromPrimitive", "from_f64")
@T("FromPrimitive", "from_usize")
def _(eng, c, a):
    return some(val(eng, c, a))


def _unsigned(c):
    return len(c.atys) > 0 and strip_ref(c.atys[0]).get("n", "") in ("usize", "u8", "u16", "u32", "u64", "u128")


def _int_op(*names):
    def dec(f):
        def g(eng, c, *a):
            if not _unsigned(c):
                return NotImplemented
            return f(eng, c, *[val(eng, c, x) for x in a])
        for n in names:
            MODELS["num::" + n] = g
            MODELS["usize::" + n] = g
        return f
    return dec


@_int_op("saturating_sub")
def _(eng, c, a, b):
    return nonneg(sub(a, b))


@_int_op("checked_sub")
def _(eng, c, a, b):
    return opt(cmp_le(b, a), sub(a, b))


@_int_op("wrapping_sub")
def _(eng, c, a, b):
    d = sub(a, b)
    big = A(atom(("const", "usize::MAX"), "int", True))
    return ite(cmp_le(b, a), d, add(add(d, big), ONE))


@_int_op("wrapping_add", "saturating_add")
def _(eng, c, a, b):
    return add(a, b)


@_int_op("checked_add")
def _(eng, c, a, b):
    return some(add(a, b))


@_int_op("abs_diff")
def _(eng, c, a, b):
    return ite(cmp_le(b, a), sub(a, b), sub(b, a))


@_int_op("pow")
def _(eng, c, a, b):
    n = b.const() if isinstance(b, Rat) else None
    if n is None or n.denominator != 1 or not 0 <= n <= 6:
        return NotImplemented
    r = ONE
    for _k in range(int(n)):
        r = mul(r, a)
    return r


# ---------------------------------------------------------------- vectors

def _comp(i):
    def g(eng, c, a):
        v = val(eng, c, a)
        if isvec(v) and i < len(v.parts[1]):
            return v.parts[1][i]
        return NotImplemented
    return g


def _set(i):
    def g(eng, c, a, x):
        r = lastref(eng, c, a)
        v = eng.read(c.st, r)
        if not isvec(v):
            return NotImplemented
        fs = list(v.parts[1])
        fs[i] = val(eng, c, x)
        eng.write(c.st, r, V("struct", v.parts[0], tuple(fs)))
        return UNIT
    return g


def _mutc(i):
    def g(eng, c, a):
        return eng.extend(c.st, lastref(eng, c, a), ("f", i))
    return g


for _tr in ("HasXY", "HasXYZ", "GenericVector2", "GenericVector3"):
    for _i, _n in enumerate("xyz"):
        TMODELS[(_tr, _n)] = _comp(_i)
        TMODELS[(_tr, "set_" + _n)] = _set(_i)
        TMODELS[(_tr, _n + "_mut")] = _mutc(_i)
    TMODELS[(_tr, "new_2d")] = lambda eng, c, x, y: vec(2, [val(eng, c, x), val(eng, c, y)])
    TMODELS[(_tr, "new_3d")] = lambda eng, c, x, y, z: vec(3, [val(eng, c, x), val(eng, c, y), val(eng, c, z)])


def V2(f):
    """register f(a, b) for both vector traits under f's name"""
    def g(eng, c, *args):
        vs = [val(eng, c, a) for a in args]
        if not all(isvec(v) for v in vs):
            return NotImplemented
        return f(*vs)
    n = f.__name__.rstrip("_")
    for tr in ("GenericVector2", "GenericVector3", "HasXY", "HasXYZ"):
        TMODELS[(tr, n)] = g
    return g


@V2
def dot_(a, b):
    return dot(a, b)


@V2
def perp_dot(a, b):
    return perp(a, b)


@V2
def cross_(a, b):
    return cross(a, b)


@V2
def magnitude_sq(a):
    return dot(a, a)


@V2
def magnitude(a):
    return sqrt(dot(a, a))


@V2
def distance_sq(a, b):
    d = arith("sub", a, b)
    return dot(d, d)


@V2
def distance(a, b):
    d = arith("sub", a, b)
    return sqrt(dot(d, d))


@V2
def normalize(a):
    m = sqrt(dot(a, a))
    return vmap(lambda x: div(x, m), a)


@V2
def is_finite(a):
    return finite_all(a)


@V2
def to_2d(a):
    return vec(2, a.parts[1][:2])


for _tr in ("GenericVector2", "GenericVector3"):
    TMODELS[(_tr, "to_3d")] = lambda eng, c, a, z: vec(3, tuple(val(eng, c, a).parts[1][:2]) + (val(eng, c, z),))
    TMODELS[(_tr, "splat")] = lambda eng, c, x: vec(eng.dims(c.rty), [val(eng, c, x)] * eng.dims(c.rty))


# ---------------------------------------------------------------- approximate equality

def ncomp(kind, a, b, t):
    if is_tag(a, "struct") and a.parts[0] not in ("V2", "V3", "tuple"):
        return NotImplemented
    return near(kind, a, b, t)


@T("Approx", "is_ulps_eq")
@T("UlpsEq", "ulps_eq")
def _(eng, c, a, b, e, u):
    return ncomp("ulps", val(eng, c, a), val(eng, c, b), tol(val(eng, c, e), val(eng, c, u)))


@T("UlpsEq", "ulps_ne")
def _(eng, c, a, b, e, u):
    r = ncomp("ulps", val(eng, c, a), val(eng, c, b), tol(val(eng, c, e), val(eng, c, u)))
    return r if r is NotImplemented else g_not(r)


@T("Approx", "is_abs_diff_eq")
@T("AbsDiffEq", "abs_diff_eq")
def _(eng, c, a, b, e):
    return ncomp("abs", val(eng, c, a), val(eng, c, b), tol(val(eng, c, e), C(0)))


@T("AbsDiffEq", "abs_diff_ne")
def _(eng, c, a, b, e):
    r = ncomp("abs", val(eng, c, a), val(eng, c, b), tol(val(eng, c, e), C(0)))
    return r if r is NotImplemented else g_not(r)


TMODELS[("AbsDiffEq", "default_epsilon")] = lambda eng, c: DEFEPS()
TMODELS[("UlpsEq", "default_max_ulps")] = lambda eng, c: DEFULPS()


@T("Default", "default")
def _(eng, c):
    t = c.rty
    n = t.get("n", "")
    if n.endswith("approx::Ulps") or n.endswith("::Ulps"):
        return Struct(ULPS, DEFEPS(), DEFULPS())
    if n.endswith("approx::AbsDiff") or n.endswith("::AbsDiff"):
        return Struct("absdiff", DEFEPS())
    if n == VEC or n == "smallvec::SmallVec":
        return lit(())
    if t["k"] == "prim":
        if n == "bool":
            return False
        return ZERO
    if t["k"] == "tuple" and not t["a"]:
        return UNIT
    if n == OPT:
        return NONE
    if eng.dims(t) == 1:
        return ZERO
    if eng.dims(t) in (2, 3):
        return vec(eng.dims(t), [ZERO] * eng.dims(t))
    return Opq(("default", tjson(t)), tjson(t))


@M("Ulps::eq")
def _(eng, c, s, a, b):
    s = val(eng, c, s)
    if not is_tag(s, "struct"):
        return NotImplemented
    return ncomp("ulps", val(eng, c, a), val(eng, c, b), tol(s.parts[1][0], s.parts[1][1]))


@M("Ulps::ne")
def _(eng, c, s, a, b):
    s = val(eng, c, s)
    r = ncomp("ulps", val(eng, c, a), val(eng, c, b), tol(s.parts[1][0], s.parts[1][1]))
    return r if r is NotImplemented else g_not(r)


@M("Ulps::epsilon")
def _(eng, c, s, e):
    s = val(eng, c, s)
    return Struct(ULPS, val(eng, c, e), s.parts[1][1])


@M("Ulps::max_ulps")
def _(eng, c, s, u):
    s = val(eng, c, s)
    return Struct(ULPS, s.parts[1][0], val(eng, c, u))


@M("AbsDiff::eq")
def _(eng, c, s, a, b):
    s = val(eng, c, s)
    return ncomp("abs", val(eng, c, a), val(eng, c, b), tol(s.parts[1][0], C(0)))


@M("AbsDiff::epsilon")
def _(eng, c, s, e):
    return Struct("absdiff", val(eng, c, e))


# ---------------------------------------------------------------- identity-like

def _ident(eng, c, a, *r):
    return a


def _value(eng, c, a, *r):
    return val(eng, c, a)


for _k in (("Deref", "deref"), ("DerefMut", "deref_mut"), ("AsRef", "as_ref"), ("AsMut", "as_mut"), ("Borrow", "borrow"),
           ("BorrowMut", "borrow_mut")):
    TMODELS[_k] = _ident
for _k in ("Vec::as_slice", "Vec::as_mut_slice", "Vec::leak", "Vec::into_boxed_slice", "slice::into_vec", "SmallVec::as_slice",
           "hint::must_use", "hint::black_box", "ManuallyDrop::new", "Box::new", "SmallVec::from_vec", "Wrapping"):
    MODELS[_k] = _ident


@T("Clone", "clone")
@T("ToOwned", "to_owned")
def _(eng, c, a):
    v = eng.read(c.st, a) if is_tag(a, "ref") or is_tag(a, "refv") else a
    if is_tag(v, "it"):
        return v
    if c.rty.get("k") == "ref":
        return v
    return val(eng, c, v)


for _k in ("slice::to_vec", "Vec::to_vec"):
    MODELS[_k] = _value


@M("Option::cloned", "Option::copied")
def _(eng, c, o):
    o = val(eng, c, o)
    if not is_tag(o, "enum"):
        return NotImplemented
    v = vfield(o, 1)
    return Enum(OPT, o.parts[1], {0: (), 1: (val(eng, c, v),)})


@T("Into", "into")
@T("From", "from")
def _(eng, c, a):
    src = c.atys[0]
    dst = c.rty
    if tjson(src) == tjson(dst) and src["k"] != "alias":
        return a
    if eng.dims(dst) == 1 and isnum(val(eng, c, a)) and src.get("n") != "bool":
        return val(eng, c, a)
    for fn, env in impl_fns(eng, "std::convert::From", "from", dst):
        if not unify(fn.locals[1], src, env):
            continue
        return inline(eng, c, fn, gen_args(fn, env))
    v = val(eng, c, a)
    if src.get("n") == "bool" and dst.get("k") == "prim":
        return lift(lambda x: C(1 if x else 0), v)
    if eng.dims(dst) == 1 and isnum(v):
        return v
    if tjson(src) == tjson(dst):
        return a
    if dst.get("n") in (VEC, "smallvec::SmallVec") and is_seqs(v):
        return v
    return NotImplemented


def shape_match(p, t):
    if p["k"] in ("param", "alias"):
        return t["k"] in ("param", "alias", "prim", "adt", "other")
    if p["k"] != t["k"]:
        return False
    if p["k"] in ("array", "slice", "ref"):
        return shape_match(p["t"], t["t"]) and str(p.get("len")) == str(t.get("len"))
    if p["k"] == "adt":
        return p["n"] == t["n"]
    if p["k"] == "tuple":
        return len(p["a"]) == len(t["a"])
    return p.get("n") == t.get("n")


@M("mem::swap")
def _(eng, c, a, b):
    a, b = lastref(eng, c, a), lastref(eng, c, b)
    x, y = eng.read(c.st, a), eng.read(c.st, b)
    eng.write(c.st, a, y)
    eng.write(c.st, b, x)
    return UNIT


@M("mem::replace")
def _(eng, c, a, v):
    a = lastref(eng, c, a)
    x = eng.read(c.st, a)
    eng.write(c.st, a, v)
    return x


@M("mem::take")
def _(eng, c, a):
    a = lastref(eng, c, a)
    x = eng.read(c.st, a)
    if is_seq(x):
        eng.write(c.st, a, lit(()))
    elif is_tag(x, "enum") and x.parts[0] == OPT:
        eng.write(c.st, a, NONE)
    else:
        return NotImplemented
    return x


@M("mem::drop", "drop")
def _(eng, c, a):
    return UNIT


@M("Box::new_uninit")
def _(eng, c):
    return fresh_root(eng, c, lit(()))


@M("boxed::box_assume_init_into_vec_unsafe", "box_assume_init_into_vec_unsafe")
def _(eng, c, b):
    return val(eng, c, b)


@M("panicking::panic", "panicking::panic_fmt", "panicking::panic_default_msg", "panicking::panic_display",
   "panicking::assert_failed", "process::abort", "process::exit", "option::unwrap_failed", "panicking::panic_explicit")
def _(eng, c, *a):
    eng.panics.append((c.g, "panic", c.sp, c.frame.fn.disp if c.frame else "?"))
    c.g = False
    return DIVERGE


# ---------------------------------------------------------------- bool / Option / Result

@M("bool::then_some")
def _(eng, c, b, v):
    return opt(b, v) if isboolish(b) else NotImplemented


@M("bool::then")
def _(eng, c, b, f):
    if not isboolish(b):
        return NotImplemented
    v = under(eng, c, b, lambda: call_value(eng, c, f, []))
    return opt(b, v) if v is not UNDEF else NONE


def _tag(e):
    return e.parts[0]


def good(e):
    return 1 if _tag(e) == OPT else 0


def O(*names):
    """model of an Option/Result method: receives the enum value"""
    def d(f):
        def g(eng, c, o, *rest):
            v = val(eng, c, o)
            if isinstance(v, D):
                return NotImplemented
            if not (is_tag(v, "enum") and _tag(v) in (OPT, RES)):
                return NotImplemented
            return f(eng, c, o, v, *rest)
        for n in names:
            MODELS[n] = g
        return g
    return d


@O("Option::is_some", "Result::is_ok")
def _(eng, c, o, e):
    return vis(e, good(e))


@O("Option::is_none", "Result::is_err")
def _(eng, c, o, e):
    return g_not(vis(e, good(e)))


@O("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Option::unwrap_unchecked")
def _(eng, c, o, e, *r):
    bad = g_and(c.g, g_not(vis(e, good(e))))
    if bad is not False:
        eng.panics.append((bad, "unwrap", c.sp, c.frame.fn.disp if c.frame else "?"))
    if vis(e, good(e)) is False:
        c.g = False
        return DIVERGE
    return vfield(e, good(e))


@O("Option::unwrap_or", "Result::unwrap_or")
def _(eng, c, o, e, d):
    return ite(vis(e, good(e)), vfield(e, good(e)), d)


@O("Option::unwrap_or_else", "Result::unwrap_or_else")
def _(eng, c, o, e, f):
    k = good(e)
    args = [] if _tag(e) == OPT else [vfield(e, 1)]
    d = under(eng, c, g_not(vis(e, k)), lambda: call_value(eng, c, f, args))
    return ite(vis(e, k), vfield(e, k), d)


@O("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(eng, c, o, e):
    k = good(e)
    d = TMODELS[("Default", "default")](eng, c)
    return ite(vis(e, k), vfield(e, k), d)


@O("Option::map", "Result::map")
def _(eng, c, o, e, f):
    k = good(e)
    v = under(eng, c, vis(e, k), lambda: call_value(eng, c, f, [vfield(e, k)]))
    out = dict(e.parts[2])
    out[k] = (v,)
    return Enum(_tag(e), e.parts[1], out)


@O("Result::map_err")
def _(eng, c, o, e, f):
    v = under(eng, c, vis(e, 1), lambda: call_value(eng, c, f, [vfield(e, 1)]))
    out = dict(e.parts[2])
    out[1] = (v,)
    return Enum(RES, e.parts[1], out)


@O("Option::map_or", "Result::map_or")
def _(eng, c, o, e, d, f):
    k = good(e)
    v = under(eng, c, vis(e, k), lambda: call_value(eng, c, f, [vfield(e, k)]))
    return ite(vis(e, k), v, d)


@O("Option::map_or_else")
def _(eng, c, o, e, d, f):
    k = good(e)
    v = under(eng, c, vis(e, k), lambda: call_value(eng, c, f, [vfield(e, k)]))
    w = under(eng, c, g_not(vis(e, k)), lambda: call_value(eng, c, d, []))
    return ite(vis(e, k), v, w)


@O("Option::is_some_and", "Result::is_ok_and")
def _(eng, c, o, e, f):
    k = good(e)
    v = under(eng, c, vis(e, k), lambda: call_value(eng, c, f, [vfield(e, k)]))
    return ite(vis(e, k), v, False)


@O("Option::is_none_or")
def _(eng, c, o, e, f):
    v = under(eng, c, vis(e, 1), lambda: call_value(eng, c, f, [vfield(e, 1)]))
    return ite(vis(e, 1), v, True)


@O("Option::and_then", "Result::and_then")
def _(eng, c, o, e, f):
    k = good(e)
    v = under(eng, c, vis(e, k), lambda: call_value(eng, c, f, [vfield(e, k)]))
    if v is UNDEF:
        return NONE if _tag(e) == OPT else Enum(RES, e.parts[1], {1: (vfield(e, 1),)})
    other = NONE if _tag(e) == OPT else err(vfield(e, 1))
    return ite(vis(e, k), v, other)


@O("Option::filter")
def _(eng, c, o, e, f):
    v = under(eng, c, vis(e, 1), lambda: call_value(eng, c, f, [fresh_root(eng, c, vfield(e, 1))]))
    g = g_and(vis(e, 1), v if v is not UNDEF else False)
    return opt(g, vfield(e, 1))


@O("Option::or")
def _(eng, c, o, e, d):
    return ite(vis(e, 1), e, val(eng, c, d))


@O("Option::or_else")
def _(eng, c, o, e, f):
    d = under(eng, c, g_not(vis(e, 1)), lambda: call_value(eng, c, f, []))
    return ite(vis(e, 1), e, d) if d is not UNDEF else e


@O("Option::and")
def _(eng, c, o, e, d):
    return ite(vis(e, 1), val(eng, c, d), NONE)


@O("Option::zip")
def _(eng, c, o, e, d):
    d = val(eng, c, d)
    return opt(g_and(vis(e, 1), vis(d, 1)), Struct("tuple", vfield(e, 1), vfield(d, 1)))


@O("Option::ok_or")
def _(eng, c, o, e, x):
    return Enum(RES, lift(lambda r: C(0) if r == C(1) else C(1), e.parts[1]), {0: (vfield(e, 1),), 1: (x,)})


@O("Option::ok_or_else")
def _(eng, c, o, e, f):
    x = under(eng, c, g_not(vis(e, 1)), lambda: call_value(eng, c, f, []))
    return Enum(RES, lift(lambda r: C(0) if r == C(1) else C(1), e.parts[1]), {0: (vfield(e, 1),), 1: (x,)})


@O("Result::ok")
def _(eng, c, o, e):
    return Enum(OPT, lift(lambda r: C(1) if r == C(0) else C(0), e.parts[1]), {0: (), 1: (vfield(e, 0),)})


@O("Result::err")
def _(eng, c, o, e):
    return Enum(OPT, e.parts[1], {0: (), 1: (vfield(e, 1),)})


@O("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_ref")
def _(eng, c, o, e):
    r = lastref(eng, c, o)
    k = good(e)
    out = {}
    for i, fs in e.parts[2]:
        out[i] = tuple(eng.extend(c.st, eng.extend(c.st, r, ("d", i)), ("f", j)) for j in range(len(fs)))
    return Enum(_tag(e), e.parts[1], out)


@O("Option::take")
def _(eng, c, o, e):
    eng.write(c.st, lastref(eng, c, o), NONE)
    return e


@O("Option::replace")
def _(eng, c, o, e, v):
    eng.write(c.st, lastref(eng, c, o), some(v))
    return e


@O("Option::insert")
def _(eng, c, o, e, v):
    r = lastref(eng, c, o)
    eng.write(c.st, r, some(v))
    return eng.extend(c.st, eng.extend(c.st, r, ("d", 1)), ("f", 0))


@O("Option::get_or_insert_with")
def _(eng, c, o, e, f):
    r = lastref(eng, c, o)
    d = under(eng, c, g_not(vis(e, 1)), lambda: call_value(eng, c, f, []))
    eng.write(c.st, r, some(ite(vis(e, 1), vfield(e, 1), d)))
    return eng.extend(c.st, eng.extend(c.st, r, ("d", 1)), ("f", 0))


@O("Option::iter", "Option::iter_mut")
def _(eng, c, o, e):
    return V("it", "opt", (UNIT, lastref(eng, c, o), False))


@T("Try", "branch")
def _(eng, c, e):
    if not is_tag(e, "enum"):
        return NotImplemented
    if _tag(e) == RES:
        return Enum(CF, e.parts[1], {0: (vfield(e, 0),), 1: (Enum(RES, C(1), {1: (vfield(e, 1),)}),)})
    if _tag(e) == OPT:
        return Enum(CF, lift(lambda r: C(1) - r, e.parts[1]), {0: (vfield(e, 1),), 1: (NONE,)})
    return NotImplemented


@T("Try", "from_output")
def _(eng, c, v):
    return ok(v) if c.rty.get("n") == RES else some(v)


@T("FromResidual", "from_residual")
def _(eng, c, r):
    r = val(eng, c, r)
    if not is_tag(r, "enum"):
        return NotImplemented
    if _tag(r) == OPT:
        return NONE
    return err(vfield(r, 1))


# ---------------------------------------------------------------- closures

@T("Fn", "call")
@T("FnMut", "call_mut")
@T("FnOnce", "call_once")
def _(eng, c, f, args):
    args = val(eng, c, args)
    if not is_tag(args, "struct"):
        return NotImplemented
    return call_value(eng, c, f, list(args.parts[1]))


# ---------------------------------------------------------------- sequences

def S(*names):
    """model of a slice/Vec method: receives the reference and the sequence value"""
    def d(f):
        def g(eng, c, r, *rest):
            ref = lastref(eng, c, r)
            v = val(eng, c, r)
            if isinstance(v, D):
                if not all(is_seq(x) for x in leaves(v)):
                    return NotImplemented
            elif not is_seq(v):
                return NotImplemented
            return f(eng, c, ref, v, *rest)
        for n in names:
            for own in ("slice", "Vec", "SmallVec", "array"):
                MODELS["%s::%s" % (own, n)] = g
        return g
    return d


@S("len")
def _(eng, c, r, v):
    return eng.seq_len(v)


@T("ExactSizeIterator", "len")
def _(eng, c, a):
    it = val(eng, c, a)
    if is_tag(it, "struct") and it.parts[0] == "std::ops::Range":
        return nonneg(sub(it.parts[1][1], it.parts[1][0]))
    n = it_count(it)
    return NotImplemented if n is None else n


def it_count(it):
    if isix(it):
        return nonneg(sub(it.parts[1][2], it.parts[1][1]))
    if is_tag(it, "it") and it.parts[0] in ("map", "enum", "copied"):
        return it_count(it.parts[1][0])
    return None


@S("is_empty")
def _(eng, c, r, v):
    return cmp_eq(eng.seq_len(v), ZERO)


def elem(eng, c, r, i):
    return eng.extend(c.st, r, ("i", i))


@S("first", "first_mut")
def _(eng, c, r, v):
    return opt(cmp_lt(ZERO, eng.seq_len(v)), elem(eng, c, r, ZERO))


@S("last", "last_mut")
def _(eng, c, r, v):
    n = eng.seq_len(v)
    return opt(cmp_lt(ZERO, n), elem(eng, c, r, sub(n, ONE)))


@S("split_first", "split_first_mut")
def _(eng, c, r, v):
    n = eng.seq_len(v)
    return opt(cmp_lt(ZERO, n), Struct("tuple", elem(eng, c, r, ZERO), eng.extend(c.st, r, ("ss", ONE, sub(n, ONE)))))


@S("split_last", "split_last_mut")
def _(eng, c, r, v):
    n = eng.seq_len(v)
    return opt(cmp_lt(ZERO, n), Struct("tuple", elem(eng, c, r, sub(n, ONE)), eng.extend(c.st, r, ("ss", ZERO, sub(n, ONE)))))


def range_of(eng, n, i):
    """(lo, len) of a range index, or None"""
    if not is_tag(i, "struct"):
        return None
    k, fs = i.parts[0], i.parts[1]
    if k == "std::ops::Range":
        return fs[0], sub(fs[1], fs[0])
    if k == "std::ops::RangeFrom":
        return fs[0], sub(n, fs[0])
    if k == "std::ops::RangeTo":
        return ZERO, fs[0]
    if k == "std::ops::RangeToInclusive":
        return ZERO, add(fs[0], ONE)
    if k == "std::ops::RangeInclusive":
        return fs[0], add(sub(fs[1], fs[0]), ONE)
    if k == "std::ops::RangeFull":
        return ZERO, n
    return None


@S("split_at", "split_at_mut")
def _(eng, c, r, v, i):
    i = val(eng, c, i)
    n = eng.seq_len(v)
    bad = g_and(c.g, g_not(cmp_le(i, n)))
    if bad is not False:
        eng.panics.append((bad, "slice", c.sp, c.frame.fn.disp if c.frame else "?"))
    return Struct("tuple", eng.extend(c.st, r, ("ss", ZERO, i)), eng.extend(c.st, r, ("ss", i, sub(n, i))))


@S("reverse")
def _(eng, c, r, v):
    if not is_tag(v, "lit"):
        return NotImplemented
    eng.write(c.st, r, lit(v.parts[0][::-1]))
    return UNIT


@S("remove", "swap_remove")
def _(eng, c, r, v, i):
    i = val(eng, c, i)
    if any(x is not UNDEF and not is_tag(x, "lit") for x in leaves(v)) or any(x is not UNDEF and x.const() is None for x in leaves(i)):
        return NotImplemented
    if c.m == "swap_remove" and (isinstance(v, D) or isinstance(i, D)):
        return NotImplemented
    bad = g_and(c.g, g_not(cmp_lt(i, eng.seq_len(v))))
    if bad is not False:
        eng.panics.append((bad, "index", c.sp, c.frame.fn.disp if c.frame else "?"))
    x = eng.seq_at(v, i, c.st)

    def one(s, j):
        k, xs = int(j.const()), list(s.parts[0])
        if k >= len(xs):
            return UNDEF
        if c.m == "remove":
            del xs[k]
        else:
            xs[k] = xs[-1]
            xs.pop()
        return lit(tuple(xs))
    eng.write(c.st, r, lift2(one, v, i))
    return x


@S("get", "get_mut")
def _(eng, c, r, v, i):
    i = val(eng, c, i)
    n = eng.seq_len(v)
    if isnum(i):
        return opt(cmp_lt(i, n), elem(eng, c, r, i))
    rg = range_of(eng, n, i)
    if rg is None:
        return NotImplemented
    return opt(g_and(cmp_le(add(rg[0], rg[1]), n), cmp_le(ZERO, rg[1])), eng.extend(c.st, r, ("ss", rg[0], rg[1])))


@S("get_unchecked", "get_unchecked_mut")
def _(eng, c, r, v, i):
    return elem(eng, c, r, val(eng, c, i))


@T("Index", "index")
@T("IndexMut", "index_mut")
def _(eng, c, a, i):
    r = lastref(eng, c, a)
    v = val(eng, c, a)
    i = val(eng, c, i)
    if isvec(v) and isnum(i):
        return elem(eng, c, r, i)
    if not (is_seq(v) or isinstance(v, D) and all(is_seq(x) for x in leaves(v))):
        return NotImplemented
    n = eng.seq_len(v)
    if isnum(i):
        bad = g_and(c.g, g_not(cmp_lt(i, n)))
        if bad is not False:
            eng.panics.append((bad, "index", c.sp, c.frame.fn.disp if c.frame else "?"))
        return elem(eng, c, r, i)
    rg = range_of(eng, n, i)
    if rg is None:
        return NotImplemented
    bad = g_and(c.g, g_not(g_and(cmp_le(add(rg[0], rg[1]), n), cmp_le(ZERO, rg[1]))))
    if bad is not False:
        eng.panics.append((bad, "slice", c.sp, c.frame.fn.disp if c.frame else "?"))
    if rg == (ZERO, n):
        return r
    return eng.extend(c.st, r, ("ss", rg[0], rg[1]))


@S("iter", "iter_mut", "into_iter", "par_iter")
def _(eng, c, r, v):
    return ix(V("s_ref", r), ZERO, eng.seq_len(v))


@S("windows")
def _(eng, c, r, v, n):
    n = val(eng, c, n)
    return ix(V("s_win", r, n), ZERO, add(sub(eng.seq_len(v), n), ONE))


@S("chunks_exact")
def _(eng, c, r, v, n):
    n = val(eng, c, n)
    return ix(V("s_chunk", r, n), ZERO, num2(idiv, eng.seq_len(v), n))


@S("chunks")
def _(eng, c, r, v, k):
    k = val(eng, c, k)
    n = eng.seq_len(v)
    return ix(V("s_chunks", r, k, n), ZERO, num2(idiv, add(n, sub(k, ONE)), k))


@M("std::slice::ChunksExact::<'a, T>::remainder")
def _(eng, c, a):
    it = val(eng, c, a)
    if not (isix(it) and is_tag(it.parts[1][0], "s_chunk")):
        return NotImplemented
    s, k = it.parts[1][0].parts
    v = eng.read(c.st, s)
    n = eng.seq_len(v)
    at = num2(lambda x, y: x * y, num2(idiv, n, k), k)
    return eng.extend(c.st, s, ("ss", at, sub(n, at)))


@S("push", "push_back")
def _(eng, c, r, v, x):
    eng.write(c.st, r, eng.dmap(lambda s: cat((s, lit((x,)))), v))
    return UNIT


@S("pop")
def _(eng, c, r, v):
    n = eng.seq_len(v)
    g = cmp_lt(ZERO, n)
    x = eng.seq_at(v, sub(n, ONE), c.st) if g is not False else UNDEF
    if g is True:
        eng.write(c.st, r, dropped(eng, v))
    elif g is not False:
        eng.write(c.st, r, ite(g, dropped(eng, v), v))
    return opt(g, x)


def dropped(eng, v):
    def f(s):
        if s.tag == "lit":
            return lit(s.parts[0][:-1])
        if s.tag == "cat" and is_tag(s.parts[0][-1], "lit"):
            return cat(s.parts[0][:-1] + (lit(s.parts[0][-1].parts[0][:-1]),))
        return V("sub", s, ZERO, sub(eng.seq_len(s), ONE))
    return eng.dmap(f, v)


@S("clear")
def _(eng, c, r, v):
    eng.write(c.st, r, lit(()))
    return UNIT


@S("truncate")
def _(eng, c, r, v, n):
    n = val(eng, c, n)
    l = eng.seq_len(v)
    g = cmp_lt(n, l)
    if g is not False:
        new = eng.subseq(v, ZERO, n)
        eng.write(c.st, r, new if g is True else ite(g, new, v))
    return UNIT


@S("extend_from_slice", "append")
def _(eng, c, r, v, o):
    o2 = lastref(eng, c, o)
    w = val(eng, c, o)
    if not is_seq(w) or not is_seq(v):
        return NotImplemented
    eng.write(c.st, r, cat((v, w)))
    if c.m == "append":
        eng.write(c.st, o2, lit(()))
    return UNIT


@S("insert")
def _(eng, c, r, v, i, x):
    i = val(eng, c, i)
    if i == ZERO and is_seq(v):
        eng.write(c.st, r, cat((lit((x,)), v)))
        return UNIT
    return NotImplemented


@S("reserve", "shrink_to_fit", "reserve_exact")
def _(eng, c, r, v, *a):
    return UNIT


@S("swap")
def _(eng, c, r, v, i, j):
    i, j = val(eng, c, i), val(eng, c, j)
    a, b = elem(eng, c, r, i), elem(eng, c, r, j)
    x, y = eng.read(c.st, a), eng.read(c.st, b)
    eng.write(c.st, a, y)
    eng.write(c.st, b, x)
    return UNIT


@S("contains")
def _(eng, c, r, v, x):
    x = val(eng, c, x)
    it = ix(V("s_ref", r), ZERO, eng.seq_len(v))
    return it_any(eng, c, it, lambda y: eq_user(eng, c, val(eng, c, y), x))


def eq_user(eng, c, a, b):
    r = user_cmp(eng, c, a, b, "std::cmp::PartialEq", "eq")
    return equal(a, b) if r is None else r


@M("Vec::new", "Vec::with_capacity", "SmallVec::new", "SmallVec::with_capacity")
def _(eng, c, *a):
    return lit(())


@M("vec::from_elem", "slice::repeat", "from_elem")
def _(eng, c, x, n):
    n = val(eng, c, n)
    if isinstance(n, Rat) and n.const() is not None and n.const() <= 16:
        return lit([x] * int(n.const()))
    return V("comp", n, atom(("bk", 0), "int", True), True, x)


@M("slice::concat")
def _(eng, c, a):
    v = val(eng, c, a)
    if is_tag(v, "lit"):
        parts = [val(eng, c, x) for x in v.parts[0]]
        if all(is_seq(p) for p in parts):
            return cat(tuple(parts))
    return NotImplemented


# ---------------------------------------------------------------- ranges

@M("RangeInclusive::new")
def _(eng, c, a, b):
    return Struct("std::ops::RangeInclusive", a, b)


@M("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains")
@T("RangeBounds", "contains")
def _(eng, c, r, x):
    r, x = val(eng, c, r), val(eng, c, x)
    if not is_tag(r, "struct"):
        return NotImplemented
    k, fs = r.parts[0], [val(eng, c, f) for f in r.parts[1]]
    if k == "std::ops::RangeInclusive":
        return g_and(compare("Le", fs[0], x), compare("Le", x, fs[1]))
    if k == "std::ops::Range":
        return g_and(compare("Le", fs[0], x), compare("Lt", x, fs[1]))
    if k == "std::ops::RangeFrom":
        return compare("Le", fs[0], x)
    return NotImplemented


# ---------------------------------------------------------------- iterators

@T("IntoIterator", "into_iter")
@T("IntoParallelIterator", "into_par_iter")
@T("IntoParallelRefIterator", "par_iter")
def _(eng, c, a):
    if is_tag(a, "enum"):
        return V("it", "optv", (a,))
    it = into_iter(eng, c, a, strip_ref(c.atys[0]))
    if it is None:
        return NotImplemented
    if not steppable(it) and c.frame is not None:
        # a loop over an adaptor that is only known as a whole: its items first
        acc = fresh_root(eng, c, lit(()))

        def b(x):
            eng.write(c.st, acc, cat((eng.read(c.st, acc), lit((x,)))))
            return False
        if drive(eng, c, it, b, ltag(c)) is None:
            return it
        v = eng.read(c.st, acc)
        return ix(V("s_val", v), ZERO, eng.seq_len(v)) if is_seqs(v) else it
    return it


def steppable(it):
    if not is_tag(it, "it"):
        return True
    if it.parts[0] in ("filter", "fmap", "flat", "twhile", "swhile"):
        return False
    if it.parts[0] in ("chain", "map", "enum", "copied"):
        return all(steppable(x) for x in it.parts[1] if is_tag(x, "it"))
    return True


def itv(eng, c, a):
    """iterator value of an adaptor argument"""
    if is_tag(a, "it"):
        return a
    if is_tag(a, "ref"):
        v = eng.read(c.st, a)
        if is_tag(v, "it"):
            return v
    return into_iter(eng, c, a, strip_ref(c.atys[0]) if getattr(c, "atys", None) else None)


def I(*names):
    def d(f):
        def g(eng, c, a, *rest):
            it = itv(eng, c, a)
            if it is None:
                return NotImplemented
            return f(eng, c, it, *rest)
        for n in names:
            for tr in ("Iterator", "ParallelIterator", "IndexedParallelIterator", "DoubleEndedIterator"):
                TMODELS[(tr, n)] = g
        return g
    return d


@I("map")
def _(eng, c, it, f):
    if isix(it):
        s, lo, hi = it.parts[1]
        return ix(V("s_map", s, f), lo, hi)
    return V("it", "map", (it, f))


@I("enumerate")
def _(eng, c, it):
    if isix(it):
        s, lo, hi = it.parts[1]
        return ix(V("s_enum", s, lo), lo, hi)
    return V("it", "enum", (it, ZERO))


@I("copied", "cloned")
def _(eng, c, it):
    if isix(it):
        s, lo, hi = it.parts[1]
        return ix(V("s_copied", s), lo, hi)
    return V("it", "copied", (it,))


@I("skip")
def _(eng, c, it, n):
    n = val(eng, c, n)
    if isix(it):
        s, lo, hi = it.parts[1]
        return ix(s, add(lo, n), hi)
    return NotImplemented


@I("take")
def _(eng, c, it, n):
    n = val(eng, c, n)
    if isix(it):
        s, lo, hi = it.parts[1]
        h2 = f_min(hi, add(lo, n))
        return ix(s, lo, restrict(h2, c.g) if isinstance(h2, D) and isinstance(c.g, D) else h2)
    return NotImplemented


@I("rev")
def _(eng, c, it):
    if isix(it):
        s, lo, hi = it.parts[1]
        # item i of the reversed iterator is item hi-1-i
        return ix(V("s_rev", s, sub(hi, ONE)), ZERO, sub(hi, lo))
    return NotImplemented


@I("zip")
def _(eng, c, it, other):
    o = itv(eng, c, other)
    if o is None or not isix(o) or not isix(it):
        return NotImplemented
    a, na = normalise(it)
    b, nb = normalise(o)
    n = f_min(na, nb)
    if isinstance(n, D) and isinstance(c.g, D):
        n = zcanon(eng, restrict(n, c.g))
        n = restrict(n, c.g) if isinstance(n, D) else n
    return ix(V("s_zip", a, b), ZERO, n)


@I("chain")
def _(eng, c, it, other):
    o = itv(eng, c, other)
    if o is None and is_tag(other, "enum"):
        o = V("it", "optv", (other,))
    if o is None:
        return NotImplemented
    return V("it", "chain", (it, o))


@I("filter")
def _(eng, c, it, f):
    return V("it", "filter", (it, f))


@I("filter_map")
def _(eng, c, it, f):
    return V("it", "fmap", (it, f))


@I("flatten")
def _(eng, c, it):
    return V("it", "flat", (it,))


@I("flat_map")
def _(eng, c, it, f):
    if isix(it):
        s, lo, hi = it.parts[1]
        return V("it", "flat", (ix(V("s_map", s, f), lo, hi),))
    return V("it", "flat", (V("it", "map", (it, f)),))


@I("by_ref", "into_iter", "fuse", "peekable")
def _(eng, c, it):
    return it


@T("Iterator", "next")
def _(eng, c, a):
    r = lastref(eng, c, a)
    it = val(eng, c, a)
    if is_tag(it, "struct") and it.parts[0] == "std::ops::Range":
        lo, hi = it.parts[1]
        g = cmp_lt(lo, hi)
        eng.write(c.st, r, Struct(it.parts[0], add(lo, ONE), hi))
        return opt(g, lo)
    if is_tag(it, "it"):
        if it.parts[0] == "byref":
            c2 = it.parts[1][0]
            return TMODELS[("Iterator", "next")](eng, c, c2)
        x = it_next(eng, c, it)
        if x is None:
            return NotImplemented
        g, item, new = x
        eng.write(c.st, r, new)
        return opt(g, item)
    return NotImplemented


@T("DoubleEndedIterator", "next_back")
def _(eng, c, a):
    r = lastref(eng, c, a)
    it = val(eng, c, a)
    if isix(it):
        s, lo, hi = it.parts[1]
        g = cmp_lt(lo, hi)
        h2 = sub(hi, ONE)
        x = under(eng, c, g, lambda: src_item(eng, c, s, h2))
        eng.write(c.st, r, ix(s, lo, h2))
        return opt(g, x)
    return NotImplemented


def ltag(c):
    return (c.frame.fn.disp if c.frame else "?", c.sp)


@I("for_each")
def _(eng, c, it, f):
    fr = f if is_tag(f, "ref") else fresh_root(eng, c, f)

    def b(x):
        call_value(eng, c, fr, [x])
        return False
    return NotImplemented if drive(eng, c, it, b, ltag(c)) is None else UNIT


@I("try_for_each")
def _(eng, c, it, f):
    if c.rty.get("n") != RES:
        return NotImplemented
    fr = f if is_tag(f, "ref") else fresh_root(eng, c, f)
    res = fresh_root(eng, c, ok(UNIT), c.rty)

    def b(x):
        r = call_value(eng, c, fr, [x])
        if not is_tag(r, "enum"):
            raise Unsupported("try_for_each")
        eng.write(c.st, res, r)
        return vis(r, 1)
    return NotImplemented if drive(eng, c, it, b, ltag(c)) is None else eng.read(c.st, res)


def it_any(eng, c, it, f):
    res = []
    s = drive(eng, c, it, f, ltag(c))
    return NotImplemented if s is None else restrict(s, c.g) if isinstance(s, D) and isinstance(c.g, D) else s


@I("any")
def _(eng, c, it, f):
    fr = f if is_tag(f, "ref") else fresh_root(eng, c, f)
    return it_any(eng, c, it, lambda x: call_value(eng, c, fr, [x]))


@I("all")
def _(eng, c, it, f):
    fr = f if is_tag(f, "ref") else fresh_root(eng, c, f)
    r = it_any(eng, c, it, lambda x: g_not(call_value(eng, c, fr, [x])))
    return r if r is NotImplemented else g_not(r)


@I("fold")
def _(eng, c, it, init, f):
    acc = fresh_root(eng, c, init, c.rty)
    fr = fresh_root(eng, c, f)

    def b(x):
        v = call_value(eng, c, fr, [eng.read(c.st, acc), x])
        eng.write(c.st, acc, v)
        return False
    r = drive(eng, c, it, b, ltag(c))
    return NotImplemented if r is None else eng.read(c.st, acc)


SPLIT = False      # rayon: split the items in halves down to single ones


def par_reduce(eng, c, a, ident, op):
    """rayon: some reduction of the items in order: from the left without splitting, or (@split) split
    in halves down to single items"""
    it = itv(eng, c, a)
    if it is None:
        return NotImplemented
    idr = fresh_root(eng, c, ident)
    fr = fresh_root(eng, c, op)
    if SPLIT:
        items = []
        if drive(eng, c, it, lambda x: bool(items.append(x)), ltag(c)) is None:
            return NotImplemented

        def halves(v):
            if len(v) < 2:
                z = call_value(eng, c, idr, [])
                return call_value(eng, c, fr, [z, v[0]]) if v else z
            k = len(v) // 2
            x = halves(v[:k])
            return call_value(eng, c, fr, [x, halves(v[k:])])
        return halves(items)
    acc = fresh_root(eng, c, call_value(eng, c, idr, []), c.rty)

    def b(x):
        v = call_value(eng, c, fr, [eng.read(c.st, acc), x])
        eng.write(c.st, acc, v)
        return False
    r = drive(eng, c, it, b, ltag(c))
    return NotImplemented if r is None else eng.read(c.st, acc)


TMODELS[("ParallelIterator", "reduce")] = par_reduce


@I("take_while")
def _(eng, c, it, f):
    return V("it", "twhile", (it, f if is_tag(f, "ref") else fresh_root(eng, c, f)))


@I("skip_while")
def _(eng, c, it, f):
    return V("it", "swhile", (it, f if is_tag(f, "ref") else fresh_root(eng, c, f)))


@I("step_by")
def _(eng, c, it, k):
    k = val(eng, c, k)
    if not isix(it):
        return NotImplemented
    src, n = normalise(it)
    return ix(V("s_step", src, k), ZERO, num2(idiv, add(n, sub(k, ONE)), k))


@T("Iterator", "reduce")
def _(eng, c, a, f):
    it = itv(eng, c, a)
    if it is None or not isix(it):
        return NotImplemented
    src, lo, hi = it.parts[1]
    g = cmp_lt(lo, hi)
    if g is False:
        return opt(False, UNDEF)

    def go():
        acc = fresh_root(eng, c, src_item(eng, c, src, lo))
        fr = fresh_root(eng, c, f)

        def b(x):
            v = call_value(eng, c, fr, [eng.read(c.st, acc), x])
            eng.write(c.st, acc, v)
            return False
        if drive(eng, c, ix(src, add(lo, ONE), hi), b, ltag(c)) is None:
            raise Unsupported("reduce")
        return eng.read(c.st, acc)
    return opt(g, under(eng, c, g, go))


@I("product")
def _(eng, c, it):
    acc = fresh_root(eng, c, ONE, c.rty)

    def b(x):
        eng.write(c.st, acc, arith("mul", eng.read(c.st, acc), val(eng, c, x)))
        return False
    r = drive(eng, c, it, b, ltag(c))
    return NotImplemented if r is None else eng.read(c.st, acc)


@I("find", "position", "find_map")
def _(eng, c, it, f):
    m = c.m
    cnt = fresh_root(eng, c, ZERO, {"k": "prim", "n": "usize"})
    out = fresh_root(eng, c, UNDEF)
    fr = f if is_tag(f, "ref") else fresh_root(eng, c, f)

    def b(x):
        if m == "find":
            p = call_value(eng, c, fr, [fresh_root(eng, c, x)])
            v = x
        elif m == "find_map":
            y = call_value(eng, c, fr, [x])
            if not is_tag(y, "enum"):
                raise Unsupported("find_map")
            p, v = vis(y, 1), vfield(y, 1)
        else:
            p = call_value(eng, c, fr, [x])
            v = eng.read(c.st, cnt)
            eng.write(c.st, cnt, add(v, ONE))
        eng.write(c.st, out, v)
        return p
    s = drive(eng, c, it, b, ltag(c))
    if s is None:
        return NotImplemented
    return opt(restrict(s, c.g) if isinstance(s, D) and isinstance(c.g, D) else s, eng.read(c.st, out))


@I("count")
def _(eng, c, it):
    n = it_count(it)
    if n is not None and not has_map(it):
        return n
    cnt = fresh_root(eng, c, ZERO, {"k": "prim", "n": "usize"})

    def b(x):
        eng.write(c.st, cnt, add(eng.read(c.st, cnt), ONE))
        return False
    r = drive(eng, c, it, b, ltag(c))
    return NotImplemented if r is None else eng.read(c.st, cnt)


def has_map(it):
    return False


@I("last")
def _(eng, c, it):
    if isix(it):
        s, lo, hi = it.parts[1]
        g = cmp_lt(lo, hi)
        return opt(g, under(eng, c, g, lambda: src_item(eng, c, s, sub(hi, ONE))))
    return NotImplemented


@I("nth")
def _(eng, c, it, n):
    n = val(eng, c, n)
    if isix(it):
        s, lo, hi = it.parts[1]
        j = add(lo, n)
        g = cmp_lt(j, hi)
        if is_tag(c.args[0], "ref"):
            eng.write(c.st, c.args[0], ix(s, add(j, ONE), hi))
        return opt(g, under(eng, c, g, lambda: src_item(eng, c, s, j)))
    return NotImplemented


@I("sum")
def _(eng, c, it):
    acc = fresh_root(eng, c, ZERO, c.rty)

    def b(x):
        eng.write(c.st, acc, arith("add", eng.read(c.st, acc), val(eng, c, x)))
        return False
    r = drive(eng, c, it, b, ltag(c))
    return NotImplemented if r is None else eng.read(c.st, acc)


@I("min_by", "max_by", "min_by_key", "max_by_key", "min", "max")
def _(eng, c, it, *fs):
    m = c.m
    acc = fresh_root(eng, c, NONE, c.rty)
    fr = fresh_root(eng, c, fs[0]) if fs else None

    def b(x):
        a = eng.read(c.st, acc)
        has = vis(a, 1)
        av = vfield(a, 1)
        if m.endswith("_by"):
            o = call_value(eng, c, fr, [fresh_root(eng, c, av), fresh_root(eng, c, x)])
        elif m.endswith("_key"):
            o = ordering(call_value(eng, c, fr, [fresh_root(eng, c, av)]), call_value(eng, c, fr, [fresh_root(eng, c, x)]))
        else:
            o = ordering(val(eng, c, av), val(eng, c, x))
        # max keeps the last maximum (replace unless acc > x); min the first minimum (replace iff acc > x)
        gt = ord_test("Gt", o)
        rep = g_not(gt) if m.startswith("max") else gt
        new = ite(g_and(has, g_not(rep)), av, x) if av is not UNDEF else x
        eng.write(c.st, acc, some(new))
        return False
    r = drive(eng, c, it, b, ltag(c))
    return NotImplemented if r is None else eng.read(c.st, acc)


@I("collect")
def _(eng, c, it):
    t = c.rty
    n = t.get("n")
    if n == RES and t["a"][0].get("n") == VEC:
        acc = fresh_root(eng, c, lit(()), t["a"][0])
        bad = fresh_root(eng, c, UNDEF)

        def b(x):
            if not is_tag(x, "enum"):
                raise Unsupported("collect")
            g = vis(x, 0)

            def push():
                eng.write(c.st, acc, cat((eng.read(c.st, acc), lit((vfield(x, 0),)))))
                return UNIT
            under(eng, c, g, push)
            if g is not True:
                eng.write(c.st, bad, ite(g, eng.read(c.st, bad), vfield(x, 1)))
            return g_not(g)
        s = drive(eng, c, it, b, ltag(c))
        if s is None:
            return NotImplemented
        return Enum(RES, lift(lambda q: C(1 if q else 0), s), {0: (eng.read(c.st, acc),), 1: (eng.read(c.st, bad),)})
    if n != VEC and n != "smallvec::SmallVec":
        return NotImplemented
    acc = fresh_root(eng, c, lit(()), t)

    def b(x):
        eng.write(c.st, acc, eng.dmap(lambda s: cat((s, lit((x,)))), eng.read(c.st, acc)))
        return False
    r = drive(eng, c, it, b, ltag(c))
    return NotImplemented if r is None else eng.read(c.st, acc)


@T("Extend", "extend")
def _(eng, c, a, src):
    r = lastref(eng, c, a)
    v = val(eng, c, a)
    if not is_seqs(v):
        return NotImplemented
    if is_seqs(src):
        eng.write(c.st, r, lift2(lambda p, q: cat((p, q)), v, src))
        return UNIT
    it = V("it", "optv", (src,)) if is_tag(src, "enum") and optionlike(src) else itv(eng, c, src)
    if it is None:
        return NotImplemented

    def b(x):
        y = val(eng, c, x)
        eng.write(c.st, r, eng.dmap(lambda s: cat((s, lit((y,)))), eng.read(c.st, r)))
        return False
    return NotImplemented if drive(eng, c, it, b, ltag(c)) is None else UNIT


@T("FromIterator", "from_iter")
def _(eng, c, src):
    it = itv(eng, c, src)
    if it is None:
        return NotImplemented
    return TMODELS[("Iterator", "collect")](eng, c, it)


# ---------------------------------------------------------------- sorting of sequences of known size

def sort_perm(eng, n, less):
    """diagram over index lists: the stable order of 0..n given less(i, j) for j < i"""
    tab = {(i, j): less(i, j) for i in range(n) for j in range(i)}

    def insert(l, x):
        js = l.parts[0]
        r = V("perm", js + (x,))
        for k in range(len(js) - 1, -1, -1):
            r = ite(tab[(x, js[k])], V("perm", js[:k] + (x,) + js[k:]), r)
        return r
    acc = V("perm", ())
    for x in range(n):
        acc = eng.dmap(lambda l: insert(l, x), acc)
    return acc


def sort_seq(eng, c, v, lessf):
    def one(s):
        if not is_tag(s, "lit") or len(s.parts[0]) > 16:
            return None
        xs = s.parts[0]
        if len(xs) > 8:                       # only where the order is known
            out = []
            for x in xs:
                i = len(out)
                while i > 0:
                    l = lessf(x, out[i - 1])
                    if not isinstance(l, bool):
                        raise Unsupported("the order of many elements")
                    if not l:
                        break
                    i -= 1
                out.insert(i, x)
            return lit(out)
        p = sort_perm(eng, len(xs), lambda i, j: lessf(xs[i], xs[j]))
        return eng.dmap(lambda l: lit([xs[k] for k in l.parts[0]]), p)
    if isinstance(v, D):
        if any(x is not UNDEF and not (is_tag(x, "lit") and len(x.parts[0]) <= 16) for x in leaves(v)):
            return None
        return eng.dmap(one, v)
    return one(v)


def by_comparator(eng, c, f):
    def less(a, b):
        o = call_value(eng, c, f, [fresh_root(eng, c, a), fresh_root(eng, c, b)])
        if not is_tag(o, "enum"):
            raise Unsupported("comparator")
        return ord_test("Lt", o)
    return less


def by_key(eng, c, f):
    def less(a, b):
        x, y = (call_value(eng, c, f, [fresh_root(eng, c, q)]) for q in (a, b))
        return ord_test("Lt", ordering(val(eng, c, x), val(eng, c, y)))
    return less


def plain_less(eng, c):
    def less(a, b):
        a, b = val(eng, c, a), val(eng, c, b)
        o = user_cmp(eng, c, a, b, "std::cmp::Ord", "cmp")
        return ord_test("Lt", ordering(a, b) if o is None else o)
    return less


LESS = {"by": by_comparator, "by_key": by_key, "by_cached_key": by_key, "": lambda eng, c: plain_less(eng, c)}


def _sorts(kind, unst):
    nm = "sort" + unst + ("_" + kind if kind else "")

    @S(nm)
    def _(eng, c, r, v, *f):
        w = sort_seq(eng, c, v, LESS[kind](eng, c, *f))
        if w is None:
            return NotImplemented
        eng.write(c.st, r, w)
        return UNIT
    nm2 = "sorted" + unst + ("_" + kind if kind else "")

    @T("Itertools", nm2)
    def _(eng, c, a, *f):
        it = itv(eng, c, a)
        if it is None:
            return NotImplemented
        acc = fresh_root(eng, c, lit(()), c.rty)

        def b(x):
            eng.write(c.st, acc, cat((eng.read(c.st, acc), lit((x,)))))
            return False
        if drive(eng, c, it, b, ltag(c)) is None:
            return NotImplemented
        w = sort_seq(eng, c, eng.read(c.st, acc), LESS[kind](eng, c, *f))
        return NotImplemented if w is None else ix(V("s_val", w), ZERO, eng.seq_len(w))


for _k in ("by", "by_key", "by_cached_key", ""):
    for _u in ("", "_unstable"):
        _sorts(_k, _u)


@S("dedup")
def _(eng, c, r, v):
    def one(s):
        if not is_tag(s, "lit") or len(s.parts[0]) > 8:
            return None
        acc, prev = lit(()), None
        for x in s.parts[0]:
            if prev is None:
                acc = lit((x,))
            else:
                q = eq_user(eng, c, val(eng, c, prev), val(eng, c, x))
                acc = ite(q, acc, eng.dmap(lambda l: cat((l, lit((x,)))), acc))
            prev = x
        return acc
    if isinstance(v, D):
        if any(x is not UNDEF and not (is_tag(x, "lit") and len(x.parts[0]) <= 8) for x in leaves(v)):
            return NotImplemented
        w = eng.dmap(one, v)
    else:
        w = one(v)
        if w is None:
            return NotImplemented
    eng.write(c.st, r, w)
    return UNIT


# ---------------------------------------------------------------- bit vectors of known size

@M("Vob::new_with_storage_type", "Vob::new", "Vob::with_capacity")
def _(eng, c, *n):
    return lit(())


@M("Vob::resize")
def _(eng, c, r, n, b):
    n, b = val(eng, c, n), val(eng, c, b)
    v = eng.read(c.st, r)
    if not is_seq(v) or not isinstance(n, Rat) or n.const() is None or n.const() > 16 or not is_tag(v, "lit"):
        return NotImplemented
    k = int(n.const())
    xs = list(v.parts[0])[:k]
    eng.write(c.st, r, lit(xs + [b] * (k - len(xs))))
    return UNIT


@M("Vob::set")
def _(eng, c, r, i, b):
    i, b = val(eng, c, i), val(eng, c, b)
    v = eng.read(c.st, r)
    if not is_seqs(v):
        return NotImplemented
    old = eng.seq_at(v, i, c.st)
    eng.write(c.st, r, eng.seq_set(v, i, b))
    return g_not(generic_bool_eq(old, b))


def generic_bool_eq(a, b):
    return g_or(g_and(a, b), g_and(g_not(a), g_not(b)))


@M("Vob::get")
def _(eng, c, r, i):
    i = val(eng, c, i)
    v = eng.read(c.st, r)
    if not is_seqs(v):
        return NotImplemented
    return opt(cmp_lt(i, eng.seq_len(v)), eng.seq_at(v, i, c.st))


@M("Vob::len")
def _(eng, c, r):
    v = eng.read(c.st, r)
    return eng.seq_len(v) if is_seqs(v) else NotImplemented
