"""Ordered and hashed collections of known content: a map is two parallel literal sequences kept in
key order, a heap a literal sequence.  Hashed collections promise no order; they are walked in
descending key order, so that a result depending on that order is not mistaken for the ordered one."""
from models import *
from models import val, lastref, opt, ix, some, call_value, fresh_root, user_cmp, itv, drive, ltag, under, T, M
import models

MAPS = {"HashMap": "hmap", "AHashMap": "hmap", "FxHashMap": "hmap", "BTreeMap": "bmap"}
SETS = {"HashSet": "hset", "AHashSet": "hset", "FxHashSet": "hset", "BTreeSet": "bset"}
KINDS = dict(MAPS, **SETS)
EMPTY = lit(())
LIMIT = 16


def tyname(t):
    return strip(t.get("n", "")) if isinstance(t, dict) else ""


def strip(n):
    return n.split("<")[0].rsplit("::", 1)[-1]


def kcmp(eng, c, a, b):
    a, b = val(eng, c, a), val(eng, c, b)
    if is_tag(a, "opq") or is_tag(b, "opq") or is_tag(a, "str") or is_tag(b, "str"):
        if same(a, b):
            return models.mkord(C(1))
    o = user_cmp(eng, c, a, b, "std::cmp::Ord", "cmp")
    return ordering(a, b) if o is None else o


def coll(eng, c, r, kinds):
    v = val(eng, c, r)
    if is_tag(v, "struct") and v.parts[0] in kinds:
        return lastref(eng, c, r), v
    return None, None


def lits(*vs):
    return all(is_tag(x, "lit") and len(x.parts[0]) <= LIMIT for v in vs for x in leaves(v) if x is not UNDEF)


def within(c, v):
    """v where the current path condition holds"""
    return restrict(v, c.g) if isinstance(v, D) and isinstance(c.g, D) else v


def locate(eng, c, keys, k):
    """(found, index, insertion index) of key k, as diagrams"""
    memo = {}

    def at(x):
        o = memo.get(x)
        if o is None:
            o = memo[x] = kcmp(eng, c, k, x)
        return o

    def one(ks):
        f, i, p = False, C(0), C(len(ks.parts[0]))
        for j in range(len(ks.parts[0]) - 1, -1, -1):
            o = at(ks.parts[0][j])
            eq, lt = ord_test("Eq", o), ord_test("Lt", o)
            f = ite(eq, True, f)
            i = ite(eq, C(j), i)
            p = ite(lt, C(j), p)
        return Struct("tuple", f, i, p)
    r = lift2(one, keys)
    if not is_tag(r, "struct"):
        raise Unsupported("map")
    return r.parts[1]


def put(s, j, x):
    xs = s.parts[0]
    return lit(xs[:j] + (x,) + xs[j:])


def drop(s, j):
    xs = s.parts[0]
    return lit(xs[:j] + xs[j + 1:])


def isnew(t):
    return strip(t.get("n", "")) if t.get("k") == "adt" else ""


def _new(eng, c, *a):
    k = KINDS.get(tyname(c.rty))
    if k is None:
        return NotImplemented
    return Struct(k, EMPTY, EMPTY) if k in ("hmap", "bmap") else Struct(k, EMPTY)


for _t in KINDS:
    for _m in ("new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "default"):
        models.MODELS["%s::%s" % (_t, _m)] = _new


_default0 = models.TMODELS[("Default", "default")]


@T("Default", "default")
def _(eng, c):
    v = _new(eng, c)
    if v is not NotImplemented:
        return v
    if tyname(c.rty) == "BinaryHeap":
        return Struct("heap", EMPTY)
    return _default0(eng, c)


def MM(*names, sets=False, maps=True):
    kinds = (("hmap", "bmap") if maps else ()) + (("hset", "bset") if sets else ())

    def d(f):
        def g(eng, c, r, *a):
            ref, v = coll(eng, c, r, kinds)
            if v is None or not lits(*v.parts[1]):
                return NotImplemented
            return f(eng, c, ref, Struct(v.parts[0], *[within(c, x) for x in v.parts[1]]), *a)
        for t, k in KINDS.items():
            if k in kinds:
                for n in names:
                    models.MODELS["%s::%s" % (t, n)] = g
        return g
    return d


@MM("len", sets=True)
def _(eng, c, r, v):
    return eng.seq_len(v.parts[1][0])


@MM("is_empty", sets=True)
def _(eng, c, r, v):
    return cmp_eq(eng.seq_len(v.parts[1][0]), ZERO)


@MM("contains_key")
def _(eng, c, r, v, k):
    return locate(eng, c, v.parts[1][0], val(eng, c, k))[0]


@MM("contains", sets=True, maps=False)
def _(eng, c, r, v, k):
    return locate(eng, c, v.parts[1][0], val(eng, c, k))[0]


@MM("get", "get_mut")
def _(eng, c, r, v, k):
    f, i, _p = locate(eng, c, v.parts[1][0], val(eng, c, k))
    if f is False:
        return NONE
    return opt(f, eng.extend(c.st, eng.extend(c.st, r, ("f", 1)), ("i", i)))


_index0 = models.TMODELS[("Index", "index")]


@T("Index", "index")
def _(eng, c, a, k):
    ref, v = coll(eng, c, a, ("hmap", "bmap"))
    if v is None:
        return _index0(eng, c, a, k)
    if not lits(*v.parts[1]):
        return NotImplemented
    f, i, _p = locate(eng, c, v.parts[1][0], val(eng, c, k))
    bad = g_and(c.g, g_not(f))
    if bad is not False:
        eng.panics.append((bad, "index", c.sp, c.frame.fn.disp if c.frame else "?"))
    return eng.extend(c.st, eng.extend(c.st, ref, ("f", 1)), ("i", i))


def insert(eng, c, r, v, k, x):
    """insert key k (and value x) -> (was present, old value)"""
    keys = v.parts[1][0]
    f, i, p = locate(eng, c, keys, k)
    ismap = len(v.parts[1]) > 1
    vals = v.parts[1][1] if ismap else keys
    old = eng.seq_at(vals, i, c.st) if ismap and f is not False else UNDEF

    def one(ks, vs, f, i, p):
        if f:
            return Struct("tuple", ks, eng.seq_set(vs, i, x) if ismap else vs)
        j = int(p.const())
        return Struct("tuple", put(ks, j, k), put(vs, j, x) if ismap else put(ks, j, k))
    n = lift2(one, keys, vals, f, i, p)
    eng.write(c.st, r, Struct(v.parts[0], *n.parts[1][:len(v.parts[1])]))
    return f, old


@MM("insert")
def _(eng, c, r, v, k, x):
    f, old = insert(eng, c, r, v, val(eng, c, k), x)
    return opt(f, old)


@MM("insert", sets=True, maps=False)
def _(eng, c, r, v, k):
    f, _o = insert(eng, c, r, v, val(eng, c, k), None)
    return g_not(f)


def take_out(eng, c, r, v, f, i):
    keys = v.parts[1][0]
    vals = v.parts[1][-1]
    okey = eng.seq_at(keys, i, c.st) if f is not False else UNDEF
    oval = eng.seq_at(vals, i, c.st) if f is not False else UNDEF

    def one(ks, vs, f, i):
        if not f:
            return Struct("tuple", ks, vs)
        j = int(i.const())
        return Struct("tuple", drop(ks, j), drop(vs, j))
    n = lift2(one, keys, vals, f, i)
    eng.write(c.st, r, Struct(v.parts[0], *n.parts[1][:len(v.parts[1])]))
    return okey, oval


@MM("remove")
def _(eng, c, r, v, k):
    f, i, _p = locate(eng, c, v.parts[1][0], val(eng, c, k))
    _k, o = take_out(eng, c, r, v, f, i)
    return opt(f, o)


@MM("remove_entry")
def _(eng, c, r, v, k):
    f, i, _p = locate(eng, c, v.parts[1][0], val(eng, c, k))
    a, o = take_out(eng, c, r, v, f, i)
    return opt(f, Struct("tuple", a, o))


@MM("remove", sets=True, maps=False)
def _(eng, c, r, v, k):
    f, i, _p = locate(eng, c, v.parts[1][0], val(eng, c, k))
    take_out(eng, c, r, v, f, i)
    return f


@MM("pop_first", "pop_last", sets=True)
def _(eng, c, r, v):
    if v.parts[0][0] == "h":
        return NotImplemented
    n = eng.seq_len(v.parts[1][0])
    g = cmp_lt(ZERO, n)
    i = ZERO if c.m == "pop_first" else lift(lambda x: x - ONE if x.const() else ZERO, n)
    a, o = take_out(eng, c, r, v, g, i)
    return opt(g, Struct("tuple", a, o) if len(v.parts[1]) > 1 else a)


@MM("first_key_value", "last_key_value")
def _(eng, c, r, v):
    n = eng.seq_len(v.parts[1][0])
    g = cmp_lt(ZERO, n)
    i = ZERO if c.m == "first_key_value" else lift(lambda x: x - ONE if x.const() else ZERO, n)
    e = [eng.extend(c.st, eng.extend(c.st, r, ("f", k)), ("i", i)) for k in (0, 1)]
    return opt(g, Struct("tuple", *e))


@MM("first", "last", sets=True, maps=False)
def _(eng, c, r, v):
    n = eng.seq_len(v.parts[1][0])
    g = cmp_lt(ZERO, n)
    i = ZERO if c.m == "first" else lift(lambda x: x - ONE if x.const() else ZERO, n)
    return opt(g, eng.extend(c.st, eng.extend(c.st, r, ("f", 0)), ("i", i)))


@MM("clear", sets=True)
def _(eng, c, r, v):
    eng.write(c.st, r, Struct(v.parts[0], *[EMPTY for _ in v.parts[1]]))
    return UNIT


@MM("reserve", "shrink_to_fit", sets=True)
def _(eng, c, r, v, *a):
    return UNIT


def walk(eng, c, r, v, fields, owned=False):
    n = eng.seq_len(v.parts[1][0])
    if owned:
        ss = [V("s_val", v.parts[1][k]) for k in fields]
    else:
        ss = [V("s_ref", eng.extend(c.st, r, ("f", k))) for k in fields]
    s = ss[0] if len(ss) == 1 else V("s_zip", *ss)
    if v.parts[0][0] == "h":
        return ix(V("s_rev", s, lift(lambda x: x - ONE, n)), ZERO, n)
    return ix(s, ZERO, n)


@MM("iter", "iter_mut")
def _(eng, c, r, v):
    return walk(eng, c, r, v, (0, 1))


@MM("iter", sets=True, maps=False)
def _(eng, c, r, v):
    return walk(eng, c, r, v, (0,))


@MM("keys")
def _(eng, c, r, v):
    return walk(eng, c, r, v, (0,))


@MM("values", "values_mut")
def _(eng, c, r, v):
    return walk(eng, c, r, v, (1,))


@MM("into_keys")
def _(eng, c, r, v):
    return walk(eng, c, r, v, (0,), True)


@MM("into_values")
def _(eng, c, r, v):
    return walk(eng, c, r, v, (1,), True)


@MM("into_iter", "drain")
def _(eng, c, r, v):
    if c.m == "drain":
        eng.write(c.st, r, Struct(v.parts[0], *[EMPTY for _ in v.parts[1]]))
    return walk(eng, c, r, v, tuple(range(len(v.parts[1]))), True)


_into0 = models.into_iter


def into_iter(eng, c, x, ty=None):
    for y in (x,):
        if is_tag(y, "struct") and y.parts[0] in ("hmap", "bmap", "hset", "bset") and lits(*y.parts[1]):
            return walk(eng, c, None, y, tuple(range(len(y.parts[1]))), True)
        if is_tag(y, "struct") and y.parts[0] == "heap":
            return None
        if is_tag(y, "ref") or is_tag(y, "refv"):
            v = eng.read(c.st, y)
            if is_tag(v, "struct") and v.parts[0] in ("hmap", "bmap", "hset", "bset") and lits(*v.parts[1]):
                return walk(eng, c, y, v, tuple(range(len(v.parts[1]))))
    return _into0(eng, c, x, ty)


models.into_iter = into_iter


# ---------------------------------------------------------------- entries

@MM("entry")
def _(eng, c, r, v, k):
    if not is_tag(r, "ref"):
        return NotImplemented
    k = val(eng, c, k)
    return Struct("mapentry", r, k)


def entry_get(eng, c, e, make):
    if not (is_tag(e, "struct") and e.parts[0] == "mapentry"):
        return NotImplemented
    r, k = e.parts[1]
    v = eng.read(c.st, r)
    if not is_tag(v, "struct") or not lits(*v.parts[1]):
        return NotImplemented
    f, _i, _p = locate(eng, c, v.parts[1][0], k)

    def add():
        x = make()
        insert(eng, c, r, eng.read(c.st, r), k, x)
        return UNIT
    under(eng, c, g_not(f), add)
    f, i, _p = locate(eng, c, eng.read(c.st, r).parts[1][0], k)
    return eng.extend(c.st, eng.extend(c.st, r, ("f", 1)), ("i", i))


@M("Entry::or_insert")
def _(eng, c, e, x):
    return entry_get(eng, c, e, lambda: x)


@M("Entry::or_insert_with")
def _(eng, c, e, f):
    return entry_get(eng, c, e, lambda: call_value(eng, c, f, []))


@M("Entry::or_default")
def _(eng, c, e):
    def make():
        cc = models.Call()
        cc.args, cc.frame, cc.st, cc.g, cc.sp, cc.atys = [], c.frame, c.st, c.g, c.sp, []
        t = c.rty
        while t.get("k") == "ref":
            t = t["t"]
        cc.rty = t
        return models.TMODELS[("Default", "default")](eng, cc)
    return entry_get(eng, c, e, make)


@M("Entry::and_modify")
def _(eng, c, e, f):
    if not (is_tag(e, "struct") and e.parts[0] == "mapentry"):
        return NotImplemented
    r, k = e.parts[1]
    v = eng.read(c.st, r)
    if not is_tag(v, "struct") or not lits(*v.parts[1]):
        return NotImplemented
    f0, i, _p = locate(eng, c, v.parts[1][0], k)
    x = eng.extend(c.st, eng.extend(c.st, r, ("f", 1)), ("i", i))
    under(eng, c, f0, lambda: call_value(eng, c, f, [x]))
    return e


# ---------------------------------------------------------------- collecting

_collect0 = models.TMODELS[("Iterator", "collect")]


def collect(eng, c, a):
    n = tyname(c.rty)
    k = KINDS.get(n) or ("heap" if n == "BinaryHeap" else None)
    if k is None:
        return _collect0(eng, c, a)
    it = itv(eng, c, a)
    if it is None:
        return NotImplemented
    acc = fresh_root(eng, c, Struct(k, EMPTY, EMPTY) if k[1:] == "map" else Struct(k, EMPTY))
    if not fill(eng, c, acc, it):
        return NotImplemented
    return eng.read(c.st, acc)


def fill(eng, c, acc, it):
    def b(x):
        cur = eng.read(c.st, acc)
        if not is_tag(cur, "struct") or not lits(*cur.parts[1]):
            raise Unsupported("collection")
        if cur.parts[0] == "heap":
            eng.write(c.st, acc, Struct("heap", eng.dmap(lambda s: put(s, len(s.parts[0]), val(eng, c, x)), cur.parts[1][0])))
        elif len(cur.parts[1]) > 1:
            x = val(eng, c, x)
            if not is_tag(x, "struct") or x.parts[0] != "tuple":
                raise Unsupported("collection")
            insert(eng, c, acc, cur, val(eng, c, x.parts[1][0]), x.parts[1][1])
        else:
            insert(eng, c, acc, cur, val(eng, c, x), None)
        return False
    return drive(eng, c, it, b, ltag(c)) is not None


for _tr in ("Iterator", "ParallelIterator", "IndexedParallelIterator", "DoubleEndedIterator"):
    models.TMODELS[(_tr, "collect")] = collect

_extend0 = models.TMODELS[("Extend", "extend")]


@T("Extend", "extend")
def _(eng, c, a, src):
    r, v = coll(eng, c, a, ("hmap", "bmap", "hset", "bset", "heap"))
    if v is None:
        return _extend0(eng, c, a, src)
    it = itv(eng, c, src) if not is_seq(src) else ix(V("s_val", src), ZERO, eng.seq_len(src))
    if it is None or not fill(eng, c, r, it):
        return NotImplemented
    return UNIT


# ---------------------------------------------------------------- binary heaps

def H(*names):
    def d(f):
        def g(eng, c, r, *a):
            ref, v = coll(eng, c, r, ("heap",))
            if v is None or not lits(*v.parts[1]):
                return NotImplemented
            return f(eng, c, ref, within(c, v.parts[1][0]), *a)
        for n in names:
            models.MODELS["BinaryHeap::" + n] = g
        return g
    return d


@M("BinaryHeap::new", "BinaryHeap::with_capacity")
def _(eng, c, *a):
    return Struct("heap", EMPTY)


@M("BinaryHeap::from")
def _(eng, c, a):
    v = val(eng, c, a)
    return Struct("heap", v) if models.is_seqs(v) and lits(v) else NotImplemented


@H("len")
def _(eng, c, r, s):
    return eng.seq_len(s)


@H("is_empty")
def _(eng, c, r, s):
    return cmp_eq(eng.seq_len(s), ZERO)


@H("clear")
def _(eng, c, r, s):
    eng.write(c.st, r, Struct("heap", EMPTY))
    return UNIT


@H("push")
def _(eng, c, r, s, x):
    eng.write(c.st, r, Struct("heap", eng.dmap(lambda q: put(q, len(q.parts[0]), x), s)))
    return UNIT


def greatest(eng, c, s):
    """index of the greatest element, the first pushed among equal ones; None when empty"""
    memo = {}

    def gt(x, y):
        o = memo.get((x, y))
        if o is None:
            o = memo[(x, y)] = ord_test("Gt", kcmp(eng, c, x, y))
        return o

    def one(q):
        xs = q.parts[0]
        if not xs:
            return C(-1)
        r = C(0)
        for j in range(1, len(xs)):
            r = lift2(lambda m, j=j: ite(gt(xs[j], xs[int(m.const())]), C(j), m), r)
        return r
    s = restrict(s, c.g) if isinstance(s, D) and isinstance(c.g, D) else s
    r = lift2(one, s)
    return restrict(r, c.g) if isinstance(r, D) and isinstance(c.g, D) else r


@H("peek")
def _(eng, c, r, s):
    i = greatest(eng, c, s)
    return opt(lift(lambda x: x.const() >= 0, i), eng.extend(c.st, eng.extend(c.st, r, ("f", 0)), ("i", i)))


@H("pop")
def _(eng, c, r, s):
    i = greatest(eng, c, s)
    x = eng.seq_at(s, i, c.st)
    n = lift2(lambda q, j: drop(q, int(j.const())) if j.const() >= 0 else q, s, i)
    eng.write(c.st, r, Struct("heap", n))
    return opt(lift(lambda x: x.const() >= 0, i), x)


@H("into_vec", "into_sorted_vec")
def _(eng, c, r, s):
    if c.m == "into_vec":
        return NotImplemented
    return models.sort_seq(eng, c, s, models.plain_less(eng, c)) or NotImplemented
