"""Gated value numbering over MIR: an abstract interpreter whose values are normal forms.

One pass over the control-flow graph of a function (joins at merge points, no path
enumeration, nothing executed): every place is mapped to a guarded normal form over the
symbolic inputs.  Crate-local callees and closures are expanded; loops are summarised into
comprehensions, searches and folds; everything else becomes an uninterpreted application."""
from fractions import Fraction
from alg import Rat, C, A, ZERO, ONE, atom, sys_atoms, kname
from dd import *
import os, hashlib
import dd

STD_VARIANTS = {
    "std::option::Option": ["None", "Some"],
    "std::result::Result": ["Ok", "Err"],
    "std::ops::ControlFlow": ["Continue", "Break"],
    "std::cmp::Ordering": ["Less", "Equal", "Greater"],
}
OPT, RES, CF, ORD = "std::option::Option", "std::result::Result", "std::ops::ControlFlow", "std::cmp::Ordering"
VEC = "std::vec::Vec"


class Unsupported(Exception):
    pass


def some(v):
    return Enum(OPT, C(1), {1: (v,)})


NONE = Enum(OPT, C(0), {0: ()})


def ok(v):
    return Enum(RES, C(0), {0: (v,)})


def err(v):
    return Enum(RES, C(1), {1: (v,)})


def vis(e, i):
    """guard: enum value e is variant i"""
    return lift(lambda r: r == C(i), e.parts[1])


def vfield(e, i, j=0):
    for k, fs in e.parts[2]:
        if k == i:
            return fs[j] if j < len(fs) else UNDEF
    return UNDEF


def opt(g, v):
    """Option that is Some(v) under g"""
    return Enum(OPT, lift(lambda b: C(1 if b else 0), g), {0: (), 1: (v,)})


# ------------------------------------------------------------------ substitution

class Subst:
    """simultaneous substitution of atoms (Rat values) and condition variables (diagrams)"""

    def __init__(self, eng, amap=None, vmap=None):
        self.eng = eng
        self.amap = amap or {}
        self.vmap = vmap or {}
        self.memo = {}
        self.amemo = {}

    def atom(self, i):
        r = self.amap.get(i)
        if r is not None:
            return r
        r = self.amemo.get(i)
        if r is None:
            a = sys_atoms[i]
            r = self.seqread(a.key)
            if isinstance(r, (Rat, D)):
                self.amemo[i] = r
                return r
            nk = self.key(a.key)
            if nk == a.key:
                r = A(i)
            else:
                r = self.eng.rebuild_atom(nk, a)
            self.amemo[i] = r
        return r

    def seqread(self, key):
        """value of an element read of a replaced symbolic sequence"""
        if key[0] != "v" or not isinstance(key[1], tuple) or len(key[1]) < 3 or key[1][0] != "at":
            return None
        p = key[1]
        s = self.amap.get(("seq", p[1]))
        if s is None or is_tag(s, "symseq") and s.parts[1] is None:
            return None
        v = self.eng.seq_at(s, self(p[2]) if isinstance(p[2], (Rat, D)) else p[2])
        for e in p[3:]:
            if isinstance(e, str) and e in "xyz" and is_tag(v, "struct") and v.parts[0] in ("V2", "V3"):
                v = v.parts[1]["xyz".index(e)]
            elif isinstance(e, int) and is_tag(v, "struct") and v.parts[0] == "tuple":
                v = v.parts[1][e]
            elif isinstance(e, str) and is_tag(v, "struct"):
                k = self.eng.crate.field_index(v.parts[0], e) if v.parts[0] in self.eng.crate.adts else None
                if k is None:
                    return None
                v = v.parts[1][k]
            else:
                return None
        return v

    def key(self, k):
        if isinstance(k, tuple):
            out = tuple(self.key(x) for x in k)
            return k if out == k else out
        if isinstance(k, (Rat, D, V)):
            return self(k)
        return k

    def rat(self, r):
        ats = r.atoms()
        ch = {}
        for i in ats:
            n = self.atom(i)
            if not (isinstance(n, Rat) and n == A(i)):
                ch[i] = n
        if not ch:
            return r
        # diagrams among replacements: lift
        ids = list(ch)
        if any(isinstance(ch[i], D) for i in ids):
            return lift(lambda *vs: evalrat(r, dict(zip(ids, vs))), *[ch[i] for i in ids])
        if any(not isinstance(ch[i], Rat) for i in ids):
            return UNDEF
        return evalrat(r, ch)

    def var(self, v):
        """diagram (over child indices) replacing condition variable v, or None"""
        key, n = VARS[v]
        if v in self.vmap:
            return self.vmap[v]
        k = ("v", v)
        if k in self.memo:
            return self.memo[k]
        res = None
        if key[0] in ("sgn", "ge"):
            r = Rat(dict(key[1]))
            r2 = self.rat(r)
            if r2 != r:
                if key[0] == "sgn":
                    s = lift2(lambda x: sign_of(x), r2)
                    res = lift(lambda x: C(int(x.const()) + 1), s)
                else:
                    s = lift2(lambda x: int_ge0(x - C(key[2])) if x.is_int() else
                              g_not(lift(lambda q: q.const() < 0, sign_of(x - C(key[2])))), r2)
                    res = lift(lambda b: C(1 if b else 0), s)
        elif key[0] == "bool":
            nk = self.key(key[1])
            if nk != key[1]:
                b = self.eng.rebuild_bool(nk)
                res = lift(lambda b: C(1 if b else 0), b)
        else:
            nk = self.key(key[1])
            if nk != key[1]:
                res = self.eng.rebuild_enum(nk, n)
        self.memo[k] = res
        return res

    def __call__(self, x):
        if isinstance(x, (bool, str, int)) or x is UNDEF or x is None:
            return x
        m = self.memo.get(x)
        if m is not None:
            return m
        if isinstance(x, Rat):
            r = self.rat(x)
        elif isinstance(x, D):
            ch = [self(c) for c in x.ch]
            nv = self.var(x.var)
            if nv is None:
                if all(same(a, b) for a, b in zip(ch, x.ch)):
                    r = x
                else:
                    r = self._rebuild(x.var, ch)
            else:
                r = UNDEF
                for i, c in enumerate(ch):
                    r = ite(isidx(nv, i), c, r) if r is not UNDEF or c is not UNDEF else UNDEF
        elif isinstance(x, V):
            if x.tag == "comp":
                n, bv, cond, val = x.parts
                r = mkcomp(self(n), bv, self(cond), self(val))
            else:
                parts = tuple(self.part(p) for p in x.parts)
                r = x if parts == x.parts else remake(x.tag, parts)
        elif isinstance(x, tuple):
            r = self.part(x)
        else:
            r = x
        self.memo[x] = r
        return r

    def _rebuild(self, var, ch):
        n = VARS[var][1]
        if not any(isinstance(c, V) and c.tag in ("struct", "enum") for c in ch):
            return dd.test(var, ch)
        r = ch[n - 1]
        for i in range(n - 2, -1, -1):
            lit = mk(var, [j == i for j in range(n)])
            r = ite(lit, ch[i], r)
        return r

    def part(self, p):
        if isinstance(p, tuple):
            out = tuple(self.part(y) for y in p)
            return p if out == p else out
        return self(p) if isinstance(p, (Rat, D, V)) else p


_idx = {}


def isidx(nv, i):
    """is the child index nv equal to i?"""
    k = (nv, i)
    r = _idx.get(k)
    if r is None:
        c = C(i)
        r = _idx[k] = lift(lambda t: t == c, nv)
    return r


def remake(tag, parts):
    if tag == "cat":
        return cat(parts[0])
    return V(tag, *parts)


def evalrat(r, ch):
    def ev(p):
        acc = ZERO
        for m, c in p.items():
            t = C(c)
            rest = []
            for v, e in m:
                if v in ch:
                    for _ in range(e):
                        t = t * ch[v]
                else:
                    rest.append((v, e))
            if rest:
                t = t * Rat({tuple(rest): Fraction(1)})
            acc = acc + t
        return acc
    n = ev(r.num)
    if r.is_poly():
        return n
    d = ev(r.den)
    if not d.num:
        return UNDEF
    return n / d


def atoms_in(x, acc=None, seen=None):
    """all atoms (transitively, through atom keys) and condition vars of a value"""
    if acc is None:
        acc, seen = set(), set()
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, (str, bool, int)) or y is None or y is UNDEF:
            continue
        if y in seen:
            continue
        seen.add(y)
        if isinstance(y, Rat):
            for i in y.atoms():
                if i not in acc:
                    acc.add(i)
                    st.append(sys_atoms[i].key)
        elif isinstance(y, D):
            acc.add(("v", y.var))
            key = VARS[y.var][0]
            if key[0] in ("sgn", "ge"):
                st.append(Rat(dict(key[1]), raw=False))
            else:
                st.append(key[1])
            st.extend(y.ch)
        elif isinstance(y, V):
            st.extend(y.parts)
        elif isinstance(y, tuple):
            st.extend(y)
    return acc


# ------------------------------------------------------------------ sequences
# symseq(key, elemtype) | lit(values) | comp(n, bound atom, cond, value) | cat(parts) | upd(seq, idx, val)

def lit(vs):
    return V("lit", tuple(vs))


def cat(parts):
    out = []
    for p in parts:
        if is_tag(p, "cat"):
            out.extend(p.parts[0])
        elif is_tag(p, "lit"):
            if not p.parts[0]:
                continue
            if out and is_tag(out[-1], "lit"):
                out[-1] = lit(out[-1].parts[0] + p.parts[0])
            else:
                out.append(p)
        else:
            out.append(p)
    if not out:
        return lit(())
    if len(out) == 1:
        return out[0]
    return V("cat", tuple(out))


SMALL = 6


def small_lam(lam):
    """conditions of a search over a small constant range, or None"""
    n, bk, cond = lam.parts
    c = n.const() if isinstance(n, Rat) else None
    if c is None or c > SMALL or c.denominator != 1 or CUR is None:
        return None
    if c > 2 and bigger(cond, 120):
        return None
    return [Subst(CUR, {bk: C(i)})(cond) for i in range(max(int(c), 0))]


_big = {}


def bigger(v, n):
    """does a condition have more than n tests?"""
    r = _big.get((v, n))
    if r is None:
        seen, st = set(), [v]
        while st and len(seen) <= n:
            x = st.pop()
            if isinstance(x, D) and x not in seen:
                seen.add(x)
                st.extend(x.ch)
        r = _big[(v, n)] = len(seen) > n
    return r


def mkexists(lam):
    cs = small_lam(lam)
    return boolvar(("exists", lam)) if cs is None else g_any(cs)


def mkfirst(lam):
    cs = small_lam(lam)
    if cs is None:
        return A(atom(("first", lam), "int", True))
    r = C(len(cs))
    for i in range(len(cs) - 1, -1, -1):
        r = ite(cs[i], C(i), r)
    return r


def mkcomp(n, bv, cond, val):
    if cond is False:
        return lit(())
    if isinstance(n, Rat) and n.const() is not None and n.const() <= 0:
        return lit(())
    if isinstance(n, Rat):
        inb = cmp_lt(A(bv), n)
        if isinstance(inb, D):
            own = inb.var
            if own in vars_of(cond) if isinstance(cond, D) else False:
                cond = restrict(cond, inb)
            if own in atoms_vars(val):
                val = restrict_deep(val, inb)
    if cond is True and isinstance(n, Rat):
        q = identity_of(n, bv, val)
        if q is not None:
            return q
        c = n.const()
        if c is not None and c <= SMALL and c.denominator == 1 and CUR is not None:
            return lit([Subst(CUR, {bv: C(i)})(val) for i in range(int(c))])
    return V("comp", n, bv, cond, val)


def atoms_vars(v):
    """condition variables appearing at the top of a value's structure"""
    out, st, seen = set(), [v], set()
    while st:
        x = st.pop()
        if isinstance(x, D):
            if x not in seen:
                seen.add(x)
                out.add(x.var)
                st.extend(x.ch)
        elif isinstance(x, V) and x.tag in ("struct", "enum", "lit"):
            st.extend(x.parts)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def identity_of(n, bv, val):
    """comp over a whole sequence that copies each element is the sequence itself"""
    if not (n.is_poly() and len(n.num) == 1):
        return None
    (m, c), = n.num.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return None
    k = sys_atoms[m[0][0]].key
    if k[0] != "len" or not is_tag(k[1], "symseq") or k[1].parts[1] is None:
        return None
    s = k[1]
    ats = {a for a in atoms_in(val) if isinstance(a, int)}
    if bv not in ats:
        return None
    e = CUR.seq_at(s, A(bv))
    return s if same(e, val) else None


CUR = None
SEQ = ("symseq", "lit", "comp", "cat", "upd", "sub", "symarr")


def is_seq(v):
    return isinstance(v, V) and v.tag in SEQ


# ------------------------------------------------------------------ engine

class Frame:
    __slots__ = ("fn", "id", "env", "depth")

    def __init__(self, fn, id, env, depth):
        self.fn, self.id, self.env, self.depth = fn, id, env, depth


class Call:
    __slots__ = ("name", "m", "args", "atys", "frame", "st", "g", "rty", "ref", "sp", "trait")


def ext0(r):
    """what an object of the caller holds before anything is written to it"""
    return CUR.sym(CUR.exttypes[r[1]], r[1])


def merge_states(lst):
    """[(g, st)] -> (g, st)"""
    if len(lst) == 1:
        return lst[0]
    g, st = lst[0]
    st = dict(st)
    exts = {r for _, s in lst for r in s if r[0] == "ext"}
    for r in exts:
        if r not in st:
            st[r] = ext0(r)
    for g2, s2 in lst[1:]:
        for r in exts:
            if r not in s2 and not same(st[r], ext0(r)):
                st[r] = ite(g2, ext0(r), st[r])
        for r, v in s2.items():
            o = st.get(r)
            if o is None:
                st[r] = v
            elif o is not v and not same(o, v):
                st[r] = ite(g2, v, o)
        g = g_or(g, g2)
    return g, st


class Engine:
    MAXDEPTH = 14

    def __init__(self, crate, stop=()):
        global CUR
        CUR = self
        self.crate = crate
        self.nframe = 0
        self.loops = []
        self.nloop = 0
        self.panics = []
        self.exttypes = {}
        self.roottypes = {}
        self.unknown = []
        self.calls = []
        self.stop = stop               # functions kept opaque (by disp)
        self.stack = []
        self.top = None
        self.ntmp = 0
        self.hooks = {}

    # ---- types
    def rty(self, t, env):
        k = t["k"]
        if k == "param":
            return env.get(t["n"], t) if env else t
        if k == "alias":
            return t
        if k in ("ref", "ptr", "slice", "array"):
            n = self.rty(t["t"], env)
            return t if n is t["t"] else dict(t, t=n)
        if k in ("adt", "tuple", "fndef"):
            a = [self.rty(x, env) for x in t.get("a", [])]
            if all(x is y for x, y in zip(a, t.get("a", []))):
                return t
            return dict(t, a=a)
        return t

    def dims(self, t):
        """2/3 for a vector type, 1 for a scalar, 0 otherwise"""
        if t["k"] == "alias":
            n = t["n"]
            if n.endswith("::Scalar") or n.endswith(">::Scalar"):
                return 1
            if n.endswith("::Vector3"):
                return 3
            if n.endswith("::Vector2"):
                return 2
            if n.endswith("::Epsilon"):
                return 1
            return 0
        if t["k"] == "param":
            ts = {p[1] for p in self.top.preds if p[0]["k"] == "param" and p[0]["n"] == t["n"]}
            if ts & {"vector_traits::GenericVector3", "vector_traits::HasXYZ"}:
                return 3
            if ts & {"vector_traits::GenericVector2", "vector_traits::HasXY"}:
                return 2
            if any("GenericScalar" in x or x.endswith("Float") for x in ts):
                return 1
        if t["k"] == "prim" and t["n"] in ("f32", "f64"):
            return 1
        return 0

    def variants(self, adt):
        if adt in STD_VARIANTS:
            return STD_VARIANTS[adt]
        a = self.crate.adts.get(adt)
        return [v["n"] for v in a["variants"]] if a else None

    def adt_fields(self, t, v):
        """resolved field types of local adt type t, variant v"""
        a = self.crate.adts.get(t["n"])
        if a is None:
            n, args = t["n"], t.get("a", [])
            if n == OPT:
                return [] if v == 0 else [args[0]]
            if n == RES:
                return [args[0]] if v == 0 else [args[1]]
            return []
        gen = self.adt_generics(t["n"])
        env = dict(zip(gen, t.get("a", [])))
        return [self.rty(f["t"], env) for f in a["variants"][v]["f"]]

    def adt_generics(self, n):
        # adts of this crate are all generic over at most one parameter named T
        a = self.crate.adts[n]
        names = []

        def go(t):
            if t["k"] == "param" and t["n"] not in names:
                names.append(t["n"])
            for x in t.get("a", []):
                go(x)
            if "t" in t:
                go(t["t"])
            if t["k"] == "alias" and "<T as" in t["n"] and "T" not in names:
                names.append("T")
        for v in a["variants"]:
            for f in v["f"]:
                go(f["t"])
        return names

    # ---- symbolic values
    def scalar(self, key, sort="real", nonneg=False):
        return A(atom(("v", key) if sort == "real" else ("v", key, sort), sort, nonneg))

    inst = None      # parameter name -> number of elements, for an instance of fixed size

    def instance(self, key, et):
        """elements of a parameter sequence of fixed size"""
        n = self.inst.get(key[0]) if all(k == "*" for k in key[1:]) else None
        return None if n is None else lit([self.sym(et, ("at", key, C(i))) for i in range(n)])

    def sym(self, t, key):
        d = self.dims(t)
        if d == 1:
            return self.scalar(key)
        if d in (2, 3):
            return Struct("V%d" % d, *[self.scalar(key + (c,)) for c in "xyz"[:d]])
        k = t["k"]
        if k == "prim":
            n = t["n"]
            if n == "bool":
                return boolvar(("v", key))
            if n in ("usize", "u8", "u16", "u32", "u64", "u128"):
                return self.scalar(key, "int", True)
            if n in ("isize", "i8", "i16", "i32", "i64", "i128"):
                return self.scalar(key, "int")
            return Opq(key, n)
        if k == "tuple":
            return Struct("tuple", *[self.sym(x, key + (i,)) for i, x in enumerate(t["a"])])
        if k == "ref":
            if t["t"]["k"] == "dyn":
                return Opq(key, "dyn")
            return self.extref(key + ("*",), t["t"])
        if k == "array":
            try:
                n = int(str(t["len"]).replace("_usize", ""))
                if n <= 16:
                    return lit([self.sym(t["t"], key + ("[]", C(i))) for i in range(n)])
            except ValueError:
                pass
            return V("symseq", key, tjson(t["t"]))
        if k == "slice":
            if self.inst:
                r = self.instance(key, t["t"])
                if r is not None:
                    return r
            return V("symseq", key, tjson(t["t"]))
        if k == "adt":
            n = t["n"]
            if n == VEC or n == "smallvec::SmallVec":
                et = t["a"][0]
                if n == "smallvec::SmallVec" and et["k"] == "array":
                    et = et["t"]
                if self.inst:
                    r = self.instance(key, et)
                    if r is not None:
                        return r
                return V("symseq", key, tjson(et))
            if n == "std::boxed::Box":
                return self.sym(t["a"][0], key + ("box",))
            vs = self.variants(n)
            a = self.crate.adts.get(n)
            if a is not None and a["kind"] == "Struct":
                return Struct(n, *[self.sym(ft, key + (f["n"],)) for ft, f in zip(self.adt_fields(t, 0), a["variants"][0]["f"])])
            if vs is not None:
                return Enum(n, enumvar(("v", key), len(vs)),
                            {i: tuple(self.sym(ft, key + (vs[i], j)) for j, ft in enumerate(self.adt_fields(t, i)))
                             for i in range(len(vs))})
            if n in ("std::ops::Range",):
                return Struct(n, self.sym(t["a"][0], key + ("start",)), self.sym(t["a"][0], key + ("end",)))
        return Opq(key, tjson(t))

    def extref(self, key, t):
        self.exttypes[key] = t
        return Ref(("ext", key))

    def rebuild_atom(self, key, a):
        if key[0] == "sqrt":
            return lift(f_sqrt, key[1])
        if key[0] == "fold" and is_tag(key[1], "fold"):
            return self.rebuild_fold(key, ("num", a.sort, a.nonneg))
        if key[0] == "first" and is_tag(key[1], "lam"):
            return mkfirst(key[1])
        if key[0] == "len":
            return lift2(lambda q: self.seq_len(q) if is_seq(q) else A(atom(("len", q), "int", True)), key[1])
        if key[0] in ROUNDING and isinstance(key[1], Rat) and key[1].const() is not None:
            return fnapp(key[0], key[1])
        if key[0] == "v" and isinstance(key[1], tuple):
            # element of a symbolic sequence keeps its structural name
            return A(atom(key, a.sort, a.nonneg))
        return A(atom(key, a.sort, a.nonneg, a.sq))

    def rebuild_bool(self, key):
        if key[0] == "exists" and is_tag(key[1], "lam"):
            return mkexists(key[1])
        if key[0] == "near" and len(key) == 5:
            return near(key[1], key[2], key[3], key[4])
        if key[0] == "fold" and is_tag(key[1], "fold"):
            return lift(lambda r: r if isinstance(r, bool) else r != C(0), self.rebuild_fold(key, ("bool",)))
        return boolvar(key)

    def rebuild_enum(self, key, n):
        if key[0] == "fold" and is_tag(key[1], "fold"):
            return self.rebuild_fold(key, ("enum", n))
        return enumvar(key, n)

    # ---- sequences
    def seq_len(self, s):
        def f(s):
            t = s.tag if isinstance(s, V) else None
            if t == "lit":
                return C(len(s.parts[0]))
            if t == "comp":
                n, bv, cond, val = s.parts
                if cond is True:
                    return nonneg(n)
                return A(atom(("count", s), "int", True))
            if t == "cat":
                r = ZERO
                for p in s.parts[0]:
                    r = num2(lambda a, b: a + b, r, self.seq_len(p))
                return r
            if t == "upd":
                return self.seq_len(s.parts[0])
            if t == "sub":
                return s.parts[2]
            return A(atom(("len", s), "int", True))
        return lift2(f, s)

    def seq_at(self, s, i, st=None):
        if isinstance(s, D):
            if isinstance(i, D):
                return lift2(lambda q, j: self.seq_at(q, j, st), s, i)
            return self.dmap(lambda q: self.seq_at(q, i, st), s)
        if isinstance(i, D):
            return self.dmap(lambda q: self.seq_at(s, q, st), i)
        if s is UNDEF or i is UNDEF:
            return UNDEF
        t = s.tag if isinstance(s, V) else None
        if t == "lit":
            c = i.const()
            if c is not None:
                if 0 <= c < len(s.parts[0]) and c.denominator == 1:
                    return s.parts[0][int(c)]
                return UNDEF
            r = UNDEF
            for k in range(len(s.parts[0]) - 1, -1, -1):
                r = s.parts[0][k] if r is UNDEF else ite(cmp_eq(i, C(k)), s.parts[0][k], r)
            return r
        if t == "comp" and s.parts[2] is True:
            return Subst(self, {s.parts[1]: i})(s.parts[3])
        if t == "cat":
            parts = s.parts[0]
            n0 = self.seq_len(parts[0])
            rest = cat(parts[1:])
            c = cmp_lt(i, n0)
            if c is True:
                return self.seq_at(parts[0], i, st)
            j = num2(lambda a, b: a - b, i, n0)
            if c is False:
                return self.seq_at(rest, j, st)
            # j constant >= 0 means the element is in the rest
            return ite(c, self.seq_at(parts[0], i, st), self.seq_at(rest, j, st))
        if t == "upd":
            return ite(cmp_eq(i, s.parts[1]), s.parts[2], self.seq_at(s.parts[0], i, st))
        if t == "sub":
            return self.seq_at(s.parts[0], num2(lambda a, b: a + b, i, s.parts[1]), st)
        if t == "symseq":
            return self.sym(untj(s.parts[1]), ("at", s.parts[0], i))
        if t == "comp":
            return self.like(s.parts[3], ("at", s, i))
        return Opq(("at", s, i), None)

    def dmap(self, f, d):
        """map a diagram's leaves to arbitrary structured values"""
        memo = {}

        def go(x):
            if not isinstance(x, D):
                return UNDEF if x is UNDEF else f(x)
            r = memo.get(x)
            if r is None:
                n = VARS[x.var][1]
                ch = [go(c) for c in x.ch]
                r = ch[n - 1]
                for i in range(n - 2, -1, -1):
                    lt = mk(x.var, [j == i for j in range(n)])
                    r = ite(lt, ch[i], r)
                memo[x] = r
            return r
        return go(d)

    def like(self, v, key):
        """fresh value of the same shape as v"""
        if isinstance(v, D):
            ls = [x for x in leaves(v) if x is not UNDEF]
            if all(isinstance(x, bool) for x in ls):
                return boolvar(("v", key))
            if all(isinstance(x, Rat) for x in ls):
                if all(x.is_int() for x in ls):
                    return self.scalar(key, "int", True)
                return self.scalar(key)
            return self.like(ls[0], key)
        if isinstance(v, bool):
            return boolvar(("v", key))
        if isinstance(v, Rat):
            return self.scalar(key, "int", True) if v.is_int() else self.scalar(key)
        if isinstance(v, V):
            if v.tag == "struct":
                return V("struct", v.parts[0], tuple(self.like(x, key + (i,)) for i, x in enumerate(v.parts[1])))
            if v.tag == "enum":
                n = len(self.variants(v.parts[0]) or dict(v.parts[2]))
                return Enum(v.parts[0], enumvar(("v", key), n),
                            {k: tuple(self.like(x, key + (k, j)) for j, x in enumerate(fs)) for k, fs in v.parts[2]})
            if v.tag == "symseq":
                return V("symseq", key, v.parts[1])
            if v.tag == "ref":
                return Opq(key, None)
            if is_seq(v):
                return V("symseq", key, None) if not is_tag(v, "lit") else Opq(key, None)
        return Opq(key, None)

    # ---- memory
    def root(self, st, r):
        v = st.get(r)
        if v is None:
            if r[0] == "ext":
                v = self.sym(self.exttypes[r[1]], r[1])
                st[r] = v
            else:
                v = UNDEF
        return v

    def read(self, st, ref):
        if isinstance(ref, D):
            return self.dmap(lambda r: self.read(st, r), ref)
        if not is_tag(ref, "ref"):
            if is_tag(ref, "refv"):
                return ref.parts[0]
            if ref is UNDEF:
                return UNDEF
            if is_tag(ref, "opq"):
                return Opq(("*", ref.parts[0]), None)
            return ref
        v = self.root(st, ref.parts[0])
        return self.walk(st, v, ref.parts[1])

    def walk(self, st, v, path):
        for n, e in enumerate(path):
            v = self.step(st, v, e)
        return v

    def step(self, st, v, e):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, D):
            return self.dmap(lambda x: self.step(st, x, e), v)
        k = e[0]
        if k == "*":
            return self.read(st, v)
        if k == "rp":
            if not is_tag(v, "ref"):
                raise Unsupported("stretch of %s" % v.tag)
            w = window(v)[1]
            return w[e[1]] if w is not None else ZERO if e[1] == 0 else self.seq_len(self.read(st, v))
        if k == "f":
            if v.tag in ("struct", "variant"):
                return v.parts[1][e[1]] if e[1] < len(v.parts[1]) else UNDEF
            if v.tag == "closure":
                return v.parts[1][e[1]] if e[1] < len(v.parts[1]) else UNDEF
            if v.tag == "opq":
                return self.sym(e[2], (v.parts[0], "f", e[1])) if len(e) > 2 and isinstance(e[2], dict) else \
                    (self.sym(untj(e[2]), ("fld", v.parts[0], e[1])) if len(e) > 2 else Opq(("fld", v.parts[0], e[1]), None))
            if v.tag == "lit" or is_seq(v):
                return v      # transparent wrappers (MaybeUninit, ManuallyDrop, ...)
            if v.tag in ("it", "ref", "refv"):
                return v
            raise Unsupported("field %s of %s" % (e, v.tag))
        if k == "d":
            if v.tag == "enum":
                for i, fs in v.parts[2]:
                    if i == e[1]:
                        return V("variant", i, fs)
                return UNDEF
            if v.tag == "opq":
                return v
            raise Unsupported("downcast of %s" % v.tag)
        if k == "i":
            if is_seq(v):
                return self.seq_at(v, e[1], st)
            if v.tag == "struct":   # vector component by constant index
                c = e[1].const()
                if c is not None:
                    return v.parts[1][int(c)]
            return Opq(("at", v, e[1]), None)
        if k == "ss":
            if is_seq(v):
                return self.subseq(v, e[1], e[2])
            return V("sub", v, e[1], e[2])
        if k == "a":
            return v.parts[1][e[1]]
        raise Unsupported("projection %s" % (e,))

    def subseq(self, s, lo, n):
        if isinstance(s, V) and s.tag == "lit" and isinstance(lo, Rat) and isinstance(n, Rat) and lo.const() is not None and n.const() is not None:
            a, b = int(lo.const()), int(n.const())
            return lit(s.parts[0][a:a + b])
        if isinstance(s, V) and s.tag == "sub":
            return V("sub", s.parts[0], num2(lambda a, b: a + b, s.parts[1], lo), n)
        if lo == ZERO and self.seq_len(s) == n:
            return s
        return V("sub", s, lo, n)

    def write(self, st, ref, val, g=True):
        if isinstance(ref, D):
            for asg, leaf in leaves_guarded(ref):
                if leaf is UNDEF:
                    continue
                old = self.read(st, leaf)
                self.write(st, leaf, ite(asg, val, old))
            return
        if is_tag(ref, "ref"):
            r = ref.parts[0]
            st[r] = self.upd(st, self.root(st, r), ref.parts[1], val)
            return
        if ref is UNDEF or is_tag(ref, "refv"):
            return
        raise Unsupported("write through %s" % (ref,))

    def upd(self, st, v, path, val):
        if not path:
            return val
        e, rest = path[0], path[1:]
        if isinstance(v, D):
            return self.dmap(lambda x: self.upd(st, x, path, val), v)
        k = e[0]
        if k == "*":
            self.write(st, self.deref_extend(v, rest), val)
            return v
        if k == "rp":
            base, w = window(v)
            w = list(w) if w is not None else [ZERO, self.seq_len(self.read(st, v))]
            w[e[1]] = val
            return V("ref", v.parts[0], base + (("ss", w[0], w[1]),), *v.parts[2:])
        if v is UNDEF:
            if k == "f":
                fs = [UNDEF] * (e[1] + 1)
                fs[e[1]] = self.upd(st, UNDEF, rest, val)
                return V("struct", "?", tuple(fs))
            if k == "d":
                return self.upd(st, V("enum", "?", UNDEF, ((e[1], ()),)), path, val)
            return UNDEF
        if k == "f":
            if v.tag in ("struct", "variant", "closure"):
                fs = list(v.parts[1])
                while len(fs) <= e[1]:
                    fs.append(UNDEF)
                fs[e[1]] = self.upd(st, fs[e[1]], rest, val)
                return V(v.tag, v.parts[0], tuple(fs), *v.parts[2:])
            if is_seq(v) or v.tag == "opq":
                return self.upd(st, v, rest, val) if is_seq(v) else Opq(("upd", v.parts[0], key_of(val)), v.parts[1])
        if k == "d" and v.tag == "enum":
            out = dict(v.parts[2])
            pv = V("variant", e[1], out.get(e[1], ()))
            pv = self.upd(st, pv, rest, val)
            out[e[1]] = pv.parts[1]
            return Enum(v.parts[0], v.parts[1], out)
        if k == "i":
            if is_seq(v):
                new = self.upd(st, self.seq_at(v, e[1], st), rest, val) if rest else val
                return self.seq_set(v, e[1], new)
            if v.tag == "struct" and isinstance(e[1], Rat) and e[1].const() is not None:
                fs = list(v.parts[1])
                j = int(e[1].const())
                fs[j] = self.upd(st, fs[j], rest, val)
                return V("struct", v.parts[0], tuple(fs))
            return Opq(("upd", v, e[1], key_of(val)), None)
        if k == "ss":
            if rest and rest[0][0] == "i":
                return self.upd(st, v, (("i", num2(lambda a, b: a + b, rest[0][1], e[1])),) + tuple(rest[1:]), val)
            return Opq(("updslice", v, key_of(val)), None)
        if k == "a":
            fs = list(v.parts[1])
            fs[e[1]] = self.upd(st, fs[e[1]], rest, val)
            return V(v.tag, v.parts[0], tuple(fs), *v.parts[2:])
        raise Unsupported("update %s of %s" % (e, v))

    def seq_set(self, s, i, val):
        if isinstance(s, D) or isinstance(i, D):
            return lift2(lambda x, y: self.seq_set(x, y, val), s, i)
        if s is UNDEF or i is UNDEF:
            return UNDEF
        if isinstance(s, V) and s.tag == "lit" and isinstance(i, Rat) and i.const() is not None:
            vs = list(s.parts[0])
            c = int(i.const())
            if 0 <= c < len(vs):
                vs[c] = val
                return lit(vs)
        if isinstance(s, V) and s.tag == "lit" and isinstance(i, Rat):
            return lit([ite(cmp_eq(i, C(k)), val, x) for k, x in enumerate(s.parts[0])])
        # last element of a concatenation
        if isinstance(s, V) and s.tag == "cat" and isinstance(i, Rat):
            last = s.parts[0][-1]
            n = self.seq_len(s)
            if is_tag(last, "lit") and isinstance(n, Rat):
                d = (n - i).const()
                m = len(last.parts[0])
                if d is not None and 1 <= d <= m:
                    vs = list(last.parts[0])
                    vs[m - int(d)] = val
                    return cat(s.parts[0][:-1] + (lit(vs),))
        return V("upd", s, i, val)

    def deref_extend(self, v, rest):
        if isinstance(v, D):
            return lift(lambda r: self.deref_extend(r, rest), v)
        if is_tag(v, "ref"):
            return V("ref", v.parts[0], v.parts[1] + tuple(rest))
        if v is UNDEF:
            return UNDEF
        if is_tag(v, "refv"):
            return V("refv", self.walk({}, v.parts[0], rest))
        return v if not rest else Opq(("path", key_of(v), repr(rest)), None)

    # ---- places
    def place_ref(self, fr, st, pl):
        """Ref for a MIR place"""
        cur = Ref(("L", fr.id, pl["l"]))
        for e in pl["p"]:
            k = e[0]
            if k == "*":
                cur = self.read(st, cur)
                if isinstance(cur, V) and cur.tag not in ("ref", "refv", "opq"):
                    # Box: transparent
                    pass
                if not (isinstance(cur, (D,)) or is_tag(cur, "ref") or is_tag(cur, "refv")):
                    if is_seq(cur) or is_tag(cur, "struct"):
                        # deref of an owned box: keep addressing the box's place
                        cur = prev
                prev = cur
                continue
            if k == "f":
                pe = ("f", e[1])
                base = self.read(st, cur)
                if is_tag(base, "opq"):
                    pe = ("f", e[1], tjson(self.rty(e[2], fr.env)))
            elif k == "i":
                pe = ("i", self.read(st, Ref(("L", fr.id, e[1]))))
            elif k == "ci":
                base = self.read(st, cur)
                if e[3]:
                    pe = ("i", num2(lambda a, b: a - b, self.seq_len(base), C(e[1])))
                else:
                    pe = ("i", C(e[1]))
            elif k == "ss":
                base = self.read(st, cur)
                n = self.seq_len(base)
                if e[3]:
                    ln = num2(lambda a, b: a - b, n, C(e[1] + e[2]))
                else:
                    ln = C(e[2] - e[1])
                pe = ("ss", C(e[1]), ln)
            elif k == "d":
                pe = ("d", e[1])
            else:
                raise Unsupported("place %s" % (e,))
            cur = self.extend(st, cur, pe)
            prev = cur
        return cur

    def extend(self, st, cur, pe):
        if isinstance(cur, D):
            return lift(lambda r: self.extend(st, r, pe), cur)
        if is_tag(cur, "ref"):
            p = cur.parts[1]
            if p and p[-1][0] == "ss" and pe[0] == "i":
                return V("ref", cur.parts[0], p[:-1] + (("i", num2(lambda a, b: a + b, pe[1], p[-1][1])),))
            if p and p[-1][0] == "ss" and pe[0] == "ss":
                return V("ref", cur.parts[0], p[:-1] + (("ss", num2(lambda a, b: a + b, pe[1], p[-1][1]), pe[2]),))
            return V("ref", cur.parts[0], p + (pe,))
        if is_tag(cur, "refv"):
            return V("refv", self.step(st, cur.parts[0], pe))
        if cur is UNDEF:
            return UNDEF
        return V("refv", self.step(st, cur, pe))

    def operand(self, fr, st, o):
        k = o["k"]
        if k in ("cp", "mv"):
            pl = o["pl"]
            if not pl["p"]:
                return self.root(st, ("L", fr.id, pl["l"]))
            return self.read(st, self.place_ref(fr, st, pl))
        if k == "c":
            return self.constant(fr, st, o)
        return False        # runtime checks (overflow, ub): assumed off

    def constant(self, fr, st, o):
        t = o["ty"]
        if "fn" in o:
            f = o["fn"]
            return FnItem(f.get("r") or f["n"], f.get("m"), HashD(o["fn"]))
        if "int" in o:
            if t.get("n") == "bool":
                return o["int"] != "0"
            return C(int(o["int"]))
        if "float" in o:
            try:
                return C(Fraction(o["float"]))
            except ValueError:
                return self.scalar(("const", o["float"]))
        if "promoted" in o:
            f = self.crate.fns.get(o["pdef"])
            body = f.j["promoted"][o["promoted"]]
            return self.eval_promoted(fr, f, o["promoted"], body, st)
        if "uneval" in o:
            n = o["uneval"]
            m = n.rsplit("::", 1)[-1]
            cst = {"ZERO": 0, "ONE": 1, "TWO": 2, "THREE": 3}.get(m)
            if cst is not None and "vector_traits" in n:
                return C(cst)
            f = self.crate.fns.get(n)
            if f is not None:
                rv, _, _ = self.eval_body(f, [], st, True, fr.env, fr.depth + 1)
                return rv
            if t["k"] == "prim" and t["n"] in ("usize", "u8", "u32", "u64"):
                return A(atom(("const", n), "int", True))
            return self.sym(self.rty(t, fr.env), ("const", n))
        if t["k"] == "ref" and t["t"].get("n") == "str":
            return V("refv", Str(o["s"]))
        if t["k"] == "tuple" and not t["a"]:
            return UNIT
        if t["k"] == "closure":
            return Closure(t["n"], (), HashD(fr.env))
        if t["k"] == "fndef":
            return FnItem(t["n"], None, HashD(t))
        if t["k"] == "adt":
            vs = self.variants(t["n"])
            m = o["s"].rsplit("::", 1)[-1]
            if vs and m in vs:
                return Enum(t["n"], C(vs.index(m)), {vs.index(m): ()})
            if self.crate.adts.get(t["n"], {}).get("kind") == "Struct" and not self.adt_fields(t, 0):
                return Struct(t["n"])
        return Opq(("const", o["s"]), None)

    def eval_promoted(self, fr, f, i, body, st):
        from mir import Fn
        nm = "%s::promoted[%d]" % (f.name, i)
        pf = self.crate.fns.get(nm)
        if pf is None:
            j = dict(f.j)
            j.update(body)
            j["n"], j["disp"], j["promoted"] = nm, nm, []
            pf = Fn(j)
            self.crate.fns[nm] = pf
        st2 = {}
        rv, st3, _ = self.eval_body(pf, [], st2, True, fr.env, fr.depth + 1, keep=True)
        for r, v in st3.items():
            st.setdefault(r, v)
        return rv

    # ---- statements
    def rvalue(self, fr, st, rv, g):
        k = rv["k"]
        if k == "use":
            return self.operand(fr, st, rv["o"])
        if k == "ref" or k == "rawptr":
            pl = rv["pl"]
            return self.place_ref(fr, st, pl)
        if k == "bin":
            a, b = self.operand(fr, st, rv["a"]), self.operand(fr, st, rv["b"])
            return self.binop(rv["op"], a, b, rv["t"])
        if k == "un":
            a = self.operand(fr, st, rv["a"])
            op = rv["op"]
            if op == "Not":
                if isinstance(a, bool) or isinstance(a, D):
                    return g_not(a)
                return Opq(("not", a), None)
            if op == "Neg":
                return num1(lambda x: -x, a)
            if op == "PtrMetadata":
                v = self.read(st, a)
                if is_seq(v) or isinstance(v, D):
                    return self.seq_len(v)
                return A(atom(("len", key_of(v)), "int", True))
            return Opq((op, key_of(a)), None)
        if k == "discr":
            v = self.read(st, self.place_ref(fr, st, rv["pl"]))
            return self.discr(v)
        if k == "agg":
            ops = [self.operand(fr, st, x) for x in rv["ops"]]
            ak = rv["ak"]
            if ak == "tuple":
                return Struct("tuple", *ops)
            if ak == "array":
                return lit(ops)
            if ak == "adt":
                n = rv["n"]
                vs = self.variants(n)
                a = self.crate.adts.get(n)
                if (a is not None and a["kind"] == "Enum") or n in STD_VARIANTS:
                    return Enum(n, C(rv["v"]), {rv["v"]: tuple(ops)})
                return Struct(n, *ops)
            if ak == "closure":
                return Closure(rv["n"], ops, HashD(fr.env))
            return Opq(("agg", ak) + tuple(key_of(x) for x in ops), None)
        if k == "repeat":
            v = self.operand(fr, st, rv["o"])
            try:
                n = int(str(rv["n"]).replace("_usize", ""))
            except ValueError:
                n = 99
            if n <= 16:
                return lit([v] * n)
            return V("comp", C(n), atom(("bk", 0), "int", True), True, v)
        if k == "cast":
            a = self.operand(fr, st, rv["o"])
            ck = rv["ck"]
            if ck.startswith("PointerCoercion") or ck in ("PtrToPtr", "Transmute", "Subtype", "BoxDerefTransmute"):
                return a
            if ck in ("IntToInt", "IntToFloat", "FloatToFloat"):
                if isinstance(a, bool):
                    return C(1 if a else 0)
                if isinstance(a, D):
                    return lift(lambda x: C(1 if x else 0) if isinstance(x, bool) else x, a)
                if is_tag(a, "enum"):
                    return self.discr(a)
                return a
            if ck == "FloatToInt":
                return num1(lambda x: fnapp("trunc", x, sort="int"), a)
            return Opq(("cast", ck, key_of(a)), None)
        if k == "tls":
            return Opq(("tls", rv["n"]), None)
        raise Unsupported("rvalue %s" % rv)

    def discr(self, v):
        if isinstance(v, D):
            return self.dmap(self.discr, v)
        if v is UNDEF:
            return UNDEF
        if is_tag(v, "enum"):
            d = v.parts[1]
            if v.parts[0] == ORD:
                return lift(lambda r: r - ONE, d)
            return d
        return A(atom(("discr", key_of(v)), "int"))

    def binop(self, op, a, b, t=None):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            f = {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y}[base]
            r = num2(f, a, b)
            if op.endswith("WithOverflow"):
                if base == "Sub" and t and t.get("k") == "prim" and t["n"][0] == "u":
                    return Struct("tuple", r, compare("Lt", a, b))
                return Struct("tuple", r, False)
            return r
        if base == "Div":
            ti = t and t.get("k") == "prim" and t["n"][0] in "ui"
            return num2(idiv if ti else rdiv, a, b)
        if base == "Rem":
            return num2(lambda x, y: irem(x, y), a, b)
        if base in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return compare(base, a, b)
        if base in ("BitAnd", "BitOr", "BitXor"):
            if isboolish(a) and isboolish(b):
                if base == "BitAnd":
                    return g_and(a, b)
                if base == "BitOr":
                    return g_or(a, b)
                return g_or(g_and(a, g_not(b)), g_and(b, g_not(a)))
        if base == "Cmp":
            return ordering(a, b)
        if isnum(a) and isnum(b):
            return num2(lambda x, y: fnapp(base, x, y, sort="int"), a, b)
        return Opq((base, key_of(a), key_of(b)), None)

    # ---- blocks
    def exec_block(self, fr, bi, g, st):
        """returns list of (succ, g, st) ; succ may be 'ret'"""
        b = fr.fn.blocks[bi]
        for s in b["s"]:
            if s["k"] == "=":
                v = self.rvalue(fr, st, s["rv"], g)
                pl = s["pl"]
                if not pl["p"]:
                    st[("L", fr.id, pl["l"])] = v
                else:
                    self.write(st, self.place_ref(fr, st, pl), v)
            elif s["k"] == "setd":
                ref = self.place_ref(fr, st, s["pl"])
                v = self.read(st, ref)
                if is_tag(v, "enum"):
                    self.write(st, ref, V("enum", v.parts[0], C(s["v"]), v.parts[2]))
        t = b["t"]
        k = t["k"]
        if k in ("goto", "drop"):
            return [(t["t"], g, st)]
        if k == "return":
            return [("ret", g, st)]
        if k == "switch":
            v = self.operand(fr, st, t["o"])
            return self.do_switch(fr, t, v, g, st)
        if k == "assert":
            c = self.operand(fr, st, t["o"])
            if not isboolish(c):
                c = True
            if not t["e"]:
                c = g_not(c)
            bad = g_and(g, g_not(c))
            if bad is not False:
                self.panics.append((bad, t["m"], t["sp"], fr.fn.disp))
            # a failed bounds check aborts: continue as if it held, without recording it in the guard
            return [(t["t"], g, st)]
        if k == "call":
            return self.do_call(fr, t, g, st)
        if k in ("unreachable", "resume", "abort"):
            return []
        raise Unsupported("terminator %s" % k)

    def do_switch(self, fr, t, v, g, st):
        out = []
        if v is UNDEF:
            v = Opq(("undef",), None)
        isbool = t["ty"].get("n") == "bool"
        rest = True
        ty = t["ty"].get("n", "")
        for val, tgt in t["ts"]:
            val = int(val)
            if ty.startswith("i"):
                bits = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}[ty]
                if val >= 1 << (bits - 1):
                    val -= 1 << bits
            if isbool:
                c = v if val else g_not(v)
                if not isboolish(v):
                    c = boolvar(("sw", key_of(v), val))
            elif isnum(v):
                c = cmp_eq(v, C(val))
            else:
                c = boolvar(("sw", key_of(v), val))
            c = g_and(rest, c)
            rest = g_and(rest, g_not(c))
            ng = self.conj(g, c)
            if ng is not False:
                out.append((tgt, ng, st))
        ng = self.conj(g, rest)
        if ng is not False and t["else"] not in fr.fn.cfg.unreach:
            out.append((t["else"], ng, st))
        if len(out) > 1:
            out = [(a, b, dict(c)) for a, b, c in out]
        return out

    def conj(self, g, c):
        c = restrict(c, g) if isinstance(c, D) and isinstance(g, D) else c
        if c is UNDEF:
            return False
        r = g_and(g, c)
        return tidy(r)

    def run_cfg(self, fr, blocks, entry, g, st, header=None):
        """returns (back, exits): back=[(g,st)], exits=[(src, target, g, st)]"""
        cfg = fr.fn.cfg
        pending = {entry: [(None, g, st)]}
        back, exits = [], []
        done = set()
        order = [b for b in cfg.rpo if b in blocks]
        for b in order:
            if b in done or b not in pending:
                continue
            inc = pending.pop(b)
            gg, ss = merge_states([(x[1], x[2]) for x in inc])
            if gg is False:
                continue
            if b in cfg.loops and b != header:
                body = cfg.loops[b]
                done |= body
                outs = self.exec_loop(fr, b, body, gg, ss)
            else:
                outs = [(b, tgt, g2, s2) for tgt, g2, s2 in self.exec_block(fr, b, gg, dict(ss))]
            for src, tgt, g2, s2 in outs:
                if g2 is False:
                    continue
                if tgt != "ret":
                    s2 = self.live_part(fr, tgt, s2)
                if tgt == header and header is not None:
                    back.append((g2, s2))
                elif tgt == "ret" or tgt not in blocks:
                    exits.append((src, tgt, g2, s2))
                else:
                    pending.setdefault(tgt, []).append((src, g2, s2))
        return back, exits

    def live_part(self, fr, tgt, st):
        """drop this frame's locals that are not read again"""
        live, taken = fr.fn.live[tgt]
        i = fr.id
        out = {r: v for r, v in st.items() if r[0] != "L" or r[1] != i or r[2] in live}
        rest = {r for r in st if r[0] == "L" and r[1] == i and r[2] in taken}
        new = list(out.values()) if rest else ()
        while rest and new:
            # locals still reachable through references
            hit = {r for v in new for r in refs_in(v) if r in rest}
            rest -= hit
            new = []
            for r in hit:
                out[r] = st[r]
                new.append(st[r])
        return out

    def exec_loop(self, fr, h, body, g, st):
        sp = fr.fn.blocks[h]["t"]["sp"]

        def bodyfn(g2, st2):
            back, exits = self.run_cfg(fr, body, h, g2, st2, header=h)
            return back, [self.advance(fr, x) for x in exits]
        return [(src, tgt, g2, s2) for (src, tgt), g2, s2 in
                [((x[0], x[1]), x[2], x[3]) for x in self.run_loop(g, st, bodyfn, (fr.fn.disp, sp))]]

    def advance(self, fr, x):
        """follow a loop exit through straight-line blocks, so that exits doing the same meet"""
        src, tgt, g, s = x
        cfg = fr.fn.cfg
        for _ in range(12):
            if tgt == "ret" or tgt in cfg.loops:
                break
            b = fr.fn.blocks[tgt]
            if b["t"]["k"] not in ("goto", "drop") or len(b["s"]) > 6:
                break
            s = dict(s)
            ((tgt, g, s),) = self.exec_block(fr, tgt, g, s)
            s = self.live_part(fr, tgt, s)
        return src, tgt, g, s

    # ---- function evaluation
    def eval_body(self, fn, args, st, g, env, depth, keep=False):
        self.nframe += 1
        fr = Frame(fn, self.nframe, env, depth)
        if fn.j.get("spread") is not None and len(args) != fn.argc:
            pass
        for i, a in enumerate(args):
            st[("L", fr.id, i + 1)] = a
        self.stack.append(fn.name)
        for i, t in enumerate(fn.locals):
            self.roottypes[("L", fr.id, i)] = (t, env)
        if fn.cfg.irreducible:
            raise Unsupported("irreducible control flow in %s" % fn.disp)
        back, exits = self.run_cfg(fr, set(fn.cfg.rpo), 0, g, st)
        self.stack.pop()
        rets = [(x[2], x[3]) for x in exits if x[1] == "ret"]
        if not rets:
            return UNDEF, st, False
        g2, st2 = merge_states(rets)
        rv = st2.get(("L", fr.id, 0), UNDEF)
        rv = restrict_deep(rv, g2)
        # drop the frame's locals (refs into it do not outlive the call)
        if not keep:
            st2 = {r: v for r, v in st2.items() if not (r[0] == "L" and r[1] == fr.id)}
        return rv, st2, g2

    def analyse(self, fn, argnames=None, guard=True):
        """evaluate fn on symbolic arguments; returns (value, state, guard, args)"""
        self.top = fn
        args = []
        st = {}
        for i in range(fn.argc):
            nm = argnames[i] if argnames else "a%d" % i
            t = self.rty(fn.locals[i + 1], {})
            args.append(self.sym(t, (nm,)))
        rv, st2, g = self.eval_body(fn, list(args), st, guard, {}, 0)
        return rv, st2, g, args

    def do_call(self, fr, t, g, st):
        import models
        import maps, text
        fo = t["f"]
        args = [self.operand(fr, st, a) for a in t["args"]]
        c = Call()
        c.args, c.frame, c.st, c.g, c.sp = args, fr, st, g, t["sp"]
        c.rty = self.place_type(fr, t["d"])
        c.atys = [self.op_type(fr, a) for a in t["args"]]
        if "fn" in fo:
            f = fo["fn"]
            c.ref = f
            v = models.call(self, c)
        else:
            fv = self.operand(fr, st, fo)
            c.ref = None
            v = models.call_value(self, c, fv, args)
        if t["t"] is None or c.g is False or v is models.DIVERGE:
            return []
        d = t["d"]
        if not d["p"]:
            c.st[("L", fr.id, d["l"])] = v
        else:
            self.write(c.st, self.place_ref(fr, c.st, d), v)
        return [(t["t"], c.g, c.st)]

    def place_type(self, fr, pl):
        t = fr.fn.locals[pl["l"]]
        for e in pl["p"]:
            if e[0] == "f":
                t = e[2]
            elif e[0] == "*":
                t = t.get("t", t)
            elif e[0] == "d":
                pass
            else:
                t = t.get("t", t)
        return self.rty(t, fr.env)

    def op_type(self, fr, o):
        if "pl" in o:
            return self.place_type(fr, o["pl"])
        return self.rty(o["ty"], fr.env) if "ty" in o else {"k": "other", "n": "?"}

    # ---- loops
    def run_loop(self, g, st, bodyfn, tag):
        """summarise a loop.  bodyfn(g, st) -> (back, exits).  Returns exits with final states."""
        self.nloop += 1
        lid = self.nloop
        M = {}
        nl, np_, nc = len(self.loops), len(self.panics), len(self.calls)
        if self.inst:
            # inputs of fixed size: rounds in sequence
            outs = self.peel(g, st, bodyfn)
            if outs is not None:
                return outs
            del self.loops[nl:]
            del self.panics[np_:]
            del self.calls[nc:]
        for rnd in range(40):
            del self.loops[nl:]
            del self.panics[np_:]
            del self.calls[nc:]
            sh = dict(st)
            for (root, path), phi in M.items():
                sh[root] = self.upd(sh, self.root(sh, root), path, phi)
                if root[0] == "ext":
                    self.root(st, root)
            back, exits = bodyfn(g, dict(sh))
            if not back:
                break
            gb, sb = merge_states(back)
            new = []
            for root in list(sh) + [r for r in sb if r[0] == "ext" and r not in sh]:
                v0, v1 = self.root(sh, root), sb.get(root)
                if v1 is None or v0 is v1 or same(v0, v1):
                    continue
                self.diff(v0, restrict_deep(v1, gb), (), lambda p: new.append((root, p)))
            new = [x for x in new if x not in M]
            if not new:
                break
            for root, path in new:
                # coarser entries absorb finer ones
                for o in [o for o in M if o[0] == root and o[1][:len(path)] == path]:
                    del M[o]
                init = self.walk(st, self.root(st, root), path)
                nxt = self.walk(sb, self.root(sb, root), path)
                M[(root, path)] = self.mkphi(lid, len(M), root, path, init, nxt)
        else:
            raise Unsupported("loop does not stabilise at %s" % (tag,))
        rec = {"tag": tag, "id": lid, "guard": g, "exits": exits, "st0": st}
        self.loops.append(rec)
        if not back:
            rec["carried"] = []
            return exits
        # carried leaves
        carried = []
        for (root, path), phi in M.items():
            init = self.walk(st, self.root(st, root), path)
            nxt = restrict_deep(self.walk(sb, self.root(sb, root), path), gb)
            carried.append([root, path, phi, init, nxt])
        rec["carried"] = carried
        rec["gb"] = gb
        k = A(atom(("k", lid), "int", True))
        kid = atom(("k", lid))
        rec["k"] = kid
        amap = {}
        for root, path, phi, init, nxt in carried:
            if isinstance(phi, Rat) and isinstance(nxt, Rat):
                d = (nxt - phi).const()
                if d is not None and d != 0 and isinstance(init, Rat):
                    (pid,) = phi.atoms()
                    amap[pid] = init + C(d) * k
        rec["ind"] = amap
        if not amap:
            # no induction variable: results stay opaque loop symbols
            rec["N"] = None
            return self.unswitch(g, st, bodyfn, tag, lid, carried, gb, exits) or self.peel(g, st, bodyfn) or self.opaque_loop(lid, carried, gb, exits)
        S = Subst(self, amap)
        rest = [[r, p, phi, init, S(nxt)] for r, p, phi, init, nxt in carried
                if not (isinstance(phi, Rat) and len(phi.atoms()) == 1 and list(phi.atoms())[0] in amap)]
        gbs = restrict(S(gb), S(g))
        ex = [(x[0], x[1], restrict(S(x[2]), S(g)), x[3]) for x in exits]
        # trip count
        phat = set()
        flatphi = []
        for r, p, phi, init, nxt in rest:
            fp = flat(phi)
            flatphi.append(fp)
            for leaf in fp:
                phat.add(leaf)
        rec["rest"] = rest
        N = lim = None
        cand = set()
        for gg in [gbs] + [x[2] for x in ex]:
            cand |= {v for v in vars_of(gg) if VARS[v][0][0] == "ge"}
        for v in sorted(cand):
            L, t = dict(VARS[v][0][1]), VARS[v][0][2]
            a = L.get(((kid, 1),), 0)
            if a == 0 or any(kid in dict(m) for m in L if m != ((kid, 1),)):
                continue
            r = Rat({m: c for m, c in L.items() if m != ((kid, 1),)})
            if any(x in phat for x in atoms_in(r)) or kid in atoms_in(r) or any(
                    isinstance(x, V) and contains_seq(r, x) for x in phat):
                continue
            lt = mk(v, (False, True))
            if a > 0 and g_and(gbs, lt) is False:
                # continue requires L < t : a*k + r <= t-1
                n = C(t) - r
                if a == 1:
                    N, lim = n, g_not(lt)
            elif a < 0 and g_and(gbs, g_not(lt)) is False:
                # continue requires -|a| k + r >= t
                n = r - C(t) + ONE
                if a == -1:
                    N, lim = n, lt
            if N is not None:
                # prefer a limit that coincides with an exit condition
                if any(g_and(x[2], lim) is False for x in ex):
                    break
                N = lim = None
        rec["N"] = N
        if N is None:
            return self.unswitch(g, st, bodyfn, tag, lid, carried, gb, exits) or self.peel(g, st, bodyfn) or self.opaque_loop(lid, carried, gb, exits)
        counted = [i for i, x in enumerate(ex) if g_and(x[2], lim) is False]
        early = [i for i, x in enumerate(ex) if i not in counted]
        # early exits to the same place in the same state are one exit
        uniq = []
        for i in early:
            for j in uniq:
                if ex[i][1] == ex[j][1] and same_state(ex[i][3], ex[j][3]):
                    ex[j] = (ex[j][0], ex[j][1], g_or(ex[j][2], ex[i][2]), ex[j][3])
                    break
            else:
                uniq.append(i)
        drop = set(early) - set(uniq)
        early = uniq
        # all of ¬lim must leave the loop through counted exits (header test)
        econd = [restrict(ex[i][2], lim) for i in early]
        dep = set()
        for c in econd:
            dep |= atoms_in(c) & phat_ids(phat)
            dep |= {x for x in phat if isinstance(x, V) and contains_seq(c, x)}
        if dep and N.const() is not None and N.const() <= self.PEEL:
            got = self.peel(g, st, bodyfn)
            if got is not None:
                return got
        rec["counted"], rec["early"], rec["econd"] = counted, early, econd
        bk = self.bound(lid, [gbs] + econd + [x[4] for x in rest])
        bkat = A(bk)
        outs = []
        if early and not dep:
            cc = g_any(econd)
            cb = zcanon(self, Subst(self, {kid: bkat})(cc))
            lam = V("lam", N, bk, cb)
            exists = mkexists(lam)
            first = mkfirst(lam)
            rec["search"] = (lam, exists, first)
        elif early:
            exists = first = None
        else:
            exists, first = False, None
        # fold values
        oid = "%d.%s" % (lid, self.loop_digest(carried, gb, exits)) if dep else lid
        foldmap = self.folds(lid, rest, flatphi, N, kid, bk, gbs, lim, early, econd, dep)
        rec["foldmap"] = foldmap
        Sf, shared = None, []
        for i, x in enumerate(exits):
            gx, sx = x[2], x[3]
            if i in drop:
                continue
            if i in counted:
                am = dict(amap)
                Sk = Subst(self, {kid: N})
                am = {p: Sk(v) for p, v in am.items()}
                fm = foldmap["end"]
                if fm is None:
                    am2, vm2 = self.opaque_exit(oid, rest, flatphi, i)
                else:
                    am2, vm2 = fm
                am.update(am2)
                am[kid] = N
                S2 = Subst(self, am, vm2)
                gex = g if exists is False else (self.conj(g, g_not(exists)) if exists is not None
                                                 else self.conj(g, boolvar(("loopend", oid))))
                # conditions other than the limit are irrelevant at the counted exit
                outs.append((x[0], x[1], gex, substate(S2, sx, sh)))
            else:
                if exists is not None and exists is not False:
                    am = {p: Subst(self, {kid: first})(v) for p, v in amap.items()}
                    fm = foldmap["first"]
                    if fm is None:
                        am2, vm2 = self.opaque_exit(oid, rest, flatphi, i)
                    else:
                        am2, vm2 = fm
                    am.update(am2)
                    am[kid] = first
                    S2 = Subst(self, am, vm2)
                    j = early.index(i)
                    if len(early) == 1:
                        gi = exists
                    else:
                        if Sf is None:
                            Sf = Subst(self, {kid: first})
                        # the early exits share out the found element among them; the last takes the rest
                        if j < len(early) - 1:
                            gi = restrict(Sf(econd[j]), Sf(g_any(econd)))
                            shared.append(gi)
                        else:
                            gi = g_not(g_any(shared))
                        gi = g_and(exists, gi)
                    # the search found this element, so the exit condition holds for it
                    s2 = substate(S2, sx, sh)
                    fact = S2(econd[j]) if any(guarded(v) for r, v in s2.items() if not (r in st and same(st[r], v))) else True
                    if isinstance(fact, D):
                        s2 = {r: v if r in st and same(st[r], v) else restrict_deep(v, fact) for r, v in s2.items()}
                    outs.append((x[0], x[1], self.conj(g, gi), s2))
                else:
                    am2, vm2 = self.opaque_exit(oid, rest, flatphi, i)
                    am = dict(am2)
                    kk = A(atom(("kexit", oid, i), "int", True))
                    am.update({p: Subst(self, {kid: kk})(v) for p, v in amap.items()})
                    am[kid] = kk
                    S2 = Subst(self, am, vm2)
                    outs.append((x[0], x[1], self.conj(g, boolvar(("loopexit", oid, i))), substate(S2, sx, sh)))
        return outs

    UNSWITCH = 3
    nunsw = 0

    def unswitch(self, g, st, bodyfn, tag, lid, carried, gb, exits):
        """a condition that does not change while the loop runs: one loop for each of its outcomes"""
        if self.nunsw >= self.UNSWITCH:
            return None
        own = set()
        for r, p, phi, init, nxt in carried:
            for leaf in flat(phi):
                if isinstance(leaf, int):
                    own.add(leaf)
                elif isinstance(leaf, V):
                    own |= {a for a in atoms_in(leaf) if isinstance(a, int)}
                else:
                    own.add(leaf)
        known = vars_of(g) if isinstance(g, D) else set()
        conds = [gb] + [x[2] for x in exits]
        # only conditions that decide when the loop ends: those above its integer limits
        cand = set()
        for c in conds:
            c = restrict(c, g)
            if isinstance(c, D):
                cand |= limit_choosers(c, own)
        cand -= known
        if not cand:
            return None
        # cases of the invariant conditions with the same residual loop conditions
        res = {tuple(restrict(c, g) for c in conds): True}
        for v in sorted(cand):
            new = {}
            for cs, gd in res.items():
                for i in range(VARS[v][1]):
                    x = mk(v, [j == i for j in range(VARS[v][1])])
                    g2 = g_and(gd, x)
                    if self.conj(g, g2) is False:
                        continue
                    r = tuple(restrict(c, x) if isinstance(c, D) else c for c in cs)
                    new[r] = g_or(new.get(r, False), g2)
            res = new
            if len(res) > 6:
                return None
        if len(res) < 2:
            return None
        outs = []
        self.nunsw += 1
        try:
            for gd in res.values():
                s = {r: restrict_deep(val, gd) for r, val in st.items()}
                outs += self.run_loop(self.conj(g, gd), s, bodyfn, tag)
        finally:
            self.nunsw -= 1
        return outs

    PEEL = 16

    def peel(self, g, st, bodyfn):
        """a loop whose number of rounds is decided by constants (a fixed-size input) is its rounds in sequence"""
        outs = []
        for i in range(self.PEEL):
            try:
                back, exits = bodyfn(g, dict(st))
            except Unsupported:
                return None
            outs += exits
            if not back:
                return outs
            if i == 0 and exits and g_any([x[2] for x in exits if x[2] is not False]) is not False and any(
                    self.plain_exit(g, x[2]) for x in exits):
                return None
            g, st = merge_states(back)
            if i >= 3 and self.inst:
                from decide import prune
                g2 = prune(g)
                if g2 is not g:
                    g = g2
                    if g is not False:
                        st = {r: restrict_deep(v, g) for r, v in st.items()}
            if g is False:
                return outs
        return None

    def plain_exit(self, g, gx):
        """leaving depends on the size of a symbolic input"""
        if not isinstance(gx, D):
            return False
        old = vars_of(g) if isinstance(g, D) else set()
        return any(VARS[v][0][0] == "ge" for v in vars_of(gx) if v not in old)

    def loop_digest(self, carried, gb, exits):
        """content of a loop: initial and next values, conditions to stay and to leave"""
        h = hashlib.sha1()
        for r, p, phi, init, nxt in carried:
            h.update(("%s|%s|%s;" % (digest(phi), digest(init), digest(nxt))).encode())
        h.update(digest(gb).encode())
        for x in exits:
            h.update(("|%s" % digest(x[2])).encode())
        return h.hexdigest()[:12]

    def opaque_loop(self, lid, carried, gb, exits):
        """values leaving a loop without closed form are named after what the loop does"""
        nid = "%d.%s" % (lid, self.loop_digest(carried, gb, exits))
        am, vm = {}, {}

        def ren(k):
            if k == ("phi", lid):
                return k
            if isinstance(k, tuple):
                if len(k) >= 2 and k[0] == "phi" and k[1] == lid:
                    return ("phi", nid) + tuple(ren(x) for x in k[2:])
                return tuple(ren(x) for x in k)
            return k
        for r, p, phi, init, nxt in carried:
            for leaf in flat(phi):
                if isinstance(leaf, int):
                    a = sys_atoms[leaf]
                    am[leaf] = A(atom(ren(a.key), a.sort, a.nonneg))
                elif isinstance(leaf, V):
                    am[("seq", leaf.parts[0])] = V("symseq", ren(leaf.parts[0]), leaf.parts[1])
                else:
                    key, n = VARS[leaf[1]]
                    vm[leaf[1]] = enumvar(ren(key[1]), n) if key[0] == "enum" else \
                        lift(lambda b: C(1 if b else 0), boolvar(ren(key[1])))
        S = Subst(self, am, vm)
        return [(x[0], x[1], S(x[2]), substate(S, x[3], None)) for x in exits]

    def bound(self, lid, vals):
        d = 0
        for v in vals:
            for a in atoms_in(v):
                if isinstance(a, int) and sys_atoms[a].key[0] in ("bk", "bphi"):
                    d = max(d, sys_atoms[a].key[1] + 1)
        return atom(("bk", d), "int", True)

    def opaque_exit(self, lid, rest, flatphi, i):
        am, vm = {}, {}
        for (r, p, phi, init, nxt), fp in zip(rest, flatphi):
            for leaf in fp:
                if isinstance(leaf, int):
                    a = sys_atoms[leaf]
                    am[leaf] = A(atom(("exitval", lid, i, leaf), a.sort, a.nonneg))
                elif isinstance(leaf, V):
                    am[("seq", leaf.parts[0])] = V("symseq", ("exitval", lid, i, leaf.parts[0]), leaf.parts[1])
                elif leaf[0] == "v":
                    key, n = VARS[leaf[1]]
                    vm[leaf[1]] = enumvar(("exitval", lid, i, leaf[1]), n) if n != 2 or key[0] == "enum" else \
                        lift(lambda b: C(1 if b else 0), boolvar(("exitval", lid, i, leaf[1])))
        return am, vm

    def folds(self, lid, rest, flatphi, N, kid, bk, gbs, lim, early, econd, dep):
        """closed forms of the carried values at the counted exit and at a search exit"""
        out = {"end": None, "first": None}
        if dep:
            return out
        depth = sys_atoms[bk].key[1]
        # leaf-level initial and next values
        leafs, inits, nexts = [], [], []
        inv = g_and(lim, g_not(g_any(econd)) if econd else True)
        for (r, p, phi, init, nxt), fp in zip(rest, flatphi):
            if is_tag(phi, "symseq"):
                leafs.append(phi)
                inits.append(init)
                nexts.append(restrict_deep(nxt, g_and(gbs, True)))
                continue
            fi, fx = flatten_like(phi, init), flatten_like(phi, nxt)
            for a, b, c in zip(fp, fi, fx):
                leafs.append(a)
                inits.append(b)
                nexts.append(restrict(c, gbs) if isinstance(c, D) else c)
        seqid = {i: leaf for i, leaf in enumerate(leafs) if isinstance(leaf, V)}
        deps = []
        for n in nexts:
            ai = atoms_in(n)
            ds = set()
            for j, leaf in enumerate(leafs):
                if isinstance(leaf, V):
                    if contains_seq(n, leaf):
                        ds.add(j)
                elif leaf in ai:
                    ds.add(j)
            deps.append(ds)
        for which in ("end", "first"):
            if which == "first" and not early:
                continue
            limit = N
            if which == "first":
                lam = None
                cc = zcanon(self, Subst(self, {kid: A(bk)})(g_any(econd)))
                limit = mkfirst(V("lam", N, bk, cc))
            am, vm = {}, {}
            for j, leaf in enumerate(leafs):
                # transitive dependency group
                grp, st_ = [j], [j]
                while st_:
                    x = st_.pop()
                    for y in sorted(deps[x]):
                        if y not in grp:
                            grp.append(y)
                            st_.append(y)
                if isinstance(leaf, V):
                    v = self.seq_fold(leaf, inits[j], nexts[j], grp, j, limit, kid, bk)
                    if v is not None:
                        am[("seq", leaf.parts[0])] = v
                        continue
                if grp == [j] and j not in deps[j]:
                    # independent of the carried state: value of the last iteration
                    last = Subst(self, {kid: num2(lambda a, b: a - b, limit, ONE)})(nexts[j])
                    val = ite(cmp_lt(ZERO, limit), last, inits[j])
                else:
                    b_am, b_vm = {kid: A(bk)}, {}
                    for q, x in enumerate(grp):
                        lx = leafs[x]
                        if isinstance(lx, int):
                            b_am[lx] = A(atom(("bphi", depth, q), sys_atoms[lx].sort, sys_atoms[lx].nonneg))
                        elif isinstance(lx, V):
                            b_am[("seq", lx.parts[0])] = V("symseq", ("bphi", depth, q), lx.parts[1])
                        else:
                            key, n = VARS[lx[1]]
                            b_vm[lx[1]] = enumvar(("bphi", depth, q, n), n) if key[0] == "enum" else \
                                lift(lambda b: C(1 if b else 0), boolvar(("bphi", depth, q)))
                    SB = SeqSubst(self, b_am, b_vm)
                    nx = tuple(zcanon(self, SB(nexts[x])) for x in grp)
                    if isinstance(leaf, int):
                        kind = ("num", sys_atoms[leaf].sort, sys_atoms[leaf].nonneg)
                    elif isinstance(leaf, V):
                        kind = ("seq", leaf.parts[1])
                    else:
                        kk, n = VARS[leaf[1]]
                        kind = ("enum", n) if kk[0] == "enum" else ("bool",)
                    val = self.mkfold(limit, bk, tuple(inits[x] for x in grp), nx, kind)
                if isinstance(leaf, int):
                    am[leaf] = val
                elif isinstance(leaf, V):
                    am[("seq", leaf.parts[0])] = val
                else:
                    if isboolish(val):
                        val = lift(lambda b: C(1 if b else 0) if isinstance(b, bool) else b, val)
                    vm[leaf[1]] = val
            out[which] = (am, vm)
        return out

    def mkfold(self, limit, bk, inits, nexts, kind, fuel=2):
        """value of the first component after limit simultaneous steps (component q is bphi(depth,q))"""
        vs = (limit,) + tuple(inits)
        if any(isinstance(v, D) for v in vs):
            memo = {}

            def go(vs):
                if not any(isinstance(v, D) for v in vs):
                    return self.mkfold(vs[0], bk, vs[1:], nexts, kind, fuel)
                r = memo.get(vs)
                if r is None:
                    t = top(*vs)
                    ch = [go(tuple(cof(v, t, i) for v in vs)) for i in range(VARS[t][1])]
                    r = dd.test(t, ch) if not any(is_seq(c) for c in ch) else self.dmap(lambda x: x, mk(t, ch))
                    memo[vs] = r
                return r
            return go(vs)
        if limit is UNDEF:
            return UNDEF
        c = limit.const()
        if c is not None and c <= 0:
            return inits[0]
        depth = sys_atoms[bk].key[1]
        inits, nexts = self.fold_consts(depth, bk, tuple(inits), tuple(nexts))
        if isinstance(inits[0], (Rat, bool)) and same(toR(inits[0]), toR(nexts[0])):
            return inits[0]
        if fuel and not any(is_seq(x) for x in inits):
            s1 = self.fold_step(depth, bk, inits, nexts, ZERO)
            S = Subst(self, {bk: A(bk) + ONE})

            def shifted():
                return tuple(zcanon(self, S(x)) for x in nexts)
            if c is not None and c == 1:
                return s1[0]
            if c is not None and c <= SMALL and c.denominator == 1 and fuel == 2:
                cur = s1
                for i in range(1, int(c)):
                    cur = self.fold_step(depth, bk, cur, nexts, C(i))
                return cur[0]
            # a first step that changes nothing is not a step
            if all(same(a, b) for a, b in zip(s1, inits)):
                return self.mkfold(limit - ONE, bk, inits, shifted(), kind, fuel - 1)
            # a flag that is settled by the first step: take that step out of the loop
            if any(not same(a, b) and isinstance(b, Rat) and isinstance(a, Rat) and a.const() is not None and
                   b.const() is not None for a, b in zip(s1, inits)) and len(inits) > 1:
                nx = shifted()
                i2, n2 = self.fold_consts(depth, bk, s1, nx)
                if len(i2) < len(s1):
                    v = self.mkfold(limit - ONE, bk, s1, nx, kind, fuel - 1)
                    return ite(int_ge0(limit - ONE), v, inits[0]) if not is_seq(v) else v
        key = V("fold", limit, bk, tuple(inits), tuple(nexts))
        if kind[0] == "num":
            return A(atom(("fold", key), kind[1], kind[2]))
        if kind[0] == "seq":
            return V("symseq", ("fold", key), kind[1])
        if kind[0] == "enum":
            return enumvar(("fold", key), kind[1])
        return lift(lambda b: C(1 if b else 0), boolvar(("fold", key)))

    def fold_step(self, depth, bk, inits, nexts, at):
        """one step of the recurrence from the given component values"""
        S = self.fold_subst(depth, bk, nexts, lambda q: inits[q])
        S.amap[bk] = at
        return tuple(zcanon(self, S(x)) for x in nexts)

    def fold_subst(self, depth, bk, nexts, f):
        """substitution of the components (f(q) -> value or None)"""
        am, vm = {}, {}
        for x in nexts:
            for a in atoms_in(x):
                if isinstance(a, int):
                    k = sys_atoms[a].key
                    if k[0] == "bphi" and k[1] == depth:
                        v = f(k[2])
                        if v is not None:
                            am[a] = v
                else:
                    k = VARS[a[1]][0]
                    if k[0] in ("bool", "enum") and k[1][0] == "bphi" and k[1][1] == depth:
                        v = f(k[1][2])
                        if v is not None:
                            vm[a[1]] = lift(lambda b: C(1 if b else 0) if isinstance(b, bool) else b, v)
        return Subst(self, am, vm)

    def fold_consts(self, depth, bk, inits, nexts):
        """drop components that never change from a constant, and unused ones; canonical component order"""
        def cst(v):
            return isinstance(v, bool) or isinstance(v, Rat) and v.const() is not None
        cand = {q for q, v in enumerate(inits) if cst(v)}
        while cand:
            S = self.fold_subst(depth, bk, nexts, lambda q: inits[q] if q in cand else None)
            nx = [S(x) for x in nexts]

            def eqc(a, b):
                f = lambda z: C(1 if z else 0) if isinstance(z, bool) else z
                return same(f(a), f(b))
            bad = {q for q in cand if not eqc(nx[q], inits[q])}
            if not bad:
                nexts = tuple(zcanon(self, x) for x in nx)
                break
            cand -= bad
        # reachable components
        def uses(x):
            out = set()
            for a in atoms_in(x):
                k = sys_atoms[a].key if isinstance(a, int) else VARS[a[1]][0]
                if not isinstance(a, int):
                    if k[0] not in ("bool", "enum"):
                        continue
                    k = k[1]
                if isinstance(k, tuple) and k and k[0] == "bphi" and k[1] == depth:
                    out.add(k[2])
            return out
        live, st = [0], [0]
        us = [uses(x) for x in nexts]
        while st:
            for y in us[st.pop()]:
                if y not in live:
                    live.append(y)
                    st.append(y)
        if any(is_seq(x) for x in inits):
            if not cand:
                return inits, nexts
        if len(live) == len(inits) and len(inits) <= 2:
            return inits, nexts

        def sig(q):
            import re as _re
            return (_re.sub(r"bphi\(\d+, \d+", "bphi(", show(inits[q])), _re.sub(r"bphi\(\d+, \d+", "bphi(", show(nexts[q])))
        order = [0] + sorted([q for q in live if q], key=sig)
        if order == list(range(len(inits))):
            return inits, nexts
        pos = {q: i for i, q in enumerate(order)}
        am, vm = {}, {}
        for q in order:
            for a in atoms_in(nexts[q]):
                if isinstance(a, int):
                    k = sys_atoms[a].key
                    if k[0] == "bphi" and k[1] == depth:
                        am[a] = A(atom(("bphi", depth, pos[k[2]]) + tuple(k[3:]), sys_atoms[a].sort, sys_atoms[a].nonneg))
                else:
                    k, n = VARS[a[1]]
                    if k[0] == "bool" and k[1][0] == "bphi" and k[1][1] == depth:
                        vm[a[1]] = lift(lambda b: C(1 if b else 0), boolvar(("bphi", depth, pos[k[1][2]]) + tuple(k[1][3:])))
                    elif k[0] == "enum" and k[1][0] == "bphi" and k[1][1] == depth:
                        vm[a[1]] = enumvar(("bphi", depth, pos[k[1][2]]) + tuple(k[1][3:]), n)
        S = Subst(self, am, vm)
        return tuple(inits[q] for q in order), tuple(zcanon(self, S(nexts[q])) for q in order)

    def rebuild_fold(self, key, kind):
        f = key[1]
        return self.mkfold(f.parts[0], f.parts[1], f.parts[2], f.parts[3], kind)

    def seq_map(self, leaf, init, nxt, limit, kid, bk):
        """in-place maps: next = phi with element k replaced by v(phi[k]) under c(phi[k])"""
        K = A(kid)
        if not isinstance(limit, Rat) or leaf.parts[1] is None:
            return None
        at = self.seq_at(leaf, K)
        val, hit = at, False
        for gg, lf in leaves_guarded(nxt):
            if lf is UNDEF or same(lf, leaf):
                continue
            if is_tag(lf, "upd") and same(lf.parts[0], leaf) and lf.parts[1] == K:
                val = ite(gg, lf.parts[2], val)
                hit = True
            else:
                return None
        if not hit:
            return None
        probe = V("comp", self.seq_len(leaf), bk, True, self.sym(untj(leaf.parts[1]), ("probe", A(bk))))
        t = SeqSubst(self, {("seq", leaf.parts[0]): probe})(val)
        if contains_seq(t, leaf) or any(i != K for i in probes(t)):
            return None
        v = SeqSubst(self, {("seq", leaf.parts[0]): init})(val)
        if contains_seq(v, leaf):
            return None
        v = zcanon(self, Subst(self, {kid: A(bk)})(v))
        out = mkcomp(limit, bk, True, v)
        n = self.seq_len(init)
        if not same(n, limit):
            out = cat((out, V("sub", init, limit, num2(lambda a, b: a - b, n, limit))))
        return out

    def seq_fold(self, leaf, init, nxt, grp, j, limit, kid, bk):
        """list builders: next = phi ++ [v(k)] under c(k)"""
        if grp != [j]:
            return None
        m = self.seq_map(leaf, init, nxt, limit, kid, bk)
        if m is not None:
            return m
        cond, val = False, UNDEF
        for gg, lf in leaves_guarded(nxt):
            if lf is UNDEF:
                continue
            if same(lf, leaf):
                continue
            if is_tag(lf, "cat") and len(lf.parts[0]) == 2 and same(lf.parts[0][0], leaf) and is_tag(lf.parts[0][1], "lit") \
                    and len(lf.parts[0][1].parts[0]) == 1:
                v = lf.parts[0][1].parts[0][0]
                if contains_seq(v, leaf):
                    return None
                val = ite(gg, v, val) if val is not UNDEF else v
                cond = g_or(cond, gg)
            else:
                return None
        if contains_seq(cond, leaf):
            return None
        SB = Subst(self, {kid: A(bk)})
        cond = zcanon(self, SB(cond))
        val = zcanon(self, restrict_deep(SB(val), cond))
        return cat((init, mkcomp(limit, bk, cond, val)))

    def diff(self, a, b, path, emit):
        if same(a, b):
            return
        if isinstance(a, V) and isinstance(b, V) and a.tag == b.tag:
            if a.tag == "struct" and a.parts[0] == b.parts[0] and len(a.parts[1]) == len(b.parts[1]):
                for i, (x, y) in enumerate(zip(a.parts[1], b.parts[1])):
                    self.diff(x, y, path + (("f", i),), emit)
                return
            if a.tag in ("it", "closure") and a.parts[0] == b.parts[0] and len(a.parts[1]) == len(b.parts[1]):
                for i, (x, y) in enumerate(zip(a.parts[1], b.parts[1])):
                    self.diff(x, y, path + (("a", i),), emit)
                return
            if a.tag == "lit" and len(a.parts[0]) == len(b.parts[0]):
                for i, (x, y) in enumerate(zip(a.parts[0], b.parts[0])):
                    self.diff(x, y, path + (("i", C(i)),), emit)
                return
            if a.tag == "ref" and a.parts[0] == b.parts[0] and window(a)[0] == window(b)[0]:
                # the same sequence, another stretch of it
                wa, wb = window(a)[1], window(b)[1]
                for i in (0, 1):
                    if wa is None or wb is None or not same(wa[i], wb[i]):
                        emit(path + (("rp", i),))
                return
        emit(path)

    def mkphi(self, lid, n, root, path, init, nxt):
        key = ("phi", lid, n)
        t = self.roottypes.get(root)
        if t is not None:
            t = self.type_at(self.rty(t[0], t[1]), path)
        elif root[0] == "ext":
            t = self.type_at(self.exttypes[root[1]], path)
        if is_tag(init, "ref") and t is not None and t.get("k") == "ref" and t.get("mut"):
            raise Unsupported("a loop changes what a mutable reference points to: %s -> %s" % (dd.show(init)[:200], dd.show(nxt)[:400]))
        if t is not None:
            v = self.sym(t, key)
            if not is_tag(v, "opq"):
                return v
        if (init is UNDEF or isinstance(init, (Rat, D, bool))) and init is not UNDEF:
            return self.like(init, key)
        if isinstance(nxt, V) and nxt.tag == "enum":
            return self.like(nxt if not isinstance(init, V) else ite(boolvar(("tmp",)), init, nxt), key)
        if init is UNDEF:
            return self.like(nxt, key)
        if is_seq(init) and is_seq(nxt):
            for s in (init, nxt):
                if s.tag == "symseq":
                    return V("symseq", key, s.parts[1])
            return V("symseq", key, None)
        return self.like(init, key)

    def type_at(self, t, path):
        for e in path:
            if t is None:
                return None
            if e[0] == "f":
                if t["k"] == "tuple":
                    t = t["a"][e[1]]
                elif self.dims(t) in (2, 3):
                    t = {"k": "prim", "n": "f64"}
                elif t["k"] == "adt" and self.crate.adts.get(t["n"], {}).get("kind") == "Struct":
                    t = self.adt_fields(t, 0)[e[1]]
                else:
                    return None
            elif e[0] == "rp":
                t = {"k": "prim", "n": "usize"}
            elif e[0] == "i" and t["k"] in ("array", "slice"):
                t = t["t"]
            elif e[0] == "i" and t["k"] == "adt" and t["n"] == VEC:
                t = t["a"][0]
            else:
                return None
        return t


class SeqSubst(Subst):
    """substitution that can also replace symbolic sequences by name"""

    def __call__(self, x):
        if isinstance(x, V) and x.tag == "symseq" and ("seq", x.parts[0]) in self.amap:
            return self.amap[("seq", x.parts[0])]
        return Subst.__call__(self, x)

    def key(self, k):
        if isinstance(k, tuple) and len(k) == 3 and k[0] == "at" and ("seq", k[1]) in self.amap:
            s = self.amap[("seq", k[1])]
            if is_tag(s, "symseq"):
                return ("at", s.parts[0], Subst.key(self, k[2]))
        return Subst.key(self, k)


Subst_call = Subst.__call__


def _subst_call(self, x):
    if isinstance(x, V) and x.tag == "symseq":
        r = self.amap.get(("seq", x.parts[0]))
        if r is not None:
            return r
    return Subst_call(self, x)


Subst.__call__ = _subst_call


def probes(v):
    """indices at which the probe sequence is read in v"""
    seen, st, out = set(), [v], set()
    while st:
        y = st.pop()
        if isinstance(y, (str, bool, int)) or y is None or y is UNDEF or y in seen:
            continue
        seen.add(y)
        if isinstance(y, Rat):
            for i in y.atoms():
                st.append(sys_atoms[i].key)
        elif isinstance(y, D):
            key = VARS[y.var][0]
            st.append(Rat(dict(key[1])) if key[0] in ("sgn", "ge") else key[1])
            st.extend(y.ch)
        elif isinstance(y, V):
            st.extend(y.parts)
        elif isinstance(y, tuple):
            if len(y) >= 2 and y[0] == "probe":
                out.add(y[1])
            st.extend(y)
    return out


def window(ref):
    """path of a reference without a trailing stretch of a sequence, and that stretch"""
    p = ref.parts[1]
    if p and p[-1][0] == "ss":
        return p[:-1], (p[-1][1], p[-1][2])
    return p, None


def contains_seq(v, leaf):
    """does v mention the symbolic sequence leaf (by name)?"""
    name = leaf.parts[0]
    seen = set()
    st = [v]
    while st:
        y = st.pop()
        if isinstance(y, (str, bool, int)) or y is None or y is UNDEF:
            continue
        if y in seen:
            continue
        seen.add(y)
        if y == name:
            return True
        if isinstance(y, Rat):
            for i in y.atoms():
                st.append(sys_atoms[i].key)
        elif isinstance(y, D):
            key = VARS[y.var][0]
            st.append(Rat(dict(key[1])) if key[0] in ("sgn", "ge") else key[1])
            st.extend(y.ch)
        elif isinstance(y, V):
            st.extend(y.parts)
        elif isinstance(y, tuple):
            st.extend(y)
    return False


def phat_ids(ph):
    return set(ph)


def flat(phi):
    """leaf atoms / condition variables of a phi value (structural order)"""
    out = []

    def go(v):
        if isinstance(v, Rat):
            out.extend(v.atoms())
        elif isinstance(v, D):
            out.append(("v", v.var))
        elif isinstance(v, V):
            if v.tag == "struct":
                for x in v.parts[1]:
                    go(x)
            elif v.tag == "enum":
                go(v.parts[1])
                for _, fs in v.parts[2]:
                    for x in fs:
                        go(x)
            elif v.tag == "lit":
                for x in v.parts[0]:
                    go(x)
            elif v.tag == "symseq":
                out.append(v)
    go(phi)
    return out


def flatten_like(phi, val):
    """leaves of val in the positions of flat(phi)"""
    out = []

    def go(p, v):
        if isinstance(p, Rat):
            out.append(v)
        elif isinstance(p, D):
            out.append(v)
        elif isinstance(p, V):
            if p.tag == "struct":
                fs = v.parts[1] if is_tag(v, "struct") and len(v.parts[1]) == len(p.parts[1]) else [UNDEF] * len(p.parts[1])
                for x, y in zip(p.parts[1], fs):
                    go(x, y)
            elif p.tag == "enum":
                if is_tag(v, "enum"):
                    go(p.parts[1], v.parts[1])
                    d = dict(v.parts[2])
                else:
                    go(p.parts[1], UNDEF)
                    d = {}
                for k, fs in p.parts[2]:
                    vf = d.get(k, [UNDEF] * len(fs))
                    for i, x in enumerate(fs):
                        go(x, vf[i] if i < len(vf) else UNDEF)
            elif p.tag == "lit":
                vs = v.parts[0] if is_tag(v, "lit") and len(v.parts[0]) == len(p.parts[0]) else [UNDEF] * len(p.parts[0])
                for x, y in zip(p.parts[0], vs):
                    go(x, y)
            elif p.tag == "symseq":
                out.append(v)
    go(phi, val)
    return out


def same_state(a, b):
    return a is b or a.keys() == b.keys() and all(same(v, b[r]) for r, v in a.items())


def substate(S, st, sh):
    out = {}
    for r, v in st.items():
        out[r] = S(v) if not isinstance(v, (bool, str)) else v
    return out


_refs = {}


def refs_in(v):
    """roots a value refers to"""
    if isinstance(v, (bool, str, int)) or v is None or v is UNDEF or isinstance(v, Rat):
        return ()
    r = _refs.get(v)
    if r is not None:
        return r
    out = set()
    if isinstance(v, V):
        if v.tag == "ref":
            out.add(v.parts[0])
        for p in v.parts:
            out.update(refs_in(p))
    elif isinstance(v, D):
        for c in v.ch:
            out.update(refs_in(c))
    elif isinstance(v, tuple):
        if len(v) == 3 and v[0] == "L":
            out.add(v)
        for p in v:
            out.update(refs_in(p))
    r = _refs[v] = frozenset(out)
    return r


def guarded(v):
    """does the value contain a choice?"""
    if isinstance(v, D):
        return True
    if isinstance(v, V):
        return any(guarded(p) for p in v.parts)
    if isinstance(v, tuple):
        return any(guarded(p) for p in v)
    return False


def restrict_deep(v, g):
    if g is True:
        return v
    if isinstance(v, D):
        return restrict(v, g)
    if isinstance(v, V):
        if v.tag == "struct" or v.tag == "variant":
            return V(v.tag, v.parts[0], tuple(restrict_deep(x, g) for x in v.parts[1]))
        if v.tag == "enum":
            d = restrict(v.parts[1], g) if isinstance(v.parts[1], D) else v.parts[1]
            out = {}
            for k, fs in v.parts[2]:
                gk = g_and(g, lift(lambda r: r == C(k), d))
                out[k] = tuple(restrict_deep(x, gk) if gk is not False else UNDEF for x in fs)
            return Enum(v.parts[0], d, out)
        if v.tag == "lit":
            return lit([restrict_deep(x, g) for x in v.parts[0]])
    return v


def vars_of(g):
    out, seen = set(), set()
    st = [g]
    while st:
        x = st.pop()
        if isinstance(x, D) and x not in seen:
            seen.add(x)
            out.add(x.var)
            st.extend(x.ch)
    return out


def leaves_guarded(d):
    """[(guard, leaf)] of a diagram"""
    if not isinstance(d, D):
        return [(True, d)]
    res = []
    for lf in leaves(d):
        res.append((lift_eq(d, lf), lf))
    return res


def lift_eq(d, lf):
    memo = {}

    def go(x):
        if not isinstance(x, D):
            return same(x, lf)
        r = memo.get(x)
        if r is None:
            r = mk(x.var, [go(c) for c in x.ch])
            memo[x] = r
        return r
    return go(d)


def limit_choosers(c, own):
    """condition variables independent of the loop that choose between different integer limits of it"""
    out, seen = set(), set()

    def dep(v):
        a = atoms_in(mk(v, range_ch(VARS[v][1])))
        return bool(a & own)

    def go(x):
        if not isinstance(x, D) or x in seen:
            return
        seen.add(x)
        if not dep(x.var):
            below = [frozenset(v for v in (vars_of(y) if isinstance(y, D) else ()) if VARS[v][0][0] == "ge" and dep(v)) for y in x.ch]
            if len(set(below)) > 1:
                out.add(x.var)
        for y in x.ch:
            go(y)
    go(c)
    return out


def range_ch(n):
    return tuple(C(i) for i in range(n))


def tidy(g):
    """integer thresholds on the same form are ordered: L>=5 implies L>=3"""
    if not isinstance(g, D):
        return g
    byL = {}
    for v in vars_of(g):
        k = VARS[v][0]
        if k[0] == "ge":
            byL.setdefault(k[1], []).append((k[2], v))
    ax = True
    for L, ts in byL.items():
        ts.sort()
        for (t1, v1), (t2, v2) in zip(ts, ts[1:]):
            lo, hi = mk(v1, (False, True)), mk(v2, (False, True))
            ax = g_and(ax, g_or(g_not(hi), lo))
    if ax is True:
        return g
    if g_and(g, ax) is False:
        return False
    return restrict(g, ax)


def zcanon(eng, v):
    """normalise the zero cell of sign tests on linear forms (x == y there): min(x,y) has one form"""
    memo = {}

    def go(x):
        if isinstance(x, D):
            r = memo.get(x)
            if r is not None:
                return r
            ch = [go(c) for c in x.ch]
            key, n = VARS[x.var]
            if key[0] == "sgn":
                p = dict(key[1])
                s = linear_elim(p)
                if s is not None:
                    ch[1] = Subst(eng, s)(ch[1])
            r = dd.test(x.var, ch)
            memo[x] = r
            return r
        if isinstance(x, V):
            if x.tag in ("struct", "variant"):
                return V(x.tag, x.parts[0], tuple(go(y) for y in x.parts[1]))
            if x.tag == "enum":
                return Enum(x.parts[0], go(x.parts[1]), {k: tuple(go(y) for y in fs) for k, fs in x.parts[2]})
            if x.tag == "lit":
                return lit([go(y) for y in x.parts[0]])
        return x
    return go(v)


def linear_elim(p):
    """p = 0 solved for its largest atom occurring linearly with a constant coefficient"""
    best = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if all(m2 == m or a not in dict(m2) for m2 in p):
                if best is None or a > best:
                    best = a
    if best is None:
        return None
    c = p[((best, 1),)]
    rest = Rat({m: -x / c for m, x in p.items() if m != ((best, 1),)})
    if best in atoms_in(rest):
        return None
    return {best: rest}


class HashD(dict):
    """hashable dictionary (by identity of contents)"""

    def __hash__(self):
        return 5

    def __eq__(self, o):
        return dict.__eq__(self, o)


_tj = {}
import json as _json


def tjson(t):
    return _json.dumps(t, sort_keys=True)


def untj(s):
    if s is None:
        return {"k": "other", "n": "?"}
    r = _tj.get(s)
    if r is None:
        r = _tj[s] = _json.loads(s)
    return r


def key_of(v):
    return v


# ------------------------------------------------------------------ scalars

def isboolish(v):
    if isinstance(v, bool):
        return True
    if isinstance(v, D):
        return all(isinstance(x, bool) or x is UNDEF for x in leaves(v))
    return False


def isnum(v):
    if isinstance(v, Rat):
        return True
    if isinstance(v, D):
        return all(isinstance(x, Rat) or x is UNDEF for x in leaves(v))
    return False


def toR(v):
    """coerce an opaque leaf to a number"""
    if isinstance(v, Rat):
        return v
    if isinstance(v, bool):
        return C(1 if v else 0)
    return A(atom(("num", v)))


def num1(f, a):
    return lift2(lambda x: f(toR(x)), a)


def num2(f, a, b):
    return lift2(lambda x, y: f(toR(x), toR(y)), a, b)


def rdiv(x, y):
    if not y.num:
        return A(atom(("div0", x)))
    return x / y


def idiv(x, y):
    if x.const() is not None and y.const() is not None and y.const() != 0:
        return C(x.const() // y.const())
    m = y.const()
    if m is not None and m > 1 and m.denominator == 1 and x.is_int() and x.is_poly() and all(c.denominator == 1 for c in x.num.values()):
        # whole multiples of the divisor move out
        q0, r = {}, {}
        for mono, c in x.num.items():
            q0[mono] = Fraction(c // m)
            r[mono] = c % m
        q0, r = Rat(q0), Rat(r)
        if not r.num or r.const() is not None:
            return q0
        return q0 + A(atom(("idiv", r, y), "int", True))
    q = rdiv(x, y)
    if y.const() is not None and q.is_int():
        return q
    return A(atom(("idiv", x, y), "int", True))


def irem(x, y):
    if x.const() is not None and y.const() is not None and y.const() != 0:
        return C(x.const() % y.const())
    m = y.const()
    if m is not None and m > 1 and m.denominator == 1 and x.is_int() and x.is_poly() and all(c.denominator == 1 for c in x.num.values()):
        return x - y * idiv(x, y)
    return A(atom(("irem", x, y), "int", True))


ROUNDING = {"ceil": lambda c: -(-c.numerator // c.denominator), "floor": lambda c: c.numerator // c.denominator,
            "trunc": lambda c: abs(c.numerator) // c.denominator * (1 if c >= 0 else -1)}


def fnapp(name, *args, sort="real"):
    if name in ROUNDING and len(args) == 1 and isinstance(args[0], Rat):
        c = args[0].const()
        if c is not None:
            return C(ROUNDING[name](Fraction(c)))
        if name == "ceil":
            return -fnapp("floor", -args[0], sort=sort)
    return A(atom((name,) + args, sort, sort == "int"))


def nonneg(n):
    """max(n, 0) for an integer"""
    if isinstance(n, D):
        return lift2(nonneg, n)
    c = n.const()
    if c is not None:
        return n if c >= 0 else ZERO
    return ite(int_ge0(n), n, ZERO)


def f_sqrt(x):
    c = x.const()
    if c is not None and c >= 0:
        from math import isqrt
        a, b = c.numerator, c.denominator
        if isqrt(a) ** 2 == a and isqrt(b) ** 2 == b:
            return C(Fraction(isqrt(a), isqrt(b)))
    return A(atom(("sqrt", x), "real", True, x))


def f_abs(x):
    s = sign_of(x)
    return lift(lambda t: x if t.const() >= 0 else -x, s)


def f_min(a, b):
    return lift2(lambda x, y: ite(cmp_le(x, y), x, y), a, b)


def f_max(a, b):
    return lift2(lambda x, y: ite(cmp_le(x, y), y, x), a, b)


def compare(op, a, b):
    if op == "Eq":
        return equal(a, b)
    if op == "Ne":
        return g_not(equal(a, b))
    if isinstance(a, V) and a.tag == "struct" and isinstance(b, V) and b.tag == "struct":
        o = ordering(a, b)
        return ord_test(op, o)
    if isboolish(a) and isboolish(b):
        a = lift(lambda x: C(1 if x else 0), a)
        b = lift(lambda x: C(1 if x else 0), b)
    if isnum(a) and isnum(b):
        if op == "Lt":
            return cmp_lt(a, b)
        if op == "Le":
            return cmp_le(a, b)
        if op == "Gt":
            return cmp_lt(b, a)
        return cmp_le(b, a)
    if is_tag(a, "enum") and is_tag(b, "enum"):
        return ord_test(op, ordering(a, b))
    return boolvar((op, a, b))


def ord_test(op, o):
    d = o.parts[1]
    ok_ = {"Eq": (1,), "Lt": (0,), "Le": (0, 1), "Gt": (2,), "Ge": (1, 2)}[op]
    return lift(lambda r: int(r.const()) in ok_, d)


def mkord(d):
    return Enum(ORD, d, {0: (), 1: (), 2: ()})


def ordering(a, b):
    if is_tag(a, "struct") and is_tag(b, "struct"):
        d = C(1)
        for x, y in reversed(list(zip(a.parts[1], b.parts[1]))):
            o = ordering(x, y).parts[1]
            d = dite(lift(lambda r: r == C(1), o), d, o) if isinstance(o, D) else (d if o == C(1) else o)
        return mkord(d)
    if is_tag(a, "enum") and is_tag(b, "enum"):
        d = ordering(a.parts[1], b.parts[1]).parts[1]
        for k, fs in a.parts[2]:
            fb = dict(b.parts[2]).get(k)
            if fb and fs:
                o = ordering(Struct("tuple", *fs), Struct("tuple", *fb)).parts[1]
                both = g_and(vis(a, k), vis(b, k))
                d = ite(both, o, d)
        return mkord(d)
    if isboolish(a) and isboolish(b):
        a = lift(lambda x: C(1 if x else 0), a)
        b = lift(lambda x: C(1 if x else 0), b)
    if isnum(a) and isnum(b):
        lt, eq = cmp_lt(a, b), cmp_eq(a, b)
        return mkord(ite(lt, C(0), ite(eq, C(1), C(2))))
    if same(a, b):
        return mkord(C(1))
    return mkord(enumvar(("cmp", a, b), 3))


def equal(a, b):
    if same(a, b):
        return True
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, V) and isinstance(b, V) and a.tag == b.tag:
        if a.tag == "struct" and len(a.parts[1]) == len(b.parts[1]):
            return g_all([equal(x, y) for x, y in zip(a.parts[1], b.parts[1])])
        if a.tag == "lit" and len(a.parts[0]) == len(b.parts[0]):
            return g_all([equal(x, y) for x, y in zip(a.parts[0], b.parts[0])])
        if a.tag == "enum":
            r = cmp_eq(a.parts[1], b.parts[1])
            db = dict(b.parts[2])
            for k, fs in a.parts[2]:
                fb = db.get(k)
                if fs and fb:
                    both = g_and(vis(a, k), vis(b, k))
                    e = g_all([equal(x, y) for x, y in zip(fs, fb)])
                    r = g_and(r, g_or(g_not(both), e))
            return r
    if isboolish(a) and isboolish(b):
        return g_or(g_and(a, b), g_and(g_not(a), g_not(b)))
    return cmp_eq(a, b)


def default_tol(t):
    return is_tag(t, "struct") and all(
        isinstance(p, Rat) and len(p.atoms()) == 1 and sys_atoms[list(p.atoms())[0]].key[0] == "const" for p in t.parts[1])


def near(kind, a, b, tol):
    """approximate equality: true when equal, otherwise an opaque symmetric relation"""
    def f(x, y):
        if not isinstance(x, Rat) or not isinstance(y, Rat):
            return generic_eq(x, y)
        if x == y:
            return True
        if default_tol(tol) and x.const() is not None and y.const() is not None and (
                abs(x.const() - y.const()) * 1000 >= max(abs(x.const()), abs(y.const()), 1)):
            return False        # constants that no rounding confuses
        for p, q in ((x, y), (y, x)):
            if not q.num:
                from alg import normal_sign
                s, n = normal_sign(p.num)
                key = ("near", kind, Rat(n, p.den), ZERO, tol)
                break
        else:
            p, q = sorted((x, y), key=lambda r: repr(r.key))
            key = ("near", kind, p, q, tol)
        return g_or(cmp_eq(x, y), boolvar(key))
    if isinstance(a, V) and isinstance(b, V) and a.tag == "struct":
        return g_all([near(kind, x, y, tol) for x, y in zip(a.parts[1], b.parts[1])])
    return lift2(f, a, b)
