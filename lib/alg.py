"""Exact algebra: polynomials / rational functions over interned atoms.

An atom is an interned structural key (tuple); atoms are compared by identity of the key.
Numbers are treated as real numbers (floating point rounding is outside this domain)."""
from fractions import Fraction
import sympy
from sympy import Poly as SPoly, Symbol, factor_list, gcd as sgcd, Rational

sys_atoms = []            # id -> Atom
_atom_ids = {}            # key -> id


class Atom:
    __slots__ = ("id", "key", "sort", "nonneg", "sq")

    def __init__(self, id, key, sort, nonneg, sq):
        self.id, self.key, self.sort, self.nonneg, self.sq = id, key, sort, nonneg, sq


def atom(key, sort="real", nonneg=False, sq=None):
    """intern an atom; sq: Rat whose value is the square of this atom (for sqrt atoms)"""
    i = _atom_ids.get(key)
    if i is None:
        i = len(sys_atoms)
        _atom_ids[key] = i
        sys_atoms.append(Atom(i, key, sort, nonneg, sq))
    return i


def pclean(d):
    return {m: c for m, c in d.items() if c != 0}


def _monomul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


class Rat:
    """num/den, both polynomials {mono: Fraction}; canonical."""
    __slots__ = ("num", "den", "key", "_h")

    def __init__(self, num, den=None, raw=False):
        num = pclean(num)
        if den is None:
            den = {(): Fraction(1)}
        if not raw:
            num, den = _canon(num, den)
        self.num, self.den = num, den
        self.key = (tuple(sorted(num.items())), tuple(sorted(den.items())))
        self._h = hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Rat) and (self is o or (self._h == o._h and self.key == o.key))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def is_const(self):
        return (not self.num or (len(self.num) == 1 and () in self.num)) and len(self.den) == 1 and () in self.den

    def const(self):
        return self.num.get((), Fraction(0)) / self.den[()] if self.is_const() else None

    def is_poly(self):
        return len(self.den) == 1 and () in self.den

    def atoms(self):
        s = set()
        for p in (self.num, self.den):
            for m in p:
                for v, _ in m:
                    s.add(v)
        return s

    def is_int(self):
        if not self.is_poly():
            return False
        return all(c.denominator == 1 for c in self.num.values()) and all(
            sys_atoms[v].sort == "int" for v in self.atoms())

    def __add__(self, o):
        if self.den == o.den:
            d = dict(self.num)
            for m, c in o.num.items():
                d[m] = d.get(m, 0) + c
            return Rat(d, self.den)
        return Rat(padd(pmul(self.num, o.den), pmul(o.num, self.den)), pmul(self.den, o.den))

    def __neg__(self):
        return Rat({m: -c for m, c in self.num.items()}, self.den, raw=True)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.is_poly() and o.is_poly():
            r = _pmulr(self.num, o.num)
            if isinstance(r, Rat):
                return r
            return Rat(r)
        n = _pmulr(self.num, o.num)
        d = _pmulr(self.den, o.den)
        if isinstance(n, Rat) or isinstance(d, Rat):
            n = n if isinstance(n, Rat) else Rat(n)
            d = d if isinstance(d, Rat) else Rat(d)
            return n / d
        return Rat(n, d)

    def __truediv__(self, o):
        if not o.num:
            raise ZeroDivisionError
        n = _pmulr(self.num, o.den)
        d = _pmulr(self.den, o.num)
        if isinstance(n, Rat) or isinstance(d, Rat):
            n = n if isinstance(n, Rat) else Rat(n)
            d = d if isinstance(d, Rat) else Rat(d)
            return Rat(padd(pmul(n.num, d.den), {}), pmul(n.den, d.num))
        return Rat(n, d)

    def __repr__(self):
        n = pstr(self.num)
        if self.is_poly():
            return n
        return "(%s)/(%s)" % (n, pstr(self.den))


def padd(a, b):
    d = dict(a)
    for m, c in b.items():
        d[m] = d.get(m, 0) + c
    return pclean(d)


def pmul(a, b):
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _monomul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return pclean(d)


def _pmulr(a, b):
    """product with reduction of squared sqrt atoms"""
    d = pmul(a, b)
    red = None
    for m in d:
        for v, e in m:
            if e >= 2 and sys_atoms[v].sq is not None:
                red = v
                break
        if red is not None:
            break
    if red is None:
        return d
    acc = Rat({})
    rest = {}
    for m, c in d.items():
        hit = [(v, e) for v, e in m if e >= 2 and sys_atoms[v].sq is not None]
        if not hit:
            rest[m] = c
            continue
        base = []
        t = Rat({(): c})
        for v, e in m:
            sq = sys_atoms[v].sq
            if sq is not None and e >= 2:
                for _ in range(e // 2):
                    t = t * sq
                if e % 2:
                    base.append((v, 1))
            else:
                base.append((v, e))
        t = t * Rat({tuple(base): Fraction(1)})
        acc = acc + t
    return acc + Rat(rest)


def _sym(v):
    return Symbol("a%d" % v)


def to_sympy(p):
    vs = sorted({v for m in p for v, _ in m})
    gens = [_sym(v) for v in vs]
    idx = {v: i for i, v in enumerate(vs)}
    if not gens:
        return None, vs
    d = {}
    for m, c in p.items():
        t = [0] * len(vs)
        for v, e in m:
            t[idx[v]] = e
        d[tuple(t)] = Rational(c.numerator, c.denominator)
    return SPoly.from_dict(d, *gens), vs


def from_sympy(sp):
    gens = [int(str(g)[1:]) for g in sp.gens]
    d = {}
    for t, c in sp.terms():
        m = tuple(sorted((gens[i], e) for i, e in enumerate(t) if e))
        c = Rational(c)
        d[m] = Fraction(int(c.p), int(c.q))
    return pclean(d)


def _lead(p):
    return p[max(p)]


def _canon(num, den):
    if not den:
        raise ZeroDivisionError
    if len(den) == 1 and () in den:
        c = den[()]
        if c != 1:
            num = {m: x / c for m, x in num.items()}
        return num, {(): Fraction(1)}
    if not num:
        return {}, {(): Fraction(1)}
    # equal up to a constant?
    k = _ccanon_key(num, den)
    r = _ccache.get(k)
    if r is not None:
        return r
    if len(num) == 1 and () in num:
        n2, d2 = num, den
    else:
        n2, d2 = cofactors(num, den)
    lc = _lead(d2)
    n2 = {m: c / lc for m, c in n2.items()}
    d2 = {m: c / lc for m, c in d2.items()}
    _ccache[k] = (n2, d2)
    return n2, d2


_ccache = {}
_rings = {}


def cofactors(num, den):
    """both polynomials divided by their greatest common divisor"""
    from sympy.polys.rings import ring
    from sympy import ZZ
    from math import lcm
    vs = sorted({v for p in (num, den) for m in p for v, _ in m})
    key = len(vs)
    R = _rings.get(key)
    if R is None:
        R = _rings[key] = ring(["x%d" % i for i in range(key)], ZZ)[0]
    idx = {v: i for i, v in enumerate(vs)}

    def up(p):
        k = lcm(*(c.denominator for c in p.values()))
        e = R.zero
        for m, c in p.items():
            t = [0] * key
            for v, x in m:
                t[idx[v]] = x
            e[tuple(t)] = ZZ(c.numerator * (k // c.denominator))
        return e, k

    def down(e, k):
        return {tuple((vs[i], x) for i, x in enumerate(t) if x): Fraction(int(c), k) for t, c in e.terms()}
    a, ka = up(num)
    b, kb = up(den)
    _, ca, cb = a.cofactors(b)
    return down(ca, ka), down(cb, kb)


def _ccanon_key(n, d):
    return (tuple(sorted(n.items())), tuple(sorted(d.items())))


def pstr(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        s = "*".join((aname(v) + ("^%d" % e if e > 1 else "")) for v, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


def kname(k):
    if isinstance(k, tuple):
        if not k:
            return "()"
        if k[0] == "sym":
            return ".".join(kname(x) for x in k[1:])
        return "%s(%s)" % (kname(k[0]), ", ".join(kname(x) for x in k[1:]))
    return str(k)


def aname(v):
    return kname(sys_atoms[v].key)


_cc = {}


def C(x):
    r = _cc.get(x)
    if r is None:
        r = _cc[x] = Rat({(): Fraction(x)}) if x != 0 else Rat({})
    return r


def A(i):
    return Rat({((i, 1),): Fraction(1)})


ZERO, ONE = C(0), C(1)

_fcache = {}


def factors(p):
    """p: polynomial dict.  Returns (sign of constant, [(factor poly dict, multiplicity)]).
    Every factor is primitive with positive leading coefficient."""
    k = tuple(sorted(p.items()))
    r = _fcache.get(k)
    if r is not None:
        return r
    if not p:
        r = (0, [])
    elif len(p) == 1 and () in p:
        r = (1 if p[()] > 0 else -1, [])
    else:
        # monomial content
        deg = max(sum(e for _, e in m) for m in p)
        if deg == 1:
            s, q = normal_sign(p)
            r = (s, [(q, 1)])
        else:
            sp, vs = to_sympy(p)
            c, fl = factor_list(sp)
            s = 1 if c > 0 else -1
            out = []
            for f, e in fl:
                q = from_sympy(f)
                t, q = normal_sign(q)
                if t < 0 and e % 2:
                    s = -s
                out.append((q, e))
            r = (s, out)
    _fcache[k] = r
    return r


def normal_sign(p):
    """scale p to be primitive with positive leading coefficient; return (sign, poly)"""
    from math import gcd
    den = 1
    for c in p.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = gcd(g, int(c * den))
    sc = Fraction(den, g or 1)
    s = 1
    # leading: largest non-constant monomial
    nz = [m for m in p if m != ()]
    lead = max(nz) if nz else ()
    if p[lead] < 0:
        s, sc = -1, -sc
    return s, {m: c * sc for m, c in p.items()}
